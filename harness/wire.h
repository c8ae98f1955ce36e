// A protobuf encoder and decoder for the dictionary message, written by hand
// from the schema's wire format; it shares no code with the library or with
// libprotobuf.
#pragma once
#include "common.h"

namespace wire {
inline void varint(std::string &o, uint64_t v) { while (v >= 0x80) { o += (char)(v | 0x80); v >>= 7; } o += (char)v; }
inline void tag(std::string &o, unsigned field, unsigned type) { varint(o, field << 3 | type); }
inline void bytes(std::string &o, unsigned field, const std::string &b) { tag(o, field, 2); varint(o, b.size()); o += b; }

struct Edge { uint64_t source; uint32_t label; uint64_t target; };
struct Dict {
  std::vector<uint64_t> nodes, finals;
  std::vector<Edge> edges;
  uint64_t root = 0, size = 0;
};

// Makes the trie (or, shared, the minimal graph) of the terms. Ids are `id(k)`.
inline Dict make(const TermSet &t, const std::function<uint64_t(std::size_t)> &id, bool minimal, bool sign_extend = true) {
  Dict d;
  std::map<std::pair<bool, std::map<char, std::size_t>>, std::size_t> classes;
  std::size_t count = 0;
  std::vector<std::string> v(t.begin(), t.end());
  std::function<std::size_t(std::size_t, std::size_t, std::size_t)> go = [&](std::size_t lo, std::size_t hi, std::size_t depth) -> std::size_t {
    bool fin = false;
    std::map<char, std::size_t> kids;
    while (lo < hi && v[lo].size() == depth) { fin = true; ++lo; }
    while (lo < hi) {
      std::size_t e = lo;
      while (e < hi && v[e][depth] == v[lo][depth]) ++e;
      kids[v[lo][depth]] = go(lo, e, depth + 1);
      lo = e;
    }
    if (minimal) { auto f = classes.find({fin, kids}); if (f != classes.end()) return f->second; }
    std::size_t k = count++;
    if (minimal) classes[{fin, kids}] = k;
    d.nodes.push_back(id(k));
    if (fin) d.finals.push_back(id(k));
    for (auto &[c, x] : kids) d.edges.push_back({id(k), sign_extend ? (uint32_t)(int32_t)(signed char)c : (uint32_t)(unsigned char)c, id(x)});
    return k;
  };
  d.root = id(go(0, v.size(), 0));
  d.size = t.size();
  return d;
}

struct Style { bool packed = true, shuffle = false, unknown = false, defaults = false, split = false, padded = false, repeats = false, empties = false; };
inline std::string encode(const Dict &d, Rng &rng, const Style &st = {}) {
  std::vector<std::string> parts;
  // a varint may be longer than it has to be
  auto varint = [&](std::string &o, uint64_t x) {
    std::string v;
    wire::varint(v, x);
    if (st.padded && rng.chance(30)) { std::size_t n = rng.range(v.size(), 10); if (n > v.size()) { v.back() = (char)(v.back() | 0x80); while (v.size() + 1 < n) v += (char)0x80; v += (char)0; } }
    o += v;
  };
  auto unknown = [&](unsigned f) {
    std::string o;
    switch (rng.below(4)) {
    case 0: bytes(o, f, "future"); break;
    case 1: tag(o, f, 0); varint(o, rng.next()); break;
    case 2: tag(o, f, 5); o += std::string("\0\xff\x01\x08", 4); break;
    default: tag(o, f, 1); o += std::string("\x18\x02\0\xff\x01\x08zz", 8);
    }
    return o;
  };
  auto repeated = [&](unsigned f, const std::vector<uint64_t> &v) {
    if (st.empties && rng.chance(50)) { std::string o; bytes(o, f, ""); parts.push_back(o); }
    if (v.empty()) return;
    if (st.packed) {
      std::size_t cut = st.split ? rng.below(v.size() + 1) : v.size();
      std::string b;
      for (std::size_t i = 0; i < cut; ++i) varint(b, v[i]);
      std::string o; if (cut) bytes(o, f, b);
      b.clear();
      for (std::size_t i = cut; i < v.size(); ++i) varint(b, v[i]);
      if (cut < v.size()) bytes(o, f, b);
      parts.push_back(o);
    } else for (uint64_t x : v) { std::string o; tag(o, f, 0); varint(o, x); parts.push_back(o); }
  };
  repeated(1, d.nodes);
  repeated(2, d.finals);
  for (auto &e : d.edges) {
    std::vector<std::string> fs;
    // of a field given twice the last one counts
    auto put = [&](unsigned f, uint64_t x) {
      std::string o;
      bool again = st.repeats && rng.chance(30);
      if (again) { tag(o, f, 0); varint(o, x ^ rng.below(300)); }
      if (x != 0 || st.defaults || again) { tag(o, f, 0); varint(o, x); fs.push_back(o); }
    };
    put(1, e.source);
    put(2, e.label);
    put(3, e.target);
    if (st.unknown && rng.chance(20)) fs.push_back(unknown((unsigned)rng.range(4, 40)));
    if (st.shuffle) for (std::size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[rng.below(i)]);
    std::string b;
    for (auto &x : fs) b += x;
    std::string o; bytes(o, 3, b); parts.push_back(o);
  }
  auto scalar = [&](unsigned f, uint64_t x) {
    std::string o;
    bool again = st.repeats && rng.chance(50);
    if (again) { tag(o, f, 0); varint(o, rng.chance(50) ? 0 : x ^ rng.next()); }
    if (x != 0 || st.defaults || again) { tag(o, f, 0); varint(o, x); parts.push_back(o); }
  };
  scalar(4, d.root);
  scalar(5, d.size);
  if (st.unknown) for (int k = 0; k < 3; ++k) parts.push_back(unknown((unsigned)rng.range(6, 70000)));
  if (st.shuffle) for (std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[rng.below(i)]);
  std::string r;
  for (auto &p : parts) r += p;
  return r;
}

struct Reader {
  const std::string &s; std::size_t p = 0; bool ok = true;
  uint64_t varint() {
    uint64_t v = 0;
    for (unsigned sh = 0; sh < 70; sh += 7) {
      if (p >= s.size()) { ok = false; return 0; }
      unsigned char c = (unsigned char)s[p++];
      v |= sh < 64 ? (uint64_t)(c & 0x7f) << sh : 0;
      if (!(c & 0x80)) return v;
    }
    ok = false; return 0;
  }
  std::string chunk() { uint64_t n = varint(); if (!ok || n > s.size() - p) { ok = false; return ""; } std::string r = s.substr(p, n); p += n; return r; }
  bool end() const { return p >= s.size(); }
};
// Decodes; returns "" or what is malformed.
inline std::string decode(const std::string &s, Dict &d) {
  Reader r{s};
  while (r.ok && !r.end()) {
    uint64_t t = r.varint();
    unsigned f = (unsigned)(t >> 3), ty = (unsigned)(t & 7);
    if ((f == 1 || f == 2) && ty <= 2) {
      auto &v = f == 1 ? d.nodes : d.finals;
      if (ty == 0) v.push_back(r.varint());
      else if (ty == 2) { std::string b = r.chunk(); Reader q{b}; while (q.ok && !q.end()) v.push_back(q.varint()); if (!q.ok) return "malformed packed field"; }
      else return "unexpected wire type";
    } else if (f == 3 && ty == 2) {
      std::string b = r.chunk();
      Reader q{b};
      Edge e{0, 0, 0};
      while (q.ok && !q.end()) {
        uint64_t u = q.varint();
        uint64_t x = q.varint();
        if ((u & 7) != 0) return "unexpected wire type in an edge";
        switch (u >> 3) { case 1: e.source = x; break; case 2: e.label = (uint32_t)x; break; case 3: e.target = x; break; default: return "unknown field in an edge"; }
      }
      if (!q.ok) return "malformed edge";
      d.edges.push_back(e);
    } else if (f == 4 && ty == 0) d.root = r.varint();
    else if (f == 5 && ty == 0) d.size = r.varint();
    else return "unknown field " + std::to_string(f);
  }
  return r.ok ? "" : "malformed message";
}
// The terms a decoded dictionary spells; "" in err unless it is not coherent.
inline std::string terms(const Dict &d, TermSet &out, std::size_t limit) {
  std::map<uint64_t, std::map<char, uint64_t>> next;
  std::set<uint64_t> nodes(d.nodes.begin(), d.nodes.end()), finals(d.finals.begin(), d.finals.end()), reached;
  if (nodes.size() != d.nodes.size()) return "a node is listed twice";
  if (finals.size() != d.finals.size()) return "a final node is listed twice";
  for (auto x : finals) if (!nodes.count(x)) return "a final node is not listed as a node";
  if (!nodes.count(d.root)) return "the root is not a node";
  for (auto &e : d.edges) {
    if (!nodes.count(e.source) || !nodes.count(e.target)) return "an edge has an end that is not a node";
    char c = (char)e.label;
    if (e.label != (uint32_t)(int32_t)(signed char)c && e.label != (uint32_t)(unsigned char)c) return "a label is not a byte";
    if (!next[e.source].emplace(c, e.target).second) return "two edges of a node have the same label";
  }
  std::string err;
  std::string cur;
  std::function<void(uint64_t)> go = [&](uint64_t n) {
    if (!err.empty()) return;
    if (cur.size() > d.edges.size()) { err = "the graph has a cycle"; return; }
    reached.insert(n);
    if (finals.count(n)) { out.insert(cur); if (out.size() > limit) { err = "too many terms"; return; } }
    for (auto &[c, x] : next[n]) { cur += c; go(x); cur.pop_back(); }
  };
  go(d.root);
  if (err.empty() && reached != nodes) err = "a node cannot be reached";
  if (err.empty() && d.size != out.size()) err = "the size field is " + std::to_string(d.size) + " for " + std::to_string(out.size()) + " terms";
  return err;
}
} // namespace wire
