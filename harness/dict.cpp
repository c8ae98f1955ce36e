// C07-C10, C21: monitors of dictionaries and their nodes.
#include "lib.h"
#include <memory>
#include <sstream>
#include <liblevenshtein/collection/prefix.h>
#include <liblevenshtein/serialization/serializer.h>

static Driver drv;

static std::unique_ptr<ll::Dawg> round_trip(ll::Dawg *d) {
  std::stringstream io;
  if (!ll::serialize_protobuf(d, io)) return nullptr;
  return std::unique_ptr<ll::Dawg>(ll::deserialize_protobuf(io));
}

// A larger family of term sets than random_terms: also vocabularies.
static TermSet any_terms(Rng &rng, long long huge = -1) {
  if (huge >= 0) { ++drv.counts["huge_dictionaries"]; return huge_terms(rng, (unsigned)huge); }
  if (rng.chance(8)) return vocabulary(rng, rng.range(300, 1500) * drv.scale);
  return random_terms(rng, rng.chance(20) ? 200 : 40);
}
// A few cases after the first ones are huge (fewer where a sanitizer watches).
static long long huge_kind(std::size_t idx, std::size_t first) {
#if defined(__SANITIZE_ADDRESS__)
  return -1;
#endif
  return idx >= first && idx < first + 6 ? (long long)(idx - first) : -1;
}
// Sorted sequence with duplicates.
static std::vector<std::string> with_duplicates(const TermSet &t, Rng &rng) {
  std::vector<std::string> v;
  bool many = rng.chance(30);
  for (auto &s : t) {
    v.push_back(s);
    while (rng.chance(many ? 60 : 8)) v.push_back(s);
  }
  return v;
}

// ------------------------------------------------------------ C07
// Subsets of a universe of strings, all of them (cases 0..63, a slice each).
static void subset_slice(std::size_t slice, std::size_t slices) {
  // all subsets of the 15 strings over {a,b} of length <= 3
  static const std::vector<std::string> uni = [] { auto v = all_strings("ab", 3); std::sort(v.begin(), v.end()); return v; }();
  static const std::vector<std::string> probes = all_strings("abc", 4);
  for (std::size_t m = slice; m < ((std::size_t)1 << uni.size()); m += slices) {
    std::vector<std::string> v;
    for (std::size_t b = 0; b < uni.size(); ++b) if (m >> b & 1) v.push_back(uni[b]);
    std::unique_ptr<ll::Dawg> d(ll::sorted_dawg(v.begin(), v.end()));
    ++drv.counts["exhaustive_subsets"];
    auto bad = [&](const std::string &w) { drv.violation("content", w + " for dictionary " + show_all(v)); };
    if (!d) { bad("no dictionary was built"); return; }
    if (d->size() != v.size()) { bad("size() is " + std::to_string(d->size())); return; }
    std::vector<std::string> it = iterate(d.get(), v.size() + 3);
    std::sort(it.begin(), it.end());
    if (it != v) { bad("iteration yields " + show_all(it)); return; }
    for (auto &p : probes)
      if (d->contains(p) != std::binary_search(v.begin(), v.end(), p)) { bad("contains('" + p + "') is wrong"); return; }
    drv.counts["membership_probes"] += probes.size();
    drv.counts["terms_iterated"] += it.size();
    if (v.size() > 1) drv.distinct.insert(m + 1);
  }
}

// Dictionaries that live one after the other, nearly alike and often at the same
// addresses, are asked for the same terms.
static void successors(Rng &rng) {
  std::string al = random_alphabet(rng);
  TermSet t = random_terms(rng, 30);
  std::vector<std::string> probes;
  for (auto &s : t) { probes.push_back(s); probes.push_back(edited(rng, s, al, 1)); }
  probes.push_back("");
  uintptr_t earlier = 0;
  std::size_t size = 0;
  unsigned route = (unsigned)rng.below(5);
  for (int life = 0; life < 12; ++life) {
    if (life) t = nearly(t, rng, al, probes);
    auto home = std::make_unique<Reclaim>(earlier, size);
    std::unique_ptr<ll::Dawg> d(build(t, route));
    home.reset();
    if (d && route == 4) d = round_trip(d.get());
    if (!d) { drv.violation("build", "no dictionary"); return; }
    if ((uintptr_t)d->root() == earlier) ++drv.counts["roots_at_an_earlier_address"];
    earlier = (uintptr_t)d->root(); size = sizeof(ll::DawgNode);
    std::string w;
    for (auto &p : probes) if (d->contains(p) != (t.count(p) != 0)) { w = "contains('" + show(p) + "') is wrong"; break; }
    drv.counts["membership_probes"] += probes.size();
    if (w.empty()) w = differs(d.get(), t, rng, 10, &drv);
    if (!w.empty()) { drv.violation("content", w + ", after " + std::to_string(life) + " similar dictionaries were built and destroyed; built from " + show_all(t)); return; }
    ++drv.counts["dictionaries_in_succession"];
  }
}

static void content_case(std::size_t idx, Rng &rng) {
  const std::size_t slices = 64;
  if (idx < slices) { subset_slice(idx, slices); return; }
  if (idx % 16 == 9 && idx > 200) { successors(rng); return; }
  TermSet t = any_terms(rng, huge_kind(idx, slices));
  std::vector<std::string> v = with_duplicates(t, rng);
  std::unique_ptr<ll::Dawg> d;
  switch (rng.below(3)) {
  case 0: d.reset(ll::sorted_dawg(v.begin(), v.end())); break;
  case 1: { std::list<std::string> l(v.begin(), v.end()); d.reset(ll::sorted_dawg(l.begin(), l.end())); break; }
  default: d.reset(build(t, (unsigned)rng.below(4)));
  }
  ++drv.counts["dictionaries"];
  std::string w = differs(d.get(), t, rng, 200, &drv);
  if (w.empty()) {
    // reading does not change it; a second pass sees the same, and an
    // abandoned iteration disturbs nothing
    { auto it = d->begin(); auto e = d->end(); for (int k = 0; k < 3 && it != e; ++k) ++it; }
    w = differs(d.get(), t, rng, 40, &drv);
    if (!w.empty()) w = "on second reading: " + w;
  }
  if (w.empty()) { // far longer than any term
    static const std::size_t ls[] = {250, 255, 256, 257, 32767, 65535, 65536, 65537, 131072, 1000000};
    for (int k = 0; k < 3 && w.empty(); ++k) {
      std::string s = t.empty() ? "" : *std::next(t.begin(), (long)rng.below(std::min<std::size_t>(t.size(), 100)));
      std::size_t L = ls[rng.below(10)];
      char c = s.empty() ? 'a' : s.back();
      s = rng.chance(50) ? s + std::string(L, c) : std::string(L, c) + s;
      if (!t.count(s) && d->contains(s)) w = "contains('" + show(s) + "') is true, expected the opposite";
      ++drv.counts["oversized_probes"];
    }
  }
  if (w.empty() && rng.chance(30)) {
    auto c = round_trip(d.get());
    w = differs(c.get(), t, rng, 40, &drv);
    if (!w.empty()) w = "saved and loaded: " + w;
    ++drv.counts["deserialized_dictionaries"];
  }
  if (!w.empty()) { drv.violation("content", w + "; built from " + show_all(v)); return; }
  if (v.size() != t.size()) ++drv.counts["dictionaries_from_duplicates"];
  if (t.size() > 1) {
    uint64_t h = 7; for (auto &s : t) h = hash_str(s, h);
    drv.distinct.insert(h);
    drv.sample("dictionary of " + std::to_string(t.size()) + " terms from " + std::to_string(v.size()) + " inputs: " + show_all(t, 5));
  }
}

// ------------------------------------------------------------ C08
static void order_case(std::size_t idx, Rng &rng);
static void order_sequence(std::size_t idx, Rng &rng, const TermSet &t, std::vector<std::string> seq);
// every sequence of up to five terms over a universe of prefixes, repetitions and both ends of the bytes
static const std::size_t order_slices = 48;
static void order_exhaustive(std::size_t slice, Rng &rng) {
  static const std::vector<std::string> uni = {"", std::string(1, '\0'), "a", std::string("a\0", 2), "ab", "b", "\x80"};
  std::size_t total = 0, k = 1;
  std::vector<std::size_t> starts;
  for (int l = 0; l <= 5; ++l) { starts.push_back(total); total += k; k *= uni.size(); }
  for (std::size_t i = slice; i < total && drv.violations < 3; i += order_slices) {
    std::size_t l = 0;
    while (l + 1 < starts.size() && starts[l + 1] <= i) ++l;
    std::size_t c = i - starts[l];
    std::vector<std::string> seq;
    for (std::size_t j = 0; j < l; ++j) { seq.push_back(uni[c % uni.size()]); c /= uni.size(); }
    order_sequence(i, rng, TermSet(seq.begin(), seq.end()), seq);
    ++drv.counts["exhaustive_sequences"];
  }
}
static void order_case(std::size_t idx, Rng &rng) {
  if (idx < order_slices) { order_exhaustive(idx, rng); return; }
  idx -= order_slices;
  // a sequence of additions: mostly sorted, with descents and duplicates
  TermSet t = idx % 4 == 0 ? any_terms(rng, huge_kind(idx / 4, 10)) : random_terms(rng, 15);
  std::vector<std::string> seq = with_duplicates(t, rng);
  std::size_t swaps = rng.below(4);
  if (seq.size() > 1) {
    for (std::size_t k = 0; k < swaps; ++k) {
      switch (rng.below(6)) {
      case 0: { std::size_t i = rng.below(seq.size() - 1); std::swap(seq[i], seq[i + 1]); break; }
      case 1: { std::size_t i = rng.below(seq.size()), j = rng.below(seq.size()); std::swap(seq[i], seq[j]); break; }
      case 2: seq.insert(seq.begin() + (long)rng.below(seq.size() + 1), std::string()); break;
      case 3: { std::string s = rng.pick(seq); s = s.substr(0, rng.below(s.size() + 1)); seq.insert(seq.begin() + (long)rng.below(seq.size() + 1), s); break; } // a prefix
      case 4: { std::string s = rng.pick(seq); if (!s.empty()) s.back() = (char)(s.back() ^ 0x80); seq.insert(seq.begin() + (long)rng.below(seq.size() + 1), s); break; } // signedness
      default: { std::string s = rng.pick(seq) + std::string(1, '\0'); seq.insert(seq.begin() + (long)rng.below(seq.size() + 1), s); break; }
      }
    }
  }
  if (rng.chance(5)) { // last term breaks the order
    if (!seq.empty() && seq.back() != "") seq.push_back(seq.back().substr(0, seq.back().size() - 1));
  }
  order_sequence(idx, rng, t, seq);
}
static void order_sequence(std::size_t idx, Rng &rng, const TermSet &t, std::vector<std::string> seq) {
  bool sorted = true;
  for (std::size_t i = 1; i < seq.size(); ++i) sorted &= !lex_less(seq[i], seq[i - 1]);
  ++drv.counts["sequences"];
  if (sorted) ++drv.counts["sorted_sequences"]; else ++drv.counts["unsorted_sequences"];

  // all-or-nothing construction
  {
    std::unique_ptr<ll::Dawg> d;
    if (idx % 2) d.reset(ll::sorted_dawg(seq.begin(), seq.end()));
    else { std::list<std::string> l(seq.begin(), seq.end()); d.reset(ll::sorted_dawg(l.begin(), l.end())); }
    if ((d != nullptr) != sorted) { drv.violation("order", std::string(sorted ? "sorted terms were refused: " : "unsorted terms were accepted: ") + show_all(seq, 40)); return; }
  }
  // one at a time: a refused term leaves the rest as it was
  auto d = std::make_unique<ll::SortedDawg>();
  d->init();
  TermSet expect;
  std::string prev, log;
  bool any = false;
  for (auto &s : seq) {
    bool ok = !any || !lex_less(s, prev);
    bool got = d->add(s);
    ++drv.counts["additions"];
    if (!ok) ++drv.counts["additions_out_of_order"];
    if (got != ok) { drv.violation("order", "add('" + show(s) + "') after '" + show(prev) + "' returned " + (got ? "true" : "false") + "; sequence " + show_all(seq, 40)); return; }
    if (ok) { expect.insert(s); prev = s; any = true; }
    if (rng.chance(5)) { // removal is not supported and must not have an effect
      ++drv.counts["removals"];
      if (d->remove(s)) { drv.violation("remove", "remove('" + show(s) + "') claims success while building"); return; }
    }
  }
  d->finish();
  auto late = [&](ll::Dawg *target, const char *when) -> bool { // complete: nothing changes it any more
    for (int k = 0; k < 4; ++k) {
      std::string s;
      switch (rng.below(5)) {
      case 0: s = prev + "~"; break;
      case 1: s = std::string(rng.range(1, 4), '\xff'); break;
      case 2: s = ""; break;
      case 3: s = prev; if (!s.empty() && (unsigned char)s.back() < 255) ++s.back(); break; // the next one that would be in order
      default: s = expect.empty() ? "x" : *std::next(expect.begin(), (long)rng.below(expect.size())); if (rng.chance(50)) s += "a";
      }
      bool in = expect.count(s) != 0;
      ++drv.counts["late_operations"];
      if (rng.chance(60)) {
        bool got = target->add(s);
        // a term that is already there may be reported either way; a new one is refused
        if (got && !in) { drv.violation("late-add", "add('" + show(s) + "') to a complete dictionary (" + when + ") returned true"); return false; }
      } else if (target->remove(s)) { drv.violation("remove", "remove('" + show(s) + "') claims success"); return false; }
    }
    std::string w = differs(target, expect, rng, 40, &drv);
    if (!w.empty()) { drv.violation("late-change", w + " after operations on the complete dictionary (" + when + "); additions " + show_all(seq, 40)); return false; }
    return true;
  };
  if (rng.chance(30)) { ++drv.counts["operations_after_finish"]; if (!late(d.get(), "finished")) return; if (rng.chance(20)) d->finish(); }
  d->clean_up();
  std::string w = differs(d.get(), expect, rng, 40, &drv);
  if (!w.empty()) { drv.violation("refused-term", w + "; additions " + show_all(seq, 40)); return; }
  std::unique_ptr<ll::Dawg> loaded;
  ll::Dawg *target = d.get();
  if (rng.chance(40)) { loaded = round_trip(d.get()); target = loaded.get(); ++drv.counts["deserialized_dictionaries"]; if (!target) { drv.violation("order", "round trip failed"); return; } }
  if (!late(target, loaded ? "loaded" : "cleaned up")) return;
  if (!sorted || seq.size() != t.size()) {
    uint64_t h = 3; for (auto &s : seq) h = hash_str(s, h);
    drv.distinct.insert(h);
    drv.sample("additions " + show_all(seq, 6) + " -> " + std::to_string(expect.size()) + " terms kept");
  }
}

// ------------------------------------------------------------ C09
// The reference: the minimal automaton of the term set, by hash-consing the
// trie bottom up. A class is (final, {label -> class}).
struct Minimal {
  std::map<std::pair<bool, std::map<char, std::size_t>>, std::size_t> ids;
  std::size_t root = 0;
  explicit Minimal(const TermSet &t) {
    std::vector<std::string> v(t.begin(), t.end());
    std::sort(v.begin(), v.end());
    root = make(v, 0, v.size(), 0);
  }
  std::size_t make(const std::vector<std::string> &v, std::size_t lo, std::size_t hi, std::size_t depth) {
    bool fin = false;
    std::map<char, std::size_t> kids;
    while (lo < hi && v[lo].size() == depth) { fin = true; ++lo; }
    while (lo < hi) {
      std::size_t e = lo;
      while (e < hi && v[e][depth] == v[lo][depth]) ++e;
      kids[v[lo][depth]] = make(v, lo, e, depth + 1);
      lo = e;
    }
    return ids.emplace(std::make_pair(fin, kids), ids.size()).first->second;
  }
};
// Explores the live graph. Returns "" or what is wrong.
static std::string graph_differs(const ll::Dawg *d, const TermSet &t, bool minimal) {
  Minimal ref(t);
  std::map<const ll::DawgNode *, std::size_t> cls;   // right language of a node
  std::map<const ll::DawgNode *, int> state;         // 1 open, 2 done
  std::string err;
  std::size_t edges = 0;
  std::function<std::size_t(const ll::DawgNode *)> visit = [&](const ll::DawgNode *n) -> std::size_t {
    if (!err.empty()) return 0;
    if (n == nullptr) { err = "an edge leads nowhere"; return 0; }
    int &s = state[n];
    if (s == 1) { err = "the graph has a cycle"; return 0; }
    if (s == 2) return cls[n];
    s = 1;
    std::map<char, std::size_t> kids;
    std::map<char, const ll::DawgNode *> out;
    n->for_each_edge([&](char l, ll::DawgNode *x) { if (!out.emplace(l, x).second) err = "two edges with one label"; });
    for (int c = 0; c < 256; ++c) {
      const ll::DawgNode *x = n->transition((char)c);
      auto f = out.find((char)c);
      if ((f == out.end() ? nullptr : f->second) != x) err = "for_each_edge and transition disagree";
    }
    for (auto &[l, x] : out) { ++edges; kids[l] = visit(x); if (!err.empty()) return 0; }
    bool dead = !n->is_final() && kids.empty();
    if (dead && n != d->root()) { err = "a node is reachable from which no term ends"; return 0; }
    auto it = ref.ids.find({n->is_final(), kids});
    if (it == ref.ids.end()) { err = "a node accepts a set of endings that no prefix of the terms has"; return 0; }
    state[n] = 2;
    return cls[n] = it->second;
  };
  std::size_t r = visit(d->root());
  if (!err.empty()) return err;
  if (r != ref.root) return "the graph spells another set of terms";
  drv.counts["nodes_visited"] += cls.size();
  drv.counts["max_nodes"] = std::max(drv.counts["max_nodes"], cls.size());
  drv.counts["edges_visited"] += edges;
  if (minimal && cls.size() != ref.ids.size())
    return "the graph has " + std::to_string(cls.size()) + " nodes, the minimal one has " + std::to_string(ref.ids.size());
  return "";
}
static void graph_case(std::size_t idx, Rng &rng) {
  const std::size_t slices = 64;
  auto check = [&](const TermSet &t, ll::Dawg *d, const std::string &how) -> bool {
    ++drv.counts["graphs"];
    std::string w = d ? graph_differs(d, t, true) : "no dictionary";
    if (!w.empty()) { drv.violation("graph", w + " (" + how + ") for " + show_all(t, 40)); return false; }
    return true;
  };
  if (idx < slices) { // all subsets of 13 strings over {a,b}, sharing in every form
    static const std::vector<std::string> uni = {"", "a", "aa", "aaa", "aab", "ab", "abb", "b", "ba", "baa", "bab", "bb", "bba"};
    for (std::size_t m = idx; m < ((std::size_t)1 << uni.size()); m += slices) {
      TermSet t;
      for (std::size_t b = 0; b < uni.size(); ++b) if (m >> b & 1) t.insert(uni[b]);
      std::unique_ptr<ll::Dawg> d(build(t, (unsigned)(m % 4)));
      if (!check(t, d.get(), "exhaustive")) return;
      ++drv.counts["exhaustive_subsets"];
      if (t.size() > 2) drv.distinct.insert(m);
    }
    return;
  }
  TermSet t = any_terms(rng, huge_kind(idx, slices));
  std::vector<std::string> v = with_duplicates(t, rng);
  std::unique_ptr<ll::Dawg> d;
  if (rng.chance(40)) d.reset(build(t, (unsigned)rng.below(4)));
  else if (rng.chance(50)) d.reset(ll::sorted_dawg(v.begin(), v.end()));
  else { // with refused terms in between
    auto *s = new ll::SortedDawg(); s->init();
    for (auto &x : v) { s->add(x); if (rng.chance(10) && !x.empty()) s->add(x.substr(0, x.size() - 1)); }
    s->finish(); s->clean_up(); d.reset(s);
    ++drv.counts["built_with_refused_terms"];
  }
  if (!check(t, d.get(), "built")) return;
  if (rng.chance(35)) { auto c = round_trip(d.get()); if (!check(t, c.get(), "saved and loaded")) return; }
  if (t.size() > 2) {
    uint64_t h = 7; for (auto &s : t) h = hash_str(s, h);
    drv.distinct.insert(h);
    drv.sample("graph of " + std::to_string(t.size()) + " terms " + show_all(t, 5));
  }
}

// ------------------------------------------------------------ C10
// One dictionary is compared with others that live one after the other.
static void equality_of_successors(Rng &rng) {
  std::string al = random_alphabet(rng);
  TermSet base = random_terms(rng, 25), t = base;
  std::unique_ptr<ll::Dawg> a(build(base, 0));
  if (!a) { drv.violation("build", "no dictionary"); return; }
  const std::size_t h = std::hash<ll::Dawg>()(*a), hn = std::hash<ll::DawgNode>()(*a->root());
  uintptr_t earlier = 0;
  std::size_t size = 0;
  unsigned route = (unsigned)rng.below(5);
  for (int life = 0; life < 14; ++life) {
    t = rng.chance(50) ? base : nearly(rng.chance(50) ? base : t, rng, al, {});
    bool same = t == base;
    auto home = std::make_unique<Reclaim>(earlier, size);
    std::unique_ptr<ll::Dawg> b(build(t, route));
    home.reset();
    if (b && route == 4) b = round_trip(b.get());
    if (!b) { drv.violation("build", "no dictionary"); return; }
    if ((uintptr_t)b->root() == earlier) ++drv.counts["roots_at_an_earlier_address"];
    earlier = (uintptr_t)b->root(); size = sizeof(ll::DawgNode);
    ++drv.counts[same ? "equal_pairs" : "unequal_pairs"];
    auto ctx = [&] { return show_all(base) + " and " + show_all(t) + ", after " + std::to_string(life) + " similar dictionaries were compared and destroyed"; };
    if ((*a == *b) != same || (*b == *a) != same || (*a != *b) == same) { drv.violation("equality", "== or != is wrong for " + ctx()); return; }
    if ((*a->root() == *b->root()) != same || (*b->root() == *a->root()) != same) { drv.violation("node-equality", "root nodes compare wrongly for " + ctx()); return; }
    if (same && std::hash<ll::Dawg>()(*b) != h) { drv.violation("hash", "different hashes of equal dictionaries " + ctx()); return; }
    if (same && std::hash<ll::DawgNode>()(*b->root()) != hn) { drv.violation("node-hash", "different hashes of equal nodes " + ctx()); return; }
    if (!same) { std::hash<ll::Dawg>()(*b); std::hash<ll::DawgNode>()(*b->root()); }
    ++drv.counts["dictionaries_in_succession"];
  }
}

static void equality_case(std::size_t idx, Rng &rng) {
  if (idx % 4 == 3 && idx > 60) { equality_of_successors(rng); return; }
  // several term sets close to each other, each built by several routes
  TermSet base = idx % 5 == 0 ? any_terms(rng, huge_kind(idx / 5, 4)) : random_terms(rng, 20);
  std::vector<TermSet> sets{base};
  std::string al = random_alphabet(rng);
  const bool huge = base.size() > 30000;
  for (int k = 0; k < (huge ? 1 : 4); ++k) {
    TermSet s = sets[rng.below(sets.size())];
    switch (rng.below(6)) {
    case 0: if (!s.empty()) s.erase(std::next(s.begin(), (long)rng.below(s.size()))); break;
    case 1: s.insert(random_string(rng, al, 0, 8)); break;
    case 2: if (!s.empty()) { auto it = std::next(s.begin(), (long)rng.below(s.size())); std::string x = *it; s.erase(it); s.insert(edited(rng, x, al, 1)); } break;
    case 3: if (!s.empty()) { auto it = std::next(s.begin(), (long)rng.below(s.size())); std::string x = *it; s.erase(it); if (!x.empty()) x.pop_back(); s.insert(x); } break;
    case 4: if (s.count("")) s.erase(""); else s.insert(""); break;
    default: if (!s.empty()) { std::string x = *s.rbegin(); s.erase(x); if (!x.empty()) x[rng.below(x.size())] ^= (char)0x80; s.insert(x); }
    }
    sets.push_back(s);
  }
  struct D { std::unique_ptr<ll::Dawg> d; std::size_t set; std::string how; std::size_t h; };
  std::vector<D> ds;
  for (std::size_t i = 0; i < sets.size(); ++i)
    for (unsigned r = huge ? 1 : 0; r < 3; ++r) {
      D x; x.set = i;
      if (r == 2) {
        std::unique_ptr<ll::Dawg> y(build(sets[i], (unsigned)rng.below(4)));
        x.d = y ? round_trip(y.get()) : nullptr; x.how = "loaded";
      } else if (rng.chance(30)) {
        std::vector<std::string> v = with_duplicates(sets[i], rng);
        x.d.reset(ll::sorted_dawg(v.begin(), v.end())); x.how = "with duplicates";
      } else { unsigned k = (unsigned)rng.below(4); x.d.reset(build(sets[i], k)); x.how = "route " + std::to_string(k); }
      if (!x.d) { drv.violation("build", "no dictionary"); return; }
      x.h = std::hash<ll::Dawg>()(*x.d);
      ds.push_back(std::move(x));
    }
  std::hash<ll::DawgNode> nh;
  for (auto &a : ds) for (auto &b : ds) {
    bool same = sets[a.set] == sets[b.set];
    bool eq = *a.d == *b.d;
    bool neq = *a.d != *b.d;
    ++drv.counts[same ? "equal_pairs" : "unequal_pairs"];
    auto ctx = [&] { return show_all(sets[a.set]) + " (" + a.how + ") and " + show_all(sets[b.set]) + " (" + b.how + ")"; };
    if (eq != same || neq == same) { drv.violation("equality", "== says " + std::string(eq ? "equal" : "different") + " for " + ctx()); return; }
    if (same && a.h != b.h) { drv.violation("hash", "different hashes of equal dictionaries " + ctx()); return; }
    bool neq_nodes = *a.d->root() == *b.d->root();
    if (neq_nodes != same) { drv.violation("node-equality", "root nodes compare " + std::string(neq_nodes ? "equal" : "different") + " for " + ctx()); return; }
    if (same && nh(*a.d->root()) != nh(*b.d->root())) { drv.violation("node-hash", "different hashes of equal nodes " + ctx()); return; }
    if (std::hash<ll::Dawg>()(*a.d) != a.h) { drv.violation("hash", "the hash of an unchanged dictionary changed"); return; }
    if (!same) {
      uint64_t h = 1; for (auto &s : sets[a.set]) h = hash_str(s, h);
      for (auto &s : sets[b.set]) h = hash_str(s, h * 3);
      drv.distinct.insert(h);
    }
  }
  // sub-nodes: equal exactly when they accept the same endings
  {
    std::map<const ll::DawgNode *, std::set<std::string>> lang;
    std::function<const std::set<std::string> &(const ll::DawgNode *)> go = [&](const ll::DawgNode *n) -> const std::set<std::string> & {
      auto f = lang.find(n);
      if (f != lang.end()) return f->second;
      std::set<std::string> r;
      if (n->is_final()) r.insert("");
      n->for_each_edge([&](char l, ll::DawgNode *x) { for (auto &s : go(x)) r.insert(std::string(1, l) + s); });
      return lang[n] = r;
    };
    if (base.size() <= 60) {
      go(ds[0].d->root()); go(ds.back().d->root());
      std::vector<const ll::DawgNode *> ns;
      for (auto &[n, l] : lang) ns.push_back(n);
      for (int k = 0; k < 60; ++k) {
        auto *a = ns[rng.below(ns.size())], *b = ns[rng.below(ns.size())];
        bool same = lang[a] == lang[b];
        ++drv.counts["node_pairs"];
        if ((*a == *b) != same) { drv.violation("node-equality", "nodes accepting " + show_all(lang[a]) + " and " + show_all(lang[b]) + " compare wrongly"); return; }
        if (same && nh(*a) != nh(*b)) { drv.violation("node-hash", "equal nodes hash differently: " + show_all(lang[a])); return; }
      }
    }
  }
  drv.sample("sets " + show_all(sets[0], 4) + " vs " + show_all(sets[1], 4));
}

// ------------------------------------------------------------ C21
// A node against a plain map. Targets carry their own identity; replaced
// targets belong to the node (they are freed by it), so they are not kept.
static void node_case(std::size_t idx, Rng &rng) {
  std::map<char, ll::DawgNode *> init, model;
  bool fin = rng.chance(50);
  bool with_ctor = rng.chance(40);
  if (with_ctor) for (std::size_t k = rng.below(6); k--;) { char c = (char)rng.below(256); if (!init.count(c)) init[c] = new ll::DawgNode(rng.chance(50)); }
  std::map<char, ll::DawgNode *> arg = init;
  ll::DawgNode *n = with_ctor ? new ll::DawgNode(arg, fin) : new ll::DawgNode(fin);
  arg.clear(); // the node keeps its own edges
  model = init;
  ll::DawgNode twin(fin);                      // a second node, built differently, with equal targets
  std::map<char, bool> fins;
  for (auto &[c, x] : model) fins[c] = x->is_final();
  std::set<ll::DawgNode *> shared;
  std::string hist;
  auto check = [&]() -> bool {
    ++drv.counts["states_compared"];
    std::map<char, ll::DawgNode *> seen;
    std::size_t visits = 0;
    n->for_each_edge([&](char c, ll::DawgNode *x) { seen[c] = x; ++visits; });
    if (seen != model || visits != model.size()) { drv.violation("edges", "for_each_edge yields " + std::to_string(visits) + " edges, expected " + std::to_string(model.size()) + "; history " + hist); return false; }
    for (int c = 0; c < 256; ++c) {
      auto f = model.find((char)c);
      if (n->transition((char)c) != (f == model.end() ? nullptr : f->second)) { drv.violation("transition", "transition(" + std::to_string(c) + ") is wrong; history " + hist); return false; }
    }
    if (n->is_final() != fin) { drv.violation("final", "is_final() is wrong; history " + hist); return false; }
    for (auto &[c, x] : model) { // the targets are untouched, and alive
      std::size_t k = 0; x->for_each_edge([&](char, ll::DawgNode *) { ++k; });
      if (x->is_final() != fins[c] || k) { drv.violation("target", "a target of the node has changed; history " + hist); return false; }
    }
    return true;
  };
  if (!check()) return;
  for (int op = 0; op < 30; ++op) {
    switch (rng.below(7)) {
    case 5: if (!model.empty()) { // the same edge again
      auto e = *std::next(model.begin(), (long)rng.below(model.size()));
      if (n->add_edge(e.first, e.second) != n) { drv.violation("add_edge", "add_edge does not return the node"); return; }
      hist += "s"; ++drv.counts["edges_repeated"];
    } break;
    case 6: if (!model.empty()) { // one more label for the same target; such targets are not replaced
      auto e = *std::next(model.begin(), (long)rng.below(model.size()));
      char c = (char)rng.below(256);
      if (model.count(c)) break;
      if (n->add_edge(c, e.second) != n) { drv.violation("add_edge", "add_edge does not return the node"); return; }
      model[c] = e.second; fins[c] = fins[e.first]; shared.insert(e.second); hist += "t"; ++drv.counts["targets_shared"];
    } break;
    case 0: fin = rng.chance(50); n->is_final(fin); hist += "f"; break;
    case 1: if (!model.empty()) { // replace a target
      char c = std::next(model.begin(), (long)rng.below(model.size()))->first;
      if (shared.count(model[c])) break;
      bool f = rng.chance(50);
      auto *x = new ll::DawgNode(f);
      if (n->add_edge(c, x) != n) { drv.violation("add_edge", "add_edge does not return the node"); return; }
      model[c] = x; fins[c] = f; hist += "r"; ++drv.counts["edges_replaced"];
      break;
    }
    [[fallthrough]];
    default: {
      char c = (char)rng.below(256);
      if (model.count(c) && shared.count(model[c])) break;
      bool f = rng.chance(50);
      auto *x = new ll::DawgNode(f);
      if (n->add_edge(c, x) != n) { drv.violation("add_edge", "add_edge does not return the node"); return; }
      model[c] = x; fins[c] = f; hist += "a"; ++drv.counts["edges_added"];
    }
    }
    if (!check()) return;
  }
  // an equal node built in another order compares equal and hashes the same;
  // every single difference is seen
  twin.is_final(fin);
  std::vector<char> labels;
  for (auto &[c, f] : fins) labels.push_back(c);
  for (std::size_t i = labels.size(); i > 1; --i) std::swap(labels[i - 1], labels[rng.below(i)]);
  for (char c : labels) twin.add_edge(c, new ll::DawgNode(fins[c]));
  std::hash<ll::DawgNode> h;
  auto eq = [&](bool want, const std::string &what) {
    ++drv.counts["equality_verdicts"];
    if ((*n == twin) != want || (twin == *n) != want || (*n != twin) == want) drv.violation("equality", what + ": == is wrong; history " + hist);
    if (want && h(*n) != h(twin)) drv.violation("hash", what + ": hashes of equal nodes differ; history " + hist);
  };
  eq(true, "same edges");
  twin.is_final(!fin); eq(false, "finality differs"); twin.is_final(fin); eq(true, "finality restored");
  if (!labels.empty()) {
    char c = labels[0];
    twin.transition(c)->is_final(!fins[c]); eq(false, "a target differs"); twin.transition(c)->is_final(fins[c]); eq(true, "target restored");
    twin.transition(c)->add_edge('x', new ll::DawgNode(true)); eq(false, "a target has one more edge");
  } 
  { // one more edge on one side
    char c = 0; int k = 0;
    for (; k < 256 && model.count((char)k); ++k) {}
    if (k < 256) {
      c = (char)k;
      auto *one = new ll::DawgNode(false); // extra edge
      ll::DawgNode third(fin);
      for (char l : labels) third.add_edge(l, new ll::DawgNode(fins[l]));
      ++drv.counts["equality_verdicts"];
      if (!(third == *n)) drv.violation("equality", "third copy differs; history " + hist);
      third.add_edge(c, one);
      if (third == *n || *n == third) drv.violation("equality", "an extra edge is not seen; history " + hist);
      // the same number of edges, another label
      if (!labels.empty()) {
        ll::DawgNode fourth(fin);
        for (std::size_t i = 1; i < labels.size(); ++i) fourth.add_edge(labels[i], new ll::DawgNode(fins[labels[i]]));
        fourth.add_edge(c, new ll::DawgNode(fins[labels[0]]));
        if (fourth == *n || *n == fourth) drv.violation("equality", "another label is not seen; history " + hist);
        fourth.for_each_edge([](char, ll::DawgNode *x) { delete x; });
      }
      third.for_each_edge([](char, ll::DawgNode *x) { delete x; });
    }
  }
  // prefixes spell the labels on their path, with any bytes
  {
    std::vector<std::unique_ptr<ll::Prefix>> chain;
    chain.push_back(std::make_unique<ll::Prefix>(n));
    std::string s = random_string(rng, std::string("a\0\x80\xff\nz ", 7), 0, 20);
    if (idx % 500 == 3) { s = random_string(rng, std::string("a\0\x80\xff\nz ", 7), 4000, 6000); ++drv.counts["long_paths_spelled"]; }
    for (char c : s) chain.push_back(std::make_unique<ll::Prefix>(n, chain.back().get(), c));
    ++drv.counts["prefixes_spelled"];
    ll::Prefix copy(*chain.back());
    ll::Prefix moved(std::move(copy));
    if (chain.back()->str() != s || moved.str() != s || moved.node() != n) drv.violation("prefix", "a prefix spells '" + show(chain.back()->str()) + "', expected '" + show(s) + "'");
    if (!s.empty() && moved.label() != s.back()) drv.violation("prefix", "label() is wrong");
    if (chain[0]->str() != "") drv.violation("prefix", "the root prefix is not empty");
  }
  drv.distinct.insert(hash_str(hist, model.size() * 7 + idx % 1));
  drv.sample("node history " + hist + " ending with " + std::to_string(model.size()) + " edges");
  std::set<ll::DawgNode *> targets;
  for (auto &[c, x] : model) targets.insert(x);
  for (auto *x : targets) delete x;
  twin.for_each_edge([](char, ll::DawgNode *x) { x->for_each_edge([](char, ll::DawgNode *y) { delete y; }); delete x; });
  delete n;
}

int main(int argc, char **argv) {
  drv.parse(argc, argv);
  drv.watch_for_deadlock();
  if (drv.mode == "content") drv.for_cases(drv.cases, content_case);
  else if (drv.mode == "order") drv.for_cases(drv.cases, order_case);
  else if (drv.mode == "graph") drv.for_cases(drv.cases, graph_case);
  else if (drv.mode == "equality") drv.for_cases(drv.cases, equality_case);
  else if (drv.mode == "node") drv.for_cases(drv.cases, node_case);
  else { fprintf(stderr, "unknown mode\n"); return 3; }
  return drv.finish();
}
