// C11-C13, C23: monitors of saving and loading dictionaries.
#include "lib.h"
#include "wire.h"
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <thread>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <liblevenshtein/serialization/serializer.h>

static Driver drv;
static DpOracle dp;
using Ptr = std::unique_ptr<ll::Dawg>;

static std::string scratch_file(const char *suffix = "") { return drv.scratch + "/d" + std::to_string(getpid()) + suffix; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string &p, const std::string &b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << b; }
static std::string to_bytes(ll::Dawg *d) { std::ostringstream o; if (!ll::serialize_protobuf(d, o)) return ""; return o.str(); }
static Ptr from_bytes(const std::string &b) { std::istringstream i(b); return Ptr(ll::deserialize_protobuf(i)); }

// `huge` >= 0 asks for one of the huge sets.
static TermSet some_terms(Rng &rng, std::size_t big = 8, long long huge = -1) {
#if !defined(__SANITIZE_ADDRESS__)
  if (huge >= 0 && huge < 6) { ++drv.counts["huge_dictionaries"]; return huge_terms(rng, (unsigned)huge); }
#endif
  if (rng.chance((unsigned)big)) return vocabulary(rng, rng.range(200, 1500) * drv.scale);
  return random_terms(rng, 40);
}

template <int ALG> static std::string queries_differ(ll::Dawg *d, const TermSet &t, Rng &rng) {
  std::vector<std::string> v(t.begin(), t.end());
  ll::Transducer<algorithm<ALG>(), ll::Candidate> tr(d->root());
  for (int k = 0; k < 2; ++k) {
    std::string q = v.empty() ? "ab" : rng.pick(v);
    q = edited(rng, q, q.empty() ? "ab" : q, rng.below(3));
    std::size_t n = rng.below(3);
    bool over;
    auto got = run_candidates<algorithm<ALG>()>(tr, q, n, v.size() + 2, over);
    std::map<std::string, std::size_t> want, have;
    for (auto &w : v) { std::size_t x = dp(ALG, q, w); if (x <= n) want[w] = x; }
    for (auto &c : got) have.insert(c);
    ++drv.counts["queries_on_loaded"];
    if (want != have || got.size() != want.size()) return std::string(alg_name(ALG)) + " query '" + show(q) + "' n=" + std::to_string(n) + " on the loaded dictionary gives " + std::to_string(got.size()) + " results, expected " + std::to_string(want.size());
  }
  return "";
}

// ------------------------------------------------------------ C11
// A file name of any kind, inside the scratch directory.
static std::string any_file(Rng &rng) {
  std::string base = drv.scratch + "/d" + std::to_string(getpid());
  if (rng.chance(50)) return base + ".pb";
  ++drv.counts["unusual_paths"];
  std::string dir = base + " dir";
  mkdir(dir.c_str(), 0700);
  switch (rng.below(12)) {
  case 8: case 9: { // through a link and up again: that is not where it looks
    mkdir((dir + "/x").c_str(), 0700); mkdir((dir + "/x/y").c_str(), 0700);
    if (symlink((dir + "/x/y").c_str(), (dir + "/up").c_str())) {}
    return dir + (rng.chance(50) ? "/up/../through.pb" : "/./up/.//through.pb");
  }
  case 10: mkdir((dir + "/~").c_str(), 0700); return dir + "/~/" + (rng.chance(50) ? ".hidden" : "tilde.tmp");
  case 0: return dir + "/a b  c.pb";
  case 1: return dir + "/\xc3\xa9\xe6\x97\xa5.pb";
  case 2: return dir + "/\xff\xfe%s%n*?$HOME'\"";
  case 3: return dir + "/" + std::string(rng.range(200, 255), 'n');
  case 4: return dir + "//.//../" + fs::path(dir).filename().string() + "/-x";
  case 5: { std::string p = dir; for (int k = 0; k < 12; ++k) { p += "/" + std::string(100, (char)('a' + k)); mkdir(p.c_str(), 0700); } return p + "/deep"; }
  case 6: return fs::relative(dir).string() + "/relative.pb";
  case 7: { std::string l = dir + "/link"; if (symlink((dir + "/target.pb").c_str(), l.c_str())) {} return l; }
  default: return dir + "/no\\extension\n.";
  }
}
// Streams of a pipe's kind: they cannot seek, and hand over little at a time.
struct SlowIn : std::streambuf {
  const std::string &b; std::size_t p = 0, most; char c[64]; Rng rng;
  SlowIn(const std::string &s, std::size_t m, uint64_t seed) : b(s), most(m), rng(seed) {}
  int_type underflow() override {
    if (p >= b.size()) return traits_type::eof();
    std::size_t n = std::min({rng.range(1, most), sizeof c, b.size() - p});
    std::memcpy(c, b.data() + p, n); p += n;
    setg(c, c, c + n);
    return traits_type::to_int_type(c[0]);
  }
};
struct SlowOut : std::streambuf {
  std::string b; char c[64];
  explicit SlowOut(std::size_t most) { setp(c, c + std::min(most, sizeof c)); }
  int drain() { b.append(pbase(), pptr()); setp(pbase(), epptr()); return 0; }
  int_type overflow(int_type x) override { drain(); if (!traits_type::eq_int_type(x, traits_type::eof())) { *pptr() = traits_type::to_char_type(x); pbump(1); } return traits_type::not_eof(x); }
  int sync() override { return drain(); }
};
// Saves through a named pipe; what comes out at the other end is in `bytes`.
static bool save_to_pipe(ll::Dawg *d, const std::string &f, bool by_stream, std::string &bytes) {
  unlink(f.c_str());
  if (mkfifo(f.c_str(), 0600) != 0) { fprintf(stderr, "no pipe\n"); exit(3); }
  int fd = open(f.c_str(), O_RDONLY | O_NONBLOCK);
  if (fd < 0) { fprintf(stderr, "no pipe\n"); exit(3); }
  std::atomic<bool> saved{false};
  std::thread reader([&] {
    char b[5000];
    for (;;) {
      bool last = saved.load(); // nothing comes after the save
      ssize_t n = read(fd, b, sizeof b);
      if (n > 0) bytes.append(b, (std::size_t)n);
      else if (last && n == 0) break;
      else { pollfd pf{fd, POLLIN, 0}; poll(&pf, 1, 1); if (pf.revents & POLLHUP) usleep(100); }
    }
  });
  bool ok;
  if (by_stream) { std::ofstream o(f, std::ios::binary); ok = ll::serialize_protobuf(d, o); }
  else ok = ll::serialize_protobuf(d, fs::path(f));
  saved = true;
  reader.join();
  close(fd);
  unlink(f.c_str());
  return ok;
}
static Ptr load_from_pipe(const std::string &bytes, const std::string &f, bool by_stream) {
  unlink(f.c_str());
  if (mkfifo(f.c_str(), 0600) != 0) { fprintf(stderr, "no pipe\n"); exit(3); }
  int fd = open(f.c_str(), O_RDWR | O_NONBLOCK);
  if (fd < 0) { fprintf(stderr, "no pipe\n"); exit(3); }
  std::atomic<bool> loaded{false};
  std::thread writer([&] {
    std::size_t p = 0;
    while (!loaded) { // closed once all is read, which is what ends the message
      if (p < bytes.size()) { ssize_t n = write(fd, bytes.data() + p, std::min<std::size_t>(bytes.size() - p, 3000)); if (n > 0) p += (std::size_t)n; else usleep(100); }
      else { int left = 0; ioctl(fd, FIONREAD, &left); if (left == 0) break; usleep(100); }
    }
    close(fd);
  });
  Ptr c;
  if (by_stream) { std::ifstream i(f, std::ios::binary); c.reset(ll::deserialize_protobuf(i)); }
  else c.reset(ll::deserialize_protobuf(f));
  loaded = true;
  writer.join();
  unlink(f.c_str());
  return c;
}
static void roundtrip_case(std::size_t idx, Rng &rng) {
  TermSet t = some_terms(rng, 8, idx < 16 ? -1 : (long long)idx - 16);
  Ptr d(build(t, (unsigned)rng.below(4)));
  if (!d) { drv.violation("build", "no dictionary"); return; }
  std::string f = any_file(rng), how;
  struct Sweep { ~Sweep() { std::error_code e; fs::remove_all(drv.scratch + "/d" + std::to_string(getpid()) + " dir", e); } } sweep;
  // an older, longer or unrelated file may be there
  if (rng.chance(50)) { spit(f, random_string(rng, std::string("\x00\xff\x0a\x20z", 5), 0, 20000)); how += "over an old file, "; ++drv.counts["overwrites"]; }
  bool ok = false;
  Ptr c;
  unsigned out = (unsigned)rng.below(10);
  std::string kept;
  std::stringstream io;
  std::string header;
  switch (out) {
  case 0: how += "path"; ok = ll::serialize_protobuf(d.get(), fs::path(f)); break;
  case 1: how += "string"; ok = ll::serialize_protobuf(d.get(), f); break;
  case 2: how += "C string"; ok = ll::serialize_protobuf(d.get(), f.c_str()); break;
  case 3: how += "file stream"; { std::ofstream o(f, std::ios::binary | std::ios::trunc); ok = ll::serialize_protobuf(d.get(), o); } break;
  case 4: how += "memory stream"; ok = ll::serialize_protobuf(d.get(), io); break;
  case 5: { // another process saves, this one loads: addresses differ, ids must not matter
    how += "other process";
    ++drv.counts["cross_process"];
    pid_t p = fork();
    if (p == 0) {
      std::vector<char *> junk; for (int k = 0; k < 50; ++k) junk.push_back(new char[1000 + 77 * (std::size_t)k]);
      Ptr mine(build(t, 3));
      bool r = mine && ll::serialize_protobuf(mine.get(), f);
      _exit(r ? 0 : 1);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    break;
  }
  case 6: { // after something else in the same stream
    how += "memory stream with a header";
    header = random_string(rng, std::string("\x00\xff\x0a\x20z", 5), 1, 40);
    io << header; ok = ll::serialize_protobuf(d.get(), io); ++drv.counts["saves_after_a_header"];
    break;
  }
  case 8: { how += "named pipe"; ++drv.counts["pipes"]; ok = save_to_pipe(d.get(), f, rng.chance(30), kept); break; }
  case 9: { how += "unbuffered stream"; ++drv.counts["slow_streams"]; SlowOut sb(rng.range(1, 64)); std::ostream o(&sb); ok = ll::serialize_protobuf(d.get(), o); sb.drain(); kept = sb.b; break; }
  default: { how += "protobuf message"; std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(d.get())); std::string b; ok = m->SerializeToString(&b); Ptr x(ll::from_protobuf(*m)); c = std::move(x); }
  }
  ++drv.counts["saves"];
  auto bad = [&](const std::string &w) { drv.violation("roundtrip", w + " (saved by " + how + ", file '" + show(f) + "') for " + show_all(t)); };
  if (!ok) { bad("saving reports failure"); return; }
  // the original is destroyed before the copy is used, sometimes
  bool early = rng.chance(50);
  ll::Dawg *orig = d.get();
  if (early) { d.reset(); orig = nullptr; }
  if (out <= 3 || out == 5) {
    switch (rng.below(4)) {
    case 0: how += " loaded by path"; c.reset(ll::deserialize_protobuf(fs::path(f))); break;
    case 1: how += " loaded by string"; c.reset(ll::deserialize_protobuf(f)); break;
    case 2: how += " loaded by C string"; c.reset(ll::deserialize_protobuf(f.c_str())); break;
    default: { how += " loaded by stream"; std::ifstream i(f, std::ios::binary); c.reset(ll::deserialize_protobuf(i)); }
    }
    unlink(f.c_str());
  } else if (out == 6) {
    std::string h(header.size(), 0);
    io.read(&h[0], (std::streamsize)h.size());
    if (h != header) { bad("saving overwrote what the stream held before"); return; }
    c.reset(ll::deserialize_protobuf(io));
  } else if (out == 4) c.reset(ll::deserialize_protobuf(io));
  else if (out == 8 || out == 9) {
    unsigned in = (unsigned)rng.below(3);
    if (in == 0 && !kept.empty()) { how += " loaded from a named pipe"; ++drv.counts["pipes"]; c = load_from_pipe(kept, f, rng.chance(30)); }
    else { how += " loaded from a slow stream"; ++drv.counts["slow_streams"]; SlowIn sb(kept, in == 1 ? 1 : rng.range(1, 64), rng.next()); std::istream i(&sb); c.reset(ll::deserialize_protobuf(i)); }
  }
  if (!c) { bad("loading gives nothing"); return; }
  std::string w = differs(c.get(), t, rng, 100, &drv);
  if (!w.empty()) { bad("loaded: " + w); return; }
  if (orig && !(*orig == *c)) { bad("the loaded dictionary is not equal to the saved one"); return; }
  if (orig && std::hash<ll::Dawg>()(*orig) != std::hash<ll::Dawg>()(*c)) { bad("the loaded dictionary has another hash"); return; }
  if (orig) { std::string x = differs(orig, t, rng, 10); if (!x.empty()) { bad("saving changed the dictionary: " + x); return; } }
  // a second generation
  if (rng.chance(30)) { Ptr c2 = from_bytes(to_bytes(c.get())); ++drv.counts["second_generation"]; w = differs(c2.get(), t, rng, 40); if (!w.empty()) { bad("second generation: " + w); return; } }
  bool small = true;
  for (auto &s : t) small &= s.size() < 60;
  if (small) {
    w = idx % 3 == 0 ? queries_differ<STD>(c.get(), t, rng) : idx % 3 == 1 ? queries_differ<TRN>(c.get(), t, rng) : queries_differ<MAS>(c.get(), t, rng);
    if (!w.empty()) { bad(w); return; }
  }
  if (!t.empty()) {
    uint64_t h = out; for (auto &s : t) h = hash_str(s, h);
    drv.distinct.insert(h);
    drv.sample(std::to_string(t.size()) + " terms saved by " + how + ": " + show_all(t, 4));
  }
}

// ------------------------------------------------------------ C12
// nullptr, or a dictionary all of whose views agree.
static std::string incoherent(ll::Dawg *d) {
  // walk without trusting anything: limited depth and number
  std::size_t limit = 200000, steps = 0;
  std::set<std::string> lang;
  std::string cur, err;
  std::function<void(const ll::DawgNode *)> go = [&](const ll::DawgNode *n) {
    if (!err.empty()) return;
    if (n == nullptr) { err = "has an edge to nowhere"; return; }
    if (++steps > limit || cur.size() > 3000) { err = "spells endlessly many terms"; return; }
    if (n->is_final()) lang.insert(cur);
    n->for_each_edge([&](char l, ll::DawgNode *x) { cur += l; go(x); cur.pop_back(); });
  };
  go(d->root());
  if (!err.empty()) return err;
  if (d->size() != lang.size()) return "claims " + std::to_string(d->size()) + " terms and spells " + std::to_string(lang.size());
  std::vector<std::string> it = iterate(d, lang.size() + 3);
  std::set<std::string> its(it.begin(), it.end());
  if (it.size() != lang.size() || its != lang) return "iterates over " + std::to_string(it.size()) + " terms and spells " + std::to_string(lang.size());
  for (auto &s : lang) if (!d->contains(s)) return "does not contain a term it spells";
  // it answers queries
  ll::Transducer<ll::Algorithm::STANDARD, std::string> q(d->root());
  std::size_t k = 0;
  for (const std::string &r : q("ab", 2)) { if (!lang.count(r)) return "answers with a term it does not spell"; if (++k > lang.size()) return "answers endlessly"; }
  Ptr again = from_bytes(to_bytes(d));
  if (!again || !(*again == *d)) return "cannot be saved and loaded again";
  return "";
}
static std::string hex(const std::string &b, std::size_t n = 120) {
  static const char *x = "0123456789abcdef";
  std::string r;
  for (std::size_t i = 0; i < b.size() && i < n; ++i) { r += x[(unsigned char)b[i] >> 4]; r += x[b[i] & 15]; }
  return r + (b.size() > n ? "..." : "");
}
static bool judge(const std::string &b, const std::string &what) {
  ++drv.counts["damaged_inputs"];
  Ptr d = from_bytes(b);
  if (!d) { ++drv.counts["refused"]; return true; }
  ++drv.counts["accepted_coherent"];
  std::string w = incoherent(d.get());
  if (!w.empty()) {
    drv.violation("incoherent", "input (" + what + ", " + std::to_string(b.size()) + " bytes, hex " + hex(b) + ") loads as a dictionary that " + w);
    // such a graph may not even be destroyable: leave it
    (void)d.release();
    return false;
  }
  return true;
}
static bool lattice_wrong(Rng &rng);
static void damage_case(std::size_t idx, Rng &rng) {
  TermSet t;
  do { t = idx % 3 == 0 ? random_terms(rng, 20) : random_terms(rng, 6); } while (t.size() > 400);
  Ptr d(build(t, 0));
  if (!d) { drv.violation("build", "no dictionary"); return; }
  std::string b = to_bytes(d.get());
  d.reset();
  drv.distinct.insert(hash_str(b));
  // torn: every strict prefix (of a long one: the ends and a sample)
  std::size_t torn = 0;
  std::string file = scratch_file(".torn");
  for (std::size_t k = 0; k < b.size(); ++k) {
    if (b.size() > 1500 && k > 300 && k + 600 < b.size() && !rng.chance(4)) continue;
    std::string p = b.substr(0, k);
    Ptr x;
    unsigned via = (unsigned)rng.below(40);
    if (via == 0) { spit(file, p); x.reset(ll::deserialize_protobuf(file)); ++drv.counts["torn_files"]; }
    else x = from_bytes(p);
    ++torn;
    if (x) { drv.violation("torn", "the first " + std::to_string(k) + " of " + std::to_string(b.size()) + " bytes of " + show_all(t) + " load as a dictionary of " + std::to_string(x->size()) + " terms"); return; }
  }
  unlink(file.c_str());
  drv.counts["torn_inputs"] += torn;
  if (torn > 3) drv.sample(std::to_string(torn) + " strict prefixes of " + std::to_string(b.size()) + " bytes of " + show_all(t, 4) + ", all refused");
  // damaged bytes
  const std::size_t reps = 120;
  for (std::size_t k = 0; k < reps; ++k) {
    std::string x = b;
    std::string what;
    for (std::size_t m = rng.range(1, 2); m--;) {
      if (x.empty()) { x += (char)rng.below(256); continue; }
      std::size_t i = rng.below(x.size());
      switch (rng.below(7)) {
      case 0: x[i] ^= (char)(1 << rng.below(8)); what += "bit flip "; break;
      case 1: x[i] = (char)rng.below(256); what += "byte "; break;
      case 2: x.erase(i, rng.range(1, 8)); what += "hole "; break;
      case 3: x.insert(i, random_string(rng, std::string("\x00\x01\x08\x0a\x12\x1a\x20\x28\x7f\x80\xff", 11), 1, 6)); what += "insertion "; break;
      case 4: x.insert(rng.below(x.size()), x.substr(i, rng.range(1, 30))); what += "repeated block "; break;
      case 5: { std::size_t n = std::min<std::size_t>(512, x.size() - i); for (std::size_t j = 0; j < n; ++j) x[i + j] = 0; what += "zeroed tail "; break; }
      default: x += x.substr(i); what += "appended tail ";
      }
    }
    if (!judge(x, what)) return;
  }
  // well-formed messages that say impossible things
  for (int k = 0; k < 40; ++k) {
    bool shared = rng.chance(50);
    wire::Dict w = wire::make(t, [](std::size_t i) { return 1000 + 8 * i; }, shared);
    std::string what;
    for (std::size_t m = rng.range(1, 2); m--;) {
      auto any = [&]() -> uint64_t { return rng.chance(10) ? rng.next() : w.nodes.empty() ? 7 : w.nodes[rng.below(w.nodes.size())]; };
      switch (rng.below(13)) {
      case 0: w.size += 1; what += "size+1 "; break;
      case 1: w.size = rng.chance(50) ? 0 : rng.next(); what += "size "; break;
      case 2: w.root = any(); what += "root "; break;
      case 3: if (!w.edges.empty()) rng.chance(50) ? w.edges[rng.below(w.edges.size())].target = any() : w.edges[rng.below(w.edges.size())].source = any(); what += "edge end "; break;
      case 4: w.edges.push_back({any(), (uint32_t)rng.below(256), any()}); what += "extra edge "; break;
      case 5: if (!w.edges.empty()) w.edges.push_back(w.edges[rng.below(w.edges.size())]); what += "repeated edge "; break;
      case 6: if (!w.edges.empty()) { auto e = w.edges[rng.below(w.edges.size())]; e.target = any(); w.edges.push_back(e); } what += "conflicting edge "; break;
      case 7: if (!w.edges.empty()) w.edges.erase(w.edges.begin() + (long)rng.below(w.edges.size())); what += "missing edge "; break;
      case 8: if (!w.nodes.empty()) w.nodes.erase(w.nodes.begin() + (long)rng.below(w.nodes.size())); what += "missing node "; break;
      case 9: w.nodes.push_back(any()); what += "extra node "; break;
      case 10: rng.chance(50) || w.finals.empty() ? w.finals.push_back(any()) : (void)w.finals.erase(w.finals.begin() + (long)rng.below(w.finals.size())); what += "finals "; break;
      case 11: if (!w.edges.empty()) { uint64_t r = w.root; w.edges.push_back({w.edges[rng.below(w.edges.size())].target, (uint32_t)'q', r}); } what += "cycle "; break;
      default: if (!w.edges.empty()) { auto &e = w.edges[rng.below(w.edges.size())]; w.edges.push_back({e.target, (uint32_t)rng.below(256), e.target}); } what += "self loop "; break;
      }
    }
    ++drv.counts["impossible_messages"];
    if (!judge(wire::encode(w, rng), what)) return;
  }
  for (int k = 0; k < 2; ++k) if (!lattice_wrong(rng)) return;
  // no input at all
  if (idx % 10 == 0) {
    for (int k = 0; k < 30; ++k) if (!judge(random_string(rng, std::string("\x00\x01\x02\x08\x0a\x12\x1a\x20\x28\x80\xff", 11), 0, 60), "noise")) return;
    std::string missing = scratch_file(".missing");
    unlink(missing.c_str());
    Ptr a(ll::deserialize_protobuf(missing)), c(ll::deserialize_protobuf(missing.c_str())), e(ll::deserialize_protobuf(fs::path(missing)));
    Ptr dir(ll::deserialize_protobuf(drv.scratch));
    spit(missing, "");
    Ptr empty(ll::deserialize_protobuf(missing));
    unlink(missing.c_str());
    drv.counts["unreadable_sources"] += 5;
    if (a || c || e || dir || empty) { drv.violation("nothing", "a dictionary was loaded from a missing file, a directory or an empty file"); return; }
  }
}

// ------------------------------------------------------------ messages that spell astronomically many terms
// A ladder of levels, each joined to the next by several letters: a file of a
// few hundred bytes for up to 2^64 terms.
struct Lattice {
  std::vector<std::string> letters; // of each level
  std::vector<bool> fin;            // of each node, one more than levels
  unsigned __int128 count = 0;
  Lattice(Rng &rng, std::size_t levels, std::size_t most) {
    for (std::size_t i = 0; i < levels; ++i) {
      std::string ls;
      for (std::size_t k = rng.range(1, most); k--;) { char c = (char)rng.below(256); if (ls.find(c) == std::string::npos) ls += c; }
      letters.push_back(ls);
    }
    for (std::size_t i = 0; i <= levels; ++i) fin.push_back(i == levels || (i >= 2 && i <= 5) || rng.chance(20)); // (the first terms of an iteration by levels are near)
    recount();
  }
  void recount() {
    count = 0;
    unsigned __int128 paths = 1;
    const unsigned __int128 cap = (unsigned __int128)1 << 100;
    for (std::size_t i = 0; i < fin.size(); ++i) { if (fin[i]) count += paths; if (i < letters.size()) paths = std::min(cap, paths * letters[i].size()); }
  }
  wire::Dict message(uint64_t size) const {
    wire::Dict w;
    for (std::size_t i = 0; i < fin.size(); ++i) { w.nodes.push_back(500 + 3 * i); if (fin[i]) w.finals.push_back(500 + 3 * i); if (i < letters.size()) for (char c : letters[i]) w.edges.push_back({500 + 3 * i, (uint32_t)(int32_t)(signed char)c, 503 + 3 * i}); }
    w.root = 500; w.size = size;
    return w;
  }
  std::string path(Rng &rng, std::size_t n) const { std::string s; for (std::size_t i = 0; i < n; ++i) s += letters[i][rng.below(letters[i].size())]; return s; }
  bool member(const std::string &s) const {
    if (s.size() >= fin.size()) return false;
    for (std::size_t i = 0; i < s.size(); ++i) if (letters[i].find(s[i]) == std::string::npos) return false;
    return fin[s.size()];
  }
};
static const unsigned __int128 two64 = (unsigned __int128)1 << 64;
// A valid one must load as what it spells.
static void lattice_valid(Rng &rng) {
  Lattice l(rng, rng.range(20, 62), 3);
  while (l.count >= two64) { l.letters.pop_back(); l.fin.pop_back(); l.fin.back() = true; l.recount(); }
  Ptr d = from_bytes(wire::encode(l.message((uint64_t)l.count), rng));
  ++drv.counts["lattices_loaded"];
  auto bad = [&](const std::string &w) { drv.violation("decoding", "a valid message of " + std::to_string(l.fin.size()) + " nodes in a row that spells " + std::to_string((uint64_t)l.count) + " terms: " + w); };
  for (int gen = 0; gen < 2; ++gen) {
    if (!d) return bad("not loaded");
    if (d->size() != (std::size_t)l.count) return bad("size() is " + std::to_string(d->size()));
    for (int k = 0; k < 30; ++k) {
      std::string s = l.path(rng, rng.below(l.fin.size()));
      if (!s.empty() && rng.chance(40)) s[rng.below(s.size())] = (char)rng.below(256);
      if (d->contains(s) != l.member(s)) return bad("contains('" + show(s) + "') is wrong");
    }
    std::set<std::string> seen; // the first ones only
    auto it = d->begin();
    for (int k = 0; k < 3; ++k) { if (k) ++it; if (!l.member(*it) || !seen.insert(*it).second) return bad("iteration yields '" + show(*it) + "'"); }
    std::string q = l.path(rng, l.fin.size() - 1);
    bool over;
    ll::Transducer<ll::Algorithm::STANDARD, ll::Candidate> tr(d->root());
    auto r = run_candidates(tr, q, 0, 3, over);
    if (r.size() != 1 || r[0].first != q || r[0].second != 0) return bad("a query for the term '" + show(q) + "' has " + std::to_string(r.size()) + " results");
    if (gen == 0) d = from_bytes(to_bytes(d.get()));
  }
  d.reset();
}
// One whose size is wrong must be refused, also where counting it would wrap around.
static bool lattice_wrong(Rng &rng) {
  Lattice l(rng, rng.chance(50) ? rng.range(20, 62) : rng.range(64, 90), 4);
  if (rng.chance(40)) { // a power of two above 2^64: zero when wrapped
    for (auto &x : l.letters) x = "ab";
    while (l.letters.size() < 66) { l.letters.push_back("ab"); l.fin.push_back(true); }
    l.fin.assign(l.letters.size() + 1, false); l.fin.back() = true; l.recount();
  }
  uint64_t size = (uint64_t)l.count;
  if (l.count < two64) size += rng.chance(50) ? 1 : rng.chance(50) ? (uint64_t)-1 : rng.next() | 1;
  Ptr d = from_bytes(wire::encode(l.message(size), rng));
  ++drv.counts["lattices_refused"];
  if (!d) return true;
  drv.violation("incoherent", "a message of " + std::to_string(l.fin.size()) + " nodes in a row loads as a dictionary of " + std::to_string(d->size()) + " terms, but spells " + (l.count < two64 ? std::to_string((uint64_t)l.count) : std::string("more than 2^64")));
  return false;
}

// ------------------------------------------------------------ C13
// A stream that accepts `room` bytes and then fails.
struct Limited : std::streambuf {
  std::size_t room; std::string got; bool failed = false;
  explicit Limited(std::size_t r) : room(r) {}
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::size_t k = std::min<std::size_t>(room - got.size(), (std::size_t)n);
    got.append(s, k);
    if (k < (std::size_t)n) failed = true;
    return (std::streamsize)k;
  }
  int_type overflow(int_type c) override { if (got.size() >= room) { failed = true; return traits_type::eof(); } got += (char)c; return c; }
};
// Runs fn in a child whose files may not exceed `bytes`.
static int limited_child(std::size_t bytes, const std::function<int()> &fn) {
  pid_t p = fork();
  if (p == 0) {
    struct itimerval it {}; setitimer(ITIMER_PROF, &it, nullptr);
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit r; r.rlim_cur = r.rlim_max = bytes;
    if (setrlimit(RLIMIT_FSIZE, &r) != 0) _exit(9);
    _exit(fn());
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
}
static bool holds(const std::string &bytes, const TermSet &t, Rng &rng) {
  Ptr d = from_bytes(bytes);
  return differs(d.get(), t, rng, 5).empty();
}
static void save_case(std::size_t idx, Rng &rng) {
  TermSet t;
  if (idx % 5 == 0) t = vocabulary(rng, 400 + rng.below(400)); // larger than any buffer on the way
  else do { t = random_terms(rng, 15); } while (t.size() > 120);
  Ptr d(build(t, 0));
  if (!d) { drv.violation("build", "no dictionary"); return; }
  std::string full = to_bytes(d.get());
  if (full.empty()) { drv.violation("refused", "saving to a healthy stream fails"); return; }
  drv.distinct.insert(hash_str(full));
  auto points = [&](std::size_t many) {
    std::vector<std::size_t> r;
    if (full.size() + 3 <= many) for (std::size_t k = 0; k <= full.size() + 2; ++k) r.push_back(k);
    else {
      std::set<std::size_t> s{0, 1, 2, full.size() - 2, full.size() - 1, full.size(), full.size() + 1, 4095, 4096, 4097, 8191, 8192, 8193};
      while (s.size() < many) s.insert(rng.below(full.size() + 2));
      r.assign(s.begin(), s.end());
    }
    return r;
  };
  // a stream failing at every byte
  for (std::size_t k : points(idx % 5 == 0 ? 400 : 3000)) {
    Limited buf(k);
    std::ostream o(&buf);
    bool ok = ll::serialize_protobuf(d.get(), o);
    ++drv.counts["stream_fault_points"];
    if (ok && (buf.failed || !holds(buf.got, t, rng))) { drv.violation("false-success", "saving " + show_all(t) + " to a stream that failed after " + std::to_string(k) + " of " + std::to_string(full.size()) + " bytes reports success"); return; }
    if (!ok && k >= full.size() + 1) { drv.violation("false-failure", "saving to a stream with room for " + std::to_string(k) + " bytes reports failure (" + std::to_string(full.size()) + " needed)"); return; }
    if (!ok) ++drv.counts["failures_reported"]; else ++drv.counts["successes_reported"];
  }
  { // a stream that is already broken; one that throws stays outside
    std::ostringstream o; o.setstate(std::ios::badbit);
    ++drv.counts["stream_fault_points"];
    if (ll::serialize_protobuf(d.get(), o)) { drv.violation("false-success", "saving to a broken stream reports success"); return; }
  }
  std::string old;
  { TermSet u = t; u.insert("an older term"); u.insert("zzzz"); Ptr o(build(u, 0)); if (o) old = to_bytes(o.get()); }
  // a file that may not grow beyond k bytes (as on a full disk), at every k
  std::string f = scratch_file(".lim");
  for (std::size_t k : points(idx % 5 == 0 ? 60 : 120)) {
    switch (rng.below(5)) { // what is there before: an old dictionary, something longer or shorter, nothing
    case 0: spit(f, std::string(rng.below(50), 'x')); break;
    case 1: spit(f, old); break;
    case 2: spit(f, full + random_string(rng, std::string("\x00\xff\x0a\x20z", 5), 0, 9000)); break;
    default: unlink(f.c_str());
    }
    unsigned how = (unsigned)rng.below(3);
    int rc = limited_child(k, [&] { bool ok = how == 0 ? ll::serialize_protobuf(d.get(), f) : how == 1 ? ll::serialize_protobuf(d.get(), f.c_str()) : ll::serialize_protobuf(d.get(), fs::path(f)); return ok ? 0 : 1; });
    ++drv.counts["file_fault_points"];
    if (rc == 9) { fprintf(stderr, "setrlimit failed\n"); exit(3); }
    if (rc != 0 && rc != 1) { drv.violation("crash", "saving with room for " + std::to_string(k) + " bytes ends with status " + std::to_string(rc)); return; }
    if (rc == 0 && !holds(slurp(f), t, rng)) { drv.violation("false-success", "saving " + show_all(t) + " to a file with room for " + std::to_string(k) + " of " + std::to_string(full.size()) + " bytes reports success, but the file does not hold the dictionary"); return; }
    if (rc == 1 && k >= full.size() + 1) { drv.violation("false-failure", "saving to a file with room for " + std::to_string(k) + " bytes reports failure"); return; }
    rc == 0 ? ++drv.counts["successes_reported"] : ++drv.counts["failures_reported"];
  }
  unlink(f.c_str());
  // places that cannot be written
  std::string dirless = drv.scratch + "/nosuchdir/x.pb";
  std::vector<std::string> nowhere{dirless, drv.scratch, "", std::string("/dev/full")};
  for (auto &p : nowhere) {
    ++drv.counts["unwritable_places"];
    bool a = ll::serialize_protobuf(d.get(), p), b = ll::serialize_protobuf(d.get(), p.c_str()), c = ll::serialize_protobuf(d.get(), fs::path(p));
    if (a || b || c) { drv.violation("false-success", "saving to '" + p + "' reports success"); return; }
  }
  std::string w = differs(d.get(), t, rng, 10);
  if (!w.empty()) drv.violation("changed", "failed saves changed the dictionary: " + w);
  drv.sample(std::to_string(t.size()) + " terms, " + std::to_string(full.size()) + " bytes: faults at each byte of the stream and of the file");
}

// ------------------------------------------------------------ C23
static void wire_case(std::size_t idx, Rng &rng) {
  TermSet t = some_terms(rng, 5, idx < 16 ? -1 : (long long)idx - 16);
  // what is written
  {
    Ptr d(build(t, (unsigned)rng.below(4)));
    if (!d) { drv.violation("build", "no dictionary"); return; }
    std::string b = to_bytes(d.get());
    wire::Dict w;
    TermSet got;
    std::string e = wire::decode(b, w);
    if (e.empty()) e = wire::terms(w, got, t.size() + 2);
    ++drv.counts["messages_decoded"];
    drv.counts["edges_decoded"] += w.edges.size();
    if (!e.empty()) { drv.violation("encoding", "written message: " + e + " for " + show_all(t)); return; }
    if (got != t) { drv.violation("encoding", "written message spells " + show_all(got) + ", expected " + show_all(t)); return; }
  }
  // what is read: any valid encoding, from any writer
  for (int k = 0; k < 4; ++k) {
    wire::Style st;
    st.packed = rng.chance(60); st.shuffle = rng.chance(50); st.unknown = rng.chance(40); st.defaults = rng.chance(40); st.split = rng.chance(40);
    st.padded = rng.chance(30); st.repeats = rng.chance(30); st.empties = rng.chance(30);
    drv.counts["unusual_encodings"] += st.padded || st.repeats || st.empties;
    bool minimal = rng.chance(60), sext = rng.chance(50);
    unsigned ids = (unsigned)rng.below(8);
    uint64_t salt = rng.next() | 1;
    auto id = [&](std::size_t i) -> uint64_t {
      switch (ids) { case 0: return i + 1; case 1: return 0x7f0000000000ull + 48 * i; case 2: return UINT64_MAX - i; case 3: return ((uint64_t)i << 32) | 7; case 4: return ((uint64_t)(i + 1) << 42) + 5; case 5: return i; case 6: return (i & 1 ? 1ull << 63 : 0) + i / 2; default: return (i + 1) * salt; }
    };
    wire::Dict w = wire::make(t, id, minimal, sext);
    std::string b = wire::encode(w, rng, st);
    Ptr d = from_bytes(b);
    ++drv.counts["messages_encoded"];
    std::string e = differs(d.get(), t, rng, 40, &drv);
    if (!e.empty()) {
      drv.violation("decoding", std::string("a valid message (") + (st.packed ? "packed" : "unpacked") + (st.shuffle ? ", shuffled" : "") + (st.unknown ? ", unknown fields" : "") + (st.padded ? ", padded numbers" : "") + (st.repeats ? ", repeated fields" : "") + (st.empties ? ", empty fields" : "") + (minimal ? ", minimal" : ", trie") + ", id scheme " + std::to_string(ids) + ") loads wrongly: " + e + " for " + show_all(t));
      return;
    }
  }
  uint64_t h = 1; for (auto &s : t) h = hash_str(s, h);
  if (!t.empty()) { drv.distinct.insert(h); drv.sample("dictionary " + show_all(t, 4) + " written and decoded, encoded and read in 4 styles"); }
  if (idx % 4 == 1) { lattice_valid(rng); if (drv.violations) return; }
  // files kept from earlier versions
  if (idx == 0 && drv.opt.count("golden")) {
    DIR *dir = opendir(drv.opt["golden"].c_str());
    if (!dir) { fprintf(stderr, "no golden files\n"); exit(3); }
    while (dirent *de = readdir(dir)) {
      std::string n = de->d_name;
      if (n.size() < 4 || n.substr(n.size() - 3) != ".pb") continue;
      TermSet want;
      std::string txt = slurp(drv.opt["golden"] + "/" + n.substr(0, n.size() - 3) + ".hex");
      std::istringstream in(txt);
      std::string line;
      while (std::getline(in, line)) { std::string s; for (std::size_t i = 0; i + 1 < line.size(); i += 2) s += (char)strtol(line.substr(i, 2).c_str(), nullptr, 16); want.insert(s); }
      Ptr d(ll::deserialize_protobuf(drv.opt["golden"] + "/" + n));
      std::string e = differs(d.get(), want, rng, 100, &drv);
      ++drv.counts["golden_files"];
      if (!e.empty()) drv.violation("golden", "file " + n + " written by an earlier version loads wrongly: " + e);
    }
    closedir(dir);
    if (drv.counts["golden_files"] == 0) { fprintf(stderr, "no golden files\n"); exit(3); }
  }
}

int main(int argc, char **argv) {
  drv.parse(argc, argv);
  if (drv.mode == "roundtrip") drv.for_cases(drv.cases, roundtrip_case);
  else if (drv.mode == "damage") drv.for_cases(drv.cases, damage_case);
  else if (drv.mode == "save") drv.for_cases(drv.cases, save_case);
  else if (drv.mode == "wire") drv.for_cases(drv.cases, wire_case);
  else { fprintf(stderr, "unknown mode\n"); return 3; }
  return drv.finish();
}
