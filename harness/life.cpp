// C17, C18: object lifecycles through the whole interface. `life` runs each
// scenario once (under AddressSanitizer + UBSan, or valgrind); `leak` repeats
// the same scenario and watches what stays allocated.
#include "lib.h"
#include "wire.h"
#include <dirent.h>
#include <memory>
#include <sstream>
#include <liblevenshtein/distance/merge_and_split_distance.h>
#include <liblevenshtein/distance/standard_distance.h>
#include <liblevenshtein/distance/transposition_distance.h>
#include <liblevenshtein/serialization/serializer.h>
#include <liblevenshtein/transducer/comparator.h>
#include <liblevenshtein/transducer/merge.h>
#include <liblevenshtein/transducer/position.h>
#include <liblevenshtein/transducer/state.h>
#include <liblevenshtein/transducer/state_iterator.h>
namespace ld = liblevenshtein::distance;

static Driver drv;

#ifdef COUNT_ALLOCATIONS
static std::size_t live_blocks = 0, live_bytes = 0, total_blocks = 0;
struct Header { std::size_t size; void *base; };
static void *take(std::size_t n, std::size_t align) {
  std::size_t pad = std::max<std::size_t>(align, 32);
  char *base = (char *)malloc(n + 2 * pad + sizeof(Header));
  if (!base) throw std::bad_alloc();
  std::uintptr_t p = ((std::uintptr_t)base + sizeof(Header) + pad - 1) / pad * pad;
  Header *h = (Header *)(p - sizeof(Header));
  h->size = n; h->base = base;
  ++live_blocks; ++total_blocks; live_bytes += n;
  return (void *)p;
}
static void give(void *p) noexcept {
  if (!p) return;
  Header *h = (Header *)((char *)p - sizeof(Header));
  --live_blocks; live_bytes -= h->size;
  free(h->base);
}
void *operator new(std::size_t n) { return take(n, 16); }
void *operator new[](std::size_t n) { return take(n, 16); }
void *operator new(std::size_t n, std::align_val_t a) { return take(n, (std::size_t)a); }
void *operator new[](std::size_t n, std::align_val_t a) { return take(n, (std::size_t)a); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return take(n, 16); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return take(n, 16); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
void operator delete(void *p, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::align_val_t) noexcept { give(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { give(p); }
#endif

static std::size_t open_files() {
  std::size_t n = 0;
  if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
  return n;
}
static std::unique_ptr<ll::Dawg> make(const TermSet &t, Rng &rng) { return std::unique_ptr<ll::Dawg>(build(t, (unsigned)rng.below(4))); }
static TermSet terms(Rng &rng) {
  TermSet t;
  do t = rng.chance(10) ? vocabulary(rng, 150) : random_terms(rng, 25); while (t.size() > 300);
  if (t.size() > 8) for (auto it = t.begin(); it != t.end();) { if (it->size() > 80) it = t.erase(it); else ++it; }
  return t;
}
static std::string near_term(const TermSet &t, Rng &rng) {
  std::string al = rng.chance(50) ? "ab" : random_alphabet(rng);
  if (t.empty() || rng.chance(15)) return random_string(rng, al, 0, 10);
  return edited(rng, *std::next(t.begin(), (long)rng.below(t.size())), al, rng.below(4));
}
static std::size_t sink = 0; // what was observed, so that reads are not optimised away

template <ll::Algorithm A, class R> static void query(ll::DawgNode *root, const TermSet &t, Rng &rng) {
  ll::Transducer<A, R> tr(root);
  for (int k = 0; k < 3; ++k) {
    std::string q = near_term(t, rng);
    std::size_t n = rng.chance(8) ? SIZE_MAX - rng.below(3) : rng.below(q.size() > 30 ? 3 : 5);
    if (n > 100 && (q.size() > 12 || t.size() > 60)) n = 2;
    unsigned how = (unsigned)rng.below(6);
    if (how == 0) { auto range = tr(q, n); (void)range; continue; }                 // never started
    auto range = tr(q, n);
    auto it = range.begin(); auto end = range.end();
    std::size_t stop = how == 1 ? rng.below(4) : t.size() + 2;                      // abandoned, or to the end
    std::size_t i = 0;
    for (; it != end && i < stop; ++it, ++i) {
      sink += sizeof(*it);
      if (how == 2 && rng.chance(20)) { auto copy = it; ++copy; auto other = copy; other = it; sink += (std::size_t)(other != end); }
    }
    if (how == 3) { ++it; ++it; sink += (std::size_t)(it != end); }                 // beyond the end
    if (how == 4) { auto again = range.begin(); if (again != end) ++again; if constexpr (std::is_copy_constructible_v<ll::Transducer<A, R>>) { ll::Transducer<A, R> c(tr); auto r2 = c(q, 1); auto x = r2.begin(); sink += (std::size_t)(x != r2.end()); } }
    if (how == 5) { std::vector<decltype(it)> v; for (int j = 0; j < 5; ++j) v.push_back(range.begin()); v.erase(v.begin()); if (v[0] != end) ++v[0]; auto moved = std::move(v[1]); sink += (std::size_t)(moved != end); }
  }
}

static const std::size_t KINDS = 14;
static void scenario(std::size_t kind, Rng &rng) {
  TermSet t = terms(rng);
#ifdef _GLIBCXX_DEBUG
  if (kind == 8) kind = 7; // unknown fields are kept in containers shared with libprotobuf
#endif
  switch (kind) {
  case 0: { auto d = make(t, rng); if (d) for (auto &s : t) sink += d->contains(s); break; }
  case 1: { // refused: out of order somewhere, everything built so far is given back
    std::vector<std::string> v(t.begin(), t.end()); if (v.size() > 1) std::swap(v[rng.below(v.size())], v[rng.below(v.size())]);
    v.push_back("a"); v.push_back(""); std::unique_ptr<ll::Dawg> d(ll::sorted_dawg(v.begin(), v.end())); sink += d != nullptr; break;
  }
  case 2: { // built step by step, with duplicates and refused terms, and left at any stage
    auto *d = new ll::SortedDawg(); unsigned stage = (unsigned)rng.below(4); d->init();
    if (stage >= 1) for (auto &s : t) { d->add(s); if (rng.chance(20)) d->add(s); if (rng.chance(10)) d->add(""); if (rng.chance(10)) d->remove(s); }
    if (stage >= 2) d->finish();
    if (stage >= 3) { d->clean_up(); sink += d->add("zz"); if (rng.chance(50)) d->clean_up(); }
    ll::Dawg *base = d; delete base; break;
  }
  case 3: { auto d = make(t, rng); if (!d) break; auto e = d->end(); std::size_t i = 0, stop = rng.chance(50) ? 3 : t.size(); for (auto it = d->begin(); it != e && i < stop; ++it, ++i) { sink += (*it).size(); if (rng.chance(20)) { auto c = it; ++c; c = it; } } break; }
  case 4: { auto d = make(t, rng); if (d) { query<ll::Algorithm::STANDARD, ll::Candidate>(d->root(), t, rng); query<ll::Algorithm::STANDARD, std::string>(d->root(), t, rng); } break; }
  case 5: { auto d = make(t, rng); if (d) { query<ll::Algorithm::TRANSPOSITION, ll::Candidate>(d->root(), t, rng); query<ll::Algorithm::TRANSPOSITION, std::string>(d->root(), t, rng); } break; }
  case 6: { auto d = make(t, rng); if (d) { query<ll::Algorithm::MERGE_AND_SPLIT, ll::Candidate>(d->root(), t, rng); query<ll::Algorithm::MERGE_AND_SPLIT, std::string>(d->root(), t, rng); } break; }
  case 7: { // saved and loaded, by file and in memory; failed saves
    auto d = make(t, rng); if (!d) break;
    std::string f = drv.scratch + "/l" + std::to_string(getpid());
    sink += ll::serialize_protobuf(d.get(), f); std::unique_ptr<ll::Dawg> a(ll::deserialize_protobuf(f)); unlink(f.c_str());
    sink += ll::serialize_protobuf(d.get(), fs::path(drv.scratch + "/none/x")); std::unique_ptr<ll::Dawg> n(ll::deserialize_protobuf((drv.scratch + "/none/x").c_str()));
    std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(d.get())); d.reset(); std::unique_ptr<ll::Dawg> b(ll::from_protobuf(*m));
    if (a && b) { sink += *a == *b; query<ll::Algorithm::TRANSPOSITION, ll::Candidate>(b->root(), t, rng); sink += a->add("~~"); }
    break;
  }
  case 8: { // torn and damaged input
    auto d = make(t, rng); if (!d) break; std::ostringstream o; ll::serialize_protobuf(d.get(), o); std::string b = o.str(); d.reset();
    for (int k = 0; k < 12; ++k) { std::string x = b.substr(0, rng.below(b.size() + 1)); if (k % 2 && !x.empty()) x[rng.below(x.size())] = (char)rng.below(256); if (k % 3 == 0) { x = b; if (!x.empty()) x[rng.below(x.size())] ^= (char)(1 << rng.below(8)); } std::istringstream i(x); std::unique_ptr<ll::Dawg> e(ll::deserialize_protobuf(i)); if (e) { sink += e->size(); sink += iterate(e.get(), e->size() + 1).size(); } }
    for (int k = 0; k < 9; ++k) {
      wire::Dict w = wire::make(t, [](std::size_t i) { return 10 + i; }, true);
      if (!w.edges.empty()) { auto e = w.edges[rng.below(w.edges.size())]; switch (k) { case 0: e.label ^= 1; e.target = w.root; w.edges.push_back(e); break; case 1: w.edges.push_back(e); break; case 2: e.target = 3; w.edges.push_back(e); break; case 3: w.nodes.push_back(5); break; case 4: w.root = 1; break; case 5: w.nodes.push_back(w.nodes[rng.below(w.nodes.size())]); break; case 6: w.finals.push_back(w.finals.empty() ? w.root : w.finals[0]); break; case 7: w.nodes.push_back(w.root); w.edges.push_back(e); break; default: w.edges.erase(w.edges.begin()); } } else w.size = 9;
      std::istringstream i(wire::encode(w, rng)); std::unique_ptr<ll::Dawg> e(ll::deserialize_protobuf(i)); sink += e != nullptr;
    }
    break;
  }
  case 9: { // distance functions, owned through the interface they implement
    std::unique_ptr<ld::Distance> f; unsigned a = (unsigned)rng.below(3);
    if (a == 0) f.reset(new ld::StandardDistance()); else if (a == 1) f.reset(new ld::TranspositionDistance()); else f.reset(new ld::MergeAndSplitDistance());
    std::string al = random_alphabet(rng);
    for (int k = 0; k < 12; ++k) { std::string x = random_string(rng, al, 0, 14), y = edited(rng, x, al, rng.below(6)); sink += (*f)(x, y) + f->between(y, x); }
    break;
  }
  case 10: { // states: duplicates merged away, removals, sorting
    ll::State s; for (int k = 0; k < 5; ++k) { std::vector<ll::Position *> v; for (std::size_t j = rng.below(6); j--;) v.push_back(new ll::Position(rng.below(4), rng.below(3), rng.chance(30))); switch (rng.below(2)) { case 0: ll::merge<ll::Algorithm::TRANSPOSITION>(&s, v); break; default: ll::merge<ll::Algorithm::MERGE_AND_SPLIT>(&s, v); } }
    auto e = s.end(); for (auto it = s.begin(); it != e; ++it) if (rng.chance(30)) it.remove();
    s.sort(&ll::compare<ll::Algorithm::TRANSPOSITION>); ll::State u; u.add(new ll::Position(1, 1)); u.head(new ll::Position(0, 0)); u.remove(nullptr, u.head()); break;
  }
  case 11: { // nodes: replaced targets are given back
    ll::DawgNode *n = new ll::DawgNode(); for (int k = 0; k < 20; ++k) n->add_edge((char)rng.below(6), new ll::DawgNode(rng.chance(50)));
    std::hash<ll::DawgNode> h; sink += h(*n) + (std::size_t)(*n == *n); ll::SortedDawg d(n, 0); sink += d.size(); break;
  }
  case 12: { // several objects at once, destroyed in different orders
    auto a = make(t, rng), b = make(terms(rng), rng); if (!a || !b) break;
    sink += *a == *b; std::ostringstream o; o << *a; sink += std::hash<ll::Dawg>()(*a);
    auto *tr = new ll::Transducer<ll::Algorithm::MERGE_AND_SPLIT, std::string>(a->root()); auto *range = new ll::LazyIterator<std::string>((*tr)(near_term(t, rng), 2));
    auto *it = new ll::LazyQuery<std::string>(range->begin()); auto e = range->end(); if (rng.chance(50)) delete range, range = nullptr; if (*it != e) ++*it;
    b.reset(); delete it; delete range; delete tr; break;
  }
  default: { // default arguments and unusual words
    std::string nul(3, '\0'); TermSet u{"", nul, nul + "a", std::string(200, 'x'), "\xff\xfe", "\x80"}; auto d = make(u, rng); if (!d) break;
    ll::Transducer<ll::Algorithm::STANDARD, ll::Candidate> s(d->root()); ll::Transducer<ll::Algorithm::TRANSPOSITION, std::string> r(d->root());
    for (auto &c : s("")) sink += c.second; for (auto &c : s(nul)) sink += c.second; for (auto &c : r(std::string(199, 'x'))) sink += c.size(); for (auto &c : r("\xfe\xff", 1)) sink += c.size(); for (auto &c : s("ab", 0)) sink += c.second;
    std::unique_ptr<ll::Dawg> none(build({}, 0)); if (none) { ll::Transducer<ll::Algorithm::STANDARD, std::string> q(none->root()); for (auto &c : q("abc", 5)) sink += c.size(); for (const auto &c : *none) sink += c.size(); }
  }
  }
}

static void life_case(std::size_t idx, Rng &rng) {
  scenario(idx % KINDS, rng);
  ++drv.counts["scenarios"];
  ++drv.counts["scenario_kind_" + std::to_string(idx % KINDS)];
  drv.distinct.insert(rng.s);
  drv.sample("scenario kind " + std::to_string(idx % KINDS) + " with generator state " + std::to_string(rng.s) + " after it");
}

static void leak_case(std::size_t idx, Rng &rng) {
#ifdef COUNT_ALLOCATIONS
  const std::size_t reps = 7, warm = 2;
  uint64_t seed = rng.next();
  std::array<std::size_t, reps> blocks, bytes, files;
  std::size_t t0 = total_blocks;
  for (std::size_t r = 0; r < reps; ++r) {
    Rng same(seed);
    scenario(idx % KINDS, same);
    blocks[r] = live_blocks; bytes[r] = live_bytes; files[r] = open_files();
  }
  ++drv.counts["scenarios"];
  ++drv.counts["scenario_kind_" + std::to_string(idx % KINDS)];
  drv.counts["repetitions"] += reps;
  drv.counts["allocations_watched"] += total_blocks - t0;
  // growth that does not come with every repetition: does it go on?
  if (blocks[reps - 1] > blocks[warm] || bytes[reps - 1] > bytes[warm] || files[reps - 1] > files[warm]) {
    ++drv.counts["not_constant"];
    std::size_t grown_blocks = 0, grown_bytes = 0, grown_files = 0, lb = blocks[reps - 1], ly = bytes[reps - 1], lf = files[reps - 1];
    for (int round = 0; round < 4; ++round) {
      for (int r = 0; r < 12; ++r) { Rng same(seed); scenario(idx % KINDS, same); }
      grown_blocks += live_blocks > lb; grown_bytes += live_bytes > ly; std::size_t of = open_files(); grown_files += of > lf;
      lb = live_blocks; ly = live_bytes; lf = of;
    }
    if (grown_blocks == 4 || grown_bytes == 4) drv.violation("leak", "scenario kind " + std::to_string(idx % KINDS) + " leaves more and more memory behind (" + std::to_string(lb - blocks[warm]) + " blocks, " + std::to_string(ly - bytes[warm]) + " bytes after 52 repetitions)");
    if (grown_files == 4) drv.violation("files", "scenario kind " + std::to_string(idx % KINDS) + " leaves more and more files open");
  }
  // and different inputs, one after the other: nothing piles up
  if (idx / KINDS % 25 == 1) {
    std::array<std::size_t, 4> at;
    for (std::size_t part = 0; part < 4; ++part) {
      for (int r = 0; r < 15; ++r) { Rng other(rng.next()); scenario(idx % KINDS, other); }
      at[part] = live_blocks;
    }
    ++drv.counts["series_of_different_inputs"];
    if (at[1] > at[0] + 10 && at[2] > at[1] + 10 && at[3] > at[2] + 10) drv.violation("pile-up", "scenario kind " + std::to_string(idx % KINDS) + " with different inputs leaves more and more behind: " + std::to_string(at[0]) + ", " + std::to_string(at[1]) + ", " + std::to_string(at[2]) + ", " + std::to_string(at[3]) + " blocks after 15, 30, 45, 60 of them");
  }
  bool b = true, y = true, f = true;
  for (std::size_t r = warm + 1; r < reps; ++r) { b &= blocks[r] > blocks[r - 1]; y &= bytes[r] > bytes[r - 1]; f &= files[r] > files[r - 1]; }
  if (b || y) drv.violation("leak", "scenario kind " + std::to_string(idx % KINDS) + " leaves " + std::to_string(blocks[reps - 1] - blocks[reps - 2]) + " blocks (" + std::to_string(bytes[reps - 1] - bytes[reps - 2]) + " bytes) behind in every repetition");
  if (f) drv.violation("files", "scenario kind " + std::to_string(idx % KINDS) + " leaves an open file behind in every repetition");
  if (total_blocks - t0 > reps * 5) drv.distinct.insert(seed ^ idx % KINDS);
  drv.sample("scenario kind " + std::to_string(idx % KINDS) + " repeated " + std::to_string(reps) + " times: " + std::to_string(total_blocks - t0) + " allocations, live blocks " + std::to_string(blocks[warm]) + " -> " + std::to_string(blocks[reps - 1]));
#else
  (void)idx; (void)rng; fprintf(stderr, "built without allocation counting\n"); exit(3);
#endif
}

int main(int argc, char **argv) {
  drv.parse(argc, argv);
  if (drv.mode == "life") drv.for_cases(drv.cases, life_case);
  else if (drv.mode == "leak") drv.for_cases(drv.cases, leak_case);
  else { fprintf(stderr, "unknown mode\n"); return 3; }
  drv.counts["scenarios_observing_something"] = sink != 0;
  return drv.finish();
}
