// C06, C16: monitors of concurrent use. Run in a plain build (answers) and
// under ThreadSanitizer (races). The harness itself orders its threads by
// nothing but start and join: event tickets are relaxed, so that they add no
// happens-before edges that would hide a race.
#include "lib.h"
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>
#include <sched.h>
#include <liblevenshtein/distance/merge_and_split_distance.h>
#include <liblevenshtein/distance/standard_distance.h>
#include <liblevenshtein/distance/transposition_distance.h>
#include <liblevenshtein/serialization/serializer.h>
namespace ld = liblevenshtein::distance;

static Driver drv;

struct Log { // one per thread
  std::vector<std::pair<std::uint32_t, std::uint32_t>> events; // ticket, what
  std::string error, key;
  std::size_t ops = 0, results = 0;
};
static std::atomic<std::uint32_t> ticket{0};
static std::atomic<bool> go{false};
static std::atomic<bool> stop{false};

static void pause_a_little(Rng &rng) {
  switch (rng.below(8)) {
  case 0: sched_yield(); break;
  case 1: { timespec t{0, (long)rng.below(20000)}; nanosleep(&t, nullptr); break; }
  case 2: { volatile int sink = 0; for (int i = (int)rng.below(300); i > 0; --i) sink = i; }  break;
  default: break;
  }
}
static void event(Log &l, std::uint32_t what) { l.events.emplace_back(ticket.fetch_add(1, std::memory_order_relaxed), what); drv.beat.fetch_add(1, std::memory_order_relaxed); }

// Runs the bodies at the same time, then reports what they found.
static void together(std::size_t threads, uint64_t seed, const std::function<void(std::size_t, Rng &, Log &)> &body) {
  std::vector<Log> logs(threads);
  ticket.store(0); go.store(false); stop.store(false);
  std::vector<std::thread> ts;
  for (std::size_t i = 0; i < threads; ++i)
    ts.emplace_back([&, i] {
      Rng rng(seed, 1000 + i);
      while (!go.load(std::memory_order_relaxed)) {}
      body(i, rng, logs[i]);
    });
  go.store(true, std::memory_order_relaxed);
  for (auto &t : ts) t.join();
  std::vector<std::tuple<std::uint32_t, std::size_t, std::uint32_t>> all;
  for (std::size_t i = 0; i < threads; ++i) {
    drv.counts["operations"] += logs[i].ops;
    drv.counts["results"] += logs[i].results;
    for (auto &[t, w] : logs[i].events) all.emplace_back(t, i, w);
    if (!logs[i].error.empty() && drv.violations < 5) drv.violation(logs[i].key, "thread " + std::to_string(i) + " of " + std::to_string(threads) + ": " + logs[i].error);
  }
  std::sort(all.begin(), all.end());
  uint64_t h = 1469598103934665603ull;
  std::size_t switches = 0;
  for (std::size_t k = 0; k < all.size(); ++k) {
    h = (h ^ std::get<1>(all[k]) ^ (uint64_t)std::get<2>(all[k]) << 8) * 1099511628211ull;
    if (k && std::get<1>(all[k]) != std::get<1>(all[k - 1])) ++switches;
  }
  drv.counts["events"] += all.size();
  drv.counts["thread_switches"] += switches;
  ++drv.counts["histories"];
  if (switches > threads) {
    drv.distinct.insert(h);
    std::string s;
    for (std::size_t k = 0; k < all.size() && k < 48; ++k) s += std::to_string(std::get<1>(all[k]));
    drv.sample(std::to_string(threads) + " threads, " + std::to_string(all.size()) + " events, " + std::to_string(switches) + " switches; thread order starts " + s);
  }
}
static void fail(Log &l, const std::string &key, const std::string &e) { if (l.error.empty()) { l.key = key; l.error = e; } stop.store(true, std::memory_order_relaxed); }

// ------------------------------------------------------------ C06
using Expected = std::map<std::string, std::size_t>;
struct Question { int alg; std::string q; std::size_t n; Expected want; };

template <class T> static T copied(T &t, ll::DawgNode *root) {
  if constexpr (std::is_copy_constructible_v<T>) return T(t);
  else return T(root);
}

template <ll::Algorithm A>
static void ask(ll::Transducer<A, ll::Candidate> &tc, ll::Transducer<A, std::string> &ts, const Question &x, std::size_t qi, Rng &rng, Log &l, std::size_t limit) {
  event(l, (std::uint32_t)qi * 4);
  std::size_t k = 0;
  if (rng.chance(70)) {
    Expected got;
    auto range = tc(x.q, x.n);
    auto end = range.end();
    for (auto it = range.begin(); it != end; ++it) {
      if (!got.insert(*it).second) { fail(l, "answer", std::string(alg_name(x.alg)) + " '" + show(x.q) + "' yields a term twice"); return; }
      if (++k > limit) break;
      if (rng.chance(10)) { event(l, (std::uint32_t)qi * 4 + 1); pause_a_little(rng); }
      if (stop.load(std::memory_order_relaxed)) return;
    }
    if (got != x.want) { fail(l, "answer", std::string(alg_name(x.alg)) + " '" + show(x.q) + "' n=" + std::to_string(x.n) + " yields " + std::to_string(got.size()) + " results, expected " + std::to_string(x.want.size())); return; }
  } else {
    std::set<std::string> got;
    for (const std::string &t : ts(x.q, x.n)) {
      if (!got.insert(t).second || ++k > limit) { fail(l, "answer", std::string(alg_name(x.alg)) + " '" + show(x.q) + "' yields a term twice"); return; }
      if (rng.chance(10)) { event(l, (std::uint32_t)qi * 4 + 1); pause_a_little(rng); }
    }
    bool same = got.size() == x.want.size();
    for (auto &t : got) same &= x.want.count(t) != 0;
    if (!same) { fail(l, "answer", std::string(alg_name(x.alg)) + " '" + show(x.q) + "' as plain terms is wrong"); return; }
  }
  l.results += k; ++l.ops;
  event(l, (std::uint32_t)qi * 4 + 2);
}

static void queries_case(std::size_t idx, Rng &rng) {
  DpOracle dp;
  TermSet t;
  const bool large = idx % 24 == 5, lengthy = idx % 24 == 11, marathon = idx % 24 == 17;
  do {
    t = large ? vocabulary(rng, 1500) : rng.chance(50) ? vocabulary(rng, 120) : random_terms(rng, 30);
    if (lengthy) { std::string w = random_string(rng, rng.chance(50) ? "ab" : "abcst", 60, 260); t = {w, w.substr(0, w.size() / 2), "b"}; for (int k = 0; k < 4; ++k) t.insert(edited(rng, w, "abcst", 2)); }
  } while (t.size() < 3 || (!lengthy && t.rbegin()->size() > 30));
  if (large) ++drv.counts["histories_large_dictionaries"];
  if (lengthy) ++drv.counts["histories_long_terms"];
  if (marathon) ++drv.counts["histories_long"];
  std::vector<std::string> v(t.begin(), t.end());
  std::unique_ptr<ll::Dawg> d(build(t, (unsigned)rng.below(4)));
  if (!d) { drv.violation("build", "no dictionary"); return; }
  if (rng.chance(30)) { std::stringstream io; ll::serialize_protobuf(d.get(), io); d.reset(ll::deserialize_protobuf(io)); if (!d) { drv.violation("build", "round trip failed"); return; } }
  const ll::Dawg *cd = d.get();
  std::vector<Question> qs;
  for (int k = 0; k < 8; ++k) {
    Question x;
    x.alg = (int)rng.below(3); x.n = rng.below(4);
    x.q = rng.chance(85) ? edited(rng, rng.pick(v), "abcst", rng.below(3)) : random_string(rng, "ab", 0, 8);
    if (lengthy) x.n = rng.below(2);
    else if (x.q.size() > 30) x.q.resize(30);
    if (large) x.n = rng.below(3);
    for (auto &w : v) { std::size_t e = dp(x.alg, x.q, w); if (e <= x.n) x.want[w] = e; }
    qs.push_back(x);
  }
  // what is expected is taken from another dictionary of the same terms, so that the first use of the shared one is made by the threads
  std::unique_ptr<ll::Dawg> same(build(t, 0));
  if (!same) { drv.violation("build", "no dictionary"); return; }
  std::size_t h0 = std::hash<ll::Dawg>()(*same);
  const unsigned opening = (unsigned)rng.below(5); // what all threads do first
  bool shared = idx % 2 == 0, proto = drv.opt.count("proto") != 0;
  auto *root = d->root();
  ll::Transducer<ll::Algorithm::STANDARD, ll::Candidate> c0(root);
  ll::Transducer<ll::Algorithm::TRANSPOSITION, ll::Candidate> c1(root);
  ll::Transducer<ll::Algorithm::MERGE_AND_SPLIT, ll::Candidate> c2(root);
  ll::Transducer<ll::Algorithm::STANDARD, std::string> s0(root);
  ll::Transducer<ll::Algorithm::TRANSPOSITION, std::string> s1(root);
  ll::Transducer<ll::Algorithm::MERGE_AND_SPLIT, std::string> s2(root);
  std::size_t threads = rng.range(2, 8);
  ++drv.counts[shared ? "histories_sharing_transducers" : "histories_own_transducers"];
  together(threads, rng.next(), [&](std::size_t me, Rng &r, Log &l) {
    // every thread starts with the same questions, so that first uses collide
    for (std::size_t op = 0; op < (marathon ? 120u : 14u) && !stop.load(std::memory_order_relaxed); ++op) {
      unsigned kind = op == 0 && opening >= 2 ? 4 + opening : op < 3 ? 0 : (unsigned)r.below(10); // opening 2: iterate, 3: membership, 4: hash
      std::size_t qi = op < 3 ? op : r.below(qs.size());
      if (kind < 6) {
        const Question &x = qs[qi];
        if (shared) {
          if (x.alg == STD) ask(c0, s0, x, qi, r, l, v.size() + 2);
          else if (x.alg == TRN) ask(c1, s1, x, qi, r, l, v.size() + 2);
          else ask(c2, s2, x, qi, r, l, v.size() + 2);
        } else if (x.alg == STD) { ll::Transducer<ll::Algorithm::STANDARD, ll::Candidate> a(root); ll::Transducer<ll::Algorithm::STANDARD, std::string> b(root); ask(a, b, x, qi, r, l, v.size() + 2); }
        else if (x.alg == TRN) { auto a = copied(c1, root); ll::Transducer<ll::Algorithm::TRANSPOSITION, std::string> b(root); ask(a, b, x, qi, r, l, v.size() + 2); }
        else { ll::Transducer<ll::Algorithm::MERGE_AND_SPLIT, ll::Candidate> a(root); ll::Transducer<ll::Algorithm::MERGE_AND_SPLIT, std::string> b(root); ask(a, b, x, qi, r, l, v.size() + 2); }
      } else if (kind == 6) { // iterate over the whole dictionary
        event(l, 100);
        std::size_t k = 0; auto e = cd->end();
        std::set<std::string> got;
        for (auto it = cd->begin(); it != e && k <= v.size(); ++it, ++k) { got.insert(*it); if (r.chance(3)) pause_a_little(r); }
        if (got.size() != v.size() || !std::equal(got.begin(), got.end(), v.begin())) { fail(l, "iteration", "iteration yields another set of terms"); return; }
        ++l.ops; event(l, 101);
      } else if (kind == 7) {
        event(l, 102);
        for (int k = 0; k < 20; ++k) {
          std::string s = r.pick(v); if (r.chance(50)) s = edited(r, s, "abcst", 1);
          if (cd->contains(s) != (t.count(s) != 0)) { fail(l, "membership", "contains('" + show(s) + "') is wrong"); return; }
        }
        if (cd->size() != v.size()) { fail(l, "membership", "size() is wrong"); return; }
        ++l.ops; event(l, 103);
      } else if (kind == 8) { // comparing and hashing read the whole graph
        event(l, 104);
        if (std::hash<ll::Dawg>()(*cd) != h0 || !(*cd == *cd)) { fail(l, "hash", "the hash of the shared dictionary changed"); return; }
        ++l.ops; event(l, 105);
      } else { // unrelated dictionaries built, used and destroyed meanwhile
        event(l, 106);
        TermSet own; for (int k = 0; k < 12; ++k) own.insert(random_string(r, "abc", 0, 6));
        std::unique_ptr<ll::Dawg> m(build(own, (unsigned)(me % 4)));
        Rng pr(r.next());
        if (proto && r.chance(70)) {
          std::stringstream io; bool ok = ll::serialize_protobuf(r.chance(50) ? d.get() : m.get(), io);
          std::stringstream io2; ok = ok && ll::serialize_protobuf(m.get(), io2);
          m.reset(ll::deserialize_protobuf(io2));
          if (!ok || !m) { fail(l, "independent", "saving and loading failed"); return; }
        }
        std::string w = differs(m.get(), own, pr, 10);
        if (!w.empty()) { fail(l, "independent", "a dictionary of its own: " + w); return; }
        ++l.ops; event(l, 107);
      }
    }
  });
  if (drv.violations) return;
  std::string w = differs(cd, t, rng, 10);
  if (!w.empty()) drv.violation("dictionary-changed", w);
}

// ------------------------------------------------------------ C16
static void distance_case(std::size_t idx, Rng &rng) {
  int alg = (int)(idx % 3);
  std::unique_ptr<ld::Distance> f;
  if (alg == STD) f = std::make_unique<ld::StandardDistance>();
  else if (alg == TRN) f = std::make_unique<ld::TranspositionDistance>();
  else f = std::make_unique<ld::MergeAndSplitDistance>();
  DpOracle dp;
  struct P { std::string a, b; std::size_t d; };
  std::vector<P> ps;
  std::string al = rng.chance(50) ? "ab" : random_alphabet(rng);
  std::string base = random_string(rng, al, 6, 14); // pairs of one family share sub-problems
  const bool lengthy = idx % 24 >= 6 && idx % 24 < 9, marathon = idx % 24 >= 12 && idx % 24 < 15;
  if (lengthy) { base = random_string(rng, al, 60, 100); ++drv.counts["histories_long_words"]; }
  if (marathon) ++drv.counts["histories_long"];
  for (int k = 0; k < (lengthy ? 6 : marathon ? 300 : 24); ++k) {
    P p;
    if (rng.chance(8)) { p.a = rng.chance(50) ? "" : base; p.b = rng.chance(50) ? p.a : random_string(rng, al, 0, lengthy ? 400 : 6); if (lengthy && !p.a.empty()) p.b = p.a; p.d = dp(alg, p.a, p.b); ps.push_back(p); continue; }
    p.a = edited(rng, base.substr(rng.below(lengthy ? 4 : base.size())), al, rng.below(3)); p.b = edited(rng, base, al, rng.below(5));
    p.d = dp(alg, p.a, p.b); ps.push_back(p);
  }
  std::size_t threads = rng.range(2, 8);
  ++drv.counts[std::string("histories_") + alg_name(alg)];
  together(threads, rng.next(), [&](std::size_t me, Rng &r, Log &l) {
    for (std::size_t op = 0; op < (lengthy ? 10u : marathon ? 400u : 60u) && !stop.load(std::memory_order_relaxed); ++op) {
      std::size_t k = op < std::min<std::size_t>(8, ps.size()) ? op : r.below(ps.size()); // the same first questions at the same time
      bool flip = r.chance(50);
      event(l, (std::uint32_t)k * 2);
      std::size_t got = flip ? (*f)(ps[k].b, ps[k].a) : f->between(ps[k].a, ps[k].b);
      event(l, (std::uint32_t)k * 2 + 1);
      ++l.ops;
      if (got != ps[k].d) { fail(l, "distance", std::string(alg_name(alg)) + " distance of '" + show(ps[k].a) + "' and '" + show(ps[k].b) + "' is " + std::to_string(got) + ", expected " + std::to_string(ps[k].d)); return; }
      if (r.chance(10)) pause_a_little(r);
      if (me == 0 && op % 20 == 7) { ld::StandardDistance own; if (own("ab", "ba") != 2) fail(l, "distance", "an instance of its own is wrong"); }
    }
  });
}

int main(int argc, char **argv) {
  drv.parse(argc, argv);
  drv.watch_for_deadlock();
  if (drv.mode == "queries") drv.for_cases(drv.cases, queries_case);
  else if (drv.mode == "distance") drv.for_cases(drv.cases, distance_case);
  else { fprintf(stderr, "unknown mode\n"); return 3; }
  return drv.finish();
}
