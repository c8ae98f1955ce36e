// C01-C05, C19: monitors of queries.
#include "lib.h"
#include <memory>
#include <sstream>
#include <liblevenshtein/serialization/serializer.h>

static Driver drv;
static DpOracle dp;

// ------------------------------------------------------------ exactness
// The specification of one query: every dictionary term within the distance,
// exactly once, with its distance; nothing else; in both result formats.
template <int ALG>
void check_query(ll::Transducer<algorithm<ALG>(), ll::Candidate> &tc, ll::Transducer<algorithm<ALG>(), std::string> &ts,
                 const std::vector<std::string> &terms, const std::vector<std::size_t> &dist, const std::string &q, std::size_t n,
                 bool both) {
  ++drv.counts["queries"];
  auto ctx = [&] {
    return std::string(alg_name(ALG)) + " query='" + show(q) + "' max_distance=" + std::to_string(n) + " dictionary=" + show_all(terms);
  };
  std::size_t within = 0;
  for (std::size_t d : dist) within += d <= n;
  bool overrun;
  std::vector<ll::Candidate> got = run_candidates<algorithm<ALG>()>(tc, q, n, terms.size() + 2, overrun);
  std::map<std::string, std::size_t> seen;
  for (auto &[t, d] : got) {
    if (!seen.emplace(t, d).second) { drv.violation("duplicate", ctx() + " yields '" + show(t) + "' more than once"); return; }
  }
  for (std::size_t i = 0; i < terms.size(); ++i) {
    auto it = seen.find(terms[i]);
    if (dist[i] <= n) {
      if (it == seen.end()) { drv.violation("missing", ctx() + " does not yield '" + show(terms[i]) + "' at distance " + std::to_string(dist[i])); return; }
      if (it->second != dist[i]) { drv.violation("distance", ctx() + " yields '" + show(terms[i]) + "' with distance " + std::to_string(it->second) + ", expected " + std::to_string(dist[i])); return; }
    } else if (it != seen.end()) {
      drv.violation("too-far", ctx() + " yields '" + show(terms[i]) + "' (claimed distance " + std::to_string(it->second) + "), whose distance is " + std::to_string(dist[i])); return;
    }
  }
  if (seen.size() != within || overrun) { drv.violation("alien", ctx() + " yields terms that are not in the dictionary"); return; }
  drv.counts["results"] += within;
  drv.counts["term_verdicts"] += terms.size();
  if (both) {
    std::vector<std::string> s = run_terms<algorithm<ALG>()>(ts, q, n, terms.size() + 2, overrun);
    std::sort(s.begin(), s.end());
    std::vector<std::string> e;
    for (auto &[t, d] : seen) e.push_back(t);
    if (s != e) { drv.violation("format", ctx() + " yields as plain terms " + show_all(s) + ", expected " + show_all(e)); return; }
    ++drv.counts["plain_term_queries"];
  }
  bool partial = false;
  for (std::size_t d : dist) partial |= d > 0 && d <= n;
  if (partial && within < terms.size()) drv.distinct.insert(hash_str(q, n * 31 + terms.size() + (terms.empty() ? 0 : hash_str(terms[terms.size() / 2]))));
  if (partial && within < terms.size() && drv.samples.size() < 3 && within > 0)
    drv.sample(ctx() + " -> " + std::to_string(within) + " of " + std::to_string(terms.size()));
}

template <int ALG> struct Setup {
  std::vector<std::string> terms;
  std::unique_ptr<ll::Dawg> dawg;
  std::unique_ptr<ll::Transducer<algorithm<ALG>(), ll::Candidate>> tc;
  std::unique_ptr<ll::Transducer<algorithm<ALG>(), std::string>> ts;
  bool ok = true;
  Setup(const TermSet &t, unsigned route) : terms(t.begin(), t.end()) {
    dawg.reset(build(t, route));
    if (!dawg) { ok = false; drv.violation("build", "no dictionary was built from sorted terms " + show_all(terms)); return; }
    tc = std::make_unique<ll::Transducer<algorithm<ALG>(), ll::Candidate>>(dawg->root());
    ts = std::make_unique<ll::Transducer<algorithm<ALG>(), std::string>>(dawg->root());
  }
  std::vector<std::size_t> distances(const std::string &q) {
    std::vector<std::size_t> r;
    for (auto &w : terms) r.push_back(dp(ALG, q, w));
    return r;
  }
  void query(const std::string &q, const std::vector<std::size_t> &ns, bool both) {
    if (!ok) return;
    std::vector<std::size_t> d = distances(q);
    for (std::size_t n : ns) check_query<ALG>(*tc, *ts, terms, d, q, n, both);
  }
};

static std::size_t extreme(Rng &rng) {
  static const std::size_t v[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 - 1, SIZE_MAX / 2 + 1, (std::size_t)1 << 63, ((std::size_t)1 << 32) - 1,
                                  (std::size_t)1 << 32, ((std::size_t)1 << 32) + 1, ((std::size_t)1 << 31) - 1, (std::size_t)1 << 31, 65535, 65536, 256, 255, 128, 100, 64, 32, 20};
  return v[rng.below(sizeof v / sizeof *v)];
}

// Exhaustive part: every query over a small alphabet against the dictionary of
// every term over it. Case = one slice of the queries.
struct Exhaustive { std::size_t k, L, Q, N; };
template <int ALG> void exhaustive(const Exhaustive &e, std::size_t slice, std::size_t slices, const std::string &letters) {
  std::string al = letters.substr(0, e.k);
  std::vector<std::string> all = all_strings(al, e.L), qs = all_strings(al, e.Q);
  Setup<ALG> s(TermSet(all.begin(), all.end()), 0);
  std::vector<std::size_t> ns;
  for (std::size_t n = 0; n <= e.N; ++n) ns.push_back(n);
  for (std::size_t i = slice; i < qs.size() && drv.violations < 3; i += slices) { s.query(qs[i], ns, i % 5 == 0); ++drv.counts["exhaustive_queries"]; }
}

template <int ALG> void exact_case(std::size_t idx, Rng &rng) {
  // the first cases are the exhaustive part, the same for every seed
  static const std::vector<Exhaustive> small = {{2, 6, 8, 5}, {3, 4, 6, 4}, {4, 3, 5, 4}, {1, 9, 12, 6}, {5, 3, 4, 3}};
  static const std::vector<Exhaustive> deep = {{2, 8, 10, 6}, {3, 6, 7, 5}, {4, 5, 6, 4}, {1, 14, 18, 9}, {5, 4, 5, 4}, {6, 3, 5, 4}};
  const auto &spec = drv.scale > 1 ? deep : small;
  const std::size_t slices = drv.scale > 1 ? 64 : 16;
  if (idx < spec.size() * slices) {
    static const std::vector<std::string> letters = {"abcdef", std::string("\x00\xff\x80\x7f" "a\xfe", 6), "zyxwvu"};
    exhaustive<ALG>(spec[idx / slices], idx % slices, slices, letters[(idx + drv.seed) % letters.size()]);
    return;
  }
  idx -= spec.size() * slices;
  std::string al = random_alphabet(rng);
#if !defined(__SANITIZE_ADDRESS__)
  if (idx >= 3 && idx < 20) { // very long queries: lengths, windows and distances beyond 16 bits
    static const std::size_t ls[] = {32767, 32768, 65535, 65536, 65537, 65540, 131071, 131073, 100000};
    TermSet t{"", random_string(rng, al, 1, 2), random_string(rng, al, 3, 4), random_string(rng, "PQ", 2, 4), random_string(rng, "PQ", 1, 1)};
    Setup<ALG> s(t, (unsigned)rng.below(4));
    std::size_t L = ls[rng.below(9)];
    std::string q = idx == 3 ? random_string(rng, "abcdef", L, L) : random_string(rng, al, L, L);
    if (al.size() < 5 && ALG != STD) q = random_string(rng, "abcdefgh", L, L);
    s.query(q, {SIZE_MAX, L, L - 1, L - 4, L + 5, L - 65536, 2, 0}, true);
    // what matches comes last: indexes beyond 16 bits
    std::string tail = edited(rng, s.terms.back(), al, rng.below(2));
    std::string v = std::string(L, '#') + tail;
    s.query(rng.chance(50) ? v : v + std::string(rng.below(3), '%'), {SIZE_MAX, L + 2, L, L - 1}, true);
    ++drv.counts["very_long_queries"];
    return;
  }
  if (idx == 20) { // one transducer, more queries than 16 bits count
    TermSet t = random_terms(rng, 12);
    for (int i = 0; i < 4; ++i) t.insert(random_string(rng, al, 0, 4));
    Setup<ALG> s(t, (unsigned)rng.below(4));
    if (!s.ok) return;
    std::vector<std::string> qs; std::vector<std::vector<std::size_t>> ds;
    for (int i = 0; i < 700; ++i) { qs.push_back(random_string(rng, al, 0, 4)); ds.push_back(s.distances(qs.back())); }
    for (std::size_t i = 0; i < 68000 && drv.violations < 3; ++i) { std::size_t k = rng.below(qs.size()); check_query<ALG>(*s.tc, *s.ts, s.terms, ds[k], qs[k], rng.below(2), i % 3 == 0); ++drv.counts["queries_of_one_transducer"]; }
    return;
  }
  if (idx < 3) { // dictionaries beyond 65536 terms or nodes, or thousands deep
    ++drv.counts["huge_dictionaries"];
    Setup<ALG> s(huge_terms(rng, (unsigned)idx), (unsigned)rng.below(4));
    if (!s.ok) return;
    if (idx == 2) {
      std::string q = rng.pick(s.terms);
      s.query(edited(rng, q, q, 1), {0, 1}, true);
      return;
    }
    for (int k = 0; k < 3; ++k) s.query(edited(rng, rng.pick(s.terms), al, rng.below(3)), {rng.below(3)}, k == 0);
    s.query(random_string(rng, "ab", 0, 2), {SIZE_MAX}, true);
    return;
  }
#endif
  switch (idx % 10) {
  case 0: case 1: case 2: { // random dictionary, random or near queries
    TermSet t = random_terms(rng);
    Setup<ALG> s(t, (unsigned)rng.below(4));
    for (int k = 0; k < 6; ++k) {
      std::string q;
      if (!s.terms.empty() && rng.chance(80)) {
        q = rng.pick(s.terms);
        std::string a = q.empty() ? al : rng.chance(70) ? q + al[0] : al;
        q = edited(rng, q, a, rng.below(5));
      } else q = random_string(rng, al, 0, 12);
      std::vector<std::size_t> ns{rng.below(3), rng.below(6)};
      if (rng.chance(15) && q.size() <= 12) ns.push_back(extreme(rng));
      bool longish = false;
      for (auto &w : s.terms) longish |= w.size() > 40;
      if (longish) for (auto &n : ns) n = std::min<std::size_t>(n, 4);
      s.query(q, ns, k == 0);
    }
    break;
  }
  case 3: case 4: case 5: { // tiny alphabets: dense collisions of paths
    std::string tiny = al.substr(0, std::min<std::size_t>(al.size(), rng.range(2, 4)));
    TermSet t;
    for (std::size_t i = 0, k = rng.range(1, 60); i < k; ++i) t.insert(random_string(rng, tiny, 0, 11));
    Setup<ALG> s(t, (unsigned)rng.below(4));
    for (int k = 0; k < 6; ++k) s.query(random_string(rng, tiny, 0, 12), {rng.below(3), rng.chance(15) ? rng.range(8, 14) : rng.range(1, 7)}, k == 0);
    break;
  }
  case 6: case 7: { // edits applied to a word, including periodic ones
    std::size_t len = rng.range(4, 24);
    std::string w = rng.chance(40) ? periodic(rng, al, len) : random_string(rng, al, len, len);
    std::string a2 = rng.chance(60) ? w : al;
    TermSet t;
    for (int i = 0; i < 40; ++i) t.insert(edited(rng, w, a2, rng.below(6)));
    Setup<ALG> s(t, (unsigned)rng.below(4));
    for (int k = 0; k < 4; ++k) s.query(edited(rng, w, a2, rng.below(4)), {rng.below(3), rng.range(1, 6)}, k == 0);
    break;
  }
  case 8: { // long terms: across 64, 128, 256, 512
    static const std::size_t ls[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 254, 255, 256, 257, 300, 511, 513};
    std::size_t len = ls[rng.below(17)];
    std::string w = rng.chance(40) ? periodic(rng, al, len) : random_string(rng, al, len, len);
    std::string a2 = rng.chance(60) ? w : al;
    TermSet t;
    for (int i = 0; i < 5; ++i) t.insert(edited(rng, w, a2, rng.below(5)));
    t.insert(w);
    t.insert(w.substr(0, len / 2));
    Setup<ALG> s(t, (unsigned)rng.below(4));
    for (int k = 0; k < 2; ++k) s.query(edited(rng, w, a2, rng.below(4)), {rng.range(0, 1), rng.range(2, len > 200 ? 3 : 5)}, k == 0);
    if (len <= 65) s.query(edited(rng, w, a2, 2), {rng.range(6, 9)}, false);
    if ((idx / 10) % 4 == 1) { // wide windows and many errors: bounds of the order of the length
      // (the library's effort grows with a high power of the bound where letters match)
      std::size_t ns[] = {extreme(rng), len, len / 2}, n = ns[rng.below(3)];
      switch (rng.below(4)) {
      case 0: { // nothing matches
        std::size_t m = ALG == MAS ? std::min<std::size_t>(len, 33) : len;
        Setup<ALG> f(TermSet{random_string(rng, "PQ", m - 3, m + 3), "P"}, 0);
        f.query(random_string(rng, "abc", m, m), {n}, false);
        if (ALG == MAS) { // twice or half as long: splits or merges all the way
          std::size_t h = rng.range(12, 20);
          Setup<ALG> g(TermSet{random_string(rng, "PQ", 2 * h - 2, 2 * h + 1), random_string(rng, "PQ", h / 2, h / 2 + 1), random_string(rng, "PQa", h, h)}, 0);
          g.query(random_string(rng, "abc", h, h), {n, h, h - 1}, false);
          ++drv.counts["wide_splits"];
        }
        break;
      }
      case 1: { // a long query and short terms
        Setup<ALG> f(TermSet{"", random_string(rng, al, 1, 6), random_string(rng, al, 1, 9)}, 0);
        f.query(random_string(rng, al, len, len), {rng.chance(50) ? SIZE_MAX : len + 9}, false);
        break;
      }
      case 2: { // short queries and a long term
        Setup<ALG> f(TermSet{w, w.substr(0, len - 1)}, 0);
        f.query(random_string(rng, al, 0, 5), {rng.chance(50) ? SIZE_MAX : len + 9, len, len - 1}, false);
        break;
      }
      default: {
        std::size_t m = rng.range(14, ALG == MAS ? 18 : 24);
        std::string v = rng.chance(40) ? periodic(rng, al, m) : random_string(rng, al, m, m);
        Setup<ALG> f(TermSet{edited(rng, v, al, m / 3), random_string(rng, al, m, m), v, v.substr(m / 3)}, 0);
        f.query(v, {n, m / 2}, false);
      }
      }
      ++drv.counts["wide_queries"];
    }
    break;
  }
  default: { // a vocabulary
    std::size_t n = (idx / 10) % 8 == 0 ? 4000 * std::min<std::size_t>(drv.scale, 5) : 300;
    TermSet t = vocabulary(rng, n);
    if (rng.chance(30)) t.insert("");
    Setup<ALG> s(t, (unsigned)rng.below(4));
    for (int k = 0; k < 4; ++k) {
      std::string q = edited(rng, rng.pick(s.terms), "abcdefghijklmnopqrstuvwxyz", rng.below(4));
      s.query(q, {rng.below(4)}, k == 0);
    }
    if (n == 300) s.query(random_string(rng, "aeinrst", 0, 3), {extreme(rng)}, true);
  }
  }
}

// ------------------------------------------------------------ C04: formats
template <int ALG> void formats_case(std::size_t idx, Rng &rng) {
  TermSet t = rng.chance(20) ? vocabulary(rng, 400) : random_terms(rng);
  const bool wide = (idx / 3) % 8 == 0; // words of some length and bounds of that order
  if (wide) {
    std::string a2 = random_alphabet(rng);
    std::size_t m = rng.range(ALG == MAS ? 12 : 16, ALG == MAS ? 19 : 28);
    std::string v = rng.chance(40) ? periodic(rng, a2, m) : random_string(rng, a2, m, m);
    t = TermSet{v, edited(rng, v, a2, rng.below(6)), edited(rng, v, a2, m / 2), random_string(rng, a2, m, m), random_string(rng, "PQ", m - 4, m), v.substr(rng.below(m)), ""};
  }
  Setup<ALG> s(t, (unsigned)rng.below(4));
  if (!s.ok) return;
  std::string al = random_alphabet(rng);
  for (int k = 0; k < 4; ++k) {
    std::string q = s.terms.empty() || rng.chance(20) ? random_string(rng, al, 0, 8) : edited(rng, rng.pick(s.terms), al, rng.below(4));
    bool longish = q.size() > 40;
    std::size_t n = rng.below(longish ? 3 : 5);
    if (!longish && rng.chance(10) && q.size() < 10) n = extreme(rng);
    bool o1, o2, o3, o4;
    auto c = run_candidates<algorithm<ALG>()>(*s.tc, q, n, s.terms.size() + 2, o1);
    auto p = run_terms<algorithm<ALG>()>(*s.ts, q, n, s.terms.size() + 2, o2);
    std::vector<std::string> ct;
    for (auto &x : c) ct.push_back(x.first);
    std::sort(ct.begin(), ct.end()); std::sort(p.begin(), p.end());
    ++drv.counts["pairs_compared"];
    drv.counts["results"] += ct.size();
    if (ct != p || o1 || o2) {
      drv.violation("formats-differ", std::string(alg_name(ALG)) + " query='" + show(q) + "' n=" + std::to_string(n) + " candidates " + show_all(ct) + " but plain terms " + show_all(p));
      return;
    }
    if (!ct.empty() && ct.size() < s.terms.size()) { drv.distinct.insert(hash_str(q, n + hash_str(s.terms[0]))); if (q.size() < 30) drv.sample(std::string(alg_name(ALG)) + " '" + show(q) + "' n=" + std::to_string(n) + ": " + std::to_string(ct.size()) + " results in both formats"); }
    // the distance defaults to 2
    std::vector<ll::Candidate> dflt, two;
    std::vector<std::string> sdflt;
    for (auto &x : (*s.tc)(q)) { dflt.push_back(x); if (dflt.size() > s.terms.size() + 2) break; }
    for (auto &x : (*s.ts)(q)) { sdflt.push_back(x); if (sdflt.size() > s.terms.size() + 2) break; }
    two = run_candidates<algorithm<ALG>()>(*s.tc, q, 2, s.terms.size() + 2, o3);
    auto stwo = run_terms<algorithm<ALG>()>(*s.ts, q, 2, s.terms.size() + 2, o4);
    std::sort(dflt.begin(), dflt.end()); std::sort(two.begin(), two.end()); std::sort(sdflt.begin(), sdflt.end()); std::sort(stwo.begin(), stwo.end());
    ++drv.counts["default_distance_queries"];
    if (dflt != two || sdflt != stwo) {
      drv.violation("default-distance", std::string(alg_name(ALG)) + " query='" + show(q) + "' without a distance yields " + std::to_string(dflt.size()) + "/" + std::to_string(sdflt.size()) + " results, with 2 " + std::to_string(two.size()) + "/" + std::to_string(stwo.size()));
      return;
    }
    // distances are those of the pair, and never above the bound
    for (auto &[w, d] : c) if (d > n || d != dp(ALG, q, w)) { drv.violation("candidate-distance", std::string(alg_name(ALG)) + " '" + show(q) + "' -> '" + show(w) + "' claimed " + std::to_string(d) + " real " + std::to_string(dp(ALG, q, w))); return; }
    // larger bounds only add results, whichever two bounds are compared
    std::size_t longest = q.size();
    for (auto &w : s.terms) longest = std::max(longest, w.size());
    if (!longish) {
      std::size_t top = longest <= 12 ? (rng.chance(30) ? extreme(rng) : rng.range(n < SIZE_MAX - 20 ? n + 1 : n, n < SIZE_MAX - 20 ? n + 9 : n)) : longest <= 40 ? n + rng.range(1, 3) : n + 1;
      if (longest > 12 && top > 6) top = 6;
      if (wide) top = rng.chance(20) && longest <= 22 && ALG != MAS ? extreme(rng) : rng.range(6, ALG == MAS ? 11 : 14);
      std::size_t lo = std::min(n, top), hi = std::max(n, top);
      if (lo < hi) {
        auto c1 = lo == n ? c : run_candidates<algorithm<ALG>()>(*s.tc, q, lo, s.terms.size() + 2, o1);
        auto c2 = hi == n ? c : run_candidates<algorithm<ALG>()>(*s.tc, q, hi, s.terms.size() + 2, o1);
        std::set<ll::Candidate> big(c2.begin(), c2.end()), small(c1.begin(), c1.end());
        for (auto &x : c1) if (!big.count(x)) { drv.violation("monotone", std::string(alg_name(ALG)) + " '" + show(q) + "' -> '" + show(x.first) + "' is a result for " + std::to_string(lo) + " but not for " + std::to_string(hi)); return; }
        for (auto &x : c2) if (x.second <= lo && !small.count(x)) { drv.violation("monotone", std::string(alg_name(ALG)) + " '" + show(q) + "' -> '" + show(x.first) + "' at distance " + std::to_string(x.second) + " is a result for " + std::to_string(hi) + " but not for " + std::to_string(lo)); return; }
        ++drv.counts["monotonicity_checks"];
        if (hi > 6) ++drv.counts["monotonicity_checks_with_wide_bounds"];
        // the plain format of the other bound too
        std::size_t m = lo == n ? hi : lo;
        auto pm = run_terms<algorithm<ALG>()>(*s.ts, q, m, s.terms.size() + 2, o2);
        std::set<std::string> a(pm.begin(), pm.end()), b;
        for (auto &x : m == hi ? c2 : c1) b.insert(x.first);
        if (a != b || pm.size() != b.size()) { drv.violation("formats-differ", std::string(alg_name(ALG)) + " query='" + show(q) + "' n=" + std::to_string(m) + " candidates " + std::to_string(b.size()) + " but plain terms " + std::to_string(pm.size())); return; }
        ++drv.counts["pairs_compared"];
      }
    }
  }
}

// ------------------------------------------------------------ C05: isolation
// A history of operations on shared transducers and many open result iterators.
// The online monitor knows for every iterator which results are still due.
using Multi = std::map<ll::Candidate, int>;
template <class R> struct Conv;
template <> struct Conv<ll::Candidate> { static ll::Candidate key(const ll::Candidate &c) { return c; } static ll::Candidate make(const std::string &t, std::size_t d) { return {t, d}; } };
template <> struct Conv<std::string> { static ll::Candidate key(const std::string &c) { return {c, 0}; } static ll::Candidate make(const std::string &t, std::size_t) { return {t, 0}; } };

struct AnyIter {
  std::string what;
  Multi due;
  std::size_t ndue = 0, steps = 0;
  virtual ~AnyIter() = default;
  virtual bool done() = 0;
  virtual ll::Candidate value() = 0;
  virtual void advance() = 0;
  virtual AnyIter *copy() = 0;
  virtual bool assign_from(AnyIter *) = 0;
};
template <class R> struct IterOf : AnyIter {
  ll::LazyQuery<R> it, end;
  IterOf(const ll::LazyQuery<R> &i) : it(i) {}
  template <class Range> IterOf(Range &range, int) : it(range.begin()), end(range.end()) {}
  bool done() override { return !(it != end); }
  ll::Candidate value() override { return Conv<R>::key(*it); }
  void advance() override { ++it; }
  AnyIter *copy() override { auto *c = new IterOf<R>(it); c->what = what + "(copy)"; c->due = due; c->ndue = ndue; c->steps = steps; return c; }
  bool assign_from(AnyIter *o) override {
    auto *p = dynamic_cast<IterOf<R> *>(o);
    if (!p) return false;
    it = p->it; due = p->due; ndue = p->ndue; what = p->what + "(assigned)"; steps = p->steps;
    return true;
  }
};

// The terms of the dictionary themselves; past the end it is not advanced.
struct TermIter : AnyIter {
  decltype(std::declval<ll::Dawg &>().begin()) it, end;
  TermIter(decltype(it) i, decltype(it) e) : it(i), end(e) {}
  bool done() override { return it == end; }
  ll::Candidate value() override { return {*it, 0}; }
  void advance() override { if (!done()) ++it; }
  AnyIter *copy() override { auto *c = new TermIter(it, end); c->what = what + "(copy)"; c->due = due; c->ndue = ndue; c->steps = steps; return c; }
  bool assign_from(AnyIter *o) override {
    auto *p = dynamic_cast<TermIter *>(o);
    if (!p) return false;
    it = p->it; end = p->end; due = p->due; ndue = p->ndue; what = p->what + "(assigned)"; steps = p->steps;
    return true;
  }
};

template <class R, ll::Algorithm A> struct Transducers {
  std::vector<std::unique_ptr<ll::Transducer<A, R>>> v;
  ll::DawgNode *root;
  explicit Transducers(ll::DawgNode *r) : root(r) { fresh(); }
  void fresh() { v.push_back(std::make_unique<ll::Transducer<A, R>>(root)); }
  void grow(bool moved) { // as a growing vector does it: by copying or moving, and dropping the old one
    if constexpr (std::is_copy_constructible_v<ll::Transducer<A, R>>) v.push_back(std::make_unique<ll::Transducer<A, R>>(*v[0]));
    if constexpr (std::is_move_constructible_v<ll::Transducer<A, R>>)
      if (moved) { auto m = std::make_unique<ll::Transducer<A, R>>(std::move(*v[0])); v[0] = std::move(m); }
  }
};

struct World {
  TermSet terms;
  std::vector<std::string> tv;
  std::unique_ptr<ll::Dawg> dawg;
  ll::DawgNode *other_root = nullptr;
  std::vector<std::unique_ptr<AnyIter>> its;
  std::unique_ptr<Transducers<ll::Candidate, ll::Algorithm::STANDARD>> c0;
  std::unique_ptr<Transducers<ll::Candidate, ll::Algorithm::TRANSPOSITION>> c1;
  std::unique_ptr<Transducers<ll::Candidate, ll::Algorithm::MERGE_AND_SPLIT>> c2;
  std::unique_ptr<Transducers<std::string, ll::Algorithm::STANDARD>> s0;
  std::unique_ptr<Transducers<std::string, ll::Algorithm::TRANSPOSITION>> s1;
  std::unique_ptr<Transducers<std::string, ll::Algorithm::MERGE_AND_SPLIT>> s2;

  template <int ALG, class R, ll::Algorithm A> void open(Transducers<R, A> &t, Rng &rng, const std::string &q0, std::size_t n) {
    auto fill = [&](AnyIter *a, const std::string &how) {
      for (auto &w : tv) { std::size_t d = dp(ALG, q0, w); if (d <= n) { ++a->due[Conv<R>::make(w, d)]; ++a->ndue; } }
      a->what = std::string(alg_name(ALG)) + " '" + show(q0) + "' n=" + std::to_string(n) + " " + how;
      its.emplace_back(a);
      ++drv.counts["iterators_opened"];
    };
    using Tr = ll::Transducer<A, R>;
    using Range = ll::LazyIterator<R>;
    auto &tr = *t.v[rng.below(t.v.size())];
    switch (rng.below(7)) {
    case 6: { // a copy of a range that is gone, or has been used
      auto range = std::make_unique<ll::LazyIterator<R>>(tr(q0, n));
      if (rng.chance(40)) { auto i = range->begin(); auto e = range->end(); for (int k = 0; k < 3 && i != e; ++k) ++i; }
      bool assign = rng.chance(30);
      ++drv.counts["range_copies"];
      if constexpr (std::is_copy_constructible_v<Range>) {
        Range copy(*range);
        if constexpr (std::is_copy_assignable_v<Range>)
          if (assign) { Range other(tr(q0 + "y", n + 1)); other = copy; range.reset(); fill(new IterOf<R>(other, 0), "assigned range"); break; }
        range.reset(); fill(new IterOf<R>(copy, 0), "copied range");
      }
      break;
    }
    case 5: { // a transducer that was another one before, and may have been used
      if constexpr (std::is_copy_assignable_v<Tr>) {
        Tr other(other_root ? other_root : t.root);
        if (rng.chance(50)) { std::size_t k = 0; for (auto &x : other(q0 + "z", n ? n - 1 : 1)) { (void)x; if (++k > 3) break; } }
        other = tr;
        fill(new IterOf<R>(other(q0, n).begin()), "assigned transducer");
      }
      ++drv.counts["transducer_assignments"];
      break;
    }
    case 0: { // the argument is a temporary, the range object dies before the iterator is used
      auto *a = new IterOf<R>(tr(std::string(q0), n).begin());
      fill(a, "temporary range");
      break;
    }
    case 1: { // the argument changes after the call
      auto q = std::make_unique<std::string>(q0);
      auto range = tr(*q, n);
      for (auto &ch : *q) ch = (char)(ch + 1);
      q.reset();
      fill(new IterOf<R>(range, 0), "argument overwritten");
      break;
    }
    case 2: { // two traversals of one range
      auto range = tr(q0, n);
      fill(new IterOf<R>(range, 0), "first of two");
      fill(new IterOf<R>(range, 0), "second of two");
      break;
    }
    case 3: { // a copied transducer
      if constexpr (std::is_copy_constructible_v<Tr>) { // and some of the later ones are made from copies
        auto copy = std::make_unique<Tr>(tr);
        auto range = (*copy)(q0, n);
        fill(new IterOf<R>(range, 0), "copied transducer");
        if (t.v.size() < 4) t.v.push_back(std::move(copy));
      }
      break;
    }
    default: {
      auto range = tr(q0, n);
      fill(new IterOf<R>(range, 0), "plain");
    }
    }
  }

  void open_terms() {
    auto *a = new TermIter(dawg->begin(), dawg->end());
    for (auto &w : tv) { ++a->due[{w, 0}]; ++a->ndue; }
    a->what = "iteration over the terms";
    its.emplace_back(a);
    ++drv.counts["term_iterators_opened"];
  }

  // Advances one iterator by one result and checks it against what is due.
  bool step(AnyIter &a) {
    ++drv.counts["iterator_steps"];
    if (a.done()) {
      if (a.ndue != 0) { drv.violation("ended-early", a.what + " ended after " + std::to_string(a.steps) + " results with " + std::to_string(a.ndue) + " still due, e.g. '" + show(a.due.begin()->first.first) + "'; dictionary " + show_all(tv)); return false; }
      a.advance(); // beyond the end: stays at the end
      if (!a.done()) { drv.violation("past-end", a.what + " yields another result after its end"); return false; }
      return false;
    }
    ll::Candidate v = a.value(), again = a.value();
    auto f = a.due.find(v);
    if (f == a.due.end() || v != again) { drv.violation("unexpected", a.what + " yields ('" + show(v.first) + "'," + std::to_string(v.second) + "), which is not due; dictionary " + show_all(tv)); return false; }
    if (--f->second == 0) a.due.erase(f);
    --a.ndue; ++a.steps;
    a.advance();
    return true;
  }
};

static std::string proto_bytes(ll::Dawg *d) {
  std::ostringstream o;
  ll::serialize_protobuf(d, o);
  return o.str();
}

// Dictionaries that live one after the other, nearly alike and often at the same
// addresses, are asked the same queries.
template <int ALG> bool ask_all(ll::DawgNode *root, const std::vector<std::string> &tv, const std::vector<std::pair<std::string, std::size_t>> &qs, Rng &rng, std::size_t life) {
  ll::Transducer<algorithm<ALG>(), ll::Candidate> tc(root);
  ll::Transducer<algorithm<ALG>(), std::string> ts(root);
  for (auto &[q, n] : qs) {
    std::map<std::string, std::size_t> want;
    for (auto &w : tv) { std::size_t d = dp(ALG, q, w); if (d <= n) want[w] = d; }
    bool over, plain = rng.chance(30), same;
    std::size_t many;
    if (plain) {
      auto got = run_terms<algorithm<ALG>()>(ts, q, n, tv.size() + 2, over);
      many = got.size(); same = many == want.size();
      for (auto &g : got) same = same && want.erase(g);
    } else {
      auto got = run_candidates<algorithm<ALG>()>(tc, q, n, tv.size() + 2, over);
      many = got.size(); same = many == want.size();
      for (auto &[g, d] : got) { auto f = want.find(g); same = same && f != want.end() && f->second == d; }
    }
    ++drv.counts["queries_in_later_lives"];
    drv.counts["iterator_steps"] += many;
    if (!same) { drv.violation("earlier-dictionary", std::string(alg_name(ALG)) + " '" + show(q) + "' n=" + std::to_string(n) + " gives " + std::to_string(many) + " results that are not those due, after " + std::to_string(life) + " similar dictionaries were built, queried and destroyed; dictionary " + show_all(tv)); return false; }
  }
  return true;
}
static void phoenix_case(Rng &rng) {
  std::string al = random_alphabet(rng);
  TermSet t = rng.chance(20) ? vocabulary(rng, 150) : random_terms(rng, 20);
  if (t.empty()) t.insert("a");
  std::vector<std::pair<std::string, std::size_t>> qs;
  for (int k = 0; k < 6; ++k) qs.emplace_back(edited(rng, *std::next(t.begin(), (long)rng.below(t.size())), al, rng.below(3)), rng.below(3));
  std::vector<std::string> pool;
  for (auto &x : qs) pool.push_back(x.first);
  uintptr_t earlier = 0;
  std::size_t size = 0;
  unsigned route = (unsigned)rng.below(4);
  for (std::size_t life = 0; life < 10; ++life) {
    if (life) t = nearly(t, rng, al, pool);
    std::vector<std::string> tv(t.begin(), t.end());
    auto home = std::make_unique<Reclaim>(earlier, size);
    std::unique_ptr<ll::Dawg> d(build(t, route));
    home.reset();
    if (!d) { drv.violation("build", "no dictionary"); return; }
    if ((uintptr_t)d->root() == earlier) ++drv.counts["roots_at_an_earlier_address"];
    earlier = (uintptr_t)d->root(); size = sizeof(ll::DawgNode);
    if (!ask_all<STD>(d->root(), tv, qs, rng, life) || !ask_all<TRN>(d->root(), tv, qs, rng, life) || !ask_all<MAS>(d->root(), tv, qs, rng, life)) return;
    ++drv.counts["dictionaries_in_succession"];
  }
}

void isolation_case(std::size_t idx, Rng &rng) {
  if (idx % 8 == 5) { phoenix_case(rng); return; }
  // one or two dictionaries, so that queries that look alike may belong to different ones
  std::vector<std::unique_ptr<World>> ws;
  std::vector<std::string> before;
  bool longish = false;
  for (std::size_t nw = rng.chance(40) ? 2 : 1; nw--;) {
    ws.push_back(std::make_unique<World>());
    World &w = *ws.back();
    if (ws.size() == 2 && rng.chance(60)) { // nearly the same dictionary
      w.terms = ws[0]->terms;
      for (std::size_t k = rng.range(1, 4); k--;) {
        if (!w.terms.empty() && rng.chance(50)) w.terms.erase(std::next(w.terms.begin(), (long)rng.below(w.terms.size())));
        else w.terms.insert(w.terms.empty() ? std::string("a") : edited(rng, *std::next(w.terms.begin(), (long)rng.below(w.terms.size())), "ab", 1));
      }
    } else
      do { w.terms = rng.chance(15) ? vocabulary(rng, 150) : random_terms(rng, 25); } while (w.terms.empty() && rng.chance(70));
    for (auto &t : w.terms) longish |= t.size() > 40;
    w.tv.assign(w.terms.begin(), w.terms.end());
    w.dawg.reset(build(w.terms, (unsigned)rng.below(4)));
    if (!w.dawg) { drv.violation("build", "no dictionary"); return; }
    before.push_back(proto_bytes(w.dawg.get()));
    auto *r = w.dawg->root();
    w.c0 = std::make_unique<Transducers<ll::Candidate, ll::Algorithm::STANDARD>>(r);
    w.c1 = std::make_unique<Transducers<ll::Candidate, ll::Algorithm::TRANSPOSITION>>(r);
    w.c2 = std::make_unique<Transducers<ll::Candidate, ll::Algorithm::MERGE_AND_SPLIT>>(r);
    w.s0 = std::make_unique<Transducers<std::string, ll::Algorithm::STANDARD>>(r);
    w.s1 = std::make_unique<Transducers<std::string, ll::Algorithm::TRANSPOSITION>>(r);
    w.s2 = std::make_unique<Transducers<std::string, ll::Algorithm::MERGE_AND_SPLIT>>(r);
  }
  if (ws.size() == 2) { ++drv.counts["histories_over_two_dictionaries"]; ws[0]->other_root = ws[1]->dawg->root(); ws[1]->other_root = ws[0]->dawg->root(); }
  std::string al = random_alphabet(rng), hist;
  std::vector<std::pair<std::string, std::size_t>> recent; // repeated queries with other distances
  std::size_t v0 = drv.violations;
  std::size_t live_max = 0;
  const bool marathon = idx % 64 == 7;
  const std::size_t ops = marathon ? 700 : 60;
  if (marathon) ++drv.counts["long_histories"];
  for (std::size_t op = 0; op < ops && drv.violations == v0; ++op) {
    World &w = *ws[rng.below(ws.size())];
    unsigned o = (unsigned)rng.below(13);
    hist += (char)('0' + o);
    auto any = [&] { return rng.below(w.its.size()); };
    auto go = [&](std::size_t i, std::size_t k) { AnyIter &a = *w.its[i]; while (k-- && w.step(a)) {} };
    if (o <= 3 || w.its.empty()) {
      std::string q;
      std::size_t n = rng.below(longish ? 3 : 5);
      if (!recent.empty() && rng.chance(50)) { // same term or same length, same or different distance
        auto &x = rng.pick(recent);
        q = x.first;
        if (rng.chance(30)) n = x.second;
        if (rng.chance(40) && q.size() > 1) std::swap(q[0], q[q.size() - 1]);
      } else if (!w.tv.empty() && rng.chance(80)) q = edited(rng, rng.pick(w.tv), al, rng.below(4));
      else q = random_string(rng, al, 0, 8);
      recent.emplace_back(q, n);
      switch (rng.below(7)) {
      case 6: w.open_terms(); break;
      case 0: w.open<STD>(*w.c0, rng, q, n); break;
      case 1: w.open<TRN>(*w.c1, rng, q, n); break;
      case 2: w.open<MAS>(*w.c2, rng, q, n); break;
      case 3: w.open<STD>(*w.s0, rng, q, n); break;
      case 4: w.open<TRN>(*w.s1, rng, q, n); break;
      default: w.open<MAS>(*w.s2, rng, q, n); break;
      }
    } else if (o <= 6) go(any(), rng.range(1, 5));
    else if (o == 7) go(any(), SIZE_MAX); // drain
    else if (o == 8) { // copy or assign
      std::size_t i = any();
      if (rng.chance(60)) { w.its.emplace_back(w.its[i]->copy()); ++drv.counts["iterator_copies"]; }
      else { std::size_t j = any(); if (w.its[j]->assign_from(w.its[i].get())) ++drv.counts["iterator_assignments"]; }
    } else if (o == 9) { // abandon
      w.its.erase(w.its.begin() + (long)any());
      ++drv.counts["iterators_abandoned"];
    } else if (o == 10) { // copy transducers (vector growth), read the dictionary meanwhile
      w.c1->grow(rng.chance(50)); w.s2->grow(rng.chance(50)); w.c0->fresh();
      if (!w.tv.empty() && !w.dawg->contains(rng.pick(w.tv))) drv.violation("dictionary-changed", "a term disappeared");
      ++drv.counts["transducer_copies"];
    } else if (o == 11) { // advance one, make it another one, and go on at once
      std::size_t i = any(), j = any();
      go(j, rng.range(1, 3));
      if (drv.violations == v0 && w.its[j]->assign_from(w.its[i].get())) { ++drv.counts["iterator_assignments"]; go(j, rng.range(1, 6)); if (drv.violations == v0) go(i, rng.range(1, 3)); }
    } else { // advance one, abandon it, and put a copy of another one in its place
      std::size_t i = any(), j = any();
      if (i == j) continue;
      go(j, rng.range(1, 3));
      if (drv.violations != v0) break;
      w.its[j].reset();
      w.its[j].reset(w.its[i]->copy());
      ++drv.counts["iterators_abandoned"]; ++drv.counts["iterator_copies"];
      go(j, rng.range(1, 6));
    }
    std::size_t live = 0; for (auto &x : ws) live += x->its.size();
    live_max = std::max(live_max, live);
  }
  for (auto &w : ws) for (auto &a : w->its) { if (drv.violations != v0) break; while (w->step(*a)) {} }
  if (drv.violations != v0) return;
  drv.counts["max_open_iterators"] = std::max(drv.counts["max_open_iterators"], live_max);
  ++drv.counts["histories"];
  for (std::size_t k = 0; k < ws.size(); ++k) {
    World &w = *ws[k];
    w.its.clear();
    if (proto_bytes(w.dawg.get()) != before[k]) drv.violation("dictionary-changed", "queries changed the dictionary " + show_all(w.tv));
    std::string df = differs(w.dawg.get(), w.terms, rng, 10);
    if (!df.empty()) drv.violation("dictionary-changed", "after queries: " + df);
  }
  if (live_max > 2) { drv.distinct.insert(hash_str(hist, ws[0]->terms.size())); drv.sample("history " + hist + " over " + std::to_string(ws[0]->tv.size()) + " terms, up to " + std::to_string(live_max) + " open iterators"); }
}

// ------------------------------------------------------------ C19: effort
static std::atomic<std::size_t> g_allocs{0};
#ifdef COUNT_STEPS // elsewhere the sanitizers' and valgrind's own operators are wanted
void *operator new(std::size_t n) { g_allocs.fetch_add(1, std::memory_order_relaxed); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
#endif

// The dictionary as a plain trie, and the number of prefixes (and their
// children) a search that prunes hopeless prefixes has to look at.
struct Trie {
  std::vector<std::map<char, std::size_t>> next{1};
  void add(const std::string &s) {
    std::size_t n = 0;
    for (char c : s) { auto it = next[n].find(c); if (it == next[n].end()) { next.push_back({}); std::size_t k = next.size() - 1; next[n][c] = k; n = k; } else n = it->second; }
  }
};
// Looks at every child of every viable prefix. Viable: some extension of the
// prefix may still be within n (the minimum of the current or, because of
// pending two-character operations, the previous row is within n).
static std::size_t viable(const Trie &t, int alg, const std::string &q, std::size_t n) {
  std::size_t looks = 1;
  using Row = std::vector<std::size_t>;
  const std::size_t m = q.size();
  std::function<void(std::size_t, char, const Row &, const Row &)> go = [&](std::size_t node, char last, const Row &prev, const Row &row) {
    for (auto &[c, k] : t.next[node]) {
      ++looks;
      Row r(m + 1);
      r[0] = row[0] + 1;
      for (std::size_t j = 1; j <= m; ++j) {
        r[j] = std::min({row[j - 1] + (q[j - 1] != c), row[j] + 1, r[j - 1] + 1});
        if (alg == TRN && j > 1 && !prev.empty() && q[j - 1] == last && q[j - 2] == c) r[j] = std::min(r[j], prev[j - 2] + 1);
        if (alg == MAS) { if (j > 1) r[j] = std::min(r[j], row[j - 2] + 1); if (!prev.empty()) r[j] = std::min(r[j], prev[j - 1] + 1); }
      }
      std::size_t best = *std::min_element(r.begin(), r.end());
      if (alg != STD) { // a pending transposition or split, already paid for
        for (std::size_t j = 0; j < m; ++j)
          if (alg == MAS || (j + 1 < m && q[j + 1] == c)) best = std::min(best, row[j] + 1);
      }
      if (best <= n) go(k, c, row, r);
    }
  };
  Row first(m + 1);
  for (std::size_t j = 0; j <= m; ++j) first[j] = j;
  go(0, 0, {}, first);
  return looks;
}

#ifdef COUNT_STEPS
extern "C" unsigned long steps_executed;
static std::size_t steps_now() { return steps_executed; }
#else
static std::size_t steps_now() { return 0; }
#endif
// Allocations and executed basic blocks of the library in a complete run of a
// query, and up to its first result.
struct Cost { std::size_t first = 0, total = 0, first_steps = 0, steps = 0, results = 0, most = 0, most_steps = 0; };
template <int ALG, class R> Cost cost(ll::Transducer<algorithm<ALG>(), R> &t, const std::string &q, std::size_t n, std::size_t limit) {
  Cost c;
  std::size_t a0 = g_allocs.load(), s0 = steps_now();
  {
    auto range = t(q, n);
    auto it = range.begin(); auto end = range.end();
    c.first = g_allocs.load() - a0; c.first_steps = steps_now() - s0;
    c.most = c.first; c.most_steps = c.first_steps;
    while (it != end && c.results <= limit) {
      std::size_t a = g_allocs.load(), s = steps_now();
      ++c.results; ++it;
      c.most = std::max(c.most, g_allocs.load() - a); c.most_steps = std::max(c.most_steps, steps_now() - s);
    }
  }
  c.total = g_allocs.load() - a0; c.steps = steps_now() - s0;
  return c;
}
template <int ALG> void judge_lazy(const std::string &q, std::size_t n, const Cost &c, bool every, std::size_t k = 1) {
  auto lazy = [&](const char *unit, std::size_t first, std::size_t most, std::size_t total, std::size_t slack) {
    std::size_t &mx = drv.counts[std::string("max_percent_for_first_result") + (k > 1 ? "s_" : "_") + unit];
    mx = std::max(mx, first * 100 / std::max<std::size_t>(1, total));
    std::string what = std::string(alg_name(ALG)) + " '" + show(q) + "' n=" + std::to_string(n);
    const double share = 2;
    if ((double)first * share > (double)(total + slack)) drv.violation("eager", what + ": the first " + std::to_string(k) + " of " + std::to_string(c.results) + " results cost " + std::to_string(first) + " of " + std::to_string(total) + " " + unit);
    if (!every) return;
    std::size_t &my = drv.counts[std::string("max_percent_for_one_result_") + unit];
    my = std::max(my, most * 100 / std::max<std::size_t>(1, total));
    if (most * 2 > total + slack) drv.violation("eager", what + ": one of " + std::to_string(c.results) + " results costs " + std::to_string(most) + " of " + std::to_string(total) + " " + unit);
  };
  lazy("allocations", c.first, c.most, c.total, 2000);
  if (c.steps) lazy("steps", c.first_steps, c.most_steps, c.steps, 2000);
}
template <int ALG> void effort_case(std::size_t idx, Rng &rng) {
  const std::string near = "abcdefgh", far = "PQRST";
  // mostly words of ordinary length; also short and long ones, and larger bounds
  std::size_t len = idx % 5 == 1 ? rng.range(0, 5) : idx % 5 == 2 ? rng.range(15, 30) : rng.range(6, 14);
  std::string q = random_string(rng, near, len, len);
  std::size_t n = idx % 7 == 3 ? 3 : rng.below(3);
  if (idx % 11 == 2) { len = rng.range(ALG == MAS ? 10 : 16, ALG == MAS ? 14 : 28); q = random_string(rng, near, len, len); n = rng.range(4, ALG == MAS ? 4 : 6); ++drv.counts["wide_bounds_measured"]; }
  // a small dictionary around the query, and the same one with thousands of
  // terms that have nothing, an ending or a beginning in common with it
  // (in a third of the cases all of them behind one hopeless prefix: then next
  // to nothing is to be added to the effort)
  const bool funnel = idx % 3 == 1 || idx % 11 == 2;
  TermSet small;
  while (small.size() < (funnel ? 8 : 60)) small.insert(edited(rng, q, near, rng.below(n + 3 + (len < 3 ? 4 : 0))));
  for (std::size_t i = 0; i < 12; ++i) small.insert(q.substr(0, rng.below(q.size() + 1)) + random_string(rng, far, 4, 9));
  TermSet big = small;
  const std::string gate = random_string(rng, far, 2 * n + 3, 2 * n + 3);
  if (funnel) ++drv.counts["funnels_measured"];
  while (big.size() < (idx % 8 == 1 || funnel ? 60000 : 12000)) {
    std::string w = random_string(rng, far, 6, 14);
    if (funnel) w = gate + w;
    else if (rng.chance(30)) w += q.substr(rng.below(q.size() + 1));
    else if (rng.chance(20)) w = q.substr(0, rng.below(q.size() + 1)) + w;
    big.insert(w);
  }
  Trie ts, tb;
  for (auto &w : small) ts.add(w);
  for (auto &w : big) tb.add(w);
  Setup<ALG> a(small, 0), b(big, 0);
  if (!a.ok || !b.ok) return;
  std::size_t ls = viable(ts, ALG, q, n), lb = viable(tb, ALG, q, n);
  Cost cs = cost<ALG>(*a.tc, q, n, small.size()), cb = cost<ALG>(*b.tc, q, n, big.size());
  if (idx % 2) { cs = cost<ALG>(*a.ts, q, n, small.size()); cb = cost<ALG>(*b.ts, q, n, big.size()); }
  drv.counts["queries_measured"] += 2; drv.counts["allocations"] += cs.total + cb.total; drv.counts["steps"] += cs.steps + cb.steps;
  drv.counts["prefixes_viable"] += lb; drv.counts["prefixes_in_dictionaries"] += tb.next.size();
  // The effort per viable prefix is calibrated on the small dictionary, so that
  // only its growth with the dictionary counts, not how a step is implemented.
  auto judge = [&](const char *unit, std::size_t small_cost, std::size_t big_cost, double slack) {
    double allowed = 2.0 * (double)small_cost / (double)ls * (double)lb + slack;
    auto &mx = drv.counts[std::string("max_percent_of_allowance_") + alg_name(ALG) + "_" + unit + (len < 6 ? "_short" : len > 14 ? "_long" : "") + (n >= 3 ? "_3" : "")];
    mx = std::max(mx, (std::size_t)(100.0 * (double)big_cost / allowed));
    std::string what = std::string(alg_name(ALG)) + " '" + show(q) + "' n=" + std::to_string(n) + ": " + std::to_string(big_cost) + " " + unit + " among " + std::to_string(big.size()) + " terms (" + std::to_string(lb) + " of " + std::to_string(tb.next.size()) + " prefixes viable), " + std::to_string(small_cost) + " among " + std::to_string(small.size()) + " (" + std::to_string(ls) + " viable)";
    if ((double)big_cost > allowed) drv.violation("effort", what); else drv.sample(what);
  };
  judge("allocations", cs.total, cb.total, 3000);
  if (cb.steps) judge("steps", cs.steps, cb.steps, 10000);
  drv.distinct.insert(hash_str(q, n));
  // lazy: the first of very many results does not cost what all of them cost,
  // whether it is near the beginning of the search or there are many before it
  if (idx % 4 == 0) {
    bool plain = idx % 8 == 0;
    std::size_t far_n = idx % 3 == 0 ? SIZE_MAX : 14;
    Cost c = plain ? cost<ALG>(*b.ts, "", far_n, big.size()) : cost<ALG>(*b.tc, "", far_n, big.size());
    ++drv.counts["lazy_queries"];
    if (c.results > 1000) {
      ++drv.counts["lazy_queries_with_many_results"];
      judge_lazy<ALG>("", far_n, c, false);
    }
  }
  // all words of a few letters: results everywhere, so no single step forward
  // may cost a large part of the whole, nor taking some and leaving the rest
  if (idx % 4 == 2) {
    std::size_t L = rng.range(2, 4), K = L == 2 ? rng.range(120, 200) : L == 3 ? rng.range(18, 28) : rng.range(9, 12);
    std::string al; for (std::size_t i = 0; i < K; ++i) al += (char)(30 + i);
    TermSet dense;
    std::string w(L, al[0]);
    std::function<void(std::size_t)> all = [&](std::size_t i) { if (i == L) { dense.insert(w); return; } for (char c : al) { w[i] = c; all(i + 1); } };
    all(0);
    Setup<ALG> d(dense, 0);
    if (!d.ok) return;
    std::string dq = rng.chance(20) ? "" : random_string(rng, al, L - 1, L + 1);
    std::size_t dn = dq.empty() ? L : rng.range(L - 1, L);
    if (rng.chance(20)) dn = L + rng.below(4);
    bool plain = rng.chance(50);
    Cost c = plain ? cost<ALG>(*d.ts, dq, dn, dense.size()) : cost<ALG>(*d.tc, dq, dn, dense.size());
    ++drv.counts["lazy_queries"];
    if (c.results > 250) {
      ++drv.counts["lazy_queries_on_dense_dictionaries"];
      judge_lazy<ALG>(dq, dn, c, c.results > dense.size() / 8);
      std::size_t k = c.results / 10, s0 = steps_now(), a0 = g_allocs.load(), got = 0;
      auto some = [&](auto &t) { auto range = t(dq, dn); auto it = range.begin(); auto end = range.end(); while (it != end && got < k) { ++got; ++it; } };
      if (plain) some(*d.ts); else some(*d.tc);
      Cost part; part.results = c.results; part.total = c.total; part.steps = c.steps; part.first = g_allocs.load() - a0; part.first_steps = steps_now() - s0;
      if (c.results > dense.size() / 2) { ++drv.counts["partial_enumerations"]; judge_lazy<ALG>(dq, dn, part, false, k); }
    }
  }
}

int main(int argc, char **argv) {
  drv.parse(argc, argv);
  drv.watch_for_deadlock();
  int alg = drv.opt.count("alg") ? atoi(drv.opt["alg"].c_str()) : -1;
  if (drv.mode == "exact")
    drv.for_cases(drv.cases, [&](std::size_t i, Rng &r) { if (alg == STD) exact_case<STD>(i, r); else if (alg == TRN) exact_case<TRN>(i, r); else exact_case<MAS>(i, r); });
  else if (drv.mode == "formats")
    drv.for_cases(drv.cases, [&](std::size_t i, Rng &r) { if (i % 3 == 0) formats_case<STD>(i, r); else if (i % 3 == 1) formats_case<TRN>(i, r); else formats_case<MAS>(i, r); });
  else if (drv.mode == "isolation") drv.for_cases(drv.cases, isolation_case);
  else if (drv.mode == "effort")
    drv.for_cases(drv.cases, [&](std::size_t i, Rng &r) { if (i % 3 == 0) effort_case<STD>(i / 3, r); else if (i % 3 == 1) effort_case<TRN>(i / 3, r); else effort_case<MAS>(i / 3, r); });
  else { fprintf(stderr, "unknown mode\n"); return 3; }
  return drv.finish();
}
