// C20: monitors of the list of positions that makes up an automaton state.
#include "lib.h"
#include <memory>
#include <liblevenshtein/transducer/comparator.h>
#include <liblevenshtein/transducer/distance.h>
#include <liblevenshtein/transducer/merge.h>
#include <liblevenshtein/transducer/position.h>
#include <liblevenshtein/transducer/state.h>
#include <liblevenshtein/transducer/state_iterator.h>

static Driver drv;
using P = ll::Position;
struct Key { std::size_t i, e; bool s; auto operator<=>(const Key &) const = default; };
static Key key(const P *p) { return {p->term_index(), p->num_errors(), p->is_special()}; }
static std::string text(const std::vector<P *> &v) {
  std::string r = "[";
  for (auto *p : v) r += (r.size() > 1 ? " " : "") + std::to_string(p->term_index()) + "#" + std::to_string(p->num_errors()) + (p->is_special() ? "*" : "");
  return r + "]";
}
// The list as seen by following links and as seen by the iterator.
static std::string list_differs(ll::State &s, const std::vector<P *> &model) {
  ++drv.counts["lists_compared"];
  std::vector<P *> links, its;
  for (P *p = s.head(); p != nullptr && links.size() <= model.size() + 2; p = p->next()) links.push_back(p);
  auto end = s.end();
  for (auto it = s.begin(); it != end && its.size() <= model.size() + 2; ++it) its.push_back(*it);
  if (links != model) return "list is of " + std::to_string(links.size()) + " positions, expected " + text(model);
  if (its != model) return "iteration gives " + std::to_string(its.size()) + " positions, expected " + text(model);
  return "";
}
// positions near 0 or, when base is not 0, near a power of two
static std::size_t base = 0;
static P *fresh(Rng &rng, std::size_t hi = 5) { return new P((rng.chance(50) ? base : 0) + rng.below(hi), (rng.chance(50) ? base : 0) + rng.below(4), rng.chance(30)); }
static void pick_base(Rng &rng) {
  static const std::size_t bs[] = {126, 253, 254, 256, 32766, 65533, 65536, (std::size_t)INT_MAX - 1, (std::size_t)1 << 31, UINT_MAX - 1ull, (std::size_t)1 << 32, (std::size_t)1 << 33, (std::size_t)1 << 48};
  base = rng.chance(70) ? 0 : bs[rng.below(13)];
}

using Cmp = int (*)(P *, P *);
static const Cmp cmps[] = {&ll::compare<ll::Algorithm::STANDARD>, &ll::compare<ll::Algorithm::TRANSPOSITION>, &ll::compare<ll::Algorithm::MERGE_AND_SPLIT>};
static int ref_cmp(int alg, const P *a, const P *b) {
  Key x = key(a), y = key(b);
  if (alg == STD) x.s = y.s = false;
  return x < y ? -1 : y < x ? 1 : 0;
}
static bool sorted_ok(const std::vector<P *> &got, std::vector<P *> want, int alg) {
  std::stable_sort(want.begin(), want.end(), [&](P *a, P *b) { return ref_cmp(alg, a, b) < 0; });
  return got == want;
}
static std::vector<P *> links(ll::State &s, std::size_t limit) {
  std::vector<P *> r;
  for (P *p = s.head(); p != nullptr && r.size() <= limit; p = p->next()) r.push_back(p);
  return r;
}

// every pattern of removals during one pass over a list of n positions
static void removals(std::size_t n, std::size_t mask, Rng &rng, bool inner) {
  ll::State s;
  std::vector<P *> model;
  for (std::size_t i = 0; i < n; ++i) { auto *p = new P(i, i % 3); s.add(p); model.push_back(p); }
  std::vector<P *> left, visited;
  if (!inner) {
    auto it = s.begin(); auto end = s.end();
    for (std::size_t i = 0; it != end && i < n + 2; ++i) {
      visited.push_back(*it);
      if (mask >> i & 1) it.remove(); else left.push_back(model[i]);
      ++it;
    }
  } else { // an inner pass that removes what follows the outer position
    auto outer = s.begin(); auto end = s.end();
    left.push_back(model[0]); visited.push_back(model[0]);
    ll::StateIterator it(&s, *outer, &outer);
    ++it;
    for (std::size_t i = 1; it != end && i < n + 2; ++i) {
      visited.push_back(*it);
      if (mask >> i & 1) it.remove(); else left.push_back(model[i]);
      ++it;
    }
    std::vector<P *> rest;
    for (; outer != end && rest.size() <= n; ++outer) rest.push_back(*outer);
    if (rest != left) { drv.violation("outer", "the outer pass sees " + std::to_string(rest.size()) + " positions, expected " + std::to_string(left.size()) + " (removals " + std::to_string(mask) + " of " + std::to_string(n) + ")"); return; }
  }
  ++drv.counts["removal_patterns"];
  if (visited != model) { drv.violation("visit", "a pass with removals visits " + std::to_string(visited.size()) + " of " + std::to_string(n) + " positions (removals " + std::to_string(mask) + ")"); return; }
  std::string w = list_differs(s, left);
  if (!w.empty()) drv.violation("remove", w + " after removals " + std::to_string(mask) + " of " + std::to_string(n));
  (void)rng;
}

template <int ALG> static void merges(Rng &rng) {
  ll::State s;
  std::set<Key> want;
  std::string hist;
  pick_base(rng);
  const bool many = rng.chance(4);
  for (std::size_t b = rng.range(1, 6); b--;) {
    std::vector<P *> batch;
    for (std::size_t k = many ? rng.below(60) : rng.below(6); k--;) {
      auto *p = fresh(rng, many ? 200 : 6);
      Key x = key(p);
      if (ALG == STD) { delete p; p = new P(x.i, x.e); x.s = false; }
      batch.push_back(p); want.insert(x);
    }
    hist += text(batch);
    ll::merge<algorithm<ALG>()>(&s, batch);
    drv.counts["positions_merged"] += batch.size();
    std::vector<P *> got = links(s, want.size() + 3);
    std::vector<Key> ks;
    for (auto *p : got) ks.push_back(key(p));
    std::sort(ks.begin(), ks.end());
    if (!std::equal(ks.begin(), ks.end(), want.begin(), want.end())) { drv.violation("merge", std::string(alg_name(ALG)) + " merging " + hist + " gives " + text(got) + ", expected each different position once"); return; }
  }
  std::vector<P *> before = links(s, want.size() + 3);
  s.sort(cmps[ALG]);
  std::vector<P *> after = links(s, want.size() + 3);
  if (!sorted_ok(after, before, ALG)) { drv.violation("sort", std::string(alg_name(ALG)) + " sorting " + text(before) + " gives " + text(after)); return; }
  // the distance a complete state stands for
  std::size_t len = base + (many ? 200 : 6) + rng.below(5), best = SIZE_MAX;
  for (auto &k : want) if (ALG == STD || !k.s) best = std::min(best, len - k.i + k.e);
  if (!want.empty()) {
    ++drv.counts["state_distances"];
    std::size_t got = ll::distance<algorithm<ALG>()>(&s, len);
    if (got != best) drv.violation("distance", std::string(alg_name(ALG)) + " distance of state " + text(after) + " for length " + std::to_string(len) + " is " + std::to_string(got) + ", expected " + std::to_string(best));
  }
  drv.distinct.insert(hash_str(hist, ALG));
  if (want.size() > 3) drv.sample(std::string(alg_name(ALG)) + " merged " + hist + " into " + std::to_string(want.size()) + " positions");
}

static void state_case(std::size_t idx, Rng &rng) {
  if (idx == 0) { // all removal patterns of lists up to 9 positions
    for (std::size_t n = 1; n <= 9; ++n) for (std::size_t m = 0; m < ((std::size_t)1 << n) && !drv.violations; ++m) { removals(n, m, rng, false); if (!drv.violations) removals(n, m, rng, true); }
    return;
  }
  if (idx == 1) { // all sequences of up to 6 keys out of 3: every way of being unsorted
    for (std::size_t n = 0; n <= 7; ++n) {
      std::size_t total = 1; for (std::size_t k = 0; k < n; ++k) total *= 3;
      for (std::size_t c = 0; c < total && !drv.violations; ++c) {
        ll::State s; std::vector<P *> v; std::size_t x = c;
        for (std::size_t k = 0; k < n; ++k, x /= 3) { v.push_back(new P(x % 3 == 0 ? 2 : 1, x % 3 == 1 ? 1 : 0, x % 3 == 2)); s.add(v.back()); }
        int alg = (int)(c % 3);
        s.sort(cmps[alg]);
        ++drv.counts["sorts_exhaustive"];
        std::vector<P *> got = links(s, n + 2);
        if (!sorted_ok(got, v, alg)) { drv.violation("sort", "sorting " + text(v) + " gives " + std::to_string(got.size()) + " positions: " + text(got)); return; }
      }
    }
    return;
  }
  if (idx == 2) { // comparators on extreme values
    static const std::size_t xs[] = {0, 1, 2, 255, 256, 65536, (std::size_t)INT_MAX, (std::size_t)INT_MAX + 1, UINT_MAX, (std::size_t)UINT_MAX + 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 1, SIZE_MAX};
    for (int alg = 0; alg < 3; ++alg)
      for (auto a : xs) for (auto b : xs) for (auto c : {xs[0], xs[1], xs[7], xs[13]}) for (auto d : {xs[0], xs[1], xs[7], xs[13]}) for (int f = 0; f < 4; ++f) {
        P l(a, c, f & 1), r(b, d, f & 2);
        int got = cmps[alg](&l, &r), want = ref_cmp(alg, &l, &r);
        ++drv.counts["comparisons"];
        if ((got > 0) - (got < 0) != want) { drv.violation("compare", std::string(alg_name(alg)) + " comparison of " + text({&l}) + " and " + text({&r}) + " is " + std::to_string(got)); return; }
        if (l.term_index() != a || l.num_errors() != c || l.is_special() != !!(f & 1)) { drv.violation("position", "a position does not keep its values"); return; }
      }
    return;
  }
  // random histories of operations on one list
  pick_base(rng);
  const bool longlist = idx % 50 == 7;
  if (longlist) ++drv.counts["long_lists"];
  static P stray(99, 99); // what an inserted position was linked to before does not matter
  std::vector<P *> model;
  std::unique_ptr<ll::State> s;
  std::string hist;
  switch (longlist ? 1 : rng.below(3)) {
  case 0: s = std::make_unique<ll::State>(); break;
  case 1: { for (std::size_t k = longlist ? rng.range(60, 300) : rng.below(7); k--;) model.push_back(fresh(rng)); std::vector<P *> arg = model; s = std::make_unique<ll::State>(arg); hist = "V"; break; }
  default: { P *a = fresh(rng), *b = fresh(rng), *c = fresh(rng); model = {a, b, c}; s.reset(new ll::State({a, b, c})); hist = "I"; }
  }
  auto check = [&] { std::string w = list_differs(*s, model); if (!w.empty()) drv.violation("list", w + " after " + hist); return w.empty(); };
  if (!check()) return;
  for (int op = 0; op < 40; ++op) {
    unsigned o = (unsigned)rng.below(9);
    hist += (char)('0' + o);
    ++drv.counts["list_operations"];
    if (model.size() > (longlist ? 320 : 24)) o = 4;
    switch (o) {
    case 0: case 1: { auto *p = fresh(rng); s->add(p); model.push_back(p); break; }
    case 2: { auto *p = fresh(rng); if (rng.chance(20)) p->next(&stray); s->head(p); model.insert(model.begin(), p); break; }
    case 3: { // after a position, or at the end when there is none
      auto *p = fresh(rng);
      if (model.empty() || rng.chance(15)) { s->insert_after(nullptr, p); model.push_back(p); }
      else { std::size_t k = rng.below(model.size()); if (rng.chance(20)) p->next(&stray); s->insert_after(model[k], p); model.insert(model.begin() + (long)k + 1, p); }
      break;
    }
    case 4: if (!model.empty()) { std::size_t k = rng.below(model.size()); s->remove(k ? model[k - 1] : nullptr, model[k]); model.erase(model.begin() + (long)k); } break;
    case 5: { // sort
      int alg = (int)rng.below(3);
      std::vector<P *> before = model;
      s->sort(cmps[alg]);
      model = links(*s, before.size() + 2);
      if (!sorted_ok(model, before, alg)) { drv.violation("sort", "sorting " + text(before) + " gives " + std::to_string(model.size()) + " positions"); return; }
      break;
    }
    case 6: { // a pass that removes some
      std::vector<P *> left, seen, want = model;
      auto it = s->begin(); auto end = s->end();
      for (std::size_t k = 0; it != end && k < want.size() + 2; ++k) { seen.push_back(*it); if (rng.chance(30)) it.remove(); else left.push_back(seen.back()); ++it; }
      if (seen != want) { drv.violation("visit", "a pass visits " + std::to_string(seen.size()) + " of " + std::to_string(want.size()) + " positions after " + hist); return; }
      model = left;
      break;
    }
    case 7: { // a pass that inserts after some; what was inserted is visited too
      if (model.empty()) break;
      auto it = s->begin();
      for (std::size_t k = rng.below(model.size()); k--;) ++it;
      auto *at = *it; auto *p = fresh(rng);
      it.insert(p);
      auto f = std::find(model.begin(), model.end(), at);
      if (f == model.end()) { drv.violation("visit", "a pass visits a position that is not in the list after " + hist); return; }
      model.insert(f + 1, p);
      ++it;
      if (*it != p) { drv.violation("insert", "a pass does not visit what it inserted after " + hist); return; }
      break;
    }
    default: if (!(s->head() == (model.empty() ? nullptr : model[0]))) { drv.violation("head", "head() is wrong after " + hist); return; }
    }
    if (!check()) return;
  }
  drv.distinct.insert(hash_str(hist));
  switch (idx % 3) { case 0: merges<STD>(rng); break; case 1: merges<TRN>(rng); break; default: merges<MAS>(rng); }
  ++drv.counts["histories"];
}

int main(int argc, char **argv) {
  drv.parse(argc, argv);
  if (drv.mode == "state") drv.for_cases(drv.cases, state_case);
  else { fprintf(stderr, "unknown mode\n"); return 3; }
  return drv.finish();
}
