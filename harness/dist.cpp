// C14, C15: monitors of the distance functions.
#include "lib.h"
#include <memory>
#include <liblevenshtein/distance/merge_and_split_distance.h>
#include <liblevenshtein/distance/standard_distance.h>
#include <liblevenshtein/distance/symmetric_pair.h>
#include <liblevenshtein/distance/transposition_distance.h>
namespace ld = liblevenshtein::distance;

static Driver drv;
static DpOracle dp;
using Fn = std::unique_ptr<ld::Distance>;
static Fn make(int alg) {
  if (alg == STD) return std::make_unique<ld::StandardDistance>();
  if (alg == TRN) return std::make_unique<ld::TranspositionDistance>();
  return std::make_unique<ld::MergeAndSplitDistance>();
}
static std::size_t call(ld::Distance &f, const std::string &a, const std::string &b, unsigned how) {
  return how % 2 ? f(a, b) : f.between(a, b);
}

// ------------------------------------------------------------ C14
static bool judge(ld::Distance &f, int alg, const std::string &a, const std::string &b, unsigned how, const char *ctx) {
  std::size_t want = dp(alg, a, b), got = call(f, a, b, how);
  ++drv.counts["distances"];
  if (want > 0 && want < std::max(a.size(), b.size())) ++drv.counts["nontrivial_distances"];
  if (got == want) return true;
  drv.violation("distance", std::string(alg_name(alg)) + " distance of '" + show(a) + "' and '" + show(b) + "' is " + std::to_string(got) + ", expected " + std::to_string(want) + " (" + ctx + ")");
  return false;
}
// Instances of all kinds live one after the other in the same place, and two of
// a kind next to each other, and are asked the same questions.
template <class A, class B, class C> union Room { A a; B b; C c; Room() {} ~Room() {} };
static bool in_succession(Rng &rng) {
  Room<ld::StandardDistance, ld::TranspositionDistance, ld::MergeAndSplitDistance> room;
  std::string al = random_alphabet(rng);
  std::vector<std::pair<std::string, std::string>> qs;
  for (int k = 0; k < 5; ++k) {
    std::string a = random_string(rng, al, 1, 8);
    qs.emplace_back(a, edited(rng, a, al, rng.below(4)));
    if (a.size() > 1) { std::string b = a; std::swap(b[0], b[1]); qs.emplace_back(a, b); }
  }
  for (int life = 0; life < 12; ++life) {
    int alg = (int)rng.below(3);
    ld::Distance *f = alg == STD ? (ld::Distance *)new (&room.a) ld::StandardDistance() : alg == TRN ? (ld::Distance *)new (&room.b) ld::TranspositionDistance() : (ld::Distance *)new (&room.c) ld::MergeAndSplitDistance();
    bool ok = true;
    for (int k = 0; ok && k < 4; ++k) { auto &[a, b] = rng.pick(qs); ok = judge(*f, alg, a, b, (unsigned)rng.below(2), "on an instance where one of another kind was before"); }
    if (alg == STD) room.a.~StandardDistance(); else if (alg == TRN) room.b.~TranspositionDistance(); else room.c.~MergeAndSplitDistance();
    if (!ok) return false;
    ++drv.counts["instances_in_succession"];
  }
  return true;
}
static void exact_case(std::size_t idx, Rng &rng) {
  // exhaustive slices first: all pairs, in an order and on an instance that
  // has already answered other pairs of the slice
  static const std::vector<std::pair<std::string, std::size_t>> uni = {{"ab", 6}, {"abc", 4}, {"abcd", 3}, {std::string("\x00\xff", 2), 4}, {std::string("a\x80\x00", 3), 3}};
  static const std::vector<std::pair<std::string, std::size_t>> deep = {{"ab", 8}, {"abc", 5}, {"abcd", 4}, {std::string("\x00\xff", 2), 6}, {std::string("a\x80\x00", 3), 4}};
  const auto &spec = drv.scale > 1 ? deep : uni;
  const std::size_t slices = drv.scale > 1 ? 32 : 8, ex = spec.size() * slices * 3;
  if (idx < ex) {
    int alg = (int)(idx % 3);
    const auto &[al, L] = spec[idx / 3 / slices];
    std::size_t slice = idx / 3 % slices;
    std::vector<std::string> u = all_strings(al, L);
    std::vector<std::size_t> order(u.size());
    for (std::size_t i = 0; i < u.size(); ++i) order[i] = i;
    for (std::size_t i = u.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
    Fn f = make(alg);
    for (std::size_t i = slice; i < u.size(); i += slices)
      for (std::size_t j : order) {
        bool flip = rng.chance(50);
        if (!judge(*f, alg, flip ? u[j] : u[i], flip ? u[i] : u[j], (unsigned)(i + j), "exhaustive")) return;
        ++drv.counts["exhaustive_pairs"];
      }
    drv.distinct.insert(idx);
    return;
  }
  if (idx % 16 < 3 && !in_succession(rng)) return;
  int alg = (int)(idx % 3);
  Fn shared = make(alg);
  std::string al = random_alphabet(rng), log;
  std::vector<std::pair<std::string, std::string>> seen;
  const std::size_t ops = 80;
  for (std::size_t k = 0; k < ops; ++k) {
    std::string a, b;
    switch (rng.below(9)) {
    case 0: a = random_string(rng, al, 0, 12); b = random_string(rng, al, 0, 12); break;
    case 1: a = random_string(rng, al, 0, 16); b = edited(rng, a, al, rng.below(6)); break;
    case 2: a = periodic(rng, al, rng.below(20)); b = edited(rng, a, al, rng.below(5)); break;
    case 3: if (!seen.empty()) { std::tie(a, b) = rng.pick(seen); } break;                          // asked before
    case 4: if (!seen.empty()) { std::tie(b, a) = rng.pick(seen); } break;                          // swapped
    case 5: if (!seen.empty()) { std::tie(a, b) = rng.pick(seen); std::string c = a + b; std::size_t i = rng.below(c.size() + 1); b = c.substr(i); a = c.substr(0, i); } break; // same letters, another split
    case 6: if (!seen.empty()) { std::tie(a, b) = rng.pick(seen); a = a.substr(rng.below(a.size() + 1)); b = b.substr(rng.below(b.size() + 1)); } break; // suffixes: filled in by earlier calls
    case 7: { std::string p = random_string(rng, al, 0, 5); a = p + random_string(rng, al, 0, 4); b = p + random_string(rng, al, 0, 4); break; }
    default: a = rng.chance(50) ? "" : random_string(rng, al, 0, 2); b = random_string(rng, al, 0, 10);
    }
    log += (char)('a' + std::min<std::size_t>(a.size(), 25));
    if (!judge(*shared, alg, a, b, (unsigned)rng.below(2), "on an instance that answered other questions before")) return;
    if (rng.chance(20)) { Fn fresh = make(alg); ++drv.counts["fresh_instances"]; if (!judge(*fresh, alg, a, b, (unsigned)rng.below(2), "on a new instance")) return; }
    seen.emplace_back(a, b);
    drv.distinct.insert(hash_str(a, hash_str(b, (uint64_t)alg)));
  }
  if (idx % 6 == 0) { // long words
    std::string a = rng.chance(50) ? random_string(rng, al, 60, 130) : periodic(rng, al, rng.range(60, 130));
    std::string b = edited(rng, a, al, rng.below(8));
    ++drv.counts["long_pairs"];
    Fn f = make(alg);
    if (!judge(*f, alg, a, b, 0, "long") || !judge(*f, alg, b, a, 1, "long, swapped")) return;
  }
  if (idx % 12 >= 6 && idx % 12 < 9) { // a family of words of one length that differ in few places, on one instance
    std::size_t L = rng.range(10, 110);
    std::string base = rng.chance(60) ? random_string(rng, al, L, L) : periodic(rng, al, L);
    std::vector<std::string> fam{base};
    std::size_t lo = rng.chance(50) ? L / 2 - std::min<std::size_t>(L / 2, 3) : 0, width = lo ? std::min<std::size_t>(6, L - lo) : L;
    for (int v = 0; v < 4; ++v) { std::string w = base; for (std::size_t k = rng.range(1, 4); k--;) w[lo + rng.below(width)] = al[rng.below(al.size())]; fam.push_back(w); }
    Fn f = make(alg);
    for (auto &x : fam) for (auto &y : fam) if (!judge(*f, alg, x, y, (unsigned)rng.below(2), "one of a family of words of one length")) return;
    ++drv.counts["families_of_words"];
  }
  if (idx % 24 < 3) { // very long words with one difference at an end
    std::string a = random_string(rng, "abc", 250, 300), b = a;
    b[b.size() - 1 - rng.below(4)] ^= 4; if (rng.chance(50)) b.pop_back();
    ++drv.counts["very_long_pairs"];
    Fn f = make(alg);
    if (!judge(*f, alg, a, b, 0, "very long")) return;
  }
  if (idx % 24 >= 3 && idx % 24 < 6) { // distances beyond 255, asked for again and the other way round
    std::string a = rng.chance(50) ? random_string(rng, al, 257, 700) : periodic(rng, al, rng.range(257, 700)), b = random_string(rng, rng.chance(50) ? al : "PQ", 0, 12);
    if (idx % 480 < 24) b = random_string(rng, "PQ", 257, 290), a.resize(std::min<std::size_t>(a.size(), 290));
    ++drv.counts["far_pairs"];
    Fn f = make(alg);
    if (!judge(*f, alg, a, b, 0, "far apart") || !judge(*f, alg, a, b, 1, "far apart, again") || !judge(*f, alg, b, a, 0, "far apart, swapped") || !judge(*f, alg, a.substr(1), b, 0, "far apart, a suffix")) return;
  }
  if (idx % 96 >= 48 && idx % 96 < 51) { // lengths and distances beyond 16 bits, where the value is known without a matrix
    static const std::size_t ls[] = {4096, 32767, 32768, 65535, 65536, 65537, 65539, 131072, 200000};
    std::size_t L = ls[rng.below(9)], C = rng.range(300, 9000);
    std::string big = rng.chance(50) ? random_string(rng, al, L, L) : periodic(rng, al, L), com = random_string(rng, al, C, C), shorter = big.substr(0, rng.below(4));
    std::string u = random_string(rng, al, 0, 5), v = random_string(rng, al, 0, 5);
    struct Known { std::string a, b; std::size_t d; };
    Fn f = make(alg);
    for (auto &k : std::vector<Known>{{big, "", L}, {"", big, L}, {big, shorter, L - shorter.size()}, {shorter, big, L - shorter.size()}, {com, com, 0}, {com + u, com + v, dp(alg, u, v)}, {com + v, com + u, dp(alg, u, v)}, {com, com + u, u.size()}, {big, "", L}}) {
      std::size_t got = call(*f, k.a, k.b, (unsigned)rng.below(2));
      ++drv.counts["giant_pairs"]; ++drv.counts["distances"];
      if (got != k.d) { drv.violation("distance", std::string(alg_name(alg)) + " distance of '" + show(k.a) + "' and '" + show(k.b) + "' is " + std::to_string(got) + ", expected " + std::to_string(k.d) + " (giant)"); return; }
    }
  }
#if !defined(__SANITIZE_ADDRESS__) && !defined(_GLIBCXX_DEBUG)
  if (idx % 9600 >= 240 && idx % 9600 < 243) { // an instance that served for long: more questions and memorized pairs than 16 bits count
    Fn f = make(alg);
    std::vector<std::pair<std::string, std::string>> asked;
    for (std::size_t k = 0; k < 70000; ++k) {
      std::string a, b;
      if (k % 4 == 3) { std::tie(a, b) = asked[rng.chance(50) ? rng.below(std::min<std::size_t>(asked.size(), 50)) : rng.below(asked.size())]; if (rng.chance(30)) std::swap(a, b); }
      else { std::size_t L = k % 64 == 0 ? 14 : 6; a = random_string(rng, al, 0, L); b = rng.chance(50) ? random_string(rng, al, 0, L) : edited(rng, a, al, rng.below(4)); asked.emplace_back(a, b); }
      ++drv.counts["questions_to_long_serving_instances"];
      if (!judge(*f, alg, a, b, (unsigned)rng.below(2), "on an instance that served for long")) return;
    }
  }
#endif
  if (!seen.empty()) drv.sample(std::string(alg_name(alg)) + " ('" + show(seen.back().first) + "','" + show(seen.back().second) + "') as question " + std::to_string(ops) + " of one instance");
}

// ------------------------------------------------------------ C15
static std::string canonical(const std::string &x, const std::string &y, const std::string &z) {
  std::string best;
  for (int r = 0; r < 2; ++r) for (int s = 0; s < 2; ++s) {
    std::array<std::string, 3> u{x, y, z};
    if (r) for (auto &w : u) std::reverse(w.begin(), w.end());
    if (s) std::swap(u[0], u[2]);
    std::map<char, char> m;
    std::string o;
    for (int i = 0; i < 3; ++i) { if (i) o += ","; for (char c : u[(std::size_t)i]) { if (!m.count(c)) { char n = (char)('a' + m.size()); m[c] = n; } o += m[c]; } }
    if (best.empty() || o < best) best = o;
  }
  return best;
}
// Everything one triple of words has to satisfy.
static bool axioms(ld::Distance &f, ld::Distance *std_f, int alg, const std::string &x, const std::string &y, const std::string &z, bool triangle) {
  std::size_t xy = f(x, y), yx = f(y, x), yz = f(y, z), xz = f(x, z), zx = f(z, x);
  ++drv.counts["triples"];
  auto bad = [&](const std::string &key, const std::string &w) {
    drv.violation(key, std::string(alg_name(alg)) + ": " + w + " for '" + show(x) + "', '" + show(y) + "', '" + show(z) + "' (d(x,y)=" + std::to_string(xy) + " d(y,z)=" + std::to_string(yz) + " d(x,z)=" + std::to_string(xz) + ")");
    return false;
  };
  if (xy != yx || xz != zx) return bad("symmetry", "not symmetric");
  if ((xy == 0) != (x == y)) return bad("identity", "zero for different words or not zero for equal ones");
  if (f(x, x) != 0) return bad("identity", "d(x,x) is not zero");
  std::size_t lo = x.size() > y.size() ? x.size() - y.size() : y.size() - x.size(), hi = std::max(x.size(), y.size());
  if (xy < lo || xy > hi) return bad("bounds", "not between the difference of the lengths and the longer length");
  if (triangle && xz > xy + yz) {
    static std::set<std::string> reported; // one report for each kind of triple
    std::string key = std::string("triangle:") + alg_name(alg) + ":" + canonical(x, y, z);
    if (reported.insert(key).second) bad(key, "triangle inequality fails"); 
    else ++drv.counts["repeated_triangle_failures"];
  }
  if (std_f) {
    std::size_t s = (*std_f)(x, y);
    if (xy > s) return bad("relation", "larger than the STANDARD distance " + std::to_string(s));
    if (s > 2 * xy) return bad("relation", "the STANDARD distance " + std::to_string(s) + " is more than twice as large");
  }
  return true;
}
static void metric_case(std::size_t idx, Rng &rng) {
  int alg = (int)(idx % 3);
  Fn f = make(alg), s = alg == STD ? nullptr : make(STD);
  // all triples of two small universes
  const std::size_t slices = 8;
  if (idx < 2 * 3 * slices) {
    std::size_t k = idx / 3;
    std::vector<std::string> u = k < slices ? all_strings("abc", 3) : all_strings("ab", drv.scale > 1 ? 5 : 4);
    for (std::size_t i = k % slices; i < u.size(); i += slices)
      for (auto &y : u) for (auto &z : u) { if (!axioms(*f, s.get(), alg, u[i], y, z, true)) return; ++drv.counts["exhaustive_triples"]; }
    drv.distinct.insert(idx);
    return;
  }
  std::string al = random_alphabet(rng);
  // every few cases long words, words of very different lengths and long affixes
  bool large = rng.chance(8);
  for (int k = 0; k < (large ? 2 : 40); ++k) {
    std::string x = rng.chance(30) ? periodic(rng, al, rng.below(12)) : random_string(rng, al, 0, 10);
    std::string y = rng.chance(80) ? edited(rng, x, al, rng.below(4)) : random_string(rng, al, 0, 10);
    std::string z = rng.chance(80) ? edited(rng, y, al, rng.below(4)) : random_string(rng, al, 0, 10);
    std::size_t affix = 4;
    if (large) {
      ++drv.counts["triples_of_long_words"];
      switch (rng.below(4)) {
      case 0: // one of them much longer
        x = random_string(rng, al, 0, 5);
        y = rng.chance(50) ? x + random_string(rng, al, 100, 420) : edited(rng, random_string(rng, al, 100, 420) + x, al, rng.below(4));
        z = edited(rng, rng.chance(50) ? x : y.substr(0, rng.below(6)), al, 1);
        break;
      case 1: // long and alike
        x = random_string(rng, al, 24, 70); y = edited(rng, x, al, rng.below(5)); z = edited(rng, y, al, rng.below(5));
        break;
      case 2: // long and unlike
        x = random_string(rng, al, 16, 40); y = random_string(rng, al, 16, 40); z = edited(rng, rng.chance(50) ? x : y, al, rng.below(9));
        break;
      default: affix = 300; break;
      }
      if (y.size() > 90) { std::size_t n = y.size() - (x.size() > y.size() ? 0 : x.size()); if (n > 128) ++drv.counts["words_far_apart"]; }
    }
    // beyond the exhaustive universes the triangle is only claimed for the two
    // metrics (see known_findings.json for TRANSPOSITION)
    if (!axioms(*f, s.get(), alg, x, y, z, alg != TRN)) return;
    std::size_t d = (*f)(x, y);
    auto inv = [&](const std::string &a, const std::string &b, const std::string &what) {
      ++drv.counts["invariances"];
      std::size_t e = (*f)(a, b);
      if (e != d) drv.violation("invariance", std::string(alg_name(alg)) + ": distance of '" + show(x) + "' and '" + show(y) + "' is " + std::to_string(d) + ", but " + std::to_string(e) + " " + what + " ('" + show(a) + "', '" + show(b) + "')");
      return e == d;
    };
    std::string p = random_string(rng, al, affix > 4 ? 120 : 1, affix);
    if (affix > 4) ++drv.counts["long_affixes"];
    std::string rx(x.rbegin(), x.rend()), ry(y.rbegin(), y.rend());
    if (!inv(p + x, p + y, "with a common prefix") || !inv(x + p, y + p, "with a common suffix") || !inv(rx, ry, "read backwards")) return;
    unsigned char key = (unsigned char)rng.below(256);
    std::string mx = x, my = y;
    for (char &c : mx) c = (char)(c ^ key);
    for (char &c : my) c = (char)(c ^ key);
    if (!inv(mx, my, "with renamed letters")) return;
    if (alg != TRN) { // one operation of the distance costs at most one
      std::string y1 = y; char c = al[rng.below(al.size())];
      switch (rng.below(alg == MAS ? 5 : 3)) {
      case 0: y1.insert(y1.begin() + (long)rng.below(y1.size() + 1), c); break;
      case 1: if (!y1.empty()) y1.erase(rng.below(y1.size()), 1); break;
      case 2: if (!y1.empty()) y1[rng.below(y1.size())] = c; break;
      case 3: if (y1.size() > 1) { std::size_t i = rng.below(y1.size() - 1); y1.erase(i, 1); y1[i] = c; } break;
      default: if (!y1.empty()) { std::size_t i = rng.below(y1.size()); y1[i] = c; y1.insert(i, 1, (char)(c + 1)); }
      }
      std::size_t e = (*f)(x, y1);
      ++drv.counts["single_operations"];
      if (e > d + 1 || d > e + 1 || (*f)(y, y1) > 1) { drv.violation("operation", std::string(alg_name(alg)) + ": one operation changes the distance from " + std::to_string(d) + " to " + std::to_string(e) + " for '" + show(x) + "', '" + show(y) + "' -> '" + show(y1) + "'"); return; }
    } else if (y.size() > 1) {
      std::string y1 = y; std::size_t i = rng.below(y.size() - 1); std::swap(y1[i], y1[i + 1]);
      ++drv.counts["single_operations"];
      if ((*f)(y, y1) != (y == y1 ? 0 : 1)) { drv.violation("operation", "a swap of neighbours in '" + show(y) + "' costs " + std::to_string((*f)(y, y1))); return; }
    }
    if (d > 0 && x != z) drv.distinct.insert(hash_str(x, hash_str(y, hash_str(z, (uint64_t)alg))));
    if (d > 1) drv.sample(std::string(alg_name(alg)) + " triple '" + show(x) + "','" + show(y) + "','" + show(z) + "' d(x,y)=" + std::to_string(d));
  }
  // the unordered pair used as a key
  for (int k = 0; k < 10; ++k) {
    std::string a = random_string(rng, al, 0, 5), b = random_string(rng, al, 0, 5), c = rng.chance(50) ? edited(rng, a, al, 1) : a, e = rng.chance(50) ? edited(rng, b, al, 1) : b;
    if (rng.chance(50)) std::swap(c, e);
    if (rng.chance(20)) { std::string all = a + b; std::size_t i = rng.below(all.size() + 1); c = all.substr(0, i); e = all.substr(i); }
    ld::SymmetricPair p(a, b), q(c, e);
    bool same = (a == c && b == e) || (a == e && b == c);
    ++drv.counts["unordered_pairs"];
    std::hash<ld::SymmetricPair> h;
    if ((p == q) != same) { drv.violation("pair", "unordered pairs ('" + show(a) + "','" + show(b) + "') and ('" + show(c) + "','" + show(e) + "') compare wrongly"); return; }
    if (same && h(p) != h(q)) { drv.violation("pair", "equal unordered pairs hash differently: '" + show(a) + "','" + show(b) + "'"); return; }
  }
}

int main(int argc, char **argv) {
  drv.parse(argc, argv);
  drv.watch_for_deadlock();
  if (drv.mode == "exact") drv.for_cases(drv.cases, exact_case);
  else if (drv.mode == "metric") drv.for_cases(drv.cases, metric_case);
  else { fprintf(stderr, "unknown mode\n"); return 3; }
  return drv.finish();
}
