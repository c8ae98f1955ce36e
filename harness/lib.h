// Helpers that talk to the library under test through its public headers.
#pragma once
#include "common.h"
#include <list>
#include <liblevenshtein/collection/dawg.h>
#include <liblevenshtein/collection/dawg_node.h>
#include <liblevenshtein/collection/sorted_dawg.h>
#include <liblevenshtein/transducer/algorithm.h>
#include <liblevenshtein/transducer/transducer.h>
namespace ll = liblevenshtein;

// Builds a dictionary by one of the public routes.
inline ll::SortedDawg *build(const TermSet &terms, unsigned route = 0) {
  switch (route % 4) {
  case 0: { std::vector<std::string> v(terms.begin(), terms.end()); return ll::sorted_dawg(v.begin(), v.end()); }
  case 1: { std::list<std::string> v(terms.begin(), terms.end()); return ll::sorted_dawg(v.begin(), v.end()); }
  case 2: return ll::sorted_dawg(terms.begin(), terms.end());
  default: {
    auto *d = new ll::SortedDawg();
    d->init();
    bool ok = true;
    for (const std::string &t : terms) ok = d->add(t) && ok;
    d->finish();
    d->clean_up();
    if (!ok) { delete d; return nullptr; }
    return d;
  }
  }
}

// Iterates over the whole dictionary; gives up after `limit` terms, so that an
// iteration that never ends is an observation and not a hang.
inline std::vector<std::string> iterate(const ll::Dawg *d, std::size_t limit) {
  std::vector<std::string> r;
  auto end = d->end();
  for (auto it = d->begin(); it != end; ++it) {
    r.push_back(*it);
    if (r.size() > limit) break;
  }
  return r;
}

// Compares everything observable about a dictionary with the expected terms.
// Returns "" or what differs.
inline std::string differs(const ll::Dawg *d, const TermSet &terms, Rng &rng, std::size_t probes, Driver *drv = nullptr) {
  if (d == nullptr) return "no dictionary was built";
  if (d->size() != terms.size())
    return "size() is " + std::to_string(d->size()) + ", expected " + std::to_string(terms.size());
  std::vector<std::string> it = iterate(d, terms.size() + 3);
  if (it.size() != terms.size())
    return "iteration yields " + std::to_string(it.size()) + " terms, expected " + std::to_string(terms.size());
  std::sort(it.begin(), it.end());
  if (!std::equal(it.begin(), it.end(), terms.begin()))
    return "iteration yields " + show_all(it) + ", expected " + show_all(terms);
  for (const std::string &t : terms)
    if (!d->contains(t)) return "contains('" + show(t) + "') is false";
  std::size_t n = 0;
  auto probe = [&](const std::string &s) -> bool { ++n; return d->contains(s) == (terms.count(s) != 0); };
  auto wrong = [&](const std::string &s) { return "contains('" + show(s) + "') is " + (d->contains(s) ? "true" : "false") + ", expected the opposite"; };
  if (!probe("")) return wrong("");
  std::string all256;
  for (int i = 0; i < 256; ++i) all256 += (char)i;
  if (!terms.empty()) {
    std::vector<const std::string *> idx;
    for (auto &t : terms) idx.push_back(&t);
    for (std::size_t i = 0; i < probes; ++i) {
      std::string s = *idx[rng.below(idx.size())];
      switch (rng.below(6)) {
      case 0: s = s.substr(0, rng.below(s.size() + 1)); break;
      case 1: s += all256[rng.below(256)]; break;
      case 2: { const std::string &t = *idx[rng.below(idx.size())]; s = s.substr(0, rng.below(s.size() + 1)) + t.substr(rng.below(t.size() + 1)); break; }
      case 3: if (!s.empty()) s[rng.below(s.size())] = all256[rng.below(256)]; break;
      case 4: if (!s.empty()) s.erase(rng.below(s.size()), 1); break;
      default: edit(rng, s, s.empty() ? all256 : s); break;
      }
      if (!probe(s)) return wrong(s);
    }
  }
  for (std::size_t i = 0; i < probes / 4; ++i) {
    std::string s = random_string(rng, all256, 0, 4);
    if (!probe(s)) return wrong(s);
  }
  if (drv) { drv->counts["membership_probes"] += n + terms.size(); drv->counts["terms_iterated"] += it.size(); }
  return "";
}

// One query, fully consumed. `overrun` is set when there are more results than
// the dictionary has terms.
template <ll::Algorithm A>
std::vector<ll::Candidate> run_candidates(ll::Transducer<A, ll::Candidate> &t, const std::string &q, std::size_t n, std::size_t limit, bool &overrun) {
  std::vector<ll::Candidate> r;
  overrun = false;
  for (const ll::Candidate &c : t(q, n)) {
    r.push_back(c);
    if (r.size() > limit) { overrun = true; break; }
  }
  return r;
}
template <ll::Algorithm A>
std::vector<std::string> run_terms(ll::Transducer<A, std::string> &t, const std::string &q, std::size_t n, std::size_t limit, bool &overrun) {
  std::vector<std::string> r;
  overrun = false;
  for (const std::string &c : t(q, n)) {
    r.push_back(c);
    if (r.size() > limit) { overrun = true; break; }
  }
  return r;
}
template <int ALG> constexpr ll::Algorithm algorithm() {
  return ALG == STD ? ll::Algorithm::STANDARD : ALG == TRN ? ll::Algorithm::TRANSPOSITION : ll::Algorithm::MERGE_AND_SPLIT;
}

// Makes it likely that the next block of this size is where an earlier one was:
// takes all free blocks up to that one, and gives only that one back.
struct Reclaim {
  std::vector<void *> held;
  Reclaim(uintptr_t address, std::size_t size) {
    held.reserve(3000);
    if (address == 0 || size == 0) return;
    for (int k = 0; k < 3000; ++k) {
      void *p = malloc(size);
      if ((uintptr_t)p == address) { free(p); return; }
      held.push_back(p);
    }
  }
  ~Reclaim() { for (void *p : held) free(p); }
};

// A term set that differs from another one in very little.
// Terms of the pool come and go.
inline TermSet nearly(TermSet s, Rng &rng, const std::string &al, const std::vector<std::string> &pool) {
  for (std::size_t k = rng.range(1, 2); k--;) {
    if (!pool.empty() && rng.chance(60)) { const std::string &p = rng.pick(pool); if (!s.erase(p)) s.insert(p); continue; }
    auto any = [&] { return std::next(s.begin(), (long)rng.below(s.size())); };
    switch (s.empty() ? 0 : rng.below(4)) {
    case 0: s.insert(random_string(rng, al, 0, 6)); break;
    case 1: s.erase(any()); break;
    case 2: s.insert(edited(rng, *any(), al, 1)); break;
    default: { auto i = any(); std::string x = *i; s.erase(i); s.insert(edited(rng, x, al, 1)); }
    }
  }
  return s;
}
