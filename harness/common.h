// Shared by all drivers: PRNG, case loop, monitors' reporting, oracles and
// generators.  Nothing here uses the library under test.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  Rng(uint64_t seed, uint64_t stream) : s(seed * 0x9E3779B97F4A7C15ull ^ (stream + 1) * 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // in [0, n)
  std::size_t below(std::size_t n) { return n == 0 ? 0 : next() % n; }
  std::size_t range(std::size_t lo, std::size_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned percent) { return below(100) < percent; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= s.size() + 0x9E37; h *= 1099511628211ull;
  return h;
}

// Printable form of a term, also valid inside a JSON string.
inline std::string show(const std::string &s) {
  std::string r;
  char buf[8];
  for (unsigned char c : s) {
    if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') r += (char)c;
    else { snprintf(buf, sizeof buf, "<%02x>", c); r += buf; }
    if (r.size() > 160) { r += "...(len " + std::to_string(s.size()) + ")"; break; }
  }
  return r;
}
template <class C> std::string show_all(const C &terms, std::size_t limit = 24) {
  std::string r = "[";
  std::size_t k = 0;
  for (const std::string &t : terms) {
    if (k) r += ",";
    if (k++ == limit) { r += "...(" + std::to_string(terms.size()) + " terms)"; break; }
    r += "'" + show(t) + "'";
  }
  return r + "]";
}

// ---------------------------------------------------------------- driver
struct Driver {
  std::string mode;
  uint64_t seed = 1;
  std::size_t shard = 0, shards = 1, cases = 100, scale = 1, first = 0;
  long long only = -1;
  std::string progress, scratch = "/tmp";
  std::map<std::string, std::string> opt;

  // what the monitors saw
  std::map<std::string, std::size_t> counts;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::size_t violations = 0;
  long long current = -1;
  int progress_fd = -1;

  static Driver *&self() { static Driver *d = nullptr; return d; }

  void parse(int argc, char **argv) {
    self() = this;
    if (argc < 2) { fprintf(stderr, "usage: driver MODE [--key value]...\n"); exit(3); }
    mode = argv[1];
    for (int i = 2; i + 1 < argc; i += 2) {
      std::string k = argv[i], v = argv[i + 1];
      if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
      else if (k == "--shard") shard = strtoull(v.c_str(), nullptr, 10);
      else if (k == "--shards") shards = strtoull(v.c_str(), nullptr, 10);
      else if (k == "--first") first = strtoull(v.c_str(), nullptr, 10);
      else if (k == "--cases") cases = strtoull(v.c_str(), nullptr, 10);
      else if (k == "--scale") scale = strtoull(v.c_str(), nullptr, 10);
      else if (k == "--only") only = atoll(v.c_str());
      else if (k == "--progress") progress = v;
      else if (k == "--scratch") scratch = v;
      else opt[k.substr(2)] = v;
    }
    if (!progress.empty()) progress_fd = open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    struct sigaction sa {};
    sa.sa_handler = [](int) {
      char buf[64];
      int n = snprintf(buf, sizeof buf, "\nHANG case=%lld\n", self()->current);
      ssize_t ignored = ::write(1, buf, n); (void)ignored;
      _exit(97);
    };
    sigaction(SIGPROF, &sa, nullptr);
    if (opt.count("as-mb")) {
      struct rlimit r; r.rlim_cur = r.rlim_max = (rlim_t)atoll(opt["as-mb"].c_str()) << 20;
      setrlimit(RLIMIT_AS, &r);
    }
  }

  // CPU-time watchdog for the current case, in seconds of CPU time.
  void watchdog(int cpu_seconds) {
    struct itimerval it {}; it.it_value.tv_sec = cpu_seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
  }

  // Notices when every other thread of the process waits for something for
  // half a minute: a deadlock, which no limit on processor time would end. A
  // thread that is merely not scheduled is runnable, and does not count.
  std::atomic<unsigned long> beat{0};
  static bool all_waiting() {
    DIR *d = opendir("/proc/self/task");
    if (!d) return false;
    bool waiting = true;
    long me = syscall(SYS_gettid);
    while (dirent *e = readdir(d)) {
      if (e->d_name[0] == '.' || atol(e->d_name) == me) continue;
      char path[64], buf[512];
      snprintf(path, sizeof path, "/proc/self/task/%.20s/stat", e->d_name);
      int fd = open(path, O_RDONLY | O_CLOEXEC);
      ssize_t n = fd < 0 ? -1 : read(fd, buf, sizeof buf - 1);
      if (fd >= 0) close(fd);
      if (n <= 0) { waiting = false; continue; }
      buf[n] = 0;
      const char *p = strrchr(buf, ')');
      if (!p || p[1] != ' ' || p[2] != 'S') waiting = false;
    }
    closedir(d);
    return waiting;
  }
  void watch_for_deadlock() {
    pthread_t t;
    auto body = [](void *arg) -> void * {
      Driver *d = (Driver *)arg;
      unsigned long last = ~0ul;
      for (int still = 0;;) {
        timespec one{1, 0};
        nanosleep(&one, nullptr);
        unsigned long now = d->beat.load(std::memory_order_relaxed);
        still = now == last && all_waiting() ? still + 1 : 0;
        last = now;
        if (still >= 20) {
          d->violation("deadlock", "every thread waits, and none has made a step for 20 s");
          d->finish();
          _exit(1);
        }
      }
      return nullptr;
    };
    if (pthread_create(&t, nullptr, body, this) == 0) pthread_detach(t);
  }

  void begin_case(long long idx) {
    current = idx;
    beat.fetch_add(1, std::memory_order_relaxed);
    if (progress_fd >= 0) {
      char buf[32]; int n = snprintf(buf, sizeof buf, "%-20lld", idx);
      ssize_t ignored = pwrite(progress_fd, buf, n, 0); (void)ignored;
    }
    watchdog(opt.count("watchdog") ? atoi(opt["watchdog"].c_str()) : 60);
  }

  // Runs fn(case index, rng) for this shard's share of the cases.
  void for_cases(std::size_t n, const std::function<void(std::size_t, Rng &)> &fn) {
    if (only >= 0) {
      begin_case(only);
      Rng rng(seed, only); fn(only, rng);
      return;
    }
    for (std::size_t i = first + shard; i < first + n; i += shards) {
      begin_case((long long)i);
      Rng rng(seed, i);
      fn(i, rng);
      if (violations >= 5) break;
    }
  }

  void violation(const std::string &key, const std::string &detail) {
    ++violations;
    printf("VIOL case=%lld key=%s detail=%s\n", current, key.c_str(), detail.c_str());
    fflush(stdout);
  }
  void expect(bool ok, const std::string &key, const std::function<std::string()> &detail) {
    ++counts["checks"];
    if (!ok) violation(key, detail());
  }
  void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s.size() > 400 ? s.substr(0, 400) + "..." : s); }

  int finish() {
    watchdog(0);
    if (opt.count("distinct-out")) { // the hashes themselves, so that shards can be united
      if (FILE *f = fopen(opt["distinct-out"].c_str(), "wb")) {
        for (uint64_t h : distinct) fwrite(&h, sizeof h, 1, f);
        fclose(f);
      }
    }
#if defined(_GLIBCXX_DEBUG)
    counts["monitored_by_debug_containers"] = 1;
#endif
#if defined(__SANITIZE_ADDRESS__)
    counts["monitored_by_asan_ubsan"] = 1;
#elif defined(__SANITIZE_THREAD__)
    counts["monitored_by_tsan"] = 1;
#endif
    printf("STATS {\"violations\":%zu,\"distinct\":%zu,\"counts\":{", violations, distinct.size());
    bool first = true;
    for (auto &[k, v] : counts) { printf("%s\"%s\":%zu", first ? "" : ",", k.c_str(), v); first = false; }
    printf("},\"samples\":[");
    first = true;
    for (auto &s : samples) { printf("%s\"%s\"", first ? "" : ",", s.c_str()); first = false; }
    printf("]}\n");
    fflush(stdout);
    return violations ? 1 : 0;
  }
};

// ---------------------------------------------------------------- oracles
// Edit distances by forward dynamic programming over the whole matrix: an
// independent formulation of what the library computes with memoized recursion
// (distance/) and with automata (transducer/).
enum { STD = 0, TRN = 1, MAS = 2 };
inline const char *alg_name(int a) { return a == STD ? "STANDARD" : a == TRN ? "TRANSPOSITION" : "MERGE_AND_SPLIT"; }

struct DpOracle {
  std::vector<std::size_t> d;
  std::size_t operator()(int alg, const std::string &a, const std::string &b) {
    const std::size_t n = a.size(), m = b.size(), w = m + 1;
    d.assign((n + 1) * w, 0);
    for (std::size_t j = 0; j <= m; ++j) d[j] = j;
    for (std::size_t i = 1; i <= n; ++i) {
      d[i * w] = i;
      for (std::size_t j = 1; j <= m; ++j) {
        std::size_t r = d[(i - 1) * w + j - 1] + (a[i - 1] != b[j - 1]);
        r = std::min(r, d[(i - 1) * w + j] + 1);
        r = std::min(r, d[i * w + j - 1] + 1);
        if (alg == TRN && i > 1 && j > 1 && a[i - 1] == b[j - 2] && a[i - 2] == b[j - 1])
          r = std::min(r, d[(i - 2) * w + j - 2] + 1);
        if (alg == MAS) {
          if (i > 1) r = std::min(r, d[(i - 2) * w + j - 1] + 1);
          if (j > 1) r = std::min(r, d[(i - 1) * w + j - 2] + 1);
        }
        d[i * w + j] = r;
      }
    }
    return d[n * w + m];
  }
};

// Byte-wise lexicographic order, spelled out.
inline bool lex_less(const std::string &a, const std::string &b) {
  std::size_t k = std::min(a.size(), b.size());
  for (std::size_t i = 0; i < k; ++i) {
    unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (x != y) return x < y;
  }
  return a.size() < b.size();
}
struct LexLess { bool operator()(const std::string &a, const std::string &b) const { return lex_less(a, b); } };
using TermSet = std::set<std::string>;

// ---------------------------------------------------------------- generators
inline std::vector<std::string> all_strings(const std::string &alphabet, std::size_t max_len) {
  std::vector<std::string> r{""};
  std::size_t s = 0;
  for (std::size_t l = 0; l < max_len; ++l) {
    std::size_t e = r.size();
    for (; s < e; ++s) for (char c : alphabet) r.push_back(r[s] + c);
  }
  return r;
}

inline std::string random_alphabet(Rng &rng) {
  switch (rng.below(9)) {
  case 0: return "a";
  case 1: return "ab";
  case 2: return "abc";
  case 3: return "abcd";
  case 4: return std::string("\x00\x01\x7f\x80\xff", 5);
  case 5: return std::string("a\x80\xc3\xa9", 4);
  case 6: return "abcdefghijklmnopqrstuvwxyz";
  case 7: { std::string r; for (int i = 0; i < 256; ++i) r += (char)i; return r; }
  default: { std::string r; std::size_t k = rng.range(2, 5); while (r.size() < k) { char c = (char)rng.below(256); if (r.find(c) == std::string::npos) r += c; } return r; }
  }
}
inline std::string random_string(Rng &rng, const std::string &alphabet, std::size_t lo, std::size_t hi) {
  std::size_t n = rng.range(lo, hi);
  std::string r;
  for (std::size_t i = 0; i < n; ++i) r += alphabet[rng.below(alphabet.size())];
  return r;
}
// One random elementary edit (of any kind the library knows).
inline void edit(Rng &rng, std::string &s, const std::string &alphabet) {
  char c = alphabet[rng.below(alphabet.size())], c2 = alphabet[rng.below(alphabet.size())];
  std::size_t n = s.size();
  switch (rng.below(7)) {
  case 0: s.insert(s.begin() + (long)rng.below(n + 1), c); break;
  case 1: if (n) s.erase(rng.below(n), 1); break;
  case 2: if (n) s[rng.below(n)] = c; break;
  case 3: case 4: if (n > 1) { std::size_t i = rng.below(n - 1); std::swap(s[i], s[i + 1]); } break;
  case 5: if (n > 1) { std::size_t i = rng.below(n - 1); s.erase(i, 1); s[i] = c; } break;
  default: if (n) { std::size_t i = rng.below(n); s[i] = c; s.insert(s.begin() + (long)i + 1, c2); } break;
  }
}
inline std::string edited(Rng &rng, std::string s, const std::string &alphabet, std::size_t k) {
  while (k--) edit(rng, s, alphabet);
  return s;
}
inline std::string periodic(Rng &rng, const std::string &alphabet, std::size_t len) {
  std::string p = random_string(rng, alphabet, 1, 4), r;
  while (r.size() < len) r += p;
  r.resize(len);
  return r;
}

// Term sets of many shapes; small to medium.
inline TermSet random_terms(Rng &rng, std::size_t scale_hint = 40) {
  TermSet out;
  std::string al = random_alphabet(rng);
  switch (rng.below(11)) {
  case 10: {                                       // products of letter sets: equal wide nodes, or all but equal ones
    std::vector<std::string> acc{""};
    for (std::size_t lv = rng.range(1, 3); lv--;) {
      std::string ls; std::size_t k = rng.chance(30) ? rng.range(20, 70) : rng.range(1, 8);
      for (std::size_t i = 0; i < k; ++i) ls += rng.chance(50) ? al[rng.below(al.size())] : (char)rng.below(256);
      std::vector<std::string> nx;
      for (auto &s : acc) for (char c : ls) if (nx.size() < scale_hint * 20) nx.push_back(s + c);
      acc.swap(nx);
    }
    for (auto &s : acc) out.insert(s);
    for (std::size_t k = rng.below(3); k-- && !out.empty();) out.erase(std::next(out.begin(), (long)rng.below(out.size())));
    break;
  }
  case 0: break;                                   // empty dictionary
  case 1: out.insert(""); if (rng.chance(50)) out.insert(random_string(rng, al, 0, 6)); break;
  case 2: {                                        // prefix chain
    std::string s = random_string(rng, al, 1, 30);
    for (std::size_t i = 0; i <= s.size(); ++i) if (rng.chance(60)) out.insert(s.substr(0, i));
    break;
  }
  case 3: {                                        // shared suffixes
    std::vector<std::string> suf;
    for (int i = 0; i < 4; ++i) suf.push_back(random_string(rng, al, 0, 6));
    for (std::size_t i = 0; i < scale_hint; ++i) out.insert(random_string(rng, al, 0, 4) + rng.pick(suf));
    break;
  }
  case 4: {                                        // wide fan-out
    std::string p = random_string(rng, al, 0, 3), q = random_string(rng, al, 0, 2);
    for (int i = 0; i < 256; ++i) if (rng.chance(80)) out.insert(p + (char)i + (rng.chance(50) ? q : ""));
    break;
  }
  case 5: {                                        // long terms
    std::string s = random_string(rng, al, 60, 300);
    for (int i = 0; i < 4; ++i) out.insert(edited(rng, s, al, rng.below(4)));
    break;
  }
  case 6: {                                        // neighbours of one word
    std::string s = random_string(rng, al, 3, 14);
    for (std::size_t i = 0; i < scale_hint; ++i) out.insert(edited(rng, s, al, rng.below(4)));
    break;
  }
  case 7: {                                        // dense: most short strings over a tiny alphabet
    std::string tiny = al.substr(0, std::min<std::size_t>(al.size(), 3));
    for (auto &s : all_strings(tiny, tiny.size() == 1 ? 8 : tiny.size() == 2 ? 5 : 3)) if (rng.chance(70)) out.insert(s);
    break;
  }
  default:
    for (std::size_t i = 0, k = rng.range(1, scale_hint * 2); i < k; ++i) out.insert(random_string(rng, al, 0, 10));
  }
  return out;
}

// A realistic vocabulary: n distinct pseudo-words.
inline TermSet vocabulary(Rng &rng, std::size_t n) {
  static const char *syl[] = {"an", "ti", "er", "con", "de", "ing", "s", "ment", "pre", "lo", "ka", "ri", "tion", "u", "e", "st", "qu", "ab", "le", "ness"};
  TermSet out;
  while (out.size() < n) {
    std::string s;
    for (std::size_t k = rng.range(1, 5); k--;) s += syl[rng.below(20)];
    if (rng.chance(25)) edit(rng, s, "abcdefghijklmnopqrstuvwxyz");
    out.insert(s);
  }
  return out;
}

// Beyond 65536 terms, nodes or bytes of depth: where narrow counters end.
inline TermSet huge_terms(Rng &rng, unsigned kind) {
  TermSet out;
  switch (kind % 3) {
  case 0:                                          // many nodes
    while (out.size() < 70000) out.insert(random_string(rng, "abcdefghijklmnopqrstuvwxyz", 3, 11));
    break;
  case 1: {                                        // many terms, few nodes
    std::string al; for (int i = 0; i < 256; ++i) al += (char)i;
    for (auto &s : all_strings(al, 2)) if (s.size() != 2 || rng.below(1000)) out.insert(s);
    for (int i = 0; i < 500; ++i) out.insert(random_string(rng, al, 3, 5));
    break;
  }
  default: {                                       // deep
    std::string al = random_alphabet(rng), s = random_string(rng, al, 1500, 3000);
    for (int i = 0; i < 3; ++i) out.insert(edited(rng, s, al, rng.below(4)));
    out.insert(s.substr(0, s.size() / 2));
    out.insert(s.substr(1));
  }
  }
  return out;
}
