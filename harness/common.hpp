// Case runner shared by all harnesses: deterministic cases, violation reports,
// counters of what was observed, progress for attributing crashes and hangs.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

using bytes = std::string;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template<typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

static inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}
static inline uint64_t hash_bytes(const bytes &b, uint64_t h = 0xcbf29ce484222325ULL)
{
  for (unsigned char c : b) h = (h ^ c) * 0x100000001b3ULL;
  return h;
}
static inline std::string hex(const bytes &b, size_t max = 96)
{
  static const char *d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < b.size() && i < max; i++) {
    r += d[(unsigned char) b[i] >> 4];
    r += d[(unsigned char) b[i] & 15];
  }
  if (b.size() > max) r += "...(" + std::to_string(b.size()) + " bytes)";
  return r;
}

struct Violation {
  std::string key, msg;
};

static std::string vformat(const char *f, va_list ap)
{
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
static inline std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
static inline std::string strf(const char *f, ...)
{
  va_list ap;
  va_start(ap, f);
  std::string s = vformat(f, ap);
  va_end(ap);
  return s;
}

[[noreturn]] static inline void fail(const char *key, const char *f, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] static inline void fail(const char *key, const char *f, ...)
{
  va_list ap;
  va_start(ap, f);
  std::string s = vformat(f, ap);
  va_end(ap);
  throw Violation{ key, s };
}
#define CHECK(cond, key, ...)                                                  \
  do {                                                                         \
    if (!(cond)) fail(key, __VA_ARGS__);                                       \
  } while (0)

struct Ctx {
  uint64_t seed = 1, idx = 0;
  bool thorough = false;
  bool verbose = false;
  Rng rng;
  uint64_t sig = 0;
  bool nontrivial = false;
  std::string sample_;
  static std::map<std::string, uint64_t> &stats()
  {
    static thread_local std::map<std::string, uint64_t> s; // per thread: C21 runs cases concurrently
    return s;
  }
  void stat(const char *k, uint64_t n = 1) { stats()[k] += n; }
  void observe(uint64_t v) { sig = mix(sig, v); }
  void observe(const bytes &b) { sig = mix(sig, hash_bytes(b)); }
  void interesting() { nontrivial = true; }
  bool want_sample() const { return sampling; }
  void sample(const std::string &s) { if (sampling && sample_.size() < 1500) { if (!sample_.empty()) sample_ += " | "; sample_ += s.substr(0, 600); } }
  bool sampling = false;
};

// Each harness defines these.
extern const char *const RULE;
void run_case(Ctx &c);
void harness_init();

#ifndef HARNESS_NO_MAIN
int main(int argc, char **argv)
{
  uint64_t seed = 1, from = 0, to = 1000, stride = 1, offset = 0;
  const char *progress = nullptr, *hashes = nullptr;
  bool thorough = false, verbose = false;
  uint64_t max_viol = 3;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto arg = [&]() { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = strtoull(arg(), nullptr, 10);
    else if (a == "--from") from = strtoull(arg(), nullptr, 10);
    else if (a == "--to") to = strtoull(arg(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(arg(), nullptr, 10);
    else if (a == "--offset") offset = strtoull(arg(), nullptr, 10);
    else if (a == "--progress") progress = arg();
    else if (a == "--hashes") hashes = arg();
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") verbose = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  // progress[0] = current case, progress[1] = cases done
  static uint64_t dummy[2];
  volatile uint64_t *prog = dummy;
  if (progress) {
    int fd = open(progress, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 16) != 0) { perror("progress"); return 2; }
    void *m = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) { perror("mmap"); return 2; }
    prog = (volatile uint64_t *) m;
    close(fd);
  }
  harness_init();
  std::unordered_set<uint64_t> distinct;
  uint64_t evals = 0, viols = 0, samples = 0;
  uint64_t first = from + (offset + stride - from % stride) % stride;
  for (uint64_t idx = first; idx < to; idx += stride) {
    prog[0] = idx;
    Ctx c;
    c.seed = seed;
    c.idx = idx;
    c.thorough = thorough;
    c.verbose = verbose;
    c.rng = Rng(mix(mix(0x626e6c, seed), idx));
    c.sampling = samples < 2 && (idx - first) / stride >= samples * 37;
    try {
      run_case(c);
    } catch (const Violation &v) {
      std::string m = v.msg;
      for (char &ch : m) if (ch == '\n' || ch == '\r') ch = ' ';
      printf("VIOL case=%llu key=%s msg=%s\n", (unsigned long long) idx, v.key.c_str(), m.c_str());
      fflush(stdout);
      viols++;
    }
    evals++;
    prog[1] = prog[1] + 1;
    if (c.nontrivial) distinct.insert(c.sig);
    if (c.sampling && !c.sample_.empty()) {
      samples++;
      std::string m = c.sample_;
      for (char &ch : m) if ((unsigned char) ch < 32 || (unsigned char) ch > 126) ch = '.';
      printf("SAMPLE case %llu: %s\n", (unsigned long long) idx, m.c_str());
    }
    if (viols >= max_viol) break;
  }
  printf("EVALS %llu\n", (unsigned long long) evals);
  for (auto &kv : Ctx::stats()) printf("STAT %s %llu\n", kv.first.c_str(), (unsigned long long) kv.second);
  if (hashes) {
    FILE *f = fopen(hashes, "wb");
    if (!f) { perror("hashes"); return 2; }
    for (uint64_t h : distinct) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  printf("RULE %s\n", RULE);
  printf("DONE\n");
  fflush(stdout);
  return viols ? 1 : 0;
}
#endif
