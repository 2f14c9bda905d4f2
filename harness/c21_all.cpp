// C21: the other properties' cases, with their own oracles, run concurrently.
#include <sstream>
#include "scale.hpp"
#include "quicx.hpp"
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/quic/crypto.hpp>
#include <bnl/quic/path.hpp>
#include "alloc.hpp"
#include <atomic>
#include <thread>
namespace p02 {
#include "c02.cpp"
}
namespace p03 {
#include "c03.cpp"
}
namespace p04 {
#include "c04.cpp"
}
namespace p05 {
#include "c05.cpp"
}
namespace p06 {
#include "c06.cpp"
}
namespace p07 {
#include "c07.cpp"
}
namespace p08 {
#include "c08.cpp"
}
namespace p09 {
#include "c09.cpp"
}
namespace p11 {
#include "c11.cpp"
}
namespace p12 {
#include "c12.cpp"
}
namespace p13 {
#include "c13.cpp"
}
namespace p14 {
#include "c14.cpp"
}
namespace p16 {
#include "c16.cpp"
}
namespace p17 {
#include "c17.cpp"
}
namespace p18 {
#include "c18.cpp"
}
namespace p19 {
#include "c19.cpp"
}
namespace p22 {
#include "c22.cpp"
}
namespace p23 {
#include "c23.cpp"
}
const char *const RULE = "each case gives 2 to 8 threads a few cases each of the other properties' harnesses (codecs, buffers, connections, handles, addresses, errors, QUIC packet protection, streams and handshakes) and runs them concurrently under the race detector with those properties' own oracles; what fails only next to other threads is a violation; non-trivial: at least two threads overlapped; distinct by the work and the order in which the threads ended";
struct Kind {
  const char *name;
  void (*init)();
  void (*run)(Ctx &);
  uint64_t cases; // cases to choose from
};
#define KIND(p) { #p, p::harness_init, p::run_case, 1u << 20 }
static const Kind kinds[] = { KIND(p02), KIND(p03), KIND(p04), KIND(p05), KIND(p06), KIND(p07), KIND(p08), KIND(p09), KIND(p11), KIND(p12), KIND(p13), KIND(p14), KIND(p16), KIND(p17), KIND(p18), KIND(p19), KIND(p22), KIND(p23) };
static const size_t KINDS = sizeof kinds / sizeof *kinds;
void harness_init()
{
  for (auto &k : kinds) k.init();
}
struct Job {
  size_t kind;
  uint64_t idx;
  uint64_t seed;
};
static std::string run(const Job &j, uint64_t &sig)
{
  Ctx c;
  c.seed = j.seed;
  c.idx = j.idx;
  c.rng = Rng(mix(mix(0x21, j.seed), j.idx));
  try {
    kinds[j.kind].run(c);
  } catch (const Violation &v) {
    return v.key + ": " + v.msg;
  }
  sig = c.sig;
  return "";
}
void run_case(Ctx &c)
{
  Rng &g = c.rng;
  unsigned n = 2 + (unsigned) g.below(7);
  std::vector<std::vector<Job>> jobs(n);
  // Half of the cases let all threads do the same kind of work.
  size_t common = g.chance(1, 2) ? g.below(KINDS) : KINDS;
  for (auto &v : jobs)
    for (uint64_t k = 1 + g.below(4); k-- > 0;) {
      size_t kind = common < KINDS ? common : g.below(KINDS);
      // The lowest numbers are special cases of several harnesses, some of them large.
      v.push_back({ kind, 1 + g.below(kinds[kind].cases), 1 + g.below(1000) });
      while (v.back().idx % 40 == 0) v.back().idx++;
    }
  if (g.chance(1, 4)) jobs[1] = jobs[0];
  std::vector<std::vector<std::string>> bad(n);
  std::vector<uint64_t> sig(n);
  std::atomic<unsigned> ready{ 0 }, running{ 0 }, peak{ 0 }, order{ 0 };
  std::vector<unsigned> rank(n);
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < n; i++) ts.emplace_back([&, i]() {
      ready++;
      while (ready < n) std::this_thread::yield();
      unsigned now = ++running, p = peak;
      while (p < now && !peak.compare_exchange_weak(p, now)) {}
      for (auto &j : jobs[i]) {
        uint64_t s = 0;
        bad[i].push_back(run(j, s));
        sig[i] = mix(sig[i], s);
      }
      running--;
      rank[i] = order++;
    });
  for (auto &t : ts) t.join();
  for (unsigned i = 0; i < n; i++) {
    for (size_t k = 0; k < jobs[i].size(); k++) {
      c.stat("concurrent-cases");
      if (bad[i][k].empty()) continue;
      uint64_t s;
      // What also fails alone is another property's matter.
      CHECK(!run(jobs[i][k], s).empty(), "fails-in-thread", "thread %u: a case of %s fails only next to other threads: %s", i, kinds[jobs[i][k].kind].name, bad[i][k].c_str());
    }
    c.observe(sig[i]);
    c.observe(rank[i]);
  }
  c.stat("peak-concurrency", peak);
  if (peak > 1) c.interesting();
  c.sample(strf("%u threads, %u at the same time", n, peak.load()));
}
