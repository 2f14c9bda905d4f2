// C21: independent objects in different threads.
#include "traffic.hpp"
#include <atomic>
#include <thread>
const char *const RULE = "each case gives 2 to 8 threads a piece of deterministic work each (all codecs, hostile and legal connections, buffers), starts them together with random delays inside, under the race detector, and compares what each thread observed with what the same work gives alone; non-trivial: at least two threads overlapped; distinct by the work and the order in which the threads ended";
void harness_init() { base::logger = nullptr; }
void run_case(Ctx &c)
{
  Rng &g = c.rng;
  unsigned n = 2 + (unsigned) g.below(7);
  std::vector<Rng> work;
  for (unsigned i = 0; i < n; i++) work.emplace_back(g.next());
  if (g.chance(1, 3)) work[1] = work[0]; // two threads doing the same
  unsigned rounds = 1 + (unsigned) g.below(3);
  // Some cases run the threads before anything was done alone, so that lazily
  // built state would be built concurrently.
  // The first case of a process always does.
  static bool first = true;
  bool threads_first = g.chance(1, 2) || first;
  first = false;
  std::vector<std::vector<uint64_t>> got(n), alone(n);
  std::vector<std::string> bad(n);
  auto one = [&](unsigned i, std::vector<uint64_t> &out) {
    for (unsigned r = 0; r < rounds; r++) {
      Rng w(mix(work[i].s, r));
      out.push_back(traffic(w).h);
    }
  };
  std::atomic<unsigned> ready{ 0 }, running{ 0 }, peak{ 0 }, order{ 0 };
  std::vector<unsigned> rank(n);
  auto threads = [&]() {
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < n; i++) ts.emplace_back([&, i]() {
        ready++;
        while (ready < n) std::this_thread::yield();
        unsigned now = ++running, p = peak;
        while (p < now && !peak.compare_exchange_weak(p, now)) {}
        for (unsigned k = 0; k < work[i].s % 3; k++) std::this_thread::yield();
        try {
          one(i, got[i]);
        } catch (const Violation &v) {
          bad[i] = v.key + ": " + v.msg;
        }
        running--;
        rank[i] = order++;
      });
    for (auto &t : ts) t.join();
  };
  if (threads_first) threads();
  for (unsigned i = 0; i < n; i++) one(i, alone[i]);
  if (!threads_first) threads();
  for (unsigned i = 0; i < n; i++) {
    CHECK(bad[i].empty(), "differs-in-thread", "thread %u: %s", i, bad[i].c_str());
    CHECK(got[i] == alone[i], "differs-in-thread", "thread %u of %u observes something else than the same work alone", i, n);
    c.observe(got[i].back());
    c.observe(rank[i]);
  }
  c.stat("threads", n);
  c.stat("pieces-of-work", n * rounds);
  c.stat("peak-concurrency", peak);
  if (peak > 1) c.interesting();
  c.sample(strf("%u threads, %u rounds, %u at the same time", n, rounds, peak.load()));
}
