// C25: outputs depend only on inputs.
#include "alloc.hpp"
#include "traffic.hpp"
#include <alloca.h>
const char *const RULE = "each case runs the same deterministic work (all encoders, all decoders, hostile and legal connections) under five previous contents of fresh heap memory, stack and destination buffers (zero, ones, two alternating patterns, changing) and compares everything observed; bytes around destinations are watched; non-trivial: over 50 observations; distinct by what was observed";
void harness_init() { base::logger = nullptr; }
__attribute__((noinline)) static void paint(int pattern)
{
  volatile char *p = (volatile char *) alloca(64 * 1024);
  for (size_t i = 0; i < 64 * 1024; i++) p[i] = pattern < 256 ? (char) pattern : (char) (i * 0x9e37 >> 6);
}
__attribute__((noinline)) static Digest once(Rng g, int pattern)
{
  paint(pattern);
  alloc::fill = pattern;
  Digest d;
  try {
    d = traffic(g, pattern);
  } catch (...) {
    alloc::fill = -1;
    throw;
  }
  alloc::fill = -1;
  return d;
}
void run_case(Ctx &c)
{
  static const int patterns[] = { 0, 255, 0x55, 0xaa, 256 };
  Digest first = once(c.rng, 0);
  for (int p : patterns) {
    if (!p) continue;
    Digest d = once(c.rng, p);
    CHECK(d.h == first.h && d.items == first.items, "depends-on-memory", "memory full of 0x%02x instead of zeros changes the outcome at %s", p, first_difference(first, d).c_str());
    c.stat("comparisons", d.items);
  }
  c.stat("observations", first.items);
  c.observe(first.h);
  if (first.items > 50) c.interesting();
  c.sample(strf("%llu observations, first: ", (unsigned long long) first.items) + first.marks[0].second + "; last: " + first.marks.back().second);
}
