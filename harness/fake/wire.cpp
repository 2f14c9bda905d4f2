// The QUIC engine and TLS of a whole client process: configured by the file
// that BNL_WIRE names, and with a real peer at the other end of the socket.
#include "tls.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>

namespace {

uint64_t pto, idle, partial, nodata, congested, retransmit;

fake::bytes
unhex(const std::string &s)
{
  fake::bytes b;
  auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    b.push_back((uint8_t)(d(s[i]) << 4 | d(s[i + 1])));
  return b;
}

// Not printed through streams, which may be gone at exit.
void
report()
{
  for (auto &s : fake::complaints())
    fprintf(stderr, "ENGINE-COMPLAINT: %s\n", s.c_str());
  for (auto &c : fake::counters())
    fprintf(stderr, "ENGINE-COUNT: %s %llu\n", c.first.c_str(), (unsigned long long) c.second);
  fflush(stderr);
}

struct init {
  init()
  {
    const char *name = getenv("BNL_WIRE");
    if (!name)
      return;
    fake::complaints();
    fake::counters();
    std::ifstream f(name);
    fake::script &s = fake::next_script();
    std::string k, v;
    uint64_t seed = 1;
    while (f >> k) {
      std::getline(f, v);
      v.erase(0, v.find_first_not_of(' ') == std::string::npos ? v.size() : v.find_first_not_of(' '));
      if (k == "cipher") s.cipher = (uint32_t) std::stoul(v);
      else if (k == "early") s.early = v == "1";
      else if (k == "hello") s.hello.push_back(unhex(v));
      else if (k == "finished") s.finished.push_back(unhex(v));
      else if (k == "server_hello") s.server_hello = unhex(v);
      else if (k == "server_flight") s.server_flight = unhex(v);
      else if (k == "early_secret") s.early_secret = unhex(v);
      else if (k == "hs_read") s.hs_read = unhex(v);
      else if (k == "hs_write") s.hs_write = unhex(v);
      else if (k == "app_read") s.app_read = unhex(v);
      else if (k == "app_write") s.app_write = unhex(v);
      else if (k == "peer_tp") s.peer_tp = unhex(v);
      else if (k == "fail") s.fail = v;
      else if (k == "pto") pto = std::stoull(v);
      else if (k == "idle") idle = std::stoull(v);
      else if (k == "partial") partial = std::stoull(v);
      else if (k == "nodata") nodata = std::stoull(v);
      else if (k == "congested") congested = std::stoull(v);
      else if (k == "retransmit") retransmit = std::stoull(v);
      else if (k == "seed") seed = std::stoull(v);
    }
    fake::on_new() = [seed](ngtcp2_conn *c) {
      c->wire = true;
      c->pto = pto;
      if (idle)
        c->idle_timeout = idle;
      c->pol.rng.seed(seed);
      c->pol.partial = (unsigned) partial;
      c->pol.nodata = (unsigned) nodata;
      c->pol.congested = (unsigned) congested;
      c->pol.retransmit = (unsigned) retransmit;
    };
    // Reports when the thread ends, before what it reports is gone.
    struct at_end {
      ~at_end() { report(); }
    };
    static thread_local at_end last;
    (void) last;
  }
} instance;

}
