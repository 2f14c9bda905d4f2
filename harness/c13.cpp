// C13: refused calls change nothing.
#include "session.hpp"
const char *const RULE = "each case runs one random session twice with the same schedule, once as it is and once with out-of-order calls injected between all steps (checked to be refused), and compares the bytes on the wire of both directions and everything observed; non-trivial: at least one refused call; distinct by the schedule and the injected calls";
void harness_init() { base::logger = nullptr; }

struct Misuse : Session {
  Rng m;
  bool inject;
  std::map<std::string, uint64_t> kinds;
  uint64_t sig = 0;
  Misuse(Rng &g, SessionOpts o, uint64_t seed, bool inject) : Session(g, o), m(seed), inject(inject) {}

  template<typename R> void refused(const R &r, const char *what, uint64_t id, h3err want, h3err want2)
  {
    CHECK(!r, "not-refused", "%s on stream %llu succeeds", what, (unsigned long long) id);
    CHECK(r.error() == want || r.error() == want2, "refused-error", "%s on stream %llu is refused with %s instead of %s", what, (unsigned long long) id, ename(r.error()), ename(want));
    kinds[what]++;
    sig = mix(sig, hash_bytes(what) + id);
  }
  template<typename O> void on_handle(O &x, uint64_t id, bool ended, bool gone)
  {
    if (!x.have) return;
    auto I = h3err::internal, D = h3err::invalid_handle;
    h3err w = gone ? D : I, w2 = ended ? D : w;
    bytes n = lower(any_bytes(m, 10)), v = any_bytes(m, 60);
    switch (m.below(6)) {
      case 0:
        if (x.started) refused(x.h.header({ { n.data(), n.size() }, { v.data(), v.size() } }), "header after the headers were completed", id, w, w2);
        else {
          n.insert(n.begin() + (long) m.below(n.size() + 1), (char) ('A' + m.below(26)));
          refused(x.h.header({ { n.data(), n.size() }, { v.data(), v.size() } }), "uppercase header", id, h3err::malformed_header, h3err::malformed_header);
        }
        break;
      case 1:
        if (x.started) refused(x.h.start(), "completing headers twice", id, w, w2);
        else if (x.nh == 0) refused(x.h.start(), "completing headers without any header", id, w, w2);
        break;
      case 2: case 3:
        if (x.finned) refused(x.h.body(buf(v)), "body after the message was completed", id, w, w2);
        break;
      case 4:
        if (x.finned && ended) refused(x.h.fin(), "completing a sent message again", id, w, w2);
        break;
      default:
        if (x.started && !gone) { // an uppercase header then is just as wrong
          bytes u = "X";
          auto r = x.h.header({ { u.data(), u.size() }, { v.data(), v.size() } });
          CHECK(!r, "not-refused", "uppercase header after the headers succeeds");
        }
    }
  }
  void before_step() override
  {
    if (!inject || !m.chance(1, 2)) return;
    if (!req.empty()) {
      auto it = req.begin();
      std::advance(it, (long) m.below(req.size()));
      uint64_t id = it->first;
      bool ended = cw.count(id) && cw[id].fin;
      on_handle(it->second, id, ended, ended && crx.count(id) && crx[id].finished);
    }
    if (!res.empty()) {
      auto it = res.begin();
      std::advance(it, (long) m.below(res.size()));
      uint64_t id = it->first;
      bool ended = sw.count(id) && sw[id].fin;
      on_handle(it->second, id, ended, ended && srx[id].finished);
      if (ended) refused(s->response(id), "response on a finished stream", id, h3err::stream_closed, h3err::stream_closed);
    }
    switch (m.below(6)) {
      case 0: {
        uint64_t id = 4 * m.below(200) + (m.chance(1, 3) ? m.below(4) : 0);
        if (m.chance(1, 4)) id = m.next();
        if (!known.count(id)) refused(s->response(id), "response on an unknown stream", id, h3err::stream_closed, h3err::stream_closed);
        break;
      }
      case 1: // data after the end, at the server
        for (auto &kv : cw) {
          if (!kv.second.fin_delivered) continue;
          bool gone = sw.count(kv.first) && sw[kv.first].fin; // may be forgotten
          if (gone) continue;
          refused(more(*s, kv.first), "data after the end of a request", kv.first, h3err::internal, h3err::internal);
          break;
        }
        break;
      case 2: // data after the end, at the client
        for (auto &kv : sw) {
          if (!kv.second.fin_delivered || !m.chance(1, 2)) continue;
          refused(more(*c, kv.first), "data after the end of a response", kv.first, h3err::internal, h3err::internal);
          break;
        }
        break;
      case 3: {
        uint64_t id = 4 * (req.size() + m.below(100));
        refused(more(*c, id), "response data on an unknown stream", id, h3err::internal, h3err::internal);
        break;
      }
      default: break;
    }
  }
  template<typename C> http3::result<void> more(C &conn, uint64_t id)
  {
    quic::data d;
    d.id = id;
    d.fin = m.chance(1, 2);
    d.buffer = buf(m.chance(1, 3) ? bytes() : ref::frame(0, any_bytes(m, 30)));
    auto r = conn.recv(quic::event(std::move(d)));
    if (!r) return r.error();
    return base::success();
  }
};
static bytes digest(Session &s)
{
  bytes r;
  for (Wire *w : { &s.cw, &s.sw })
    for (auto &kv : *w) r += u64(kv.first) + u64(kv.second.data.size()) + kv.second.data + (kv.second.fin ? "F" : "-");
  return r;
}
static bytes seen(std::map<uint64_t, Rx> &m)
{
  bytes r;
  for (auto &kv : m)
    if (kv.second.events) r += u64(kv.first) + kv.second.digest();
  return r;
}
void run_case(Ctx &c)
{
  SessionOpts o;
  o.rx = false;
  o.steps = 150;
  o.max_body = 200;
  o.moves = c.idx % 2;
  o.complete = c.idx % 4 != 0;
  uint64_t seed = c.rng.next();
  Rng g1(seed), g2(seed);
  Misuse a(g1, o, 1, false);
  a.run();
  Misuse b(g2, o, seed ^ 77, true);
  b.run();
  CHECK(digest(a) == digest(b), "wire-changed", "refused calls changed the bytes on the wire");
  CHECK(seen(a.srx) == seen(b.srx), "received-changed", "refused calls changed what the server received");
  CHECK(seen(a.crx) == seen(b.crx), "received-changed", "refused calls changed what the client received");
  uint64_t n = 0;
  std::string s;
  for (auto &kv : b.kinds) {
    std::string k = kv.first;
    for (auto &ch : k) if (ch == ' ') ch = '-';
    c.stat(k.c_str(), kv.second);
    n += kv.second;
    s += strf("%s x%llu; ", kv.first.c_str(), (unsigned long long) kv.second);
  }
  c.stat("refused-calls", n);
  c.stat("session-pairs");
  if (n) c.interesting();
  c.observe(b.sched);
  c.observe(b.sig);
  c.sample(s);
}
