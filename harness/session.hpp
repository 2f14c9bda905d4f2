// Random sessions between a client and a server connection over a model
// transport that fragments and reorders across streams.
#pragma once
#include "h3.hpp"

struct SessionOpts {
  bool rx = true;        // compare what is received with what was sent, online
  bool wire = false;     // check the legality of what is sent, online
  bool moves = true;     // move handles and connections around
  bool complete = true;  // finish all messages in the end
  bool split_events = true;
  unsigned max_requests = 5;
  size_t max_body = 1500;
  unsigned steps = 250;
};

template<typename Handle> struct Out {
  Msg m;
  size_t nh = 0, nc = 0; // how many headers and chunks were given to the handle
  bool started = false, finned = false;
  Handle h;
  bool have = false;
  bool done() const { return started && finned; }
  bytes body_so_far() const { bytes r; for (size_t i = 0; i < nc; i++) r += m.chunks[i]; return r; }
};

struct Session {
  using CH = http3::request::handle;
  using SH = http3::response::handle;
  Rng &g;
  SessionOpts o;
  std::unique_ptr<http3::client::connection> c{ new http3::client::connection };
  std::unique_ptr<http3::server::connection> s{ new http3::server::connection };
  Wire cw, sw;
  std::map<uint64_t, Rx> crx, srx;
  std::map<uint64_t, bool> cdirty, sdirty; // delivered but not completely drained
  std::map<uint64_t, Out<CH>> req;
  std::map<uint64_t, Out<SH>> res;
  std::map<uint64_t, bool> known; // streams the server has seen
  uint64_t sends = 0, deliveries = 0, drains = 0, checks = 0, nmoves = 0, ops = 0;
  uint64_t sched = 0; // digest of the schedule

  Session(Rng &g, SessionOpts o) : g(g), o(o) {}
  virtual ~Session() {}
  virtual void before_step() {}

  // ---- user operations
  void new_request()
  {
    auto r = c->request();
    CHECK(r, "api-request", "request() fails with %s", ename(r.error()));
    CH h = std::move(r).value();
    uint64_t id = h.id();
    if (o.wire) CHECK(id == 4 * req.size(), "request-id", "request %zu has stream id %llu", req.size(), (unsigned long long) id);
    CHECK(!req.count(id), "request-id", "stream id %llu given to two requests", (unsigned long long) id);
    Out<CH> &x = req[id];
    x.m = any_msg(g, o.max_body);
    x.h = std::move(h);
    x.have = true;
    CHECK(x.h.id() == id, "handle-id", "moving a handle changed its id");
  }
  template<typename O> bool op(O &x, uint64_t id)
  {
    if (!x.have || x.done()) return false;
    bool can_head = !x.started, can_body = !x.finned;
    bool head = can_head && (!can_body || g.chance(2, 3));
    if (head) {
      if (x.nh < x.m.hs.size()) {
        auto &h = x.m.hs[x.nh];
        auto r = x.h.header({ { h.name.data(), h.name.size() }, { h.value.data(), h.value.size() } });
        CHECK(r, "api-header", "header() on stream %llu fails with %s", (unsigned long long) id, ename(r.error()));
        x.nh++;
      } else {
        auto r = x.h.start();
        CHECK(r, "api-start", "start() on stream %llu fails with %s", (unsigned long long) id, ename(r.error()));
        x.started = true;
      }
    } else {
      if (x.nc < x.m.chunks.size()) {
        auto r = x.h.body(buf(x.m.chunks[x.nc]));
        CHECK(r, "api-body", "body() on stream %llu fails with %s", (unsigned long long) id, ename(r.error()));
        x.nc++;
      } else {
        auto r = x.h.fin();
        CHECK(r, "api-fin", "fin() on stream %llu fails with %s", (unsigned long long) id, ename(r.error()));
        x.finned = true;
      }
    }
    ops++;
    return true;
  }
  void take_response(uint64_t id)
  {
    Out<SH> &x = res[id];
    if (x.done()) return;
    auto r = s->response(id);
    CHECK(r, "api-response", "response(%llu) fails with %s", (unsigned long long) id, ename(r.error()));
    if (!x.have) x.m = any_msg(g, o.max_body);
    x.h = std::move(r).value();
    x.have = true;
    CHECK(x.h.id() == id, "handle-id", "response handle of stream %llu says %llu", (unsigned long long) id, (unsigned long long) x.h.id());
  }

  // ---- sending
  template<typename C, typename M> bool send(C &conn, Wire &w, M &outs, bool client)
  {
    const char *who = client ? "client" : "server";
    auto r = conn.send();
    if (!r) {
      CHECK(r.error() == h3err::idle, "send-error", "%s: send() fails with %s", who, ename(r.error()));
      idle(w, outs, client);
      return false;
    }
    sends++;
    quic::event e = std::move(r).value();
    CHECK(e == quic::event::type::data, "send-not-data", "%s: send() returned something other than data", who);
    uint64_t id = e.data.id;
    bool control = id == (client ? 2u : 3u);
    CHECK(control || outs.count(id), "send-unknown-stream", "%s: data on stream %llu, which is not a message", who, (unsigned long long) id);
    Sent &x = w[id];
    CHECK(!x.fin, "send-after-fin", "%s: data on stream %llu after its end", who, (unsigned long long) id);
    x.data += str(e.data.buffer);
    x.fin = e.data.fin;
    x.events++;
    if (o.wire) {
      if (control) check_control_wire(w, client, false, who);
      else {
        auto &out = outs.at(id);
        CHECK(out.started, "send-before-start", "%s: data on stream %llu before its headers were completed", who, (unsigned long long) id);
        if (x.fin) {
          CHECK(out.finned, "fin-unfinished", "%s: stream %llu ended although its message was not finished", who, (unsigned long long) id);
          Parsed p = check_request_wire(id, x, who);
          CHECK(p.hs.size() == out.m.hs.size() && p.body.size() == out.m.body().size(), "fin-early", "%s: stream %llu ended before its last bytes", who, (unsigned long long) id);
        } else if (x.data.size() < 4000)
          check_request_wire(id, x, who);
      }
      checks++;
    }
    return true;
  }
  // Nothing may be left to send when send() says so.
  template<typename M> void idle(Wire &w, M &outs, bool client)
  {
    const char *who = client ? "client" : "server";
    if (o.wire) check_control_wire(w, client, true, who);
    CHECK(w.count(client ? 2 : 3), "idle-unsent", "%s: idle before its settings were sent", who);
    for (auto &kv : outs) {
      auto &out = kv.second;
      if (!out.started) {
        CHECK(!w.count(kv.first) || !o.wire, "send-before-start", "%s: stream %llu sent before it was started", who, (unsigned long long) kv.first);
        continue;
      }
      const Sent &x = w[kv.first];
      Parsed p = o.wire ? check_request_wire(kv.first, x, who) : ref_request(x.data);
      CHECK(p.hdone && p.hs == out.m.hs, "idle-unsent", "%s: idle, but the headers on the wire of stream %llu are %s instead of %s", who, (unsigned long long) kv.first, ref::show(p.hs).c_str(), ref::show(out.m.hs).c_str());
      bytes want = out.body_so_far();
      CHECK(p.body == want, "idle-unsent", "%s: idle, but the body on the wire of stream %llu has %zu bytes instead of %zu", who, (unsigned long long) kv.first, p.body.size(), want.size());
      CHECK(x.fin == out.finned, "idle-fin", "%s: idle, message on stream %llu %s but the stream %s", who, (unsigned long long) kv.first, out.finned ? "is finished" : "is not finished", x.fin ? "ended" : "did not end");
      checks++;
    }
  }

  // ---- transport
  template<typename C> bool deliver_some(C &conn, Wire &w, std::map<uint64_t, Rx> &rxs, std::map<uint64_t, bool> &dirty, bool server, bool all)
  {
    std::vector<uint64_t> ids;
    for (auto &kv : w) if (kv.second.pending()) ids.push_back(kv.first);
    if (ids.empty()) return false;
    uint64_t id = g.pick(ids);
    Sent &x = w[id];
    size_t left = x.data.size() - x.delivered;
    size_t n;
    switch (g.below(5)) {
      case 0: n = std::min<size_t>(left, 1); break;
      case 1: n = std::min<size_t>(left, g.below(4)); break;
      case 2: n = g.below(left + 1); break;
      default: n = left;
    }
    if (all && g.chance(1, 2)) n = left;
    if (n == 0 && left != 0 && !g.chance(1, 4)) n = 1;
    bool fin = x.fin && n == left && (left == 0 || g.chance(2, 3));
    bytes b = x.data.substr(x.delivered, n);
    x.delivered += n;
    x.ends.push_back(x.delivered);
    if (fin) x.fin_delivered = true;
    if (server && (id & 3) == 0) known[id] = true;
    Rx &rx = rxs[id];
    const char *who = server ? "server" : "client";
    quic::data d;
    d.id = id;
    d.fin = fin;
    d.buffer = buf(b);
    deliveries++;
    sched = mix(sched, mix(id * 2 + server, n * 2 + fin));
    auto r = conn.recv(quic::event(std::move(d)));
    CHECK(r, "recv-refused", "%s: legal data on stream %llu refused with %s", who, (unsigned long long) id, ename(r.error()));
    unsigned how = o.split_events ? (unsigned) g.below(4) : 3;
    if (how == 0) { dirty[id] = true; return true; }
    bool full = drain(r.value(), rx, id, who, how == 1 ? 1 + (unsigned) g.below(3) : DRAIN_LIMIT);
    drains++;
    dirty[id] = !full;
    after(w, rxs, id, server, full);
    return true;
  }
  template<typename C> bool drain_some(C &conn, Wire &w, std::map<uint64_t, Rx> &rxs, std::map<uint64_t, bool> &dirty, bool server)
  {
    std::vector<uint64_t> ids;
    for (auto &kv : dirty) if (kv.second) ids.push_back(kv.first);
    if (ids.empty()) return false;
    uint64_t id = g.pick(ids);
    Rx &rx = rxs[id];
    bool full = true;
    if (!rx.finished) {
      typename gen_of<C>::type gen(id, conn);
      full = drain(gen, rx, id, server ? "server" : "client");
      drains++;
    }
    dirty[id] = false;
    after(w, rxs, id, server, full);
    return true;
  }
  void after(Wire &w, std::map<uint64_t, Rx> &rxs, uint64_t id, bool server, bool full)
  {
    Rx &rx = rxs[id];
    Sent &x = w[id];
    const char *who = server ? "server" : "client";
    CHECK(!rx.error, "recv-error", "%s: legal data on stream %llu causes error %s", who, (unsigned long long) id, ename(rx.err));
    if (!o.rx) return;
    checks++;
    if (id == 2 || id == 3) {
      CHECK(rx.settings <= 1, "settings-repeated", "%s: settings observed %u times", who, rx.settings);
      if (rx.settings) CHECK(same(rx.peer, http3::settings()), "settings-value", "%s: other settings than the peer's", who);
      if (full) CHECK(rx.settings == (x.delivered >= 2 && ref_control_complete(x)), "settings-progress", "%s: settings observed %u times after %zu bytes of the control stream", who, rx.settings, x.delivered);
      return;
    }
    Parsed p = ref_request(x.data.substr(0, x.delivered));
    CHECK(p.bad.empty(), "wire-illegal", "stream %llu is not legal: %s", (unsigned long long) id, p.bad.c_str());
    if (full) {
      CHECK(rx.hs == p.hs, "headers-differ", "%s: stream %llu after %zu bytes: received %s instead of %s", who, (unsigned long long) id, x.delivered, ref::show(rx.hs).c_str(), ref::show(p.hs).c_str());
      CHECK(rx.hdone == p.hdone, "headers-end", "%s: stream %llu after %zu bytes: last header %s", who, (unsigned long long) id, x.delivered, rx.hdone ? "marked too early" : "not marked");
      CHECK(rx.body == p.body, "body-differs", "%s: stream %llu after %zu bytes: received %zu body bytes %s instead of %zu %s", who, (unsigned long long) id, x.delivered, rx.body.size(), hex(rx.body, 32).c_str(), p.body.size(), hex(p.body, 32).c_str());
      CHECK(rx.finished == (x.fin_delivered ? 1u : 0u), "end-of-message", "%s: stream %llu: %u ends of message, the stream %s", who, (unsigned long long) id, rx.finished, x.fin_delivered ? "ended" : "did not end");
      CHECK(!rx.body_end || x.fin_delivered, "body-end-early", "%s: stream %llu: end of body before the end of the stream", who, (unsigned long long) id);
    } else {
      CHECK(rx.hs.size() <= p.hs.size() && std::equal(rx.hs.begin(), rx.hs.end(), p.hs.begin()), "headers-differ", "%s: stream %llu: received %s, not a prefix of %s", who, (unsigned long long) id, ref::show(rx.hs).c_str(), ref::show(p.hs).c_str());
      CHECK(p.body.compare(0, rx.body.size(), rx.body) == 0, "body-differs", "%s: stream %llu: body bytes differ", who, (unsigned long long) id);
      CHECK(!rx.finished || x.fin_delivered, "end-of-message", "%s: stream %llu: end of message before the end of the stream", who, (unsigned long long) id);
    }
  }
  static bool ref_control_complete(const Sent &x)
  {
    size_t pos = 0;
    uint64_t v, len;
    bytes b = x.data.substr(0, x.delivered);
    return ref::varint_get(b, pos, v) && ref::varint_get(b, pos, v) && ref::varint_get(b, pos, len) && b.size() - pos >= len;
  }

  // ---- moves
  void shuffle()
  {
    nmoves++;
    switch (g.below(4)) {
      case 0: c.reset(new http3::client::connection(std::move(*c))); break;
      case 1: s.reset(new http3::server::connection(std::move(*s))); break;
      case 2:
        if (!req.empty()) {
          auto it = req.begin();
          std::advance(it, (long) g.below(req.size()));
          CH t(std::move(it->second.h));
          CH u;
          u = std::move(t);
          it->second.h = std::move(u);
          CHECK(it->second.h.id() == it->first, "handle-id", "moving a handle changed its id to %llu", (unsigned long long) it->second.h.id());
        }
        break;
      default: {
        std::unique_ptr<http3::client::connection> n(new http3::client::connection);
        *n = std::move(*c);
        c = std::move(n);
      }
    }
  }

  void step(bool finishing)
  {
    before_step();
    switch (g.below(finishing ? 6 : 8)) {
      case 0: send(*c, cw, req, true); break;
      case 1: send(*s, sw, res, false); break;
      case 2: deliver_some(*s, cw, srx, sdirty, true, finishing); break;
      case 3: deliver_some(*c, sw, crx, cdirty, false, finishing); break;
      case 4: if (!drain_some(*s, cw, srx, sdirty, true)) drain_some(*c, sw, crx, cdirty, false); break;
      case 5: case 6: {
        if (!req.empty() && g.chance(1, 2)) {
          auto it = req.begin();
          std::advance(it, (long) g.below(req.size()));
          for (uint64_t k = 1 + g.below(4); k-- && op(it->second, it->first);) {}
        } else if (!known.empty()) {
          auto it = known.begin();
          std::advance(it, (long) g.below(known.size()));
          Out<SH> &x = res[it->first];
          if (!x.have || g.chance(1, 12)) take_response(it->first);
          for (uint64_t k = 1 + g.below(4); k-- && op(x, it->first);) {}
        }
        if (o.moves && g.chance(1, 6)) shuffle();
        break;
      }
      case 7:
        if (req.size() < o.max_requests) new_request();
        break;
    }
  }
  void run()
  {
    unsigned n = 20 + (unsigned) g.below(o.steps);
    for (unsigned i = 0; i < n; i++) step(false);
    if (!o.complete) return;
    finish();
  }
  void finish()
  {
    if (req.empty()) new_request();
    // Complete everything, in a random order still.
    for (unsigned round = 0;; round++) {
      CHECK(round < 100000, "no-progress", "the session never completes");
      bool all = true;
      for (auto &kv : req) if (!kv.second.done()) { all = false; if (g.chance(1, 2)) op(kv.second, kv.first); }
      for (auto &kv : known) {
        Out<SH> &x = res[kv.first];
        if (!x.have) take_response(kv.first);
        if (!x.done()) { all = false; if (g.chance(1, 2)) op(x, kv.first); }
      }
      for (int i = 0; i < 3; i++) step(true);
      if (!all) continue;
      while (g.chance(2, 3) && send(*c, cw, req, true)) {}
      while (g.chance(2, 3) && send(*s, sw, res, false)) {}
      bool busy = send(*c, cw, req, true);
      busy |= send(*s, sw, res, false);
      busy |= deliver_some(*s, cw, srx, sdirty, true, true);
      busy |= deliver_some(*c, sw, crx, cdirty, false, true);
      busy |= drain_some(*s, cw, srx, sdirty, true);
      busy |= drain_some(*c, sw, crx, cdirty, false);
      if (!busy && res.size() == req.size()) break;
      if (!busy) CHECK(known.size() == req.size(), "request-lost", "the server saw %zu of %zu requests", known.size(), req.size());
    }
    CHECK(!send(*c, cw, req, true) && !send(*s, sw, res, false), "not-idle", "still something to send");
    for (auto &kv : req) {
      final(srx[kv.first], kv.second.m, kv.first, "server");
      final(crx[kv.first], res.at(kv.first).m, kv.first, "client");
    }
    if (o.rx) {
      CHECK(srx.size() == req.size() + 1 && crx.size() == req.size() + 1, "extra-stream", "events on %zu and %zu streams for %zu messages", srx.size(), crx.size(), req.size());
      CHECK(srx[2].settings == 1 && crx[3].settings == 1, "settings-count", "settings observed %u and %u times", srx[2].settings, crx[3].settings);
    }
  }
  void final(Rx &x, Msg &m, uint64_t id, const char *who)
  {
    if (!o.rx) return;
    CHECK(x.hs == m.hs && x.hdone, "headers-lost", "%s: stream %llu: %s for %s", who, (unsigned long long) id, show(x).c_str(), ref::show(m.hs).c_str());
    CHECK(x.body == m.body(), "body-lost", "%s: stream %llu: %zu body bytes instead of %zu", who, (unsigned long long) id, x.body.size(), m.body().size());
    CHECK(x.finished == 1, "end-lost", "%s: stream %llu: %u ends of message", who, (unsigned long long) id, x.finished);
  }
  void account(Ctx &ctx)
  {
    ctx.stat("sessions");
    ctx.stat("messages", req.size() + res.size());
    ctx.stat("send-events", sends);
    ctx.stat("deliveries", deliveries);
    ctx.stat("drains", drains);
    ctx.stat("monitor-checks", checks);
    ctx.stat("moves", nmoves);
    uint64_t ev = 0, b = 0;
    for (auto &kv : srx) { ev += kv.second.events; b += kv.second.body.size(); }
    for (auto &kv : crx) { ev += kv.second.events; b += kv.second.body.size(); }
    ctx.stat("events-observed", ev);
    ctx.stat("body-bytes", b);
    ctx.observe(sched);
    if (ev > 3) ctx.interesting();
    if (ctx.want_sample()) {
      std::string t = strf("%zu requests, %llu sends, %llu deliveries, %llu events, %llu body bytes;", req.size(), (unsigned long long) sends, (unsigned long long) deliveries, (unsigned long long) ev, (unsigned long long) b);
      for (auto &kv : srx) t += strf(" server stream %llu: ", (unsigned long long) kv.first) + show(kv.second);
      ctx.sample(t);
    }
  }
};
