// C10: everything sent is a legal HTTP/3 byte stream.
#include "scale.hpp"
const char *const RULE = "each case is a random session (see C09), half of them abandoned midway; after every send the stream's bytes so far are parsed by an independent HTTP/3 parser, and stream ids, frame order, lengths, settings and the place of the end of the stream are checked; in other cases more than 16384 requests, hundreds at a time, messages with megabytes in one part, or requests of an independent client on any stream ids; non-trivial: more than three events received; distinct by the delivery schedule";
void harness_init() { base::logger = nullptr; }
void run_case(Ctx &c)
{
  // (A case of many requests per shard, and some more.)
  if (c.idx < 8 || c.idx % 8000 == 4000) return scale_case(c, 3);
  if (c.idx % 40 == 9) return scale_case(c, 1);
  if (c.idx % 100 == 10) return scale_case(c, 2);
  if (c.idx % 20 == 11) return scale_case(c, 0);
  SessionOpts o;
  o.rx = false;
  o.wire = true;
  o.complete = c.idx % 2 == 0;
  if (c.idx % 16 == 0) { o.max_requests = 24; o.steps = 900; o.max_body = 200; }
  if (c.idx % 16 == 1) { o.max_body = 70000; o.max_requests = 2; }
  Session s(c.rng, o);
  s.run();
  for (auto &kv : s.cw) if (kv.first != 2) check_request_wire(kv.first, kv.second, "client");
  for (auto &kv : s.sw) if (kv.first != 3) check_request_wire(kv.first, kv.second, "server");
  check_control_wire(s.cw, true, false, "client");
  check_control_wire(s.sw, false, false, "server");
  s.account(c);
}
