// C09: exactly-once, in-order, complete delivery end to end.
#include "scale.hpp"
const char *const RULE = "each case is a session: up to 5 requests with responses, every handle operation, send, delivery of a random fragment of a random stream, partial or deferred draining, and move of handles and connections chosen by a random scheduler; after every drain the receiver's events are compared with an independent parse of exactly the bytes delivered so far, and at every idle the wire with what the handles were given; in other cases more than 16384 requests, hundreds at a time, messages with megabytes in one part, or requests of an independent client on any stream ids; non-trivial: more than three events; distinct by the delivery schedule";
void harness_init() { base::logger = nullptr; }
void run_case(Ctx &c)
{
  // (A case of many requests per shard, and some more.)
  if (c.idx < 8 || c.idx % 8000 == 4000) return scale_case(c, 3);
  if (c.idx % 40 == 9) return scale_case(c, 1);
  if (c.idx % 100 == 10) return scale_case(c, 2);
  if (c.idx % 20 == 11) return scale_case(c, 0);
  SessionOpts o;
  if (c.idx % 16 == 0) { o.max_requests = 24; o.steps = 900; o.max_body = 200; }
  if (c.idx % 16 == 1) { o.max_body = 40000; o.max_requests = 2; }
  if (c.idx % 4 == 2) o.split_events = false;
  Session s(c.rng, o);
  s.run();
  s.account(c);
}
