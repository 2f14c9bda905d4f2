// C14: error codes.
#include "bnlx.hpp"
const char *const RULE = "each case takes one ordered pair of errors out of all HTTP/3 and QUIC errors and compares their std::error_code in both directions, with conditions, categories, messages, implicit conversion and hashing; non-trivial: every pair; distinct by the pair";

struct Err { bool h3; uint64_t v; std::string name; bool wire; };
static std::vector<Err> all;
using Q = quic::error;
void harness_init()
{
  base::logger = nullptr;
  for (auto e : { h3err::no_error, h3err::internal, h3err::wrong_stream, h3err::closed_critical_stream, h3err::missing_settings, h3err::unexpected_frame, h3err::malformed_frame, h3err::qpack_decompression_failed, h3err::incomplete, h3err::idle, h3err::delegate, h3err::not_implemented, h3err::varint_overflow, h3err::malformed_header, h3err::stream_closed, h3err::invalid_handle })
    all.push_back({ true, (uint64_t) e, ename(e), (uint64_t) e < (1ULL << 62) });
  const std::pair<Q, const char *> qs[] = { { Q::no_error, "no_error" }, { Q::internal, "internal" }, { Q::incomplete, "incomplete" }, { Q::idle, "idle" }, { Q::delegate, "delegate" }, { Q::finished, "finished" }, { Q::not_implemented, "not_implemented" }, { Q::handshake, "handshake" }, { Q::crypto, "crypto" }, { Q::ngtcp2, "ngtcp2" }, { Q::path_validation, "path_validation" }, { Q::stream_not_found, "stream_not_found" }, { Q::stream_id_blocked, "stream_id_blocked" }, { Q::stream_data_blocked, "stream_data_blocked" } };
  for (auto &q : qs) all.push_back({ false, (uint64_t) q.first, q.second, (uint64_t) q.first < (1ULL << 62) });
}
static std::error_code code(const Err &e)
{
  if (e.h3) return http3::make_error_code((h3err) e.v);
  return quic::make_error_code((Q) e.v);
}
static std::error_code implicit(const Err &e)
{
  if (e.h3) { std::error_code c = (h3err) e.v; return c; }
  std::error_code c = (Q) e.v;
  return c;
}
void run_case(Ctx &c)
{
  const Err &a = all[c.idx % all.size()], &b = all[c.idx / all.size() % all.size()];
  bool same = &a == &b;
  std::error_code x = code(a), y = code(b);
  CHECK((x == y) == same, "identity", "%s %s and %s %s: codes compare %s", a.h3 ? "http3" : "quic", a.name.c_str(), b.h3 ? "http3" : "quic", b.name.c_str(), x == y ? "equal" : "different");
  CHECK((x != y) == !same, "identity", "operator!= disagrees with operator==");
  CHECK(implicit(a) == x, "implicit", "%s: implicit conversion differs from make_error_code", a.name.c_str());
  CHECK((bool) x == (a.name != "no_error"), "truth", "%s %s converts to %s", a.h3 ? "http3" : "quic", a.name.c_str(), x ? "an error" : "success");
  CHECK(x.category() == (a.h3 ? http3::error_category() : quic::error_category()), "category", "%s has category %s", a.name.c_str(), x.category().name());
  CHECK(&x.category() == (a.h3 ? &http3::error_category() : &quic::error_category()), "category", "category is not a single object");
  CHECK(http3::error_category() != quic::error_category(), "category", "the two layers share a category");
  CHECK(bytes(x.category().name()) == (a.h3 ? "bnl-http3" : "bnl-quic"), "category-name", "category name %s", x.category().name());
  CHECK(!x.message().empty() && x.message() != "unknown", "message", "%s has message '%s'", a.name.c_str(), x.message().c_str());
  bytes want = a.name;
  for (auto &ch : want) if (ch == '_') ch = ' ';
  CHECK(same || a.h3 != b.h3 || x.message() != y.message(), "message", "%s and %s have the same message '%s'", a.name.c_str(), b.name.c_str(), x.message().c_str());
  if (a.wire) CHECK((uint64_t) x.value() == a.v, "wire-value", "%s has value %d instead of %llu", a.name.c_str(), x.value(), (unsigned long long) a.v);
  std::error_condition cond = x.default_error_condition();
  CHECK((x == cond) && ((y == cond) == same), "condition", "default condition of %s also matches %s", a.name.c_str(), b.name.c_str());
  CHECK(same || !(x < y && y < x), "order", "ordering is not antisymmetric");
  CHECK(same || (x < y) != (y < x), "order", "distinct codes are unordered");
  if (a.h3 == b.h3 && !same) CHECK(x.value() != y.value(), "identity", "equal values in one category");
  // Never equal to a system error of any value.
  CHECK(x != std::error_code(x.value(), std::generic_category()) && x != std::error_code(x.value(), std::system_category()), "identity", "equal to a system error");
  c.stat("pairs");
  c.stat("same-pairs", same);
  c.observe(c.idx % (all.size() * all.size()));
  c.interesting();
  c.sample(a.name + "=" + std::to_string(x.value()) + " '" + x.message() + "' vs " + b.name);
}
