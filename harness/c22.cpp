// C22: addresses, endpoints, paths and hosts.
#include "bnlx.hpp"
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/quic/path.hpp>
#include <sstream>
namespace ip = bnl::ip;
const char *const RULE = "random histories of constructing, copying and assigning addresses of both families, endpoints and paths in slots, each compared with a model after every step, with sources destroyed and overwritten in between; hosts likewise; non-trivial: at least one assignment across address families; distinct by the final contents";
void harness_init() { base::logger = nullptr; }
struct MA { bytes b = bytes(4, '\0'); };
struct ME { MA a; uint16_t port = 0; };
struct MP { ME local, peer; };
static std::string dotted(const bytes &b) { return strf("%u.%u.%u.%u", (unsigned char) b[0], (unsigned char) b[1], (unsigned char) b[2], (unsigned char) b[3]); }
struct W {
  Ctx &c;
  Rng &g;
  std::unique_ptr<ip::address> a[6];
  MA ma[6];
  std::unique_ptr<ip::endpoint> e[5];
  ME me[5];
  std::unique_ptr<quic::path> p[4];
  MP mp[4];
  std::unique_ptr<ip::host> h[4];
  bytes mh[4];
  uint64_t cross = 0, checks = 0;
  W(Ctx &c) : c(c), g(c.rng)
  {
    for (auto &x : a) x.reset(new ip::address());
    for (auto &x : e) x.reset(new ip::endpoint());
    for (auto &x : p) x.reset(new quic::path());
    for (auto &x : h) x.reset(new ip::host());
  }
  bytes any(size_t n)
  {
    bytes b(n, '\0');
    unsigned m = (unsigned) g.below(4);
    for (auto &x : b) x = m == 0 ? '\0' : m == 1 ? '\xff' : (char) g.next();
    if (m < 2) b[g.below(n)] ^= (char) (1u << g.below(8));
    return b;
  }
  void check(const ip::address &x, const MA &m, const char *what)
  {
    checks++;
    bool v4 = m.b.size() == 4;
    CHECK(((ip::address::type) x == ip::address::type::ipv4) == v4, "family", "%s: address %s has the wrong family", what, hex(m.b).c_str());
    CHECK(str(x.bytes()) == m.b, "bytes", "%s: address holds %s instead of %s", what, hex(str(x.bytes())).c_str(), hex(m.b).c_str());
    const char *b = (const char *) x.bytes().data(), *o = (const char *) &x;
    CHECK(b >= o && b + m.b.size() <= o + sizeof x, "aliasing", "%s: bytes() is not part of the address", what);
    if (v4 && g.chance(1, 4)) {
      std::ostringstream os;
      os << x;
      CHECK(os.str() == dotted(m.b), "print", "%s: %s is printed as %s", what, dotted(m.b).c_str(), os.str().c_str());
    }
  }
  void check(const ip::endpoint &x, const ME &m, const char *what)
  {
    check(x.address(), m.a, what);
    CHECK(x.port() == m.port, "port", "%s: port %u instead of %u", what, x.port(), m.port);
  }
  void check()
  {
    for (int i = 0; i < 6; i++) if (a[i]) check(*a[i], ma[i], "address");
    for (int i = 0; i < 5; i++) if (e[i]) check(*e[i], me[i], "endpoint");
    for (int i = 0; i < 4; i++) if (p[i]) {
        check(p[i]->local(), mp[i].local, "local end of path");
        check(p[i]->peer(), mp[i].peer, "peer end of path");
      }
    for (int i = 0; i < 4; i++) if (h[i]) {
        CHECK(str(h[i]->name()) == mh[i], "host", "host is called %s instead of %s", str(h[i]->name()).c_str(), mh[i].c_str());
        if (g.chance(1, 8)) {
          std::ostringstream os;
          os << *h[i];
          CHECK(os.str() == mh[i], "print", "host %s is printed as %s", mh[i].c_str(), os.str().c_str());
        }
      }
    int i = (int) g.below(6), j = (int) g.below(6);
    if (g.chance(1, 3) && a[i]) { *a[j] = *a[i]; ma[j] = ma[i]; if (g.chance(1, 2)) { size_t k = g.below(ma[j].b.size()); ma[j].b[k] ^= (char) (1u << g.below(8)); *a[j] = of(ma[j].b); } }
    CHECK((*a[i] == *a[j]) == (ma[i].b == ma[j].b), "equality", "%s and %s compare %s", hex(ma[i].b).c_str(), hex(ma[j].b).c_str(), *a[i] == *a[j] ? "equal" : "different");
  }
  ip::address of(const bytes &b)
  {
    // From memory of exactly that size, so that reading past it is noticed.
    std::unique_ptr<uint8_t[]> m(new uint8_t[b.size()]);
    std::copy(b.begin(), b.end(), (char *) m.get());
    const uint8_t *q = m.get();
    if (b.size() == 4) switch (g.below(4)) {
        case 0: return bnl::ipv4::address(q);
        case 1: return bnl::ipv4::address(base::buffer_view(q, 4));
        case 2: return bnl::ipv4::address((uint32_t) q[0] | (uint32_t) q[1] << 8 | (uint32_t) q[2] << 16 | (uint32_t) q[3] << 24);
        default: return ip::address(base::buffer_view(q, 4));
      }
    switch (g.below(3)) {
      case 0: return bnl::ipv6::address(q);
      case 1: return bnl::ipv6::address(base::buffer_view(q, 16));
      default: return ip::address(base::buffer_view(q, 16));
    }
  }
  MA some(ip::address &out)
  {
    if (g.chance(1, 2)) { int i = (int) g.below(6); out = *a[i]; return ma[i]; }
    MA m{ any(g.chance(1, 2) ? 4 : 16) };
    out = of(m.b);
    return m;
  }
  ME some(ip::endpoint &out)
  {
    if (g.chance(1, 3)) { int i = (int) g.below(5); out = *e[i]; return me[i]; }
    ip::address x;
    ME m;
    m.a = some(x);
    m.port = g.chance(1, 3) ? 65535 : (uint16_t) g.next();
    out = ip::endpoint(x, m.port);
    return m;
  }
  void step()
  {
    int i = (int) g.below(6), j = (int) g.below(6);
    switch (g.below(9)) {
      case 0: case 1: { // new value
        MA m{ any(g.chance(1, 2) ? 4 : 16) };
        if (m.b.size() != ma[i].b.size()) cross++;
        if (g.chance(1, 2)) *a[i] = of(m.b);
        else a[i].reset(new ip::address(of(m.b)));
        ma[i] = m;
        break;
      }
      case 2: // assignment
        if (ma[i].b.size() != ma[j].b.size()) cross++;
        { const ip::address &src = *a[j]; *a[i] = src; }
        ma[i] = ma[j];
        break;
      case 3: { // copy construction, source destroyed
        std::unique_ptr<ip::address> n(new ip::address(*a[j]));
        a[i] = std::move(n);
        ma[i] = ma[j];
        break;
      }
      case 4: {
        int k = (int) g.below(5);
        ip::endpoint x;
        ME m = some(x);
        if (g.chance(1, 2)) *e[k] = x;
        else e[k].reset(new ip::endpoint(x));
        me[k] = m;
        break;
      }
      case 5: { int k = (int) g.below(5), l = (int) g.below(5); const ip::endpoint &src = *e[l]; *e[k] = src; me[k] = me[l]; break; }
      case 6: {
        int k = (int) g.below(4);
        ip::endpoint x, y;
        MP m;
        m.local = some(x);
        m.peer = some(y);
        quic::path n(x, y);
        if (g.chance(1, 2)) *p[k] = n;
        else p[k].reset(new quic::path(n));
        mp[k] = m;
        break;
      }
      case 7: { int k = (int) g.below(4), l = (int) g.below(4); const quic::path &src = *p[l]; *p[k] = src; mp[k] = mp[l]; break; }
      default: {
        int k = (int) g.below(4), l = (int) g.below(4);
        bytes n = any_bytes(g, 60);
        switch (g.below(4)) {
          case 0: *h[k] = ip::host(n); mh[k] = n; break;
          case 1: for (auto &ch : n) if (!ch) ch = '.'; h[k].reset(new ip::host(n.c_str())); mh[k] = n; break;
          case 2: { const ip::host &src = *h[l]; *h[k] = src; mh[k] = mh[l]; break; }
          default:
            if (k != l) {
              *h[k] = std::move(*h[l]);
              mh[k] = mh[l];
              h[l].reset(new ip::host(n));
              mh[l] = n;
            }
        }
      }
    }
  }
};
// Headers are pairs of byte strings.
static void headers(Ctx &c)
{
  Rng &g = c.rng;
  std::vector<std::pair<bytes, bytes>> m;
  std::vector<http3::header> v;
  std::vector<bytes> pool;
  for (int i = 0; i < 4; i++) pool.push_back(any_bytes(g, 40));
  pool.push_back(lower(pool[0]));
  pool.push_back(pool[1] + bytes(1, '\0'));
  for (int i = 0; i < 8; i++) {
    m.push_back({ g.pick(pool), g.pick(pool) });
    v.push_back(http3::header(base::string(m[i].first.data(), m[i].first.size()), base::string(m[i].second.data(), m[i].second.size())));
  }
  auto check = [&] {
    for (size_t i = 0; i < v.size(); i++) {
      http3::header_view a = v[i];
      CHECK(str(v[i].name()) == m[i].first && str(v[i].value()) == m[i].second, "header", "a header of %s and %s is %s and %s", hex(m[i].first).c_str(), hex(m[i].second).c_str(), hex(str(v[i].name())).c_str(), hex(str(v[i].value())).c_str());
      CHECK(str(a.name()) == m[i].first && str(a.value()) == m[i].second, "header", "the view of a header differs from it");
      CHECK(http3::header_is_lowercase(a) == std::none_of(m[i].first.begin(), m[i].first.end(), [](char ch) { return ch >= 'A' && ch <= 'Z'; }), "header", "the name %s counts as %s", hex(m[i].first).c_str(), http3::header_is_lowercase(a) ? "lowercase" : "not lowercase");
      for (size_t j = 0; j < v.size(); j++) {
        http3::header_view b = v[j];
        CHECK((a == b) == (m[i] == m[j]) && (a != b) == (m[i] != m[j]), "header", "headers (%s, %s) and (%s, %s) compare wrongly", hex(m[i].first).c_str(), hex(m[i].second).c_str(), hex(m[j].first).c_str(), hex(m[j].second).c_str());
      }
    }
    c.stat("headers-compared", v.size());
  };
  check();
  for (int k = 0; k < 10; k++) {
    size_t i = g.below(v.size()), j = g.below(v.size());
    switch (g.below(4)) {
      case 0:
        v[i] = v[j];
        m[i] = m[j];
        break;
      case 1: {
        http3::header h(v[j]), k(std::move(h));
        v[i] = std::move(k);
        m[i] = m[j];
        break;
      }
      case 2:
        std::swap(v[i], v[j]);
        std::swap(m[i], m[j]);
        break;
      default: v.reserve(v.capacity() + 1);
    }
  }
  check();
}
void run_case(Ctx &c)
{
  headers(c);
  W w(c);
  w.check();
  for (uint64_t n = 20 + c.rng.below(60); n-- > 0;) {
    w.step();
    w.check();
  }
  for (auto &m : w.ma) c.observe(m.b);
  for (auto &m : w.me) c.observe(m.a.b + u64(m.port));
  c.stat("values-compared", w.checks);
  c.stat("assignments-across-families", w.cross);
  if (w.cross) c.interesting();
  c.sample(strf("%llu values compared, address 0 is %s, host 0 is %s", (unsigned long long) w.checks, hex(w.ma[0].b).c_str(), w.mh[0].c_str()));
}
