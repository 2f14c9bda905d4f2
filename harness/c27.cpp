// C27: the system layer of the example client: descriptors, addresses, names,
// datagram sockets, and the event loop.
#include "bnlx.hpp"
#include <os/dns.hpp>
#include <os/fd.hpp>
#include <os/ip/address.hpp>
#include <os/socket/udp.hpp>
#include <sd/event/loop.hpp>
#include <sd/event/source.hpp>

#include <arpa/inet.h>
#include <csignal>
#include <dlfcn.h>
#include <netdb.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <time.h>

namespace ip = bnl::ip;

const char *const RULE = "random histories on descriptors in slots, texts of addresses, scripted resolver answers, datagrams in both directions over loopback with injected socket results and datagrams that arrive between the library's system calls, and event loops with timers, sockets, signals and moves of all of them; each step is compared with a model; distinct by everything observed";

// ---------------------------------------------------------------- system calls
// The library's system calls go through here, so that something can happen
// between or instead of them.
static struct {
  int fd = -1;                        // the socket that is played with
  std::function<void()> after;        // runs after the library looked at fd
  std::function<int()> send_result;   // errno instead of sending, or 0
  std::function<int()> recv_result;   // errno instead of receiving, or 0
  int connect_result = 0, socket_result = 0, setsockopt_result = 0, getsockopt_result = 0, name_result = 0;
  uint64_t injected = 0;
} sys;

template<typename F> static F real(const char *name)
{
  return (F) dlsym(RTLD_NEXT, name);
}
extern "C" int ioctl(int fd, unsigned long req, ...) noexcept
{
  va_list ap;
  va_start(ap, req);
  void *p = va_arg(ap, void *);
  va_end(ap);
  static auto f = real<int (*)(int, unsigned long, ...)>("ioctl");
  int rv = f(fd, req, p);
  if (fd == sys.fd && sys.after) sys.after();
  return rv;
}
extern "C" ssize_t recv(int fd, void *p, size_t n, int flags)
{
  static auto f = real<ssize_t (*)(int, void *, size_t, int)>("recv");
  if (fd == sys.fd && sys.recv_result)
    if (int e = sys.recv_result()) {
      sys.injected++;
      errno = e;
      return -1;
    }
  ssize_t rv = f(fd, p, n, flags);
  int e = errno;
  if (fd == sys.fd && sys.after && (flags & MSG_PEEK)) sys.after();
  errno = e;
  return rv;
}
extern "C" ssize_t send(int fd, const void *p, size_t n, int flags)
{
  static auto f = real<ssize_t (*)(int, const void *, size_t, int)>("send");
  if (fd == sys.fd && sys.send_result)
    if (int e = sys.send_result()) {
      sys.injected++;
      errno = e;
      return -1;
    }
  return f(fd, p, n, flags);
}
extern "C" int connect(int fd, const struct sockaddr *a, socklen_t n)
{
  static auto f = real<int (*)(int, const struct sockaddr *, socklen_t)>("connect");
  if (sys.connect_result) {
    errno = sys.connect_result;
    return -1;
  }
  return f(fd, a, n);
}
extern "C" int socket(int d, int t, int p) noexcept
{
  static auto f = real<int (*)(int, int, int)>("socket");
  if (sys.socket_result) {
    errno = sys.socket_result;
    return -1;
  }
  return f(d, t, p);
}
extern "C" int setsockopt(int fd, int l, int o, const void *p, socklen_t n) noexcept
{
  static auto f = real<int (*)(int, int, int, const void *, socklen_t)>("setsockopt");
  if (sys.setsockopt_result) {
    sys.injected++;
    errno = sys.setsockopt_result;
    return -1;
  }
  return f(fd, l, o, p, n);
}
extern "C" int getsockopt(int fd, int l, int o, void *p, socklen_t *n) noexcept
{
  static auto f = real<int (*)(int, int, int, void *, socklen_t *)>("getsockopt");
  if (fd == sys.fd && sys.getsockopt_result) {
    sys.injected++;
    errno = sys.getsockopt_result;
    return -1;
  }
  return f(fd, l, o, p, n);
}
extern "C" int getsockname(int fd, struct sockaddr *a, socklen_t *n) noexcept
{
  static auto f = real<int (*)(int, struct sockaddr *, socklen_t *)>("getsockname");
  if (fd == sys.fd && sys.name_result) {
    sys.injected++;
    errno = sys.name_result;
    return -1;
  }
  return f(fd, a, n);
}
extern "C" int getpeername(int fd, struct sockaddr *a, socklen_t *n) noexcept
{
  static auto f = real<int (*)(int, struct sockaddr *, socklen_t *)>("getpeername");
  if (fd == sys.fd && sys.name_result) {
    sys.injected++;
    errno = sys.name_result;
    return -1;
  }
  return f(fd, a, n);
}

// The resolver.
static struct {
  bool active = false;
  int result = 0;
  std::vector<bytes> addresses; // 4 or 16 bytes
  bytes asked;
  addrinfo *given = nullptr;
  int freed = 0;
} dns;
extern "C" int getaddrinfo(const char *name, const char *service, const addrinfo *hints, addrinfo **out)
{
  (void) hints;
  if (!dns.active) return EAI_FAIL;
  dns.asked = name ? name : "";
  CHECK(!service, "resolver", "a service was asked for");
  if (dns.result) {
    errno = EIO;
    return dns.result;
  }
  addrinfo **tail = out;
  *out = nullptr;
  for (auto &b : dns.addresses) {
    auto *ai = (addrinfo *) calloc(1, sizeof(addrinfo));
    if (b.size() == 4) {
      auto *s = (sockaddr_in *) calloc(1, sizeof(sockaddr_in));
      s->sin_family = AF_INET;
      memcpy(&s->sin_addr, b.data(), 4);
      ai->ai_addr = (sockaddr *) s;
      ai->ai_addrlen = sizeof *s;
    } else {
      auto *s = (sockaddr_in6 *) calloc(1, sizeof(sockaddr_in6));
      s->sin6_family = AF_INET6;
      memcpy(&s->sin6_addr, b.data(), 16);
      ai->ai_addr = (sockaddr *) s;
      ai->ai_addrlen = sizeof *s;
    }
    ai->ai_family = ai->ai_addr->sa_family;
    *tail = ai;
    tail = &ai->ai_next;
  }
  dns.given = *out;
  return 0;
}
extern "C" void freeaddrinfo(addrinfo *a)
{
  if (a == dns.given) dns.freed++;
  while (a) {
    addrinfo *n = a->ai_next;
    free(a->ai_addr);
    free(a);
    a = n;
  }
}

void harness_init()
{
  base::logger = nullptr;
  signal(SIGPIPE, SIG_IGN);
}

static bytes bytes_of(const ip::address &a) { return str(a.bytes()); }
static ip::address make(const bytes &b)
{
  base::buffer_view v((const uint8_t *) b.data(), b.size());
  if (b.size() == 4) return bnl::ipv4::address(v);
  return bnl::ipv6::address(v);
}

// ---------------------------------------------------------------- descriptors
static bool is_open(int fd) { return fcntl(fd, F_GETFD) != -1; }

static void fds(Ctx &c)
{
  Rng &g = c.rng;
  const int N = 4;
  std::unique_ptr<os::fd> slot[N];
  int model[N]; // -1: none
  std::set<int> ever;
  bool zero = g.chance(1, 4);
  struct Stdin {
    int saved;
    explicit Stdin(bool z) : saved(z ? fcntl(0, F_DUPFD_CLOEXEC, 300) : -1) { if (z) close(0); }
    ~Stdin()
    {
      if (saved >= 0) {
        dup2(saved, 0);
        close(saved);
      }
    }
  } standard_input(zero);
  for (int i = 0; i < N; i++) {
    slot[i].reset(new os::fd());
    model[i] = -1;
  }
  auto verify = [&](const char *what) {
    std::set<int> live;
    for (int i = 0; i < N; i++) {
      if (slot[i]) CHECK((int) *slot[i] == model[i], "fd-value", "after %s a descriptor is %d instead of %d", what, (int) *slot[i], model[i]);
      if (model[i] != -1) live.insert(model[i]);
    }
    for (int f : ever) CHECK(is_open(f) == !!live.count(f), live.count(f) ? "fd-closed" : "fd-leak", "after %s a descriptor %s", what, live.count(f) ? "in use is closed" : "nobody has any more is still open");
    c.stat("descriptor-checks");
  };
  for (uint64_t k = 10 + g.below(30); k-- > 0;) {
    int i = (int) g.below(N), j = (int) g.below(N);
    switch (g.below(5)) {
      case 0: {
        int f = open("/dev/null", O_RDONLY | O_CLOEXEC);
        CHECK(f >= 0, "harness", "open failed");
        // Numbers are not used again within a case, so that a stale one shows.
        int h = fcntl(f, F_DUPFD_CLOEXEC, 400 + (int) ever.size());
        close(f);
        if (zero && !ever.count(0)) {
          // A process without standard input: the number 0 is as good as others.
          close(h);
          h = open("/dev/null", O_RDONLY | O_CLOEXEC);
          CHECK(h == 0, "harness", "descriptor 0 is in use");
        }
        ever.insert(h);
        if (slot[i]) {
          os::fd x(h);
          *slot[i] = std::move(x);
        } else
          slot[i].reset(new os::fd(h));
        model[i] = h;
        verify("assigning a new one");
        break;
      }
      case 1:
        if (!slot[i] || !slot[j]) break;
        *slot[i] = std::move(*slot[j]);
        if (i != j) {
          model[i] = model[j];
          model[j] = -1;
        }
        verify("a move");
        break;
      case 2:
        if (!slot[j] || i == j) break;
        {
          std::unique_ptr<os::fd> n(new os::fd(std::move(*slot[j])));
          slot[i] = std::move(n);
          model[i] = model[j];
          model[j] = -1;
        }
        verify("a moving construction");
        break;
      case 3:
        slot[i].reset();
        model[i] = -1;
        verify("a destruction");
        break;
      default:
        if (!slot[i]) slot[i].reset(new os::fd());
    }
    c.observe((uint64_t) model[i]);
  }
  for (int i = 0; i < N; i++) {
    slot[i].reset();
    model[i] = -1;
  }
  verify("the destruction of all");
}

// ---------------------------------------------------------------- addresses
// What RFC 4291 (and POSIX for IPv4) call an address.
static bool ref_v4(const bytes &s, bytes &out)
{
  out.clear();
  size_t i = 0;
  for (int k = 0; k < 4; k++) {
    if (k && (i >= s.size() || s[i++] != '.')) return false;
    size_t b = i;
    unsigned v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9' && i - b < 4) v = v * 10 + (unsigned) (s[i++] - '0');
    if (i == b || i - b > 3 || v > 255 || (i - b > 1 && s[b] == '0')) return false;
    out += (char) v;
  }
  return i == s.size();
}
static bool ref_v6(const bytes &s, bytes &out)
{
  std::vector<unsigned> w;
  long gap = -1;
  size_t i = 0;
  if (s.size() >= 2 && s[0] == ':' && s[1] == ':') {
    gap = 0;
    i = 2;
  } else if (!s.empty() && s[0] == ':')
    return false;
  bool need = gap < 0; // another group must follow
  while (i < s.size()) {
    bytes rest = s.substr(i);
    if (rest.find('.') != bytes::npos && rest.find(':') == bytes::npos) {
      bytes v;
      if (!ref_v4(rest, v)) return false;
      w.push_back((unsigned) (unsigned char) v[0] << 8 | (unsigned char) v[1]);
      w.push_back((unsigned) (unsigned char) v[2] << 8 | (unsigned char) v[3]);
      need = false;
      i = s.size();
      break;
    }
    size_t b = i;
    unsigned v = 0;
    while (i < s.size() && isxdigit((unsigned char) s[i]) && i - b < 5) {
      char ch = (char) tolower(s[i++]);
      v = v << 4 | (unsigned) (ch <= '9' ? ch - '0' : ch - 'a' + 10);
    }
    if (i == b || i - b > 4) return false;
    w.push_back(v);
    need = false;
    if (i == s.size()) break;
    if (s[i] != ':') return false;
    i++;
    if (i < s.size() && s[i] == ':') {
      if (gap >= 0) return false;
      gap = (long) w.size();
      i++;
    } else
      need = true;
  }
  if (need) return false;
  if (gap < 0 ? w.size() != 8 : w.size() > 7) return false;
  if (gap >= 0) w.insert(w.begin() + gap, 8 - w.size(), 0);
  out.clear();
  for (unsigned v : w) {
    out += (char) (v >> 8);
    out += (char) v;
  }
  return true;
}
static bytes text_of(const bytes &b, Rng &g)
{
  if (b.size() == 4) return strf("%u.%u.%u.%u", (unsigned char) b[0], (unsigned char) b[1], (unsigned char) b[2], (unsigned char) b[3]);
  unsigned w[8];
  for (int i = 0; i < 8; i++) w[i] = (unsigned) (unsigned char) b[(size_t) (2 * i)] << 8 | (unsigned char) b[(size_t) (2 * i + 1)];
  bool tail = g.chance(1, 6);
  int groups = tail ? 6 : 8;
  int from = -1, to = -1; // compressed range
  if (g.chance(2, 3))
    for (int i = 0; i < groups; i++)
      if (!w[i] && from < 0) {
        from = i;
        to = i;
        while (to < groups && !w[to]) to++;
      }
  bytes r;
  for (int i = 0; i < groups; i++) {
    if (i == from) {
      r += "::";
      i = to - 1;
      continue;
    }
    if (!r.empty() && r.back() != ':') r += ':';
    r += g.chance(1, 2) ? strf("%x", w[i]) : g.chance(1, 2) ? strf("%04X", w[i]) : strf("%X", w[i]);
  }
  if (tail) {
    if (r.back() != ':') r += ':';
    r += text_of(b.substr(12), g);
  }
  return r;
}
static bytes any_address(Rng &g)
{
  bytes b(g.chance(1, 2) ? 4 : 16, '\0');
  for (size_t i = 0; i + 1 < b.size(); i += 2)
    if (g.chance(2, 3)) {
      b[i] = g.chance(1, 3) ? '\0' : (char) g.next();
      b[i + 1] = (char) g.next();
    }
  return b;
}
static void texts(Ctx &c)
{
  Rng &g = c.rng;
  for (int k = 0; k < 20; k++) {
    bytes b = any_address(g), t = text_of(b, g);
    bool damaged = g.chance(1, 2);
    if (damaged)
      for (uint64_t n = 1 + g.below(3); n-- > 0;) {
        static const char alphabet[] = "0123456789abcdefABCDEFg.:: /%x-+\0\xff";
        size_t p = g.below(t.size() + 1);
        char ch = alphabet[g.below(sizeof alphabet - 1)];
        switch (g.below(4)) {
          case 0: t.insert(p, 1, ch); break;
          case 1: if (p < t.size()) t.erase(p, 1); break;
          case 2: if (p < t.size()) t[p] = ch; break;
          default: t.resize(p);
        }
      }
    bytes want;
    bool ok = ref_v4(t, want) || ref_v6(t, want);
    if (!damaged) CHECK(ok && want == b, "harness", "the reference does not understand %s", t.c_str());
    std::unique_ptr<char[]> m(new char[t.size() ? t.size() : 1]);
    memcpy(m.get(), t.data(), t.size());
    errno = g.chance(1, 2) ? 0 : ENOENT;
    ::result<ip::address> r = os::make_address(base::string_view(m.get(), t.size()));
    c.observe(t);
    if (ok) {
      c.stat("addresses-parsed");
      CHECK((bool) r, "address-refused", "address %s is refused", t.c_str());
      CHECK(bytes_of(r.value()) == want, "address-value", "address %s becomes %s", t.c_str(), hex(bytes_of(r.value())).c_str());
    } else {
      c.stat("texts-refused");
      CHECK(!r, "address-accepted", "'%s' (%s) is accepted as address %s", t.c_str(), hex(t).c_str(), hex(bytes_of(r.value())).c_str());
      CHECK(r.error() && !r.error().message().empty(), "address-error", "'%s' is refused with an error code that is no error", t.c_str());
    }
  }
}

// ---------------------------------------------------------------- names
static void names(Ctx &c)
{
  Rng &g = c.rng;
  for (int k = 0; k < 5; k++) {
    dns.active = true;
    dns.given = nullptr;
    dns.freed = 0;
    dns.addresses.clear();
    static const int codes[] = { EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM, EAI_FAMILY };
    dns.result = g.chance(1, 4) ? codes[g.below(6)] : 0;
    std::vector<bytes> pool, want;
    for (uint64_t n = 1 + g.below(5); n-- > 0;) pool.push_back(any_address(g));
    for (uint64_t n = 1 + g.below(12); n-- > 0;) dns.addresses.push_back(g.pick(pool));
    for (auto &a : dns.addresses)
      if (std::find(want.begin(), want.end(), a) == want.end()) want.push_back(a);
    bytes name;
    for (uint64_t n = g.below(60); n-- > 0;) name += "abcdefghijklmnopqrstuvwxyz0123456789.-"[g.below(38)];
    ip::host host{ base::string(name.data(), name.size()) };
    ::result<std::vector<ip::address>> r = os::dns::resolve(host);
    dns.active = false;
    CHECK(dns.asked == name, "name", "name '%s' was asked for instead of '%s'", dns.asked.c_str(), name.c_str());
    if (dns.result) {
      c.stat("failed-lookups");
      CHECK(!r && r.error(), "lookup-error", "a failed lookup (%d) is not reported", dns.result);
      // The resolver says that the error is the system's.
      if (dns.result == EAI_SYSTEM) CHECK(r.error() == std::error_code(EIO, std::system_category()), "lookup-error", "a lookup failed with '%s', reported is '%s'", strerror(EIO), r.error().message().c_str());
    } else {
      c.stat("lookups");
      CHECK((bool) r, "lookup-failed", "a successful lookup fails");
      std::vector<bytes> got;
      for (auto &a : r.value()) got.push_back(bytes_of(a));
      CHECK(got == want, "lookup-addresses", "%zu addresses instead of %zu, or others", got.size(), want.size());
      CHECK(dns.freed == 1, "lookup-leak", "the resolver's answer was released %d times", dns.freed);
    }
    c.observe(name);
  }
}

// ---------------------------------------------------------------- sockets
struct Peer {
  int fd = -1;
  bool v6;
  uint16_t port = 0;
  explicit Peer(bool v6)
    : v6(v6)
  {
    fd = ::socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    CHECK(fd >= 0, "harness", "no socket: %s", strerror(errno));
    int size = 4 << 20;
    setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &size, sizeof size);
    sockaddr_storage s = any(0);
    CHECK(bind(fd, (sockaddr *) &s, len()) == 0, "harness", "bind: %s", strerror(errno));
    socklen_t n = sizeof s;
    getsockname(fd, (sockaddr *) &s, &n);
    port = ntohs(v6 ? ((sockaddr_in6 *) &s)->sin6_port : ((sockaddr_in *) &s)->sin_port);
  }
  ~Peer()
  {
    if (fd >= 0) close(fd);
  }
  socklen_t len() const { return v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); }
  sockaddr_storage any(uint16_t p) const
  {
    sockaddr_storage s = {};
    if (v6) {
      auto *a = (sockaddr_in6 *) &s;
      a->sin6_family = AF_INET6;
      a->sin6_addr = in6addr_loopback;
      a->sin6_port = htons(p);
    } else {
      auto *a = (sockaddr_in *) &s;
      a->sin_family = AF_INET;
      a->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      a->sin_port = htons(p);
    }
    return s;
  }
  bytes address() const
  {
    if (!v6) return bytes("\x7f\0\0\1", 4);
    bytes b(16, '\0');
    b[15] = 1;
    return b;
  }
  ip::endpoint endpoint() const { return ip::endpoint(make(address()), port); }
  void send(uint16_t to, const bytes &b)
  {
    sockaddr_storage s = any(to);
    ssize_t rv = sendto(fd, b.data(), b.size(), 0, (sockaddr *) &s, len());
    CHECK(rv == (ssize_t) b.size(), "harness", "sendto: %s", strerror(errno));
  }
  bool recv(bytes &b, bool wait)
  {
    pollfd p = { fd, POLLIN, 0 };
    if (poll(&p, 1, wait ? 5000 : 0) <= 0) return false;
    char m[70000];
    ssize_t n = recvfrom(fd, m, sizeof m, 0, nullptr, nullptr);
    if (n < 0) return false;
    b.assign(m, (size_t) n);
    return true;
  }
};
static bool have_v6()
{
  static int v = -1;
  if (v < 0) {
    try {
      Peer p(true);
      v = 1;
    } catch (const Violation &) {
      v = 0;
    }
  }
  return v == 1;
}
static bytes any_datagram(Rng &g)
{
  size_t n = g.chance(1, 12) ? g.below(60000) : g.chance(1, 4) ? g.below(25) : g.below(1500);
  return bytes(n / 2, (char) g.next()) + [&] { bytes b; for (size_t i = 0; i < n - n / 2; i++) b += (char) g.next(); return b; }();
}

static void sockets(Ctx &c)
{
  Rng &g = c.rng;
  bool v6 = have_v6() && g.chance(1, 2);
  if (v6) c.stat("ipv6-sockets");
  Peer peer(v6), other(v6);
  std::unique_ptr<os::socket::udp> u(new os::socket::udp(peer.endpoint()));
  auto ours = [&] {
    sockaddr_storage s;
    socklen_t n = sizeof s;
    getsockname((int) u->fd(), (sockaddr *) &s, &n);
    return s;
  };
  sockaddr_storage s = ours();
  uint16_t port = ntohs(v6 ? ((sockaddr_in6 *) &s)->sin6_port : ((sockaddr_in *) &s)->sin_port);
  auto verify = [&] {
    CHECK(bytes_of(u->peer().address()) == peer.address() && u->peer().port() == peer.port, "peer", "peer() is another endpoint than the one given");
    CHECK(bytes_of(u->local().address()) == peer.address() && u->local().port() == port, "local", "local() is %s port %u, the socket has port %u", hex(bytes_of(u->local().address())).c_str(), u->local().port(), port);
    CHECK((fcntl((int) u->fd(), F_GETFL) & O_NONBLOCK) && (fcntl((int) u->fd(), F_GETFD) & FD_CLOEXEC), "flags", "the socket blocks or is inherited");
    c.stat("endpoints-checked");
  };
  verify();
  std::deque<bytes> queued, incoming;
  uint64_t sent = 0, received = 0, raced = 0;
  struct Reset {
    ~Reset()
    {
      sys.fd = -1;
      sys.after = nullptr;
      sys.send_result = nullptr;
      sys.recv_result = nullptr;
    }
  } reset;
  sys.fd = (int) u->fd();
  sys.send_result = [&] { return g.chance(1, 6) ? g.chance(2, 3) ? EAGAIN : g.chance(1, 2) ? ENOBUFS : EINTR : 0; };
  // The kernel only keeps so much (with its overhead) for a socket.
  auto room = [&] {
    size_t n = 0;
    for (auto &b : incoming) n += 2 * b.size() + 2000;
    return n < 60000;
  };
  auto inject = [&] {
    // A datagram arrives right now.
    if (!g.chance(1, 3) || !room()) return;
    bytes b = any_datagram(g);
    peer.send(port, b);
    incoming.push_back(b);
    raced++;
  };
  auto recv_one = [&] {
    bool had = !incoming.empty();
    if (had) {
      // Loopback delivers at once, but be patient.
      pollfd p = { (int) u->fd(), POLLIN, 0 };
      CHECK(poll(&p, 1, 5000) == 1, "harness", "a datagram did not arrive");
    }
    sys.after = inject;
    // Sometimes one of the system calls fails.
    int failing = g.chance(1, 8) ? 1 + (int) g.below(3) : 0, failed = 0;
    static const int codes[] = { EAGAIN, ENOMEM, ECONNREFUSED };
    int code = codes[g.below(3)];
    sys.recv_result = [&]() -> int {
      if (!failing || --failing) return 0;
      failed = code;
      return code;
    };
    ::result<base::buffer> r = u->recv();
    sys.after = nullptr;
    sys.recv_result = nullptr;
    if (failed) {
      CHECK(!r, "recv-error", "recv() returns %zu bytes although receiving failed (%s)", r.value().size(), strerror(failed));
      CHECK(r.error() == std::error_code(failed, std::system_category()), "recv-error", "recv() fails with '%s', receiving failed with '%s'", r.error().message().c_str(), strerror(failed));
      c.stat("failed-receives");
      return true;
    }
    if (!r) {
      CHECK(!had, "datagram-lost", "recv() fails with %s although a datagram is there", r.error().message().c_str());
      CHECK(r.error() == std::errc::resource_unavailable_try_again, "recv-error", "recv() without a datagram fails with %s", r.error().message().c_str());
      c.stat("empty-receives");
      return false;
    }
    CHECK(!incoming.empty(), "datagram-made-up", "recv() returns %zu bytes that nobody sent", r.value().size());
    bytes got = str(r.value());
    CHECK(got == incoming.front(), "datagram-changed", "recv() returns %s, %s was sent", hex(got).c_str(), hex(incoming.front()).c_str());
    incoming.pop_front();
    received++;
    return true;
  };
  for (uint64_t k = 10 + g.below(40); k-- > 0;) {
    switch (g.below(7)) {
      case 0: case 1: {
        bytes b = any_datagram(g);
        if (b.empty()) b = "x";
        u->add(buf(b));
        queued.push_back(b);
        break;
      }
      case 2: { // send some
        for (uint64_t n = 1 + g.below(6); n-- > 0;) {
          uint64_t before = sys.injected;
          ::result<void> r = u->send();
          if (queued.empty()) {
            CHECK(!r && r.error() == error::idle, "send-idle", "send() without datagrams does not report that it is idle");
            break;
          }
          if (sys.injected != before) {
            CHECK(!r && r.error(), "send-error", "a failed send is not reported");
            if (r.error() == std::errc::resource_unavailable_try_again) c.stat("blocked-sends");
            bytes b;
            CHECK(!peer.recv(b, false), "datagram-made-up", "something arrived though nothing was sent");
            continue;
          }
          CHECK((bool) r, "send-failed", "send() fails with %s", r.error().message().c_str());
          bytes b;
          CHECK(peer.recv(b, true), "datagram-lost", "a datagram of %zu bytes was not sent", queued.front().size());
          CHECK(b == queued.front(), "datagram-changed", "%zu bytes (%s) arrive, %zu bytes (%s) were added", b.size(), hex(b, 20).c_str(), queued.front().size(), hex(queued.front(), 20).c_str());
          CHECK(!peer.recv(b, false), "datagram-twice", "one send() sent several datagrams");
          queued.pop_front();
          sent++;
        }
        break;
      }
      case 3: {
        for (uint64_t n = 1 + g.below(3); n-- > 0 && room();) {
          bytes b = any_datagram(g);
          peer.send(port, b);
          incoming.push_back(b);
        }
        break;
      }
      case 4:
        for (uint64_t n = g.below(6); n-- > 0 && recv_one();) {}
        break;
      case 5: // somebody else's datagrams are not for us
        other.send(port, any_datagram(g));
        break;
      default: {
        std::unique_ptr<os::socket::udp> n(new os::socket::udp(std::move(*u)));
        u = std::move(n);
        CHECK((int) u->fd() == sys.fd && is_open(sys.fd), "fd-closed", "moving a socket changed or closed it");
        if (g.chance(1, 3)) {
          // Overwrites another socket, which must be closed then.
          os::socket::udp x(other.endpoint());
          int old = (int) x.fd();
          x = std::move(*u);
          CHECK(!is_open(old), "fd-leak", "the descriptor of an overwritten socket is still open");
          u.reset(new os::socket::udp(std::move(x)));
          c.stat("sockets-overwritten");
        }
        verify();
      }
    }
    c.observe(sent * 1000 + received);
  }
  while (recv_one() || !incoming.empty()) {}
  CHECK(incoming.empty(), "datagram-lost", "%zu datagrams were not received", incoming.size());
  sys.send_result = nullptr;
  while (!queued.empty()) {
    CHECK((bool) u->send(), "send-failed", "send() fails");
    bytes b;
    CHECK(peer.recv(b, true) && b == queued.front(), "datagram-changed", "another datagram arrives than was added");
    queued.pop_front();
    sent++;
  }
  c.stat("datagrams-sent", sent);
  c.stat("datagrams-received", received);
  c.stat("datagrams-raced", raced);
  CHECK(!u->error(), "socket-error", "a socket without an error reports %s", u->error().message().c_str());
  // Nobody listens any more.
  if (g.chance(1, 2)) {
    close(peer.fd);
    peer.fd = -1;
    u->add(buf("gone"));
    CHECK((bool) u->send(), "send-failed", "send() fails");
    pollfd p = { (int) u->fd(), 0, 0 };
    CHECK(poll(&p, 1, 5000) == 1 && (p.revents & POLLERR), "harness", "no error was signalled");
    std::error_code e = u->error();
    CHECK(e == std::errc::connection_refused, "socket-error", "error() reports '%s' (%d) although the peer's port is closed", e.message().c_str(), e.value());
    CHECK(!u->error(), "socket-error", "an error is reported twice");
    c.stat("socket-errors");
  }
  int f = (int) u->fd();
  // What the system does not tell is an error.
  sys.fd = f;
  sys.getsockopt_result = g.chance(1, 2) ? ENOBUFS : EACCES;
  std::error_code unknown = u->error();
  CHECK(unknown == std::error_code(sys.getsockopt_result, std::system_category()), "socket-error", "error() cannot look (%s) and reports '%s'", strerror(sys.getsockopt_result), unknown.message().c_str());
  sys.getsockopt_result = 0;
  sys.name_result = ENOBUFS;
  for (int i = 0; i < 2; i++) {
    bool thrown = false;
    try {
      (void) (i ? u->local() : u->peer());
    } catch (const std::exception &) {
      thrown = true;
    }
    CHECK(thrown, "endpoint-made-up", "the system does not tell the %s address, but there is one", i ? "local" : "peer's");
  }
  sys.name_result = 0;
  sys.fd = -1;
  c.stat("refused-questions");
  u.reset();
  CHECK(!is_open(f), "fd-leak", "the descriptor of a destroyed socket is still open");
}

// A socket that cannot be had is an error, not a descriptor.
static void no_sockets(Ctx &c)
{
  Rng &g = c.rng;
  Peer peer(false);
  static const int ce[] = { ENETUNREACH, EHOSTUNREACH, EACCES, EADDRNOTAVAIL };
  unsigned which = (unsigned) g.below(5);
  if (which < 2)
    sys.connect_result = ce[g.below(4)];
  else if (which == 2)
    sys.setsockopt_result = g.chance(1, 2) ? ENOMEM : EACCES;
  else
    sys.socket_result = g.chance(1, 2) ? EMFILE : ENOBUFS;
  int want = sys.connect_result + sys.setsockopt_result + sys.socket_result;
  struct Reset {
    ~Reset() { sys.connect_result = sys.socket_result = sys.setsockopt_result = 0; }
  } reset;
  int got = 0;
  try {
    os::socket::udp u(peer.endpoint());
    got = -1;
  } catch (const std::system_error &e) {
    got = e.code().value();
  }
  CHECK(got == want, "socket-made-up", "a socket that could not be %s (%s) %s", sys.connect_result ? "connected" : sys.setsockopt_result ? "set up" : "made", strerror(want), got == -1 ? "counts as one" : "is reported as another error");
  c.stat("sockets-refused");
}

// ---------------------------------------------------------------- event loop
using sd::event::duration;
static uint64_t mono()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (uint64_t) t.tv_sec * 1000000 + (uint64_t) t.tv_nsec / 1000;
}

static void loops(Ctx &c)
{
  Rng &g = c.rng;
  std::unique_ptr<sd::event::loop> l(new sd::event::loop);
  std::function<duration()> clock = l->clock();
  struct T {
    std::unique_ptr<sd::event::timer> t;
    uint64_t due = UINT64_MAX; // when it must fire
    uint64_t fired = 0;
  };
  std::vector<T> ts(1 + g.below(5));
  uint64_t pending = 0, last_due = 0, fired = 0;
  uint64_t limit = 3 + g.below(12);
  bool with_error = g.chance(1, 2);
  std::error_code code = g.chance(1, 2) ? std::make_error_code(std::errc::io_error) : make_error_code(g.chance(1, 2) ? error::timeout : error::resolve);
  bool leaving = false;
  std::string problem;
  auto note = [&](const std::string &s) {
    if (problem.empty()) problem = s;
  };
  auto leave = [&]() -> ::result<void> {
    leaving = true;
    ::result<void> r = with_error ? l->exit(code) : l->exit();
    if (!r) note(strf("exit() fails with '%s'", r.error().message().c_str()));
    return r;
  };
  std::function<void(size_t)> hook;
  auto arm = [&](size_t i) {
    uint64_t now = mono();
    uint64_t at = g.chance(1, 6) ? now - g.below(1000) : now + g.below(g.chance(1, 4) ? 20000 : 3000);
    ts[i].due = at;
    ts[i].t->update(duration(at));
    c.stat("timers-set");
  };
  hook = [&](size_t i) {
    ts[i].t->on_expire([&, i](duration d) -> ::result<void> {
      uint64_t now = mono();
      fired++;
      if (leaving) note("a handler ran after the loop was left");
      if (ts[i].due == UINT64_MAX) note("a timer fired that was not set");
      else if (d.count() != ts[i].due) note(strf("a timer set to %llu fired for %llu", (unsigned long long) ts[i].due, (unsigned long long) d.count()));
      else if (now < ts[i].due) note(strf("a timer fired %llu us early", (unsigned long long) (ts[i].due - now)));
      uint64_t n = clock().count();
      if (n > mono() || n + 10000000 < now || n < ts[i].due) note("the loop's clock is not the monotonic clock");
      if (l->now() != clock()) note("now() and clock() differ");
      // Of the timers that are due, the earliest goes first. (Another one that
      // was set in between may have been due earlier.)
      last_due = ts[i].due;
      ts[i].due = UINT64_MAX;
      ts[i].fired++;
      if (fired >= limit) return leave();
      // Sets some again, this one perhaps as well.
      bool any = false;
      for (size_t k = 0; k < ts.size(); k++) {
        if (ts[k].t && g.chance(1, 3)) arm(k);
        any = any || (ts[k].t && ts[k].due != UINT64_MAX);
      }
      if (!any) arm(i);
      return base::success();
    });
  };
  for (size_t i = 0; i < ts.size(); i++) {
    ts[i].t.reset(new sd::event::timer(std::move(l->timer()).value()));
    CHECK((bool) *ts[i].t, "source", "a timer that exists counts as none");
    hook(i);
  }
  // Moves of loops and timers change nothing.
  auto shuffle = [&] {
    if (g.chance(1, 3)) l.reset(new sd::event::loop(std::move(*l)));
    for (auto &t : ts)
      if (t.t && g.chance(1, 3)) {
        if (g.chance(1, 2)) t.t.reset(new sd::event::timer(std::move(*t.t)));
        else {
          sd::event::timer x = std::move(l->timer()).value();
          x = std::move(*t.t);
          t.t.reset(new sd::event::timer(std::move(x)));
        }
        c.stat("timers-moved");
      }
  };
  shuffle();
  arm(g.below(ts.size()));
  for (size_t i = 0; i < ts.size(); i++)
    if (g.chance(1, 2)) arm(i);
  shuffle();
  // Destroyed ones must not fire.
  if (ts.size() > 1 && g.chance(1, 3)) {
    size_t i = g.below(ts.size());
    ts[i].t.reset();
    ts[i].due = UINT64_MAX;
    bool any = false;
    for (auto &t : ts) any = any || (t.t && t.due != UINT64_MAX);
    if (!any) arm(i == 0 ? 1 : 0);
  }

  // A socket with traffic.
  bool v6 = have_v6() && g.chance(1, 3);
  Peer peer(v6);
  std::unique_ptr<os::socket::udp> u;
  std::unique_ptr<sd::event::io> io;
  uint64_t seen_in = 0, got = 0;
  bool writable = false;
  std::deque<bytes> incoming;
  bool socket = g.chance(2, 3);
  uint16_t port = 0;
  if (socket) {
    u.reset(new os::socket::udp(peer.endpoint()));
    port = u->local().port();
    io.reset(new sd::event::io(std::move(l->io(u->fd())).value()));
    if (g.chance(1, 2)) io.reset(new sd::event::io(std::move(*io)));
    // What is there when the loop starts counts.
    for (uint64_t n = 1 + g.below(3); n-- > 0;) {
      bytes b = any_datagram(g);
      peer.send(port, b);
      incoming.push_back(b);
    }
    io->on_io([&](uint32_t ev) -> ::result<void> {
      if (leaving) note("a handler ran after the loop was left");
      if (ev & EPOLLOUT) writable = true;
      if (ev & EPOLLIN) {
        seen_in++;
        for (;;) {
          ::result<base::buffer> r = u->recv();
          if (!r) break;
          if (incoming.empty() || str(r.value()) != incoming.front()) {
            note("another datagram arrives than was sent");
            break;
          }
          incoming.pop_front();
          got++;
        }
        if (got < limit + 4 && g.chance(3, 4)) {
          bytes b = any_datagram(g);
          peer.send(port, b);
          incoming.push_back(b);
        }
      }
      return base::success();
    });
    if (g.chance(1, 2)) io.reset(new sd::event::io(std::move(*io)));
  }
  bool sig = g.chance(1, 4);
  if (sig) {
    // Leaves the loop through a signal, which must be no error.
    CHECK((bool) l->signal(SIGUSR2), "signal", "signal() fails");
    limit = UINT64_MAX;
    with_error = false;
    sd::event::timer *t = ts[0].t ? ts[0].t.get() : ts[1].t.get();
    size_t i = ts[0].t ? 0 : 1;
    uint64_t at = mono() + g.below(4000);
    ts[i].due = at;
    t->update(duration(at));
    t->on_expire([&, i](duration) -> ::result<void> {
      fired++;
      ts[i].due = UINT64_MAX;
      kill(getpid(), SIGUSR2);
      return base::success();
    });
  }
  // What the loop cannot watch is refused, and changes nothing.
  if (g.chance(1, 2)) {
    if (g.chance(1, 2)) {
      os::fd file(memfd_create("file", MFD_CLOEXEC));
      ::result<sd::event::io> r = l->io(file);
      CHECK(!r, "source", "a regular file counts as watched by the loop");
      CHECK(r.error() == std::errc::operation_not_permitted, "source", "a regular file is refused with '%s'", r.error().message().c_str());
    } else if (sig && g.chance(1, 2)) {
      ::result<void> r = l->signal(SIGUSR2);
      CHECK(!r && r.error(), "signal", "a signal that the loop has already counts as added again");
    } else {
      static const int numbers[] = { 0, -1, 65, 100000, INT32_MIN };
      int n = numbers[g.below(5)];
      ::result<void> r = l->signal(n);
      CHECK(!r, "signal", "the signal %d counts as added", n);
      CHECK(r.error() == std::errc::invalid_argument, "signal", "the signal %d is refused with '%s'", n, r.error().message().c_str());
    }
    c.stat("refused-sources");
  }
  ::result<void> r = l->run();
  CHECK(problem.empty(), "event-loop", "%s", problem.c_str());
  if (sig) {
    c.stat("signals");
    CHECK((bool) r, "loop-result", "leaving the loop through a signal fails with %s", r.error().message().c_str());
  } else if (with_error) {
    CHECK(!r, "loop-result", "the loop was left with the error '%s', but run() succeeds", code.message().c_str());
    CHECK(r.error() == code && r.error().message() == code.message(), "loop-result", "the loop was left with '%s', run() fails with '%s'", code.message().c_str(), r.error().message().c_str());
  } else
    CHECK((bool) r, "loop-result", "the loop was left without an error, but run() fails with %s", r.error().message().c_str());
  // It cannot be left twice.
  {
    ::result<void> r = g.chance(1, 2) ? l->exit() : l->exit(code);
    CHECK(!r && r.error(), "loop-result", "exit() succeeds although the loop was left already");
    if (g.chance(1, 4)) {
      r = l->run();
      CHECK(!r && r.error(), "loop-result", "run() succeeds although the loop was left already");
    }
  }
  if (socket && fired > 2) CHECK(writable, "event-loop", "a writable socket was not reported");
  if (socket && fired > 4) CHECK(got > 0, "event-loop", "datagrams that were there from the start were not reported");
  for (auto &t : ts) c.observe(t.fired);
  c.observe(got);
  c.observe(last_due ? 1 : 0);
  c.stat("loops");
  c.stat("timers-fired", fired);
  c.stat("readiness-events", seen_in);
  c.stat("datagrams-in-loops", got);
  (void) pending;
}

// An error is an error.
static void errors(Ctx &c)
{
  static const error all[] = { error::timeout, error::resolve, error::invalid_argument, error::idle, error::finished };
  std::set<std::string> messages;
  for (error e : all) {
    std::error_code ec = e;
    CHECK((bool) ec, "error-code", "the error '%s' converts to a code that is no error", ec.message().c_str());
    CHECK(messages.insert(ec.message()).second, "error-code", "two errors have the message '%s'", ec.message().c_str());
    for (error f : all) CHECK((ec == f) == (e == f), "error-code", "the error '%s' compares wrongly", ec.message().c_str());
    c.stat("error-codes");
  }
}

void run_case(Ctx &c)
{
  switch (c.idx % 8) {
    case 0: case 1: case 2: sockets(c); break;
    case 3: fds(c); break;
    case 4: texts(c); break;
    case 5: names(c); no_sockets(c); if (c.idx < 80) errors(c); break;
    default: loops(c);
  }
  c.interesting();
}
