// C28: the example client as a process, against a server over loopback.
#include "h3.hpp"
#include "quicx.hpp"
#include <arpa/inet.h>
#include <csignal>
#include <fstream>
#include <netdb.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <time.h>

const char *const RULE = "each case runs the example client in a process of its own against a server on loopback that plays QUIC and HTTP/3 with losses, repetitions, delays, reordering and foreign datagrams in both directions; the server checks the request byte by byte with an independent parser; the client must print exactly the response and succeed, or fail when the server breaks the protocol, resets, truncates, stays silent or is not there; distinct by what was exchanged";

static std::string client, dir;
void harness_init()
{
  base::logger = nullptr;
  signal(SIGPIPE, SIG_IGN);
  const char *e = getenv("BNL_CLIENT");
  if (!e) { fprintf(stderr, "BNL_CLIENT not set\n"); _exit(2); }
  client = e;
  char t[] = "clientXXXXXX";
  char cwd[4096];
  if (!mkdtemp(t) || !getcwd(cwd, sizeof cwd)) { perror("mkdtemp"); _exit(2); }
  dir = std::string(cwd) + "/" + t;
}

static uint64_t now_us()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (uint64_t) t.tv_sec * 1000000 + (uint64_t) t.tv_nsec / 1000;
}
static std::string fullhex(const fake::bytes &b)
{
  std::string r;
  for (uint8_t c : b) r += strf("%02x", c);
  return r;
}
static bytes slurp(const std::string &p)
{
  std::ifstream f(p, std::ios::binary);
  return bytes(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

struct Process {
  pid_t pid = -1;
  int status = 0;
  bool exited = false;
  // Output and errors go into files unless there is a kind of place that takes
  // nothing (1 to 3).
  void start(const std::vector<std::string> &args, const std::string &conf, int no_out, int no_err)
  {
    std::string o = dir + "/out", e = dir + "/err";
    unlink(o.c_str());
    unlink(e.c_str());
    pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (!pid) {
      int fo = open(o.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644), fe = open(e.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      auto nowhere = [](int how) {
        int p[2];
        if (how == 1) return ::open("/dev/full", O_WRONLY);
        if (how == 2 && pipe(p) == 0) { close(p[0]); return p[1]; }
        return ::open("/dev/null", O_RDONLY);
      };
      if (no_out) fo = nowhere(no_out);
      if (no_err) fe = nowhere(no_err);
      dup2(fo, 1);
      dup2(fe, 2);
      setenv("BNL_WIRE", conf.c_str(), 1);
      std::vector<char *> av;
      av.push_back(const_cast<char *>(client.c_str()));
      for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
      av.push_back(nullptr);
      alarm(120);
      execv(client.c_str(), av.data());
      _exit(126);
    }
  }
  bool poll_exit()
  {
    if (!exited && waitpid(pid, &status, WNOHANG) == pid) exited = true;
    return exited;
  }
  ~Process()
  {
    if (pid > 0 && !exited) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
    }
  }
};

enum Kind { GOOD, VIOLATION, RESET, TRUNCATED, SILENT, REFUSED, TLS, PARAMETERS, SIGNAL, ARGUMENTS, KINDS };
static const char *const NAMES[] = { "responses", "protocol-violations", "resets", "truncated-responses", "silent-servers", "missing-servers", "failed-handshakes", "bad-parameters", "signals", "bad-arguments" };

struct Server {
  Rng &g;
  int fd = -1;
  bool v6;
  uint16_t port = 0;
  sockaddr_storage peer = {};
  socklen_t peer_len = 0;
  const fake::script &s;
  unsigned loss; // out of 100, both ways
  bool silent_now = false;
  uint64_t silent_at = UINT64_MAX; // after that many datagrams
  // What the client sends.
  bytes crypto[4];
  std::map<uint64_t, bytes> in;
  std::map<uint64_t, std::map<uint64_t, bytes>> parts;
  std::map<uint64_t, uint64_t> fin_at; // offset
  uint64_t datagrams = 0, dropped = 0, repeated = 0;
  // What it is sent.
  struct Out {
    bytes data;
    bool fin = false, fin_acked = false;
    uint64_t sent = 0, acked = 0;
    bool fin_sent = false;
  };
  std::map<uint64_t, Out> out;
  Out hello, flight;
  bool answered = false, reset = false, reset_sent = false;
  uint64_t reset_code = 0;
  uint64_t last_send = 0;
  std::vector<bytes> delayed;
  std::function<void()> respond; // once, when the request is complete

  Server(Rng &g, bool v6, const fake::script &s, unsigned loss, bool leaves)
    : g(g)
    , v6(v6)
    , s(s)
    , loss(loss)
  {
    fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    sockaddr_storage a = {};
    if (v6) {
      ((sockaddr_in6 *) &a)->sin6_family = AF_INET6;
      ((sockaddr_in6 *) &a)->sin6_addr = in6addr_loopback;
    } else {
      ((sockaddr_in *) &a)->sin_family = AF_INET;
      ((sockaddr_in *) &a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    }
    socklen_t n = v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
    // Any port will do, the last one above all. A port that is left to nobody is
    // one that nobody else takes meanwhile.
    bool bound = false;
    for (unsigned i = 0; i < (leaves ? 20 : 3) && !bound && (leaves || g.chance(1, 2)); i++) {
      uint16_t want = leaves ? (uint16_t)(61001 + g.below(4000)) : g.chance(1, 3) ? 65535 : (uint16_t)(1 + g.below(32000));
      (v6 ? ((sockaddr_in6 *) &a)->sin6_port : ((sockaddr_in *) &a)->sin_port) = htons(want);
      bound = fd >= 0 && bind(fd, (sockaddr *) &a, n) == 0;
    }
    if (!bound) (v6 ? ((sockaddr_in6 *) &a)->sin6_port : ((sockaddr_in *) &a)->sin_port) = 0;
    CHECK(bound || (fd >= 0 && bind(fd, (sockaddr *) &a, n) == 0), "harness", "no server socket: %s", strerror(errno));
    n = sizeof a;
    getsockname(fd, (sockaddr *) &a, &n);
    port = ntohs(v6 ? ((sockaddr_in6 *) &a)->sin6_port : ((sockaddr_in *) &a)->sin_port);
    hello.data = str(s.server_hello);
    flight.data = str(s.server_flight);
  }
  ~Server()
  {
    if (fd >= 0) close(fd);
  }
  bool roll(unsigned pct) { return g.below(100) < pct; }

  void transmit(const bytes &p)
  {
    if (!peer_len) return;
    last_send = now_us();
    unsigned what = (unsigned) g.below(100);
    if (what < loss) {
      dropped++;
      return;
    }
    if (loss && what < loss + 10) {
      delayed.push_back(p);
      return;
    }
    (void) !sendto(fd, p.data(), p.size(), 0, (sockaddr *) &peer, peer_len);
    if (loss && roll(5)) (void) !sendto(fd, p.data(), p.size(), 0, (sockaddr *) &peer, peer_len);
    if (loss && roll(5)) { // not from QUIC
      bytes junk = any_raw(g, g.below(60));
      if (!junk.empty()) junk[0] = '\xff';
      (void) !sendto(fd, junk.data(), junk.size(), 0, (sockaddr *) &peer, peer_len);
    }
    if (!delayed.empty() && roll(40)) {
      (void) !sendto(fd, delayed.back().data(), delayed.back().size(), 0, (sockaddr *) &peer, peer_len);
      delayed.pop_back();
    }
  }

  void datagram(const bytes &d)
  {
    datagrams++;
    std::vector<fake::frame> fs;
    CHECK(fake::parse((const uint8_t *) d.data(), d.size(), fs), "packet", "the client sent a packet that is none of QUIC: %s", hex(d).c_str());
    if (datagrams > silent_at) silent_now = true;
    if (silent_now) return;
    if (roll(loss)) {
      dropped++;
      return;
    }
    std::vector<fake::frame> acks;
    bool ack = false;
    for (auto &f : fs) {
      switch (f.kind) {
        case 'C': {
          ack = true;
          bytes &c = crypto[f.level & 3];
          bytes data = str(f.data);
          if (f.offset <= c.size() && f.offset + data.size() > c.size()) c += data.substr(c.size() - f.offset);
          break;
        }
        case 'S': {
          ack = true;
          bytes data = str(f.data);
          if (f.flags & 1) {
            uint64_t at = f.offset + data.size();
            CHECK(!fin_at.count(f.id) || fin_at[f.id] == at, "end", "stream %llu ends twice, at %llu and %llu", (unsigned long long) f.id, (unsigned long long) fin_at[f.id], (unsigned long long) at);
            fin_at[f.id] = at;
          }
          parts[f.id][f.offset] = data;
          bytes &b = in[f.id];
          for (auto &p : parts[f.id]) {
            if (p.first > b.size()) break;
            size_t overlap = std::min<size_t>(b.size() - p.first, p.second.size());
            CHECK(b.compare(p.first, overlap, p.second, 0, overlap) == 0, "repeated", "stream %llu: repeated data differs at offset %llu", (unsigned long long) f.id, (unsigned long long) p.first);
            if (overlap) repeated++;
            b += p.second.substr(overlap);
          }
          break;
        }
        case 'A':
          if (out.count(f.id)) out[f.id].acked = std::max(out[f.id].acked, f.offset);
          break;
        case 'Z':
          if (out.count(f.id)) out[f.id].fin_acked = true;
          break;
        case 'K': {
          Out &o = f.level == NGTCP2_CRYPTO_LEVEL_INITIAL ? hello : flight;
          o.acked = std::max(o.acked, f.offset);
          break;
        }
        case 'P': break;
        default: fail("packet", "the client sent a frame of kind %d", f.kind);
      }
    }
    if (ack && !roll(10)) {
      for (auto &p : in) {
        fake::frame f;
        f.kind = 'A';
        f.id = p.first;
        f.offset = p.second.size();
        acks.push_back(f);
        if (fin_at.count(p.first) && fin_at[p.first] == p.second.size()) {
          f = {};
          f.kind = 'Z';
          f.id = p.first;
          acks.push_back(f);
        }
      }
      for (int l = 0; l < 4; l++)
        if (!crypto[l].empty()) {
          fake::frame f;
          f.kind = 'K';
          f.level = (uint8_t) l;
          f.offset = crypto[l].size();
          acks.push_back(f);
        }
      transmit(Quic::packet(acks));
    }
  }

  static bytes join(const std::vector<fake::bytes> &v)
  {
    bytes r;
    for (auto &b : v) r += str(b);
    return r;
  }
  bool hello_complete() const { return crypto[NGTCP2_CRYPTO_LEVEL_INITIAL] == join(s.hello); }
  bool finished_complete() const { return crypto[NGTCP2_CRYPTO_LEVEL_HANDSHAKE] == join(s.finished); }
  // The type of the stream and the SETTINGS frame, whole?
  bool control_complete() const
  {
    if (!in.count(2)) return false;
    const bytes &k = in.at(2);
    size_t pos = 0;
    uint64_t t = 1, len = 0;
    return ref::varint_get(k, pos, t) && ref::varint_get(k, pos, t) && ref::varint_get(k, pos, len) && k.size() - pos >= len;
  }
  bool request_complete() const { return fin_at.count(0) && in.count(0) && in.at(0).size() == fin_at.at(0) && control_complete(); }

  // Sends what may be sent, in frames and packets of any size.
  void pump()
  {
    if (silent_now) return;
    std::vector<fake::frame> fs;
    auto some = [&](char kind, uint8_t level, uint64_t id, Out &o) {
      while (o.sent < o.data.size() && fs.size() < 40) {
        size_t left = o.data.size() - o.sent;
        size_t k = std::min<size_t>(left, g.chance(1, 4) ? 1 + g.below(20) : 1 + g.below(1000));
        fake::frame f;
        f.kind = kind;
        f.level = level;
        f.id = id;
        f.offset = o.sent;
        f.data = vec(o.data.substr(o.sent, k));
        o.sent += k;
        if (o.fin && o.sent == o.data.size() && g.chance(1, 2)) {
          f.flags = 1;
          o.fin_sent = true;
        }
        fs.push_back(f);
      }
      if (o.fin && !o.fin_sent && o.sent == o.data.size()) {
        fake::frame f;
        f.kind = kind;
        f.id = id;
        f.offset = o.sent;
        f.flags = 1;
        o.fin_sent = true;
        fs.push_back(f);
      }
    };
    auto again = [](Out &o) {
      o.sent = std::min(o.sent, o.acked);
      if (!o.fin_acked) o.fin_sent = false;
    };
    if (now_us() > last_send + 8000) {
      again(hello);
      again(flight);
      for (auto &o : out) again(o.second);
      for (auto &d : delayed) (void) !sendto(fd, d.data(), d.size(), 0, (sockaddr *) &peer, peer_len);
      delayed.clear();
    }
    if (hello_complete()) {
      some('C', NGTCP2_CRYPTO_LEVEL_INITIAL, 0, hello);
      some('C', NGTCP2_CRYPTO_LEVEL_HANDSHAKE, 0, flight);
    }
    if (request_complete() && finished_complete()) {
      if (!answered) {
        answered = true;
        if (respond) respond();
      }
      // The streams' frames in any mixture.
      std::vector<uint64_t> ids;
      for (auto &o : out) ids.push_back(o.first);
      while (!ids.empty()) {
        size_t i = g.below(ids.size());
        some('S', 0, ids[i], out[ids[i]]);
        ids.erase(ids.begin() + (long) i);
      }
      if (reset && out[0].acked == out[0].data.size()) {
        fake::frame f;
        f.kind = 'R';
        f.id = 0;
        f.offset = reset_code;
        fs.push_back(f);
        if (reset_sent && now_us() < last_send + 8000) fs.pop_back();
        reset_sent = true;
      }
    }
    for (size_t i = 0; i < fs.size();) {
      std::vector<fake::frame> p;
      size_t size = 0;
      do {
        size += fake::FRAME_HEADER + fs[i].data.size();
        p.push_back(fs[i++]);
      } while (i < fs.size() && size + fake::FRAME_HEADER + fs[i].data.size() < 1400 && g.chance(2, 3));
      transmit(Quic::packet(p));
    }
  }

  void step()
  {
    pollfd p = { fd, POLLIN, 0 };
    poll(&p, 1, 2);
    char m[70000];
    for (;;) {
      sockaddr_storage a = {};
      socklen_t n = sizeof a;
      ssize_t rv = recvfrom(fd, m, sizeof m, 0, (sockaddr *) &a, &n);
      if (rv < 0) break;
      peer = a;
      peer_len = n;
      datagram(bytes(m, (size_t) rv));
    }
    pump();
  }
};

static bytes expected_output(const ref::Headers &hs, const bytes &body)
{
  bytes r;
  for (auto &h : hs) r += h.name + ": " + h.value + "\n";
  return r + "\n" + body;
}

void run_case(Ctx &c)
{
  Rng &g = c.rng;
  static const Kind order[] = { GOOD, VIOLATION, GOOD, RESET, GOOD, TRUNCATED, GOOD, SILENT, GOOD, REFUSED, GOOD, TLS, PARAMETERS, SIGNAL, ARGUMENTS, GOOD };
  Kind kind = order[c.idx % 16];
  bool v6 = g.chance(1, 3), has_v6 = false;
  {
    int f = socket(AF_INET6, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    sockaddr_in6 a = {};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    has_v6 = f >= 0 && bind(f, (sockaddr *) &a, sizeof a) == 0;
    if (f >= 0) close(f);
  }
  v6 = v6 && has_v6;
  bool named = g.chance(1, 3);
  if (named) { // listen on the address the client will find first
    addrinfo hints = {}, *list = nullptr;
    named = getaddrinfo("localhost", nullptr, &hints, &list) == 0 && list;
    if (named) {
      bool six = list->ai_family == AF_INET6;
      const sockaddr_in *a4 = (const sockaddr_in *) list->ai_addr;
      const sockaddr_in6 *a6 = (const sockaddr_in6 *) list->ai_addr;
      named = six ? has_v6 && IN6_IS_ADDR_LOOPBACK(&a6->sin6_addr) : list->ai_family == AF_INET && a4->sin_addr.s_addr == htonl(INADDR_LOOPBACK);
      if (named) v6 = six;
      freeaddrinfo(list);
    }
  }
  fake::script s = any_script(g);
  unsigned loss = g.chance(1, 2) ? 0 : (unsigned) g.below(30);
  // A failing handshake needs no other failures.
  if (kind == TLS) {
    static const char *const how[] = { "hello", "flight", "provide" };
    s.fail = how[g.below(3)];
  }
  if (kind == PARAMETERS) {
    bytes b = str(s.peer_tp);
    b = g.chance(1, 2) ? b + "x" : b.substr(0, b.size() ? g.below(b.size()) : 0);
    s.peer_tp = vec(b);
  }
  Server srv(g, v6, s, loss, kind == REFUSED);
  if (srv.port == 65535) c.stat("servers-at-the-last-port");
  if (kind == SILENT) srv.silent_at = g.below(8);
  std::string host = v6 ? "::1" : "127.0.0.1";
  if (named) {
    host = "localhost";
    c.stat("named-hosts");
  }
  uint64_t pto = 2000000 + g.below(10) * 1000000, idle = kind == SILENT ? (20 + g.below(200)) * 1000000 : 0;
  std::string conf = dir + "/conf";
  {
    std::ofstream f(conf);
    f << "cipher " << s.cipher << "\nearly " << (s.early ? 1 : 0) << "\n";
    for (auto &b : s.hello) f << "hello " << fullhex(b) << "\n";
    for (auto &b : s.finished) f << "finished " << fullhex(b) << "\n";
    f << "server_hello " << fullhex(s.server_hello) << "\nserver_flight " << fullhex(s.server_flight) << "\n";
    f << "early_secret " << fullhex(s.early_secret) << "\nhs_read " << fullhex(s.hs_read) << "\nhs_write " << fullhex(s.hs_write) << "\n";
    f << "app_read " << fullhex(s.app_read) << "\napp_write " << fullhex(s.app_write) << "\npeer_tp " << fullhex(s.peer_tp) << "\n";
    if (!s.fail.empty()) f << "fail " << s.fail << "\n";
    f << "pto " << pto << "\nidle " << idle << "\nseed " << g.below(1000000) << "\n";
    if (g.chance(1, 2)) f << "partial " << g.below(60) << "\n";
    if (g.chance(1, 4)) f << "nodata " << g.below(40) << "\n";
    if (g.chance(1, 4)) f << "congested " << g.below(60) << "\n";
    if (g.chance(1, 4)) f << "retransmit " << g.below(40) << "\n";
  }

  // The response.
  Msg m;
  bytes control, stream;
  m.hs = { { ":status", "200" } };
  for (auto &h : any_headers(g, 5, 100)) m.hs.push_back(h);
  for (uint64_t n = g.below(5); n-- > 0;) m.chunks.push_back(any_raw(g, g.below(g.chance(1, 5) ? 9000 : 300)));
  bool large = kind == GOOD && !loss && g.chance(1, 6);
  if (large) // more than the client offers to take at first
    for (uint64_t n = 1 + g.below(5); n-- > 0;) m.chunks.push_back(any_raw(g, 100000 + g.below(200000)));
  stream = foreign_stream(m, g);
  control = foreign_control(g);
  bool must_succeed = kind == GOOD;
  if (kind == VIOLATION) {
    // Something illegal somewhere in front of the end.
    switch (g.below(5)) {
      case 0: stream = ref::frame(ref::DATA, "early") + stream; break;
      case 1: stream = ref::frame(ref::SETTINGS, "") + stream; break;
      case 2: stream = ref::frame(ref::HEADERS, bytes("\0\0\x80", 3)) + stream; break;
      case 3: stream = ref::frame(ref::GOAWAY, ref::varint(4)) + stream; break;
      default: stream = ref::frame(ref::MAX_PUSH_ID, ref::varint(4)) + stream; break;
    }
  }
  if (kind == TRUNCATED) {
    // A cut that is not at the end of a frame.
    size_t cut = 0;
    for (int t = 0; t < 50; t++) {
      cut = g.below(stream.size());
      Parsed p = ref_request(stream.substr(0, cut));
      if (!p.boundary || !p.hdone) break;
      cut = 0;
    }
    stream.resize(cut);
  }
  if (kind == RESET) {
    stream.resize(g.below(stream.size()));
    srv.reset = true;
    srv.reset_code = g.below(1000);
  }
  srv.respond = [&] {
    Server::Out o;
    o.data = stream;
    o.fin = kind != RESET;
    srv.out[0] = o;
    Server::Out k;
    k.data = control;
    srv.out[3] = k;
    for (uint64_t id = 7; id <= 11 && g.chance(1, 2); id += 4) { // QPACK's streams, or of types the client doesn't know
      Server::Out x;
      bool qpack = g.chance(1, 2);
      x.data = qpack ? ref::varint(id / 4 + 1) : ref::varint(0x21) + any_raw(g, g.below(200));
      x.fin = !qpack && g.chance(1, 2);
      srv.out[id] = x;
      c.stat("other-streams");
    }
  };

  std::vector<std::string> args{ host, std::to_string(srv.port) };
  if (kind == ARGUMENTS) {
    switch (g.below(6)) {
      case 0: args.pop_back(); break;
      case 1: args.clear(); break;
      case 2: args[1] = "https"; break;
      case 3: args[1] = std::to_string(65536 + srv.port); break;
      case 4: args[1] = ""; break;
      default: args[1] = "99999999999999999999999"; break;
    }
  }
  if (kind == REFUSED) {
    close(srv.fd);
    srv.fd = -1;
  }

  uint64_t begin = now_us();
  Process p;
  int no_out = g.chance(1, 10) ? 1 + (int) g.below(3) : 0, no_err = g.chance(1, 10) ? 1 + (int) g.below(3) : 0;
  p.start(args, conf, no_out, no_err);
  uint64_t kill_at = kind == SIGNAL ? begin + g.below(60000) : UINT64_MAX;
  bool killed = false;
  uint64_t limit = begin + 60000000;
  while (!p.poll_exit()) {
    if (srv.fd >= 0) srv.step();
    else usleep(2000);
    uint64_t t = now_us();
    if (t > kill_at && !killed && srv.peer_len) {
      // (Before the client set up its signals, they would end it.)
      kill(p.pid, g.chance(1, 2) ? SIGTERM : SIGINT);
      killed = true;
    }
    CHECK(t < limit, "hang", "%s: the client did not end within a minute (request %s, %llu datagrams)", NAMES[kind], srv.request_complete() ? "complete" : "incomplete", (unsigned long long) srv.datagrams);
  }
  uint64_t elapsed = now_us() - begin;
  bytes o = slurp(dir + "/out"), e = slurp(dir + "/err");
  // What went wrong inside?
  size_t at = e.find("ENGINE-COMPLAINT: ");
  CHECK(at == bytes::npos, "rules", "%s", e.substr(at + 18, e.find('\n', at) - at - 18).c_str());
  at = e.find("ERROR: AddressSanitizer");
  if (at == bytes::npos) at = e.find("ERROR: LeakSanitizer");
  if (at == bytes::npos) at = e.find("runtime error:");
  CHECK(at == bytes::npos, "sanitizer", "%s: %s", NAMES[kind], e.substr(at, 900).c_str());
  CHECK(WIFEXITED(p.status), "crash", "%s: the client was ended by signal %d: %s", NAMES[kind], WTERMSIG(p.status), e.substr(e.size() > 300 ? e.size() - 300 : 0).c_str());
  int rc = WEXITSTATUS(p.status);
  CHECK(rc == 0 || rc == 1, "crash", "%s: the client exits with %d: %s", NAMES[kind], rc, e.substr(0, 300).c_str());

  // The request.
  if (srv.in.count(0)) {
    Parsed q = ref_request(srv.in[0]);
    CHECK(q.bad.empty(), "request", "the request is not legal: %s", q.bad.c_str());
    ref::Headers want = { { ":method", "GET" }, { ":scheme", "https" }, { ":authority", host }, { ":path", "/index.html" } };
    if (srv.request_complete()) {
      CHECK(q.hdone && q.boundary && q.hs == want && q.body.empty(), "request", "the request is %s with %zu bytes instead of %s", ref::show(q.hs).c_str(), q.body.size(), ref::show(want).c_str());
      size_t pos = 0;
      uint64_t t = 1, len = 0;
      const bytes &k = srv.in[2];
      CHECK(ref::varint_get(k, pos, t) && t == 0 && ref::varint_get(k, pos, t) && t == ref::SETTINGS && ref::varint_get(k, pos, len) && k.size() == pos + len, "control", "the control stream is %s", hex(k).c_str());
      CHECK(!srv.fin_at.count(2), "control", "the control stream ends");
      c.stat("requests-checked");
    }
    for (auto &i : srv.in) CHECK(i.first == 0 || i.first == 2, "streams", "data on stream %llu", (unsigned long long) i.first);
  }
  bytes want = expected_output(m.hs, m.body());
  bool right = o.size() >= want.size() && o.compare(o.size() - want.size(), want.size(), want) == 0 && (o.size() == want.size() || o[o.size() - want.size() - 1] == '\n');
  if (rc == 0) {
    // (A signal can be too late.)
    CHECK(kind == GOOD || kind == SIGNAL, "success", "%s: the client succeeds", NAMES[kind]);
    CHECK(!no_out, "unwritable", "the client succeeds although its output can't be written");
    CHECK(right, "output", "the client does not print the response %s with %zu bytes, but ...%s", ref::show(m.hs).c_str(), m.body().size(), o.substr(o.size() > 300 ? o.size() - 300 : 0).c_str());
  }
  if (must_succeed && no_out) c.stat("unwritable-outputs");
  if (must_succeed && no_err) c.stat("unwritable-logs");
  if (must_succeed && !no_out) {
    CHECK(rc == 0, "failure", "the client fails although the server answered (%s, loss %u%%): %s", srv.answered ? "answered" : "not answered", loss, e.substr(0, 400).c_str());
    CHECK(srv.request_complete(), "request", "the client succeeds without a request");
  }
  if (kind == SILENT) CHECK(elapsed * 1000 >= idle, "timeout", "the client gave up after %llu us, the idle timeout is %llu us", (unsigned long long) elapsed, (unsigned long long) idle / 1000);
  if (kind == ARGUMENTS) CHECK(srv.datagrams == 0, "arguments", "the client sends to port %u for the arguments '%s'", srv.port, args.size() > 1 ? args[1].c_str() : "");
  c.stat(NAMES[kind]);
  if (killed && rc) c.stat("interrupted");
  if (large) c.stat("large-responses");
  if (v6) c.stat("over-ipv6");
  c.stat("datagrams-from-client", srv.datagrams);
  c.stat("datagrams-lost", srv.dropped);
  c.stat("repetitions-compared", srv.repeated);
  for (const char *k : { "timeouts", "retransmitted", "packets-ignored" }) {
    at = e.find(strf("ENGINE-COUNT: %s ", k));
    if (at != bytes::npos) c.stat(strf("client-%s", k).c_str(), strtoull(e.c_str() + at + 15 + strlen(k), nullptr, 10));
  }
  c.interesting();
  c.observe((uint64_t) kind);
  c.observe(stream);
  c.observe(str(s.server_flight));
  c.sample(strf("%s: %llu datagrams, %llu lost, %zu bytes of body, exit status %d", NAMES[kind], (unsigned long long) srv.datagrams, (unsigned long long) srv.dropped, m.body().size(), rc));
}
