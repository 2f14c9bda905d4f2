// C20: logging.
#include "traffic.hpp"
#include <bnl/log/console.hpp>
#include <sstream>
#include <csignal>
#include <fcntl.h>
#include <stdio_ext.h>
namespace blog = bnl::base::log;
const char *const RULE = "each case runs the same work without a logger, with the base logger, with a recording logger and with the console logger in both modes (standard output and error captured), and compares everything observed; what the console printed is compared, stream by stream, with what the recording logger was given; in addition random messages at random levels are logged directly; non-trivial: at least one message; distinct by the messages";
struct Msg1 {
  blog::level level;
  std::string source, text;
};
struct Recorder : blog::api {
  mutable std::vector<Msg1> v;

protected:
  void log(blog::level level, const char *file, const char *, int line, const char *format, const fmt::format_args &args) const override
  {
    v.push_back({ level, strf("%s:%d", file, line), fmt::vformat(format, args) });
  }
};
static bool to_stderr(blog::level l) { return l == blog::level::warning || l == blog::level::error; }

// Redirects standard output and error into memory files.
struct Capture {
  int saved[2], mem[2];
  Capture()
  {
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < 2; i++) {
      saved[i] = dup(i + 1);
      mem[i] = memfd_create("capture", 0);
      if (saved[i] < 0 || mem[i] < 0 || dup2(mem[i], i + 1) < 0) { perror("capture"); _exit(2); }
    }
  }
  bytes out, err;
  bool unflushed = false;
  void end()
  {
    // What a logger prints has to be there without anyone flushing.
    for (int i = 0; i < 2; i++) (i ? err : out) = read(i);
    size_t a = out.size(), b = err.size();
    restore();
    for (int i = 0; i < 2; i++) (i ? err : out) = read(i);
    unflushed = out.size() != a || err.size() != b;
    close(mem[0]);
    close(mem[1]);
    mem[0] = -1;
  }
  bytes read(int i)
  {
    off_t n = lseek(mem[i], 0, SEEK_END);
    bytes b((size_t) n, '\0');
    if (pread(mem[i], &b[0], b.size(), 0) != n) { perror("pread"); _exit(2); }
    return b;
  }
  bool restored = false;
  void restore()
  {
    if (restored) return;
    restored = true;
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < 2; i++) {
      dup2(saved[i], i + 1);
      close(saved[i]);
    }
  }
  ~Capture()
  {
    restore();
    if (mem[0] >= 0) { close(mem[0]); close(mem[1]); }
  }
};
static bytes strip(const bytes &b)
{
  bytes r;
  for (size_t i = 0; i < b.size(); i++) {
    if (b[i] == '\x1b' && i + 1 < b.size() && b[i + 1] == '[') {
      size_t j = i + 2;
      while (j < b.size() && ((b[j] >= '0' && b[j] <= '9') || b[j] == ';')) j++;
      if (j < b.size() && b[j] == 'm') { i = j; continue; }
    }
    r += b[i];
  }
  return r;
}
// Every message: a preamble without line breaks, the source if wanted, the
// text, the end of the line.
static void compare(const bytes &printed, const std::vector<Msg1> &all, bool err, bool source, const char *what)
{
  bytes p = strip(printed);
  size_t pos = 0;
  for (auto &m : all) {
    if (to_stderr(m.level) != err) continue;
    bytes want = strip(m.text) + "\n";
    if (source) want = m.source + ": " + want;
    size_t at = p.find(want, pos);
    CHECK(at != bytes::npos, "message-missing", "%s: message '%s' is not on %s: %s", what, want.c_str(), err ? "standard error" : "standard output", hex(p.substr(pos), 400).c_str());
    CHECK(at - pos < 64 && p.find('\n', pos) >= at, "not-a-line", "%s: message '%s' does not follow the previous line: '%s'", what, want.c_str(), p.substr(pos, at - pos).c_str());
    if (!source) CHECK(p.substr(pos, at - pos).find(m.source) == bytes::npos, "source", "%s: source location in front of '%s'", what, want.c_str());
    pos = at + want.size();
  }
  CHECK(pos == p.size(), "extra-output", "%s: unexpected output '%s' on %s", what, p.substr(pos, 200).c_str(), err ? "standard error" : "standard output");
}
// Standard output and error that take nothing, or only some.
struct Refuse {
  int saved[2];
  explicit Refuse(Rng &g)
  {
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < 2; i++) {
      saved[i] = dup(i + 1);
      int to = -1;
      switch (g.below(4)) {
        case 0: to = memfd_create("capture", 0); break;
        case 1: to = open("/dev/full", O_WRONLY); break;
        case 2: { // nobody reads
          int p[2];
          if (pipe(p) == 0) { close(p[0]); to = p[1]; }
          break;
        }
        default: to = open("/dev/null", O_RDONLY); // not for writing
      }
      if (to < 0) to = open("/dev/null", O_RDONLY);
      if (saved[i] < 0 || to < 0 || dup2(to, i + 1) < 0) { perror("refuse"); _exit(2); }
      close(to);
    }
  }
  ~Refuse()
  {
    for (FILE *f : { stdout, stderr }) {
      fflush(f);
      __fpurge(f);
      clearerr(f);
    }
    for (int i = 0; i < 2; i++) {
      dup2(saved[i], i + 1);
      close(saved[i]);
    }
  }
};
void harness_init()
{
  base::logger = nullptr;
  signal(SIGPIPE, SIG_IGN);
}
static void say(Rng g)
{
  for (uint64_t n = 1 + g.below(8); n-- > 0;) {
    bytes a = any_bytes(g, 60);
    if (g.chance(1, 3)) a += "{} {:d} %s %n {{ }}";
    if (g.chance(1, 6)) a += "\n";
    uint64_t u = any_u64(g);
    base::string_view v(a.data(), a.size());
    http3::header_view hv(v, v);
    switch (g.below(7)) {
      case 0: BNL_LOG_T("plain trace"); break;
      case 1: BNL_LOG_D("debug {} {}", u, a); break;
      case 2: BNL_LOG_I("{}", hv); break;
      case 3: BNL_LOG_W("warning ({})", v); break;
      case 4: BNL_LOG_E("error {:#x}", u); break;
      case 5: {
        quic::data d;
        d.id = u;
        d.fin = g.chance(1, 2);
        d.buffer = buf(a);
        quic::event e(std::move(d));
        BNL_LOG_T("event {}", e);
        break;
      }
      default: {
        http3::frame f = any_frame(g);
        BNL_LOG_I("frame {}", f);
      }
    }
  }
}
void run_case(Ctx &c)
{
  Rng g = c.rng;
  auto work = [&]() {
    say(g);
    return traffic(g);
  };
  struct Reset { ~Reset() { base::logger = nullptr; } } reset;
  base::logger = nullptr;
  Digest none;
  bytes quiet[2];
  {
    Capture cap;
    none = work();
    cap.end();
    quiet[0] = cap.out;
    quiet[1] = cap.err;
  }
  CHECK(quiet[0].empty() && quiet[1].empty(), "prints-without-logger", "the library prints without a logger: %s %s", quiet[0].c_str(), quiet[1].c_str());
  Recorder rec;
  {
    base::logger = &rec;
    Digest d = work();
    CHECK(d.h == none.h && d.items == none.items, "logger-changes-behaviour", "with a recording logger the outcome changes at %s", first_difference(none, d).c_str());
  }
  {
    blog::api ignore;
    base::logger = &ignore;
    Digest d = work();
    CHECK(d.h == none.h, "logger-changes-behaviour", "with the base logger the outcome changes at %s", first_difference(none, d).c_str());
  }
  for (int source = 0; source < 2; source++) {
    bnl::log::console con(source);
    base::logger = &con;
    Digest d;
    Capture cap;
    try {
      d = work();
    } catch (const std::exception &e) {
      cap.end();
      fail("logger-throws", "the console logger throws: %s", e.what());
    }
    cap.end();
    base::logger = nullptr;
    CHECK(d.h == none.h, "logger-changes-behaviour", "with the console logger the outcome changes at %s", first_difference(none, d).c_str());
    CHECK(!cap.unflushed, "unflushed", "console output was still buffered");
    compare(cap.out, rec.v, false, source, source ? "console with source" : "console");
    compare(cap.err, rec.v, true, source, source ? "console with source" : "console");
    c.stat("console-bytes", cap.out.size() + cap.err.size());
  }
  {
    bnl::log::console con(c.rng.chance(1, 2));
    Refuse refuse(c.rng);
    base::logger = &con;
    Digest d;
    bytes thrown;
    try {
      d = work();
    } catch (const std::exception &e) {
      thrown = e.what();
    }
    base::logger = nullptr;
    CHECK(thrown.empty(), "logger-throws", "the console logger throws when its output can't be written: %s", thrown.c_str());
    CHECK(d.h == none.h, "logger-changes-behaviour", "when the console's output can't be written the outcome changes at %s", first_difference(none, d).c_str());
    c.stat("unwritable-consoles");
  }
  c.stat("messages", rec.v.size());
  for (auto &m : rec.v) { c.observe(m.text); if (to_stderr(m.level)) c.stat("messages-to-stderr"); }
  if (rec.v.size()) c.interesting();
  c.sample(rec.v.empty() ? "none" : rec.v.back().source + " " + rec.v.back().text);
  // The printed forms.
  http3::frame f = any_frame(g);
  std::ostringstream os;
  os << f;
  static const std::map<uint64_t, const char *> names = { { 0, "DATA" }, { 1, "HEADERS" }, { 2, "PRIORITY" }, { 3, "CANCEL_PUSH" }, { 4, "SETTINGS" }, { 5, "PUSH_PROMISE" }, { 7, "GOAWAY" }, { 13, "MAX_PUSH_ID" }, { 14, "DUPLICATE_PUSH" } };
  auto t = (uint64_t)(http3::frame::type) f;
  CHECK(os.str().find(names.at(t)) == 0, "frame-text", "frame of type %llu is printed as %s", (unsigned long long) t, os.str().c_str());
  for (int i = 0; i < 2; i++) {
    uint64_t id = any_varint(g), value = any_u64(g);
    bytes b = any_bytes(g, 300);
    bool fin = g.chance(1, 2);
    std::ostringstream out;
    std::vector<std::string> parts;
    if (i) {
      quic::event e(quic::application::error{ quic::application::error::rst_stream, id, value });
      CHECK(e.id() == id, "event", "the error event of stream %llu has id %llu", (unsigned long long) id, (unsigned long long) e.id());
      quic::event m(std::move(e));
      out << m;
      parts = { "ERROR", std::to_string(value) };
    } else {
      quic::data d;
      d.id = id;
      d.fin = fin;
      d.buffer = buf(b);
      quic::event e(std::move(d));
      CHECK(e.id() == id, "event", "the data event of stream %llu has id %llu", (unsigned long long) id, (unsigned long long) e.id());
      quic::event m(std::move(e));
      CHECK(m.data.id == id && m.data.fin == fin && str(m.data.buffer) == b, "event", "a moved data event lost its content");
      out << m;
      parts = { "DATA", std::to_string(id), fin ? "true" : "false", std::to_string(b.size()) };
    }
    size_t pos = 0;
    for (auto &p : parts) {
      pos = out.str().find(p, pos);
      CHECK(pos != bytes::npos, "event-text", "%s is missing in '%s'", p.c_str(), out.str().c_str());
      pos += p.size();
    }
    c.stat("events-printed");
  }
}
