// C15: the QPACK interop tools.
#include "traffic.hpp"
#include <csignal>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
const char *const RULE = "each case writes a random QIF file, runs the instrumented encoder and decoder on it, and compares the decoded file with the lists and the encoded file with an independent reader; then truncates or corrupts the encoded file, judges the damaged file with an independent decoder, and compares the decoder's exit status and output with that; some cases use missing or unparsable inputs; non-trivial: at least two headers; distinct by the file";
extern char **environ;
static std::string enc, dec, venc, vdec, dir;
void harness_init()
{
  base::logger = nullptr;
  const char *e = getenv("BNL_ENC"), *d = getenv("BNL_DEC");
  if (!e || !d) { fprintf(stderr, "BNL_ENC and BNL_DEC not set\n"); _exit(2); }
  enc = e;
  dec = d;
  if (const char *v = getenv("BNL_VENC")) venc = v;
  if (const char *v = getenv("BNL_VDEC")) vdec = v;
  char t[] = "interopXXXXXX";
  char cwd[4096];
  if (!mkdtemp(t) || !getcwd(cwd, sizeof cwd)) { perror("mkdtemp"); _exit(2); }
  dir = std::string(cwd) + "/" + t;
}
static std::string path(const char *n) { return dir + "/" + n; }
static void spill(const std::string &p, const bytes &b)
{
  FILE *f = fopen(p.c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) { perror("write"); _exit(2); }
}
static bool slurp(const std::string &p, bytes &b)
{
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return false;
  b.clear();
  char t[65536];
  size_t n;
  while ((n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n);
  fclose(f);
  return true;
}
// Exit status, or -1 and a violation when the tool crashes or hangs.
static int run(const std::string &tool, const std::vector<std::string> &args, const char *what)
{
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (!pid) {
    int o = open(path("tool.log").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    dup2(o, 1);
    dup2(o, 2);
    std::vector<char *> av;
    av.push_back(const_cast<char *>(tool.c_str()));
    for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
    av.push_back(nullptr);
    alarm(60);
    execvp(tool.c_str(), av.data());
    _exit(126);
  }
  int st = 0;
  if (waitpid(pid, &st, 0) != pid) { perror("waitpid"); _exit(2); }
  bytes l;
  slurp(path("tool.log"), l);
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGALRM) fail("tool-hangs", "%s hangs: %s", tool.c_str(), what);
    fail("tool-crashes", "%s is killed by signal %d: %s: %s", tool.c_str(), WTERMSIG(st), what, l.substr(0, 500).c_str());
  }
  int rc = WEXITSTATUS(st);
  if (rc == 77 && tool == "valgrind") fail("uses-uninitialised", "memcheck: %s: %s", what, l.substr(0, 1500).c_str());
  if (rc == 126) { fprintf(stderr, "cannot run %s\n", tool.c_str()); _exit(2); }
  CHECK(rc != 77, "tool-crashes", "%s: sanitizer report: %s: %s", tool.c_str(), what, l.substr(0, 1500).c_str());
  return rc;
}
static bool clean(const bytes &s, bool name)
{
  for (char ch : s) if (ch == '\n' || (name && ch == '\t')) return false;
  return !name || s.empty() || s[0] != '#';
}
using Lists = std::vector<ref::Headers>;
static bytes qif(const Lists &ls)
{
  bytes r;
  for (auto &l : ls) {
    for (auto &h : l) r += h.name + "\t" + h.value + "\n";
    r += "\n";
  }
  return r;
}
// An independent reader of encoded files. "" or what is wrong.
static std::string read_encoded(const bytes &f, Lists &out, bool ids)
{
  size_t pos = 0;
  out.clear();
  uint64_t want = 1;
  while (pos < f.size()) {
    if (f.size() - pos < 12) return "truncated block header";
    uint64_t id = 0, n = 0;
    for (int i = 0; i < 8; i++) id = id << 8 | (unsigned char) f[pos + i];
    for (int i = 8; i < 12; i++) n = n << 8 | (unsigned char) f[pos + i];
    pos += 12;
    if (ids && id != want) return strf("stream id %llu instead of %llu", (unsigned long long) id, (unsigned long long) want);
    want++;
    if (n > f.size() - pos) return "truncated block";
    ref::Headers hs;
    if (n) {
      std::string w = ref::qpack_get(f.substr(pos, n), hs);
      if (!w.empty()) return w;
    }
    for (auto &h : hs)
      for (char ch : h.name) if (ch >= 'A' && ch <= 'Z') return "uppercase name";
    out.push_back(hs);
    pos += n;
  }
  return "";
}
static Lists any_lists(Rng &g, bool huge)
{
  Lists r;
  // More lists than one, and rarely two, bytes of the stream id can tell apart.
  if (g.chance(1, 30)) {
    uint64_t n = g.chance(1, 25) ? 65536 + g.below(300) : 200 + g.below(700);
    for (uint64_t i = 0; i < n; i++) r.push_back({ { g.chance(1, 2) ? ":path" : "n", strf("%llu", (unsigned long long) i) } });
    return r;
  }
  // One whose size needs four.
  if (huge) return { { { "x-huge", bytes(17000000 + g.below(1000000), (char) (128 + g.below(100))) }, { "end", "1" } }, { { "x", "y" } } };
  // A header block whose size needs three bytes.
  if (g.chance(1, 30)) {
    ref::Headers l;
    for (uint64_t k = 1 + g.below(3); k--;) l.push_back({ "x-large", bytes(20000 + g.below(120000), (char) ('a' + g.below(26))) });
    l.push_back({ "end", "1" });
    r.push_back(l);
    if (g.chance(1, 2)) r.push_back({ { "x", "y" } });
    return r;
  }
  for (uint64_t n = g.chance(1, 12) ? 0 : 1 + g.below(g.chance(1, 6) ? 20 : 4); n-- > 0;) {
    ref::Headers l;
    for (auto &h : any_headers(g, g.chance(1, 8) ? 40 : 6, g.chance(1, 20) ? 9000 : 150))
      if (clean(h.name, true) && clean(h.value, false)) l.push_back(h);
    // A line of an empty name and an empty value is a tab.
    if (!l.empty()) r.push_back(l);
  }
  return r;
}
void run_case(Ctx &c)
{
  Rng &g = c.rng;
  Lists ls = any_lists(g, c.idx % 400 == 7);
  bytes file;
  for (size_t i = 0; i < ls.size(); i++) {
    while (g.chance(1, 6)) file += "# " + lower(any_bytes(g, 0)) + "comment\twith a tab\n";
    for (auto &h : ls[i]) {
      file += h.name + "\t" + h.value + "\n";
      if (g.chance(1, 12)) file += "#\n";
    }
    if (i + 1 < ls.size() || g.chance(2, 3)) file += "\n";
    while (g.chance(1, 8) && file.size() && (i + 1 < ls.size())) file += "\n";
  }
  if (!file.empty() && !ls.empty() && file.size() > 1 && file[file.size() - 2] != '\n' && g.chance(1, 3)) file.pop_back(); // no newline at the end of the file
  spill(path("in.qif"), file);
  if (g.chance(1, 3)) spill(path("out.enc"), bytes(5000, 'z')); // leftovers are replaced
  if (g.chance(1, 3)) spill(path("out.qif"), bytes(5000, 'z'));
  std::string what = strf("%zu lists, %zu bytes", ls.size(), file.size());
  int rc = run(enc, { path("in.qif"), path("out.enc") }, what.c_str());
  CHECK(rc == 0, "encode-fails", "the encoder fails with status %d on %s: %s", rc, what.c_str(), hex(file).c_str());
  bytes e;
  CHECK(slurp(path("out.enc"), e), "encode-fails", "no output");
  Lists got;
  std::string bad = read_encoded(e, got, true);
  CHECK(bad.empty(), "encoded-illegal", "encoded file: %s", bad.c_str());
  CHECK(got == ls, "encoded-value", "an independent decoder reads %zu lists instead of %zu: %s", got.size(), ls.size(), hex(file).c_str());
  rc = run(dec, { path("out.enc"), path("out.qif") }, what.c_str());
  CHECK(rc == 0, "decode-fails", "the decoder fails with status %d on %s", rc, what.c_str());
  bytes q;
  CHECK(slurp(path("out.qif"), q), "decode-fails", "no output");
  CHECK(q == qif(ls), "roundtrip", "decoding gives %s instead of %s", hex(q, 200).c_str(), hex(qif(ls), 200).c_str());
  c.stat("files");
  const bytes q0 = q;
  if (ls.size() > 256) c.stat("files-of-many-lists");
  if (e.size() > 65536) c.stat("large-files");
  if (e.size() > (1 << 24)) c.stat("huge-blocks");
  // The same output without any instrumentation in the tools, and no decision
  // or output that depends on memory nobody wrote.
  if (!venc.empty() && file.size() < 20000 && g.chance(1, 25)) {
    const std::vector<std::string> V = { "--quiet", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no" };
    std::vector<std::string> a = V;
    for (auto &x : { venc, path("in.qif"), path("v.enc") }) a.push_back(x);
    rc = run("valgrind", a, what.c_str());
    bytes v;
    CHECK(rc == 0 && slurp(path("v.enc"), v) && v == e, "encode-differs", "the plain encoder gives status %d and %s instead of %s", rc, hex(v, 200).c_str(), hex(e, 200).c_str());
    a = V;
    for (auto &x : { vdec, path("out.enc"), path("v.qif") }) a.push_back(x);
    rc = run("valgrind", a, what.c_str());
    CHECK(rc == 0 && slurp(path("v.qif"), v) && v == q, "decode-differs", "the plain decoder gives status %d and %s instead of %s", rc, hex(v, 200).c_str(), hex(q, 200).c_str());
    c.stat("files-under-memcheck");
  }
  c.stat("lists", ls.size());
  size_t hn = 0;
  for (auto &l : ls) hn += l.size();
  c.stat("headers", hn);
  c.observe(file);
  if (hn > 1) c.interesting();
  c.sample(strf("%zu lists, %zu headers, %zu bytes encoded", ls.size(), hn, e.size()));

  // Another encoder's file.
  bytes f;
  for (size_t i = 0; i < ls.size(); i++) {
    bytes b = ref::qpack(ls[i], g);
    bytes n(4, '\0');
    for (int k = 0; k < 4; k++) n[k] = (char) (b.size() >> (24 - 8 * k));
    f += u64(g.chance(1, 2) ? i + 1 : any_u64(g)) + n + b;
  }
  // Damage.
  bytes x = g.chance(1, 2) ? e : f;
  unsigned how = (unsigned) g.below(4);
  bool large = x.size() > 65536;
  if (how == 0 && !large) x = f;
  else if ((large ? how < 3 : how == 1 && g.chance(1, 2)) && !x.empty()) { // a block that claims another size
    std::vector<size_t> at;
    for (size_t p = 0; p + 12 <= x.size();) {
      at.push_back(p);
      uint64_t n = 0;
      for (int k = 8; k < 12; k++) n = n << 8 | (unsigned char) x[p + k];
      p += 12 + n;
    }
    size_t p = large ? at[0] : g.pick(at);
    if (large || g.chance(1, 2)) std::swap(x[p + 8 + g.below(4)], x[p + 8 + g.below(4)]);
    else x[p + 8 + g.below(4)] ^= (char) (1u << g.below(8));
    c.stat("sizes-changed");
  }
  else if (how == 1 && !x.empty()) x.resize(g.below(x.size()));
  else if (how == 2 && !x.empty()) {
    for (uint64_t k = 1 + g.below(3); k-- > 0;) x[g.below(x.size())] ^= (char) (1u << g.below(8));
  } else x = mutate(x, g);
  spill(path("x.enc"), x);
  bad = read_encoded(x, got, false);
  rc = run(dec, { path("x.enc"), path("x.qif") }, hex(x).c_str());
  CHECK(rc == 0 || rc == 1, "tool-status", "the decoder exits with status %d on %s", rc, hex(x).c_str());
  // A dynamic table reference in the prefix, and integers longer than 64 bits,
  // are left open.
  if (bad == "required insert count is not zero" || bad == "no base" || bad == "no required insert count") c.stat("unspecified");
  else if (bad.empty()) {
    CHECK(rc == 0, "decode-fails", "the decoder refuses a valid file with status %d: %s", rc, hex(x).c_str());
    slurp(path("x.qif"), q);
    CHECK(q == qif(got), "foreign-value", "the decoder reads %s from a valid file instead of %s", hex(q, 200).c_str(), hex(qif(got), 200).c_str());
    c.stat("foreign-files");
  } else {
    CHECK(rc != 0, "accepts-damaged", "the decoder accepts a damaged file (%s): %s", bad.c_str(), hex(x).c_str());
    c.stat("damaged-refused");
  }
  switch (g.below(8)) {
    case 0:
      rc = run(dec, { path("missing"), path("x.qif") }, "missing input");
      CHECK(rc != 0, "accepts-missing", "the decoder succeeds without its input");
      rc = run(enc, { path("missing"), path("x.enc") }, "missing input");
      CHECK(rc != 0, "accepts-missing", "the encoder succeeds without its input");
      c.stat("missing-files");
      break;
    case 1:
      rc = run(dec, { path("out.enc"), path("no/where") }, "impossible output");
      CHECK(rc != 0, "accepts-missing", "the decoder succeeds without its output");
      rc = run(enc, { path("in.qif"), path("no/where") }, "impossible output");
      CHECK(rc != 0, "accepts-missing", "the encoder succeeds without its output");
      rc = run(dec, { path("out.enc") }, "one argument");
      CHECK(rc != 0, "accepts-missing", "the decoder succeeds without arguments");
      rc = run(enc, {}, "no argument");
      CHECK(rc != 0, "accepts-missing", "the encoder succeeds without arguments");
      // There is no space left for the output.
      rc = run(enc, { path("in.qif"), "/dev/full" }, "full output");
      CHECK(rc == 1 || (rc == 0 && e.empty()), "accepts-missing", "the encoder exits with status %d although its output could not be written", rc);
      rc = run(dec, { path("out.enc"), "/dev/full" }, "full output");
      CHECK(rc == 1 || (rc == 0 && q0.empty()), "accepts-missing", "the decoder exits with status %d although its output could not be written", rc);
      // (The sanitizers end programs that ask for too much memory.)
      rc = run(venc.empty() ? enc : venc, { dir, path("x.enc") }, "a directory as input");
      CHECK(rc == 1, "accepts-missing", "the encoder exits with status %d for a directory", rc);
      if (!vdec.empty()) {
        rc = run(vdec, { dir, path("x.qif") }, "a directory as input");
        CHECK(rc == 1, "accepts-missing", "the decoder exits with status %d for a directory", rc);
      }
      c.stat("impossible-outputs");
      c.stat("missing-files");
      break;
    case 2: case 3: { // a QIF file with a line that is none
      bytes y = file;
      size_t at = 0;
      bool upper = g.chance(1, 2);
      std::vector<size_t> starts = { 0 };
      for (size_t i = 0; i < y.size(); i++) if (y[i] == '\n') starts.push_back(i + 1);
      at = g.pick(starts);
      y.insert(at, upper ? (g.chance(1, 2) ? "Name\tvalue\n" : "x-lowE\t\n") : "no separator\n");
      spill(path("y.qif"), y);
      rc = run(enc, { path("y.qif"), path("y.enc") }, "unparsable");
      CHECK(rc != 0, "accepts-unparsable", "the encoder accepts %s: %s", upper ? "an uppercase name" : "a line without a separator", hex(y).c_str());
      c.stat("unparsable-refused");
      break;
    }
    case 4: { // anything at all
      spill(path("z"), any_bytes(g, 600));
      rc = run(enc, { path("z"), path("z.enc") }, "garbage");
      CHECK(rc == 0 || rc == 1, "tool-status", "the encoder exits with status %d on garbage", rc);
      rc = run(dec, { path("z"), path("z.qif") }, "garbage");
      CHECK(rc == 0 || rc == 1, "tool-status", "the decoder exits with status %d on garbage", rc);
    }
  }
}
