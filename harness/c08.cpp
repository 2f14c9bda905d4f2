// C08: buffers.
#include <sstream>
#include "bnlx.hpp"
#ifdef ACCOUNT
#include "alloc.hpp"
#endif
const char *const RULE = "each case is a random history over six buffers, four chunked buffers and lookaheads (construct, move, consume, slice, concatenate, push, pop, write, look ahead; sizes concentrated around the inline limit), compared with plain byte strings after every operation, with the memory held compared with the blocks still referenced; non-trivial: at least one slice outlived its origin; distinct by the operation sequence";
void harness_init() { base::logger = nullptr; }

// The model: what a buffer holds and which memory block it may keep alive.
struct Block { size_t size; };
struct MB {
  bytes b;
  std::shared_ptr<Block> blk; // nullptr: cannot keep anything alive
  bool known = true;          // contents are specified (not moved from)
};
struct MBs {
  std::vector<MB> n;
  bytes all() const { bytes r; for (auto &x : n) r += x.b; return r; }
  void discard() { while (!n.empty() && n.front().b.empty()) n.erase(n.begin()); }
};
struct World {
  Ctx &c;
  Rng &g;
  std::unique_ptr<base::buffer> b[6];
  MB m[6];
  std::unique_ptr<base::buffers> s[4];
  MBs ms[4];
  uint64_t ops = 0, slices = 0, outlived = 0, looks = 0, sidx = 0;
  int64_t base_bytes = 0;
  std::string last;
  World(Ctx &c, Rng &g) : c(c), g(g) {}

  size_t any_size(size_t max)
  {
    size_t n;
    switch (g.below(5)) {
      case 0: n = g.below(4); break;
      case 1: n = 17 + g.below(8); break;
      case 2: n = 20 + g.below(2); break;
      case 3: n = g.below(64); break;
      default: n = g.below(300);
    }
    return std::min(n, max);
  }
  bytes fresh(size_t n)
  {
    bytes r(n, '\0');
    for (auto &ch : r) ch = (char) g.next();
    return r;
  }
  MB model(const bytes &v) { return MB{ v, std::make_shared<Block>(Block{ v.size() }), true }; }
  void moved(int i)
  {
    m[i] = MB{ bytes(), nullptr, false };
    if (g.chance(1, 2)) { b[i].reset(); m[i].known = true; }
  }
  void check_one(const base::buffer &x, const MB &y, const char *what, int i)
  {
    CHECK(x.size() == y.b.size(), "size", "after %s: %s %d has %zu bytes instead of %zu", last.c_str(), what, i, x.size(), y.b.size());
    CHECK(x.empty() == y.b.empty(), "size", "after %s: empty() of %s %d", last.c_str(), what, i);
    CHECK(bytes(x.begin(), x.end()) == y.b, "content", "after %s: %s %d holds %s instead of %s", last.c_str(), what, i, hex(str(x), 40).c_str(), hex(y.b, 40).c_str());
    CHECK(x.data() == x.begin() && (size_t)(x.end() - x.begin()) == x.size(), "range", "after %s: data() and begin() differ", last.c_str());
    base::buffer_view v = x;
    CHECK(v.size() == y.b.size() && str(v) == y.b, "view", "after %s: view of %s %d differs", last.c_str(), what, i);
    if (!y.b.empty()) {
      size_t k = g.below(y.b.size());
      CHECK((char) x[k] == y.b[k] && (char) *x == y.b[0], "index", "after %s: byte %zu of %s %d", last.c_str(), k, what, i);
    }
  }
  void check()
  {
    for (int i = 0; i < 6; i++)
      if (b[i] && m[i].known) check_one(*b[i], m[i], "buffer", i);
    for (int i = 0; i < 4; i++) {
      if (!s[i]) continue;
      bytes want = ms[i].all();
      CHECK(s[i]->size() == want.size() && s[i]->empty() == want.empty(), "size", "after %s: chunked buffer %d has %zu bytes instead of %zu", last.c_str(), i, s[i]->size(), want.size());
      if (want.size() <= 40 || g.chance(1, 16)) CHECK(content(*s[i]) == want, "content", "after %s: chunked buffer %d holds %s instead of %s", last.c_str(), i, hex(content(*s[i]), 40).c_str(), hex(want, 40).c_str());
      else
        for (int k = 0; k < 6; k++) {
          size_t p = g.below(want.size());
          CHECK((char) (*s[i])[p] == want[p], "content", "after %s: byte %zu of chunked buffer %d", last.c_str(), p, i);
        }
      if (!want.empty()) CHECK((char) **s[i] == want[0], "content", "after %s: first byte of chunked buffer %d", last.c_str(), i);
    }
    account();
  }
  void account()
  {
#ifdef ACCOUNT
    // The blocks that something still refers to, plus a little for each node
    // and for the model's own containers (measured separately).
    std::set<Block *> live;
    size_t nodes = 0;
    auto add = [&](const MB &x) { if (x.blk) live.insert(x.blk.get()); };
    for (auto &x : m) add(x);
    for (auto &x : ms) for (auto &y : x.n) { add(y); nodes++; }
    int64_t bound = 0;
    for (auto *p : live) bound += (int64_t) p->size + 32;
    bound += (int64_t) nodes * 128 + 6 * 96 + 4 * 96;
    int64_t now = lib_bytes;
    CHECK(now <= bound, "retained", "after %s: %lld bytes are held for %zu referenced blocks in %zu chunks (at most %lld expected)", last.c_str(), (long long) now, live.size(), nodes, (long long) bound);
    if (now > 0) c.stat("memory-checks");
#endif
  }
  int64_t lib_bytes = 0;
  // Runs an operation of the library and attributes its allocations.
  template<typename F> void lib(F f)
  {
#ifdef ACCOUNT
    int64_t before = alloc::live_bytes;
    f();
    lib_bytes += alloc::live_bytes - before;
#else
    f();
#endif
  }
  void put(int i, const MB &y, base::buffer &&x)
  {
    lib([&] {
      base::buffer t(std::move(x));
      if (b[i] && g.chance(1, 2)) *b[i] = std::move(t);
      else b[i].reset(new base::buffer(std::move(t)));
    });
    m[i] = y;
  }
  base::buffer make(const bytes &v)
  {
    base::buffer r;
    lib([&] {
      switch (g.below(4)) {
        case 0: r = buf(v); break;
        case 1: r = base::buffer(reinterpret_cast<const uint8_t *>(v.data()), v.size()); break;
        case 2: r = base::buffer(v.data(), v.size()); break;
        default: r = base::buffer(base::buffer_view(reinterpret_cast<const uint8_t *>(v.data()), v.size()));
      }
    });
    return r;
  }
  void step()
  {
    unsigned what = (unsigned) g.below(24);
    int i = (int) g.below(6), j = (int) g.below(6), k = (int) g.below(4), l = (int) g.below(4);
    last = strf("operation %u (%d, %d, %d, %d)", what, i, j, k, l);
    c.observe(mix(what, mix(i * 6 + j, k * 4 + l)));
    ops++;
    bool have = b[i] && m[i].known;
    switch (what) {
      case 0: case 1: {
        bytes v = fresh(any_size(300));
        put(i, model(v), make(v));
        break;
      }
      case 2: lib([&] { b[i].reset(); }); m[i] = MB(); break;
      case 3: case 4: // move assignment
        if (have && b[j]) {
          lib([&] { base::buffer &t = *b[j]; t = std::move(*b[i]); });
          if (i != j) {
            m[j] = m[i];
            lib([&] { moved(i); });
          }
        }
        break;
      case 5: // move construction
        if (have && i != j) {
          lib([&] { b[j].reset(new base::buffer(std::move(*b[i]))); });
          m[j] = m[i];
          lib([&] { moved(i); });
        }
        break;
      case 6: // consume
        if (have) {
          size_t n = any_size(m[i].b.size());
          if (g.chance(1, 6)) n = m[i].b.size();
          lib([&] { b[i]->consume(n); });
          m[i].b.erase(0, n);
        }
        break;
      case 7: case 8: case 9: case 10: // slice
        if (have) {
          size_t n = g.chance(1, 6) ? m[i].b.size() : any_size(m[i].b.size());
          base::buffer r;
          lib([&] { r = b[i]->slice(n); });
          MB y{ m[i].b.substr(0, n), m[i].blk, true };
          m[i].b.erase(0, n);
          slices++;
          if (i != j) put(j, y, std::move(r));
          else {
            check_one(r, y, "slice of buffer", i);
            lib([&] { base::buffer dead(std::move(r)); });
          }
          if (g.chance(1, 4)) { lib([&] { b[i].reset(); }); m[i] = MB(); outlived++; }
        }
        break;
      case 11: // concatenate
        if (have && b[j] && m[j].known && m[i].b.size() + m[j].b.size() < 1500) {
          base::buffer r;
          lib([&] { r = base::buffer::concat(*b[i], *b[j]); });
          bytes v = m[i].b + m[j].b;
          put(g.below(6), model(v), std::move(r));
        }
        break;
      case 12: case 13: // write
        if (have && !m[i].b.empty()) {
          for (int t = 0; t < 4; t++) {
            size_t p = g.below(m[i].b.size());
            uint8_t v = (uint8_t) g.next();
            (*b[i])[p] = v;
            m[i].b[p] = (char) v;
          }
          uint8_t v = (uint8_t) g.next();
          **b[i] = v;
          m[i].b[0] = (char) v;
          if (g.chance(1, 3)) {
            v = (uint8_t) g.next();
            *(b[i]->end() - 1) = v;
            m[i].b[m[i].b.size() - 1] = (char) v;
          }
        }
        break;
      case 14: // lookahead over a buffer
        if (have) look(*b[i], m[i].b);
        break;
      case 15: // new chunked buffer
        lib([&] {
          if (s[k] && g.chance(1, 2)) s[k].reset();
          else { s[k].reset(new base::buffers); }
        });
        ms[k] = MBs();
        break;
      case 16: case 17: // push
        if (!s[k]) { lib([&] { s[k].reset(new base::buffers); }); ms[k] = MBs(); }
        if (ms[k].n.size() < 12) {
          if (have && g.chance(1, 2)) {
            lib([&] { s[k]->push(std::move(*b[i])); });
            ms[k].n.push_back(m[i]);
            lib([&] { moved(i); });
          } else {
            bytes v = fresh(any_size(120));
            base::buffer x = make(v);
            lib([&] { s[k]->push(std::move(x)); });
            ms[k].n.push_back(model(v));
          }
          const MB &y = ms[k].n.back();
          CHECK(str(s[k]->back()) == y.b, "back", "back() differs from what was pushed");
        }
        break;
      case 18: // pop
        if (s[k] && !ms[k].all().empty()) {
          // Empty chunks in front may or may not be kept.
          ms[k].discard();
          base::buffer r;
          bytes v;
          for (int t = 0; t < 100 && v.empty(); t++) {
            lib([&] { r = s[k]->pop(); });
            v = str(r);
          }
          MB y = ms[k].n.front();
          CHECK(v == y.b, "pop", "pop() returns %s instead of the first chunk %s", hex(v, 40).c_str(), hex(y.b, 40).c_str());
          ms[k].n.erase(ms[k].n.begin());
          put(j, y, std::move(r));
        }
        break;
      case 19: case 20: // slice of a chunked buffer
        if (s[k]) {
          bytes all = ms[k].all();
          size_t n = g.chance(1, 5) ? all.size() : any_size(all.size());
          if (g.chance(1, 4) && !ms[k].n.empty()) n = std::min(all.size(), ms[k].n[0].b.size() + g.below(2));
          base::buffer r;
          lib([&] { r = s[k]->slice(n); });
          MB y{ all.substr(0, n), nullptr, true };
          // A slice of a single chunk may share its memory, one across chunks
          // is new memory.
          if (n) {
            ms[k].discard();
            y.blk = n <= ms[k].n[0].b.size() ? ms[k].n[0].blk : std::make_shared<Block>(Block{ n });
          }
          eat(ms[k], n);
          slices++;
          put(j, y, std::move(r));
          if (g.chance(1, 6)) { lib([&] { s[k].reset(); }); ms[k] = MBs(); outlived++; }
        }
        break;
      case 21: // consume of a chunked buffer
        if (s[k]) {
          bytes all = ms[k].all();
          size_t n = g.chance(1, 5) ? all.size() : any_size(all.size());
          lib([&] { s[k]->consume(n); });
          eat(ms[k], n);
          ms[k].discard();
        }
        break;
      case 22: // move of a chunked buffer
        if (s[k] && k != l) {
          lib([&] {
            if (s[l] && g.chance(1, 2)) *s[l] = std::move(*s[k]);
            else s[l].reset(new base::buffers(std::move(*s[k])));
            s[k].reset();
          });
          ms[l] = ms[k];
          ms[k] = MBs();
        }
        break;
      default:
        if (s[k]) look(*s[k], ms[k].all());
    }
  }
  static void eat(MBs &x, size_t n)
  {
    for (auto &y : x.n) {
      size_t t = std::min(n, y.b.size());
      y.b.erase(0, t);
      n -= t;
    }
    while (!x.n.empty() && x.n.front().b.empty() && x.n.size() > 1) x.n.erase(x.n.begin());
  }
  template<typename S> void look(const S &x, const bytes &want)
  {
    typename S::lookahead a(x);
    bytes left = want;
    size_t eaten = 0;
    for (int t = 0; t < 5; t++) {
      CHECK(a.size() == left.size() && a.empty() == left.empty() && a.consumed() == eaten, "lookahead", "lookahead has %zu bytes left and %zu consumed instead of %zu and %zu", a.size(), a.consumed(), left.size(), eaten);
      if (!left.empty()) {
        size_t p = g.below(left.size());
        CHECK((char) a[p] == left[p] && (char) *a == left[0], "lookahead", "lookahead byte %zu is %02x", p, a[p]);
      }
      if (g.chance(1, 2)) { // a nested one starts where this one is
        typename S::lookahead n(a);
        bytes l2 = left;
        size_t e2 = 0;
        for (int u = 0; u < 3; u++) {
          CHECK(n.size() == l2.size() && n.consumed() == e2, "lookahead", "nested lookahead has %zu bytes left and %zu consumed instead of %zu and %zu", n.size(), n.consumed(), l2.size(), e2);
          if (!l2.empty()) CHECK((char) n[l2.size() - 1] == l2.back() && (char) *n == l2[0], "lookahead", "nested lookahead differs");
          size_t k = any_size(l2.size());
          n.consume(k);
          l2.erase(0, k);
          e2 += k;
          if (g.chance(1, 3)) {
            typename S::lookahead o(n);
            CHECK(o.size() == l2.size() && o.consumed() == 0, "lookahead", "lookahead of a nested lookahead");
            if (!l2.empty()) CHECK((char) *o == l2[0], "lookahead", "lookahead of a nested lookahead");
          }
        }
      }
      size_t k = g.chance(1, 8) ? left.size() : any_size(left.size());
      a.consume(k);
      left.erase(0, k);
      eaten += k;
    }
    looks++;
  }
  void run()
  {
    unsigned n = 40 + (unsigned) g.below(c.thorough ? 500 : 160);
    for (unsigned t = 0; t < n; t++) {
      step();
      check();
    }
    // Everything goes away in random order.
    for (int t = 0; t < 40; t++) {
      last = "destruction";
      unsigned w = (unsigned) g.below(10);
      if (w < 6) { lib([&] { b[w].reset(); }); m[w] = MB(); }
      else { lib([&] { s[w - 6].reset(); }); ms[w - 6] = MBs(); }
      check();
    }
    for (int t = 0; t < 6; t++) { lib([&] { b[t].reset(); }); m[t] = MB(); }
    for (int t = 0; t < 4; t++) { lib([&] { s[t].reset(); }); ms[t] = MBs(); }
#ifdef ACCOUNT
    CHECK(lib_bytes == 0, "leak", "%lld bytes left after the last buffer", (long long) lib_bytes);
#endif
    c.stat("operations", ops);
    c.stat("slices", slices);
    c.stat("slices-outliving", outlived);
    c.stat("lookaheads", looks);
    if (outlived) c.interesting();
    c.sample(strf("%llu operations, %llu slices, %llu outliving, %llu lookaheads", (unsigned long long) ops, (unsigned long long) slices, (unsigned long long) outlived, (unsigned long long) looks));
  }
};
// Blocks and chunk lists of any size, with more slices than 16 bits can count.
static void scale(Ctx &c)
{
  Rng &g = c.rng;
  static const size_t sizes[] = { 255, 256, 4096, 65535, 65536, 65537, 1u << 20, 3u << 20 };
  c.stat("large-buffers");
  c.stat("many-slices", 0);
  bytes all = big_raw(g, c.idx % 1200 == 0 ? 2u << 20 : g.chance(1, 2) ? sizes[g.below(8)] + g.below(3) : g.below(200000));
#ifdef ACCOUNT
  int64_t before = alloc::live_blocks;
#endif
  {
    // One block, cut into slices that stay, in any order of destruction.
    std::unique_ptr<base::buffer> o(new base::buffer(buf(all)));
    size_t each = c.idx % 1200 == 0 ? 21 + g.below(8) : 21 + g.below(3000), at = 0;
    std::vector<base::buffer> v;
    std::vector<std::pair<size_t, size_t>> where;
    while (at < all.size()) {
      size_t n = std::min(each + g.below(3), all.size() - at);
      v.push_back(o->slice(n));
      where.emplace_back(at, n);
      at += n;
    }
    CHECK(o->empty(), "size", "a buffer of %zu bytes keeps %zu after all were sliced off", all.size(), o->size());
    if (g.chance(1, 2)) o.reset();
    auto right = [&](size_t i) { return v[i].size() == where[i].second && (v[i].empty() || memcmp(v[i].data(), all.data() + where[i].first, v[i].size()) == 0); };
    for (size_t i = 0; i < v.size(); i++) CHECK(right(i), "slice-content", "slice %zu of %zu of a block of %zu bytes", i, v.size(), all.size());
    for (size_t k = v.size(); k-- > 0;) {
      size_t i = g.below(v.size());
      std::swap(where[i], where.back());
      std::swap(v[i], v.back());
      v.pop_back();
      where.pop_back();
      if (!v.empty()) {
        i = g.below(v.size());
        CHECK(right(i), "slice-content", "slice %zu of a block of %zu bytes after %zu others were destroyed", i, all.size(), v.size());
      }
    }
    c.stat("many-slices", where.capacity());
  }
#ifdef ACCOUNT
  CHECK(alloc::live_blocks <= before, "memory", "%lld memory blocks are left of a buffer of %zu bytes and its slices", (long long) (alloc::live_blocks - before), all.size());
#endif
  // A chunked buffer of many or large chunks against a string.
  base::buffers s;
  bytes m;
  size_t chunks = 1 + g.below(g.chance(1, 4) ? 3000 : 40), most = chunks > 40 ? 200 : 70000;
  for (size_t i = 0; i < chunks; i++) {
    bytes x = big_raw(g, g.below(10) == 0 ? 0 : 1 + g.below(most));
    m += x;
    s.push(buf(x));
  }
  auto same_at = [&](size_t i) { CHECK((char) s[i] == m[i], "index", "byte %zu of %zu in %zu chunks", i, m.size(), chunks); };
  while (!m.empty()) {
    CHECK(s.size() == m.size(), "size", "%zu bytes instead of %zu in %zu chunks", s.size(), m.size(), chunks);
    for (int k = 0; k < 3; k++) same_at(g.below(m.size()));
    same_at(m.size() - 1);
    base::buffers::lookahead l(s);
    size_t n = g.below(m.size() + 1);
    l.consume(n);
    CHECK(l.size() == m.size() - n && l.consumed() == n && (n == m.size() || (char) *l == m[n]), "lookahead", "%zu of %zu bytes ahead", n, m.size());
    n = g.below(g.chance(1, 3) ? m.size() + 1 : std::min<size_t>(m.size() + 1, 5000));
    if (g.chance(1, 2)) {
      base::buffer x = s.slice(n);
      CHECK(x.size() == n && (n == 0 || memcmp(x.data(), m.data(), n) == 0), "slice-content", "a slice of %zu of %zu bytes in %zu chunks", n, m.size(), chunks);
    } else s.consume(n);
    m.erase(0, n);
    if (g.chance(1, 30)) break;
  }
}
void run_case(Ctx &c)
{
  if (c.idx % 100 == 0) scale(c);
  World(c, c.rng).run();
  // The views and string views over the same bytes.
  Rng &g = c.rng;
  bytes x = any_bytes(g, 40), y = g.chance(1, 2) ? x : any_bytes(g, 40);
  if (g.chance(1, 3) && !y.empty()) y[g.below(y.size())] ^= 1;
  base::buffer a = buf(x), b = buf(y);
  CHECK((base::buffer_view(a) == base::buffer_view(b)) == (x == y) && (base::buffer_view(a) != base::buffer_view(b)) == (x != y), "view-equality", "views of %s and %s compare wrongly", hex(x).c_str(), hex(y).c_str());
  base::string_view v(x.data(), x.size()), w(y);
  CHECK((v == w) == (x == y) && (v != w) == (x != y) && str(v) == x && v.empty() == x.empty(), "string-view", "string views of %s and %s", hex(x).c_str(), hex(y).c_str());
  {
    base::buffer_view av(a);
    CHECK((size_t)(av.end() - av.begin()) == x.size() && av.empty() == x.empty() && bytes(av.begin(), av.end()) == x, "view", "view of %s", hex(x).c_str());
    base::buffer_view none;
    CHECK(none.empty() && none.size() == 0 && none.begin() == none.end(), "view", "an empty view is not empty");
    if (!x.empty()) {
      size_t k = g.below(x.size());
      CHECK((char) av[k] == x[k] && (char) *av == x[0] && v[k] == x[k] && *v == x[0], "view-index", "byte %zu of views of %s", k, hex(x).c_str());
    }
    bytes z = x.substr(0, x.find('\0'));
    base::string_view zv(z.c_str());
    CHECK(str(zv) == z && zv.size() == z.size() && bytes(zv.begin(), zv.end()) == z, "string-view", "string view of %s", hex(z).c_str());
    std::ostringstream o;
    o << v;
    CHECK(o.str() == x, "string-view", "a string view of %s is written as %s", hex(x).c_str(), hex(o.str()).c_str());
  }
  base::buffer_view_mut mu(a.data(), a.size());
  CHECK(mu.size() == x.size() && str(base::buffer_view(mu)) == x && mu.empty() == x.empty() && (size_t)(mu.end() - mu.begin()) == x.size(), "view-mut", "mutable view of %s", hex(x).c_str());
}
