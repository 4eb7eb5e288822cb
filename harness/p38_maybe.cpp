// P38: optional value holder.
#include "trap.hpp"

#include <arc_utilities/maybe.hpp>

struct Obj {
  static std::set<const Obj*>* live;
  static bool bad;
  static int fuse;  // when it burns down to 0, the copy fails
  static void burn() {
    if (fuse > 0 && --fuse == 0) throw std::bad_alloc();
  }
  int v;
  Obj() : v(0) { reg(); }
  Obj(int x) : v(x) { reg(); }
  Obj(const Obj& o) : v(o.v) {
    o.check();
    burn();
    reg();
  }
  Obj(Obj&& o) : v(o.v) {
    o.check();
    reg();
    o.v = -1;
  }
  Obj& operator=(const Obj& o) {
    check();
    o.check();
    burn();
    v = o.v;
    return *this;
  }
  Obj& operator=(Obj&& o) {
    check();
    o.check();
    v = o.v;
    if (this != &o) o.v = -1;
    return *this;
  }
  ~Obj() {
    if (!live->erase(this)) bad = true;
  }
  void reg() const {
    if (!live->insert(this).second) bad = true;
  }
  void check() const {
    if (!live->count(this)) bad = true;
  }
};
std::set<const Obj*>* Obj::live = nullptr;
bool Obj::bad = false;
int Obj::fuse = 0;
typedef Maybe::Maybe<Obj> M;
struct H {  // a holder and its model
  std::unique_ptr<M> m;
  bool has = false;
  int v = 0;
};
static void look(mc::Run& r, H& h, const char* n) {
  if (!h.m) return;
  const M& c = *h.m;
  if (c.Valid() != h.has) r.fail(mc::cat(n, h.has ? " holds a value but reports none" : " reports a value it was never given"));
  int a = 0, b = 0;
  const auto x = trap::run([&] { a = h.m->Get().v; }), y = trap::run([&] { b = c.GetImmutable().v; });
  if (!h.has && (x != trap::Threw || y != trap::Threw)) r.fail(mc::cat("access to the empty ", n, " not refused"));
  if (h.has && (x != trap::Returned || y != trap::Returned)) r.fail(mc::cat("access to the value of ", n, " refused"));
  if (h.has && (a != h.v || b != h.v)) r.fail(mc::cat(n, " holds ", h.v, ", returns ", a, " and ", b));
}
MC_SCENARIO(histories, "all histories of up to 4 (thorough 5) operations on two holders over instance-tracking values: construction (empty, from copied or moved value, copied or moved holder), assignment of both kinds, Set of both kinds, write through the returned reference, self-assignment, destruction; content, refusal of empty access and construction/destruction balance after every step", 3) {
  std::set<const Obj*> live;
  Obj::live = &live;
  Obj::bad = false;
  const int depth = r.bound(4, 5);
  {
    H h[2];
    h[0].m.reset(new M());
    h[1].m.reset(new M());
    for (int i = 0; i < depth; i++) {
      const int w = r.choose(2, "holder"), op = r.choose(13, "operation");
      H &a = h[w], &b = h[1 - w];
      const int val = 10 + i % 2;
      r.step();
      if (!a.m && op > 4 && op != 12) throw mc::Prune();  // destroyed: only construction makes sense
      auto put = [&](int v) { a.has = true, a.v = v; };
      switch (op) {
        case 0: a.m.reset(new M()), a.has = false; break;
        case 1: {
          const Obj o(val);
          a.m.reset(new M(o));
          if (o.v != val) r.fail("construction from a value changed the value");
          put(val);
          break;
        }
        case 2: a.m.reset(new M(Obj(val))), put(val); break;
        case 3:
          if (!b.m) throw mc::Prune();
          a.m.reset(new M(*b.m)), a.has = b.has, a.v = b.v;
          break;
        case 4: {
          if (!b.m) throw mc::Prune();
          M tmp(*b.m);
          a.m.reset(new M(std::move(tmp))), a.has = b.has, a.v = b.v;
          break;
        }
        case 5: {
          const Obj o(val);
          *a.m = o;
          if (o.v != val) r.fail("assignment changed the value");
          put(val);
          break;
        }
        case 6: *a.m = Obj(val), put(val); break;
        case 7: {
          const Obj o(val);
          a.m->Set(o);
          if (o.v != val) r.fail("Set changed the value");
          put(val);
          break;
        }
        case 8: a.m->Set(Obj(val)), put(val); break;
        case 9:
          if (!b.m) throw mc::Prune();
          *a.m = *b.m, a.has = b.has, a.v = b.v;
          break;
        case 10:
          if (a.has) a.m->Get().v = 30 + i, a.v = 30 + i;
          break;
        case 11: {
          M& self = *a.m;
          *a.m = self;
          if (a.has) *a.m = self.Get();
          if (a.has) a.m->Set(self.GetImmutable());
          break;
        }
        case 12: a.m.reset(), a.has = false; break;
      }
      look(r, h[0], "first holder");
      look(r, h[1], "second holder");
      if (Obj::bad) r.fail("a contained object was used or destroyed while not alive");
      if (h[0].m && h[1].m && h[0].has && h[1].has && &h[0].m->Get() == &h[1].m->Get()) r.fail("two holders share a value");
      r.state(mc::cat(!!h[0].m, h[0].has, h[0].v, !!h[1].m, h[1].has, h[1].v));
    }
  }
  if (!live.empty() || Obj::bad) r.fail(mc::cat((int)live.size(), " contained objects not destroyed exactly once"));
}
MC_SCENARIO(failing_copies, "two holders, each empty or holding a value, x 6 ways to overwrite the first or build a third x the copy failing at its first, second or third step or not at all: after a failure both hold what they held before, after a success what was assigned; again on the outcome", 2) {
  std::set<const Obj*> live;
  Obj::live = &live;
  Obj::bad = false;
  Obj::fuse = 0;
  {
    H h[2];
    for (int i = 0; i < 2; i++) {
      h[i].m.reset(new M());
      if ((h[i].has = r.flip("holds a value"))) h[i].m->Set(Obj(h[i].v = 5 + i));
    }
    for (int i = 0; i < r.bound(2, 3); i++) {
      const Obj value(50 + i);
      const int op = r.choose(6, "way"), fuse = r.choose(4, "failing copy");
      H &a = h[0], &b = h[1];
      std::unique_ptr<M> third;
      bool failed = false;
      r.step();
      Obj::fuse = fuse;
      try {
        switch (op) {
          case 0: a.m->Set(value); break;
          case 1: *a.m = value; break;
          case 2: a.m->Set(Obj(60 + i)); break;
          case 3: *a.m = *b.m; break;
          case 4: third.reset(new M(value)); break;
          default: third.reset(new M(*b.m)); break;
        }
      } catch (const std::bad_alloc&) {
        failed = true;
      }
      Obj::fuse = 0;
      if (failed && !fuse) r.fail("failed without a failing copy");
      if (!failed) {
        if (op < 3) a.has = true, a.v = op == 2 ? 60 + i : 50 + i;
        if (op == 3) a.has = b.has, a.v = b.v;
      }
      if (failed && third) r.fail("a holder whose construction failed exists");
      look(r, a, failed ? "the holder whose assignment failed" : "the holder assigned to");
      look(r, b, "the other holder");
      if (third) {
        H t;
        t.m = std::move(third);
        t.has = op == 4 || b.has, t.v = op == 4 ? 50 + i : b.v;
        look(r, t, "the new holder");
      }
      if (value.v != 50 + i) r.fail("the assigned value changed");
      if (Obj::bad) r.fail("a contained object was used or destroyed while not alive");
      r.state(mc::cat(a.has, a.v, b.has, b.v, failed));
    }
  }
  if (!live.empty() || Obj::bad) r.fail(mc::cat((int)live.size(), " contained objects not destroyed exactly once"));
}
MC_SCENARIO(types, "holders of doubles (NaN and infinities included), strings, vectors, non-copy-assigned pairs and nested holders: empty, constructed, assigned, copied", 1) {
  static const std::vector<double> d{0, -1.5, 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
  const double x = r.pick(d, "value");
  auto same = [](double a, double b) { return a == b || (a != a && b != b); };
  const int how = r.choose(4, "how");
  Maybe::Maybe<double> m;
  Maybe::Maybe<std::string> s;
  Maybe::Maybe<std::vector<double>> v;
  Maybe::Maybe<Maybe::Maybe<double>> n;
  if (m.Valid() || s.Valid() || v.Valid() || n.Valid()) r.fail("default holder is not empty");
  const std::string str(how == 1 ? 0 : 40, 'x');
  const std::vector<double> vec((size_t)how, x);
  if (how == 0) m = x, s = str, v = vec, n = m;
  if (how == 1) m.Set(x), s.Set(str), v.Set(vec), n.Set(m);
  if (how == 2) m = Maybe::Maybe<double>(x), s = Maybe::Maybe<std::string>(str), v = Maybe::Maybe<std::vector<double>>(vec), n = Maybe::Maybe<Maybe::Maybe<double>>(m);
  if (how == 3) m = Maybe::Maybe<double>(double(x)), s = std::string(str), v = std::vector<double>(vec), n.Set(Maybe::Maybe<double>(x));
  r.step();
  if (!m.Valid() || !same(m.Get(), x) || !same(m.GetImmutable(), x)) r.fail("double");
  if (!s.Valid() || s.Get() != str || !v.Valid() || v.Get().size() != vec.size()) r.fail("string or vector");
  if (!n.Valid() || !n.Get().Valid() || !same(n.Get().Get(), x)) r.fail("nested holder");
  auto s2 = s;
  s2.Get() += "y";
  if (s.Get() != str) r.fail("copied holder shares its value");
  r.state(mc::cat(x, how));
}
