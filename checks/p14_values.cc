// P14: the value semantics of optionals, variants, and structures.
#include <optional>

#include "pbt.h"

#include "typesystem/optional.h"
#include "typesystem/struct.h"
#include "typesystem/variant.h"

PBT_CHECK("P14", "exploration",
          "A case is a random sequence of up to 60 operations on a pool of optionals (of a plain type, of a counted class, of a "
          "recursive class), or of variants (two that share cases, and one that nests them), constructions, copies, moves, "
          "assignments (to themselves, to parts of themselves), resets, visits and comparisons, along with std::optional and tagged "
          "values as the model; what is alive is counted. Non-trivial: over ten operations, at least one copy or move between two "
          "of the objects.");

namespace {
int alive = 0;
// Counts what is alive, and knows when it is used after having been moved from or destroyed.
struct Counted {
  int v;
  std::unique_ptr<int> heap;
  Counted(int v = 0) : v(v), heap(std::make_unique<int>(v)) { ++alive; }
  Counted(const Counted& x) : v(x.v), heap(x.heap ? std::make_unique<int>(*x.heap) : nullptr) { ++alive; }
  Counted(Counted&& x) : v(x.v), heap(std::move(x.heap)) { x.v = -1; ++alive; }
  Counted& operator=(const Counted& x) {
    v = x.v;
    heap = x.heap ? std::make_unique<int>(*x.heap) : nullptr;
    return *this;
  }
  Counted& operator=(Counted&& x) {
    v = x.v;
    if (&x != this) {
      heap = std::move(x.heap);
      x.v = -1;
    }
    return *this;
  }
  ~Counted() { --alive; v = -2; }
  int Get() const { return heap && *heap == v ? v : -1000; }
  void Set(int x) { v = x; heap = std::make_unique<int>(x); }
  bool operator==(const Counted& x) const { return v == x.v; }
  bool operator!=(const Counted& x) const { return v != x.v; }
  bool operator<(const Counted& x) const { return v < x.v; }
  bool operator>(const Counted& x) const { return v > x.v; }
  bool operator<=(const Counted& x) const { return v <= x.v; }
  bool operator>=(const Counted& x) const { return v >= x.v; }
};
struct Node {
  Counted c;
  std::vector<Optional<Node>> kids;
};

int Get(int x) { return x; }
int Get(const Counted& x) { return x.Get(); }
void Set(int& x, int v) { x = v; }
void Set(Counted& x, int v) { x.Set(v); }

template <class T>
void Compare(pbt::Src& s, const Optional<T>& a, const Optional<T>& b, std::optional<int> x, std::optional<int> y) {
  s.Check((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "compare");
  if (y) {
    const T v = static_cast<T>(*y);
    s.Check((a == v) == (x == *y) && (a != v) == (x != *y) && (a < v) == (x < *y) && (a > v) == (x > *y) && (a <= v) == (x <= *y) && (a >= v) == (x >= *y), "compare-with-value");
    s.Check((v == a) == (*y == x) && (v != a) == (*y != x) && (v < a) == (*y < x) && (v > a) == (*y > x) && (v <= a) == (*y <= x) && (v >= a) == (*y >= x), "compare-value-with");
  }
}

template <class T>
void Optionals(pbt::Src& s) {
  constexpr bool kPod = std::is_pod_v<T>;
  const int before = alive;
  bool moved = false;
  size_t n = 0;
  uint64_t h = 0;
  {
    constexpr size_t K = 4;
    std::vector<T> outside;
    outside.reserve(3);
    std::vector<int> outside_v;
    for (int i = 0; i < 3; ++i) {
      outside.push_back(T(100 + i));
      outside_v.push_back(100 + i);
    }
    struct Slot {
      std::optional<int> v;
      int alias = -1;  // Points to an element of `outside`.
    };
    std::vector<Optional<T>> o(K);
    std::vector<Slot> m(K);
    auto value = [&](const Slot& x) { return x.alias >= 0 ? std::optional<int>(outside_v[x.alias]) : x.v; };
    n = 5 + s.Len(55);
    for (size_t step = 0; step < n; ++step) {
      const size_t i = s.Draw(K - 1), j = s.Draw(K - 1);
      const int v = int(s.Draw(9));
      const uint64_t op = s.Draw(15);
      h = pbt::Mix(h, op * 64 + i * 8 + j);
      if (s.Describing()) s.Note("op " + std::to_string(op) + " i " + std::to_string(i) + " j " + std::to_string(j) + " v " + std::to_string(v));
      switch (op) {
        case 0: o[i] = nullptr; m[i] = {}; break;
        case 1: { const T t(v); o[i] = t; m[i] = {v, -1}; break; }
        case 2: o[i] = T(v); m[i] = {v, -1}; break;
        case 3: {  // Copies are independent, also of what the pointers point at.
          moved |= i != j;
          o[i] = o[j];
          if (i != j || !kPod) m[i] = {value(m[j]), -1};
          break;
        }
        case 4: {
          moved |= i != j;
          o[i] = std::move(o[j]);
          if (i != j) {
            m[i] = m[j];
            if (s.Bool()) { o[j] = nullptr; m[j] = {}; }
            else { o[j] = T(v); m[j] = {v, -1}; }
          }
          break;
        }
        case 5: {
          Optional<T> t(o[j]);
          if (value(m[j])) { Set(Value(t), v); }
          s.Check(Exists(t) == bool(value(m[j])), "copy-construct");
          break;
        }
        case 6: {
          Optional<T> t(std::move(o[j]));
          s.Check(Exists(t) == bool(value(m[j])), "move-construct");
          if (Exists(t)) s.Eq(*value(m[j]), Get(Value(t)), "move-construct-value");
          o[j] = std::move(t);
          break;
        }
        case 7: {
          std::swap(o[i], o[j]);
          std::swap(m[i], m[j]);
          moved |= i != j;
          break;
        }
        case 8:
          if (value(m[i])) {
            Set(Value(o[i]), v);
            if (m[i].alias >= 0) outside_v[m[i].alias] = v;
            else m[i].v = v;
          }
          break;
        case 9: {
          try {
            const T& t = Value(o[i]);
            s.Check(bool(value(m[i])), "reads-absent");
            s.Eq(*value(m[i]), Get(t), "value");
          } catch (const current::NoValueException&) {
            s.Check(!value(m[i]), "throws-present");
          }
          break;
        }
        case 10: {
          if (value(m[j])) {
            const ImmutableOptional<T> t(Value(o[j]));
            if (s.Bool()) o[i] = t;
            else o[i] = Optional<T>(t);
            m[i] = {value(m[j]), -1};
          } else {
            const ImmutableOptional<T> t(nullptr);
            if (s.Bool()) o[i] = t;
            else o[i] = Optional<T>(t);
            m[i] = {};
          }
          break;
        }
        case 11:
          if constexpr (!kPod) {
            o[i] = std::make_unique<T>(v);
            m[i] = {v, -1};
          }
          break;
        case 12:
          if constexpr (!kPod) {
            if (s.Bool()) o[i] = &outside[v % 3];
            else o[i] = Optional<T>(FromBarePointer(), &outside[v % 3]);
            m[i] = {{}, v % 3};
          }
          break;
        case 13: {  // Everything is moved around.
          std::vector<Optional<T>> w;
          w.reserve(K);  // The growth of a vector would copy.
          for (auto& x : o) w.push_back(std::move(x));
          o = std::move(w);
          break;
        }
        case 14: {
          std::vector<Optional<T>> w(o);
          std::vector<Optional<T>> w2;
          w2 = w;
          for (size_t k = 0; k < K; ++k) {
            s.Check(Exists(w2[k]) == bool(value(m[k])), "copied-vector");
            if (Exists(w2[k])) {
              s.Eq(*value(m[k]), Get(Value(w2[k])), "copied-vector-value");
              Set(Value(w2[k]), -5);
            }
          }
          break;
        }
        default: {
          std::optional<int> x = value(m[i]);
          if (x) {  // From its own value.
            o[i] = T(Value(o[i]));
            m[i] = {x, -1};
          }
        }
      }
      for (size_t k = 0; k < K; ++k) {
        const auto x = value(m[k]);
        s.Check(Exists(o[k]) == bool(x), "exists", [&] { return "slot " + std::to_string(k) + " after operation " + std::to_string(op); });
        if (x) s.Eq(*x, Get(Value(o[k])), "value");
      }
      for (size_t k = 0; k < 3; ++k) s.Eq(outside_v[k], Get(outside[k]), "outside");
      Compare(s, o[i], o[j], value(m[i]), value(m[j]));
    }
  }
  s.Eq(before, alive, "leak");
  if (n > 10 && moved) s.NonTrivial(pbt::Mix(h, kPod));
}
PBT_PROP(optional_plain, o.weight = 2) { Optionals<int>(s); }
PBT_PROP(optional_counted, o.weight = 3) { Optionals<Counted>(s); }

// Moves and copies from parts of the very same object.
struct Tree {
  int v = 0;
  std::vector<std::optional<Tree>> kids;
  bool operator==(const Tree& x) const { return v == x.v && kids == x.kids; }
};
void Grow(pbt::Src& s, Node& a, Tree& b, int d) {
  const int v = int(s.Draw(99));
  a.c.Set(v);
  b.v = v;
  const size_t n = d > 3 ? 0 : s.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    a.kids.emplace_back();
    b.kids.emplace_back();
    if (s.Chance(1, 4)) continue;
    Node x;
    Tree y;
    Grow(s, x, y, d + 1);
    a.kids.back() = s.Bool() ? Optional<Node>(x) : Optional<Node>(std::move(x));
    b.kids.back() = y;
  }
}
bool Same(const Optional<Node>& a, const std::optional<Tree>& b) {
  if (Exists(a) != bool(b)) return false;
  if (!b) return true;
  const Node& x = Value(a);
  if (x.c.Get() != b->v || x.kids.size() != b->kids.size()) return false;
  for (size_t i = 0; i < x.kids.size(); ++i) if (!Same(x.kids[i], b->kids[i])) return false;
  return true;
}
PBT_PROP(optional_tree, o.weight = 2) {
  const int before = alive;
  uint64_t h = 0;
  size_t n = 0;
  {
    Node x;
    Tree y;
    Grow(s, x, y, 0);
    Optional<Node> a(x);
    std::optional<Tree> b(y);
    n = 1 + s.Len(20);
    for (size_t i = 0; i < n; ++i) {
      Optional<Node>* p = &a;
      std::optional<Tree>* q = &b;
      // From somewhere to somewhere below it.
      while (*q && !(*q)->kids.empty() && s.Bool()) {
        const size_t k = s.Draw((*q)->kids.size() - 1);
        p = &Value(*p).kids[k];
        q = &(*q)->kids[k];
      }
      Optional<Node>* p2 = p;
      std::optional<Tree>* q2 = q;
      while (*q2 && !(*q2)->kids.empty() && s.Chance(2, 3)) {
        const size_t k = s.Draw((*q2)->kids.size() - 1);
        p2 = &Value(*p2).kids[k];
        q2 = &(*q2)->kids[k];
      }
      const uint64_t op = s.Draw(4);
      h = pbt::Mix(h, op);
      if (op == 0) {
        std::optional<Tree> t = *q2;
        *p = std::move(*p2);
        *q = t;
      } else if (op == 1) {
        std::optional<Tree> t = *q2;
        *p = *p2;
        *q = t;
      } else if (op == 2) {
        std::optional<Tree> t = *q2;
        Optional<Node> u(std::move(*p2));
        *p2 = nullptr;
        *p = std::move(u);
        *q = t;
      } else if (op == 3 && *q) {
        Node c;
        Tree d;
        Grow(s, c, d, 2);
        Value(*p).kids.push_back(c);
        (*q)->kids.push_back(d);
      } else if (op == 4 && s.Chance(1, 4)) {
        *p = nullptr;
        *q = std::nullopt;
      }
      s.Check(Same(a, b), "tree", [&] { return "operation " + std::to_string(op); });
    }
  }
  s.Eq(before, alive, "leak");
  if (n > 3) s.NonTrivial(h);
}

// Variants.
CURRENT_STRUCT(A) {
  CURRENT_FIELD(a, int32_t, 0);
  CURRENT_FIELD(text, Optional<std::string>);
  Counted counted;
};
CURRENT_STRUCT(AA, A) { CURRENT_FIELD(aa, std::vector<std::string>); };
CURRENT_STRUCT(B) {
  CURRENT_FIELD(a, int32_t, 0);
  CURRENT_FIELD(other, Optional<A>);
  Counted counted;
};
CURRENT_STRUCT(C) { CURRENT_FIELD(a, int32_t, 0); Counted counted; };
CURRENT_VARIANT(V, A, AA, B);
CURRENT_VARIANT(W, B, C, AA);
CURRENT_VARIANT(N, V, C);

enum Kind { kNone, kA, kAA, kB, kC };
struct M {
  Kind kind = kNone;
  int v = 0;
  bool operator==(const M& x) const { return kind == x.kind && (kind == kNone || v == x.v); }
};
template <class T> struct KindOf;
template <> struct KindOf<A> { static constexpr Kind value = kA; };
template <> struct KindOf<AA> { static constexpr Kind value = kAA; };
template <> struct KindOf<B> { static constexpr Kind value = kB; };
template <> struct KindOf<C> { static constexpr Kind value = kC; };
template <class T>
T Make(int v) {
  T t;
  t.a = v;
  t.counted.Set(v);
  if constexpr (std::is_base_of_v<A, T>) t.text = std::to_string(v);
  if constexpr (std::is_same_v<AA, T>) t.aa.assign(size_t(v % 3), std::to_string(v));
  if constexpr (std::is_same_v<B, T>) t.other = Make<A>(v);
  return t;
}
template <class T>
int Read(const T& t) {
  if (t.counted.Get() != t.a) return -7;
  if constexpr (std::is_base_of_v<A, T>) if (!Exists(t.text) || Value(t.text) != std::to_string(t.a)) return -8;
  if constexpr (std::is_same_v<AA, T>) if (t.aa != std::vector<std::string>(size_t(t.a % 3), std::to_string(t.a))) return -9;
  if constexpr (std::is_same_v<B, T>) if (!Exists(t.other) || Read<A>(Value(t.other)) != t.a) return -10;
  return t.a;
}
struct Reader {
  int calls = 0;
  M m;
  template <class T>
  void operator()(const T& t) {
    ++calls;
    if constexpr (IS_CURRENT_VARIANT(T)) {
      Reader inner;
      if (Exists(t)) t.Call(inner);
      m = inner.m;
    } else {
      m.kind = KindOf<T>::value;
      m.v = Read<T>(t);
    }
  }
};
struct Writer {
  int v;
  int calls = 0;
  template <class T>
  void operator()(T& t) {
    ++calls;
    t = Make<T>(v);
  }
};
template <class X>
M Observe(pbt::Src& s, const X& x) {
  Reader r;
  if (!Exists(x)) {
    try {
      x.Call(r);
      s.Fail("call-on-empty", "");
    } catch (const current::UninitializedVariantException&) {
    }
    s.Eq(0, r.calls, "called-on-empty");
    return M();
  }
  x.Call(r);
  s.Eq(1, r.calls, "number-of-cases");
  return r.m;
}
template <class T, class X>
void CheckCase(pbt::Src& s, const X& x, const M& m) {
  // `Exists<Base>()` holds for what is derived from the base as well.
  const bool want = m.kind == KindOf<T>::value || (KindOf<T>::value == kA && m.kind == kAA);
  s.Check(Exists<T>(x) == want, "exists-case");
  try {
    const T& t = Value<T>(x);
    s.Check(want, "value-of-another");
    s.Eq(m.v, t.a, "value-of-case");
  } catch (const current::NoValueException&) {
    s.Check(!want, "no-value-of-case");
  }
}
template <class X, class Y>
void Assign(pbt::Src& s, X& x, M& m, Y& y, M& my, bool compatible, bool move) {
  const M old = m;
  bool done = false;
  try {
    if (move) x = X(std::move(y));
    else if (s.Bool()) x = X(y);
    else { X t(y); x = t; }
    done = true;
  } catch (const current::Exception&) {
  }
  s.Check(done == compatible, compatible ? "compatible-case-refused" : "incompatible-case-accepted");
  if (done) {
    m = my;
    if (move) {
      y = nullptr;
      my = M();
    }
  } else {
    s.Check(Observe(s, x) == old, "changed-by-refused");
  }
}
PBT_PROP(variants, o.weight = 4) {
  const int before = alive;
  size_t n = 0;
  uint64_t h = 0;
  bool moved = false;
  {
    constexpr size_t K = 3;
    std::vector<V> v(K);
    std::vector<W> w(K);
    std::vector<N> nn(K);
    std::vector<M> mv(K), mw(K), mn(K);
    std::vector<bool> inner(K, false);  // Whether it is the nested variant which is held.
    n = 5 + s.Len(55);
    for (size_t step = 0; step < n; ++step) {
      const size_t i = s.Draw(K - 1), j = s.Draw(K - 1);
      const int x = int(s.Draw(9));
      const uint64_t op = s.Draw(21);
      h = pbt::Mix(h, op * 64 + i * 8 + j);
      if (s.Describing()) s.Note("op " + std::to_string(op) + " i " + std::to_string(i) + " j " + std::to_string(j) + " x " + std::to_string(x));
      switch (op) {
        case 0: v[i] = nullptr; mv[i] = M(); break;
        case 1: v[i] = Make<A>(x); mv[i] = {kA, x}; break;
        case 2: { const AA t = Make<AA>(x); v[i] = t; mv[i] = {kAA, x}; break; }
        case 3: v[i].Construct<B>(Make<B>(x)); mv[i] = {kB, x}; break;
        case 4: v[i] = v[j]; mv[i] = mv[j]; moved |= i != j; break;
        case 5: v[i] = std::move(v[j]); if (i != j) { mv[i] = mv[j]; v[j] = nullptr; mv[j] = M(); moved = true; } break;
        case 6: std::swap(v[i], v[j]); std::swap(mv[i], mv[j]); break;
        case 7: if (Exists(v[i])) { Writer wr{x}; v[i].Call(wr); s.Eq(1, wr.calls, "number-of-cases"); mv[i].v = x; } break;
        case 8: { auto t = s.Bool() ? V(v[i]) : v[i]; if (Exists(t)) { Writer wr{x}; t.Call(wr); } break; }
        case 9: w[i] = nullptr; mw[i] = M(); break;
        case 10: w[i] = Make<C>(x); mw[i] = {kC, x}; break;
        case 11: { const AA t = Make<AA>(x); w[i] = t; mw[i] = {kAA, x}; break; }
        case 12: w[i] = Make<B>(x); mw[i] = {kB, x}; break;
        case 13: w[i] = w[j]; mw[i] = mw[j]; moved |= i != j; break;
        case 14: Assign(s, v[i], mv[i], w[j], mw[j], mw[j].kind != kC, s.Bool()); moved = true; break;
        case 15: Assign(s, w[i], mw[i], v[j], mv[j], mv[j].kind != kA, s.Bool()); moved = true; break;
        case 16: nn[i] = nullptr; mn[i] = M(); inner[i] = false; break;
        case 17: nn[i] = Make<C>(x); mn[i] = {kC, x}; inner[i] = false; break;
        case 18: nn[i] = v[j]; mn[i] = mv[j]; inner[i] = true; break;
        case 19: nn[i] = nn[j]; mn[i] = mn[j]; inner[i] = inner[j]; moved |= i != j; break;
        case 20:
          if (inner[i]) {  // Out of the nested one, and back in.
            const V t = Value<V>(nn[i]);
            v[j] = t;
            mv[j] = mn[i];
            if (s.Bool()) nn[i] = Value<V>(nn[i]);
          }
          break;
        default: {
          // Something of its own.
          if (Exists<B>(v[i])) { v[i] = Value(Value<B>(v[i]).other); mv[i] = {kA, mv[i].v}; }
          else if (Exists<A>(v[i])) { v[i] = A(Value<A>(v[i])); if (mv[i].kind == kAA) mv[i] = {kA, mv[i].v}; }
        }
      }
      for (size_t k = 0; k < K; ++k) {
        s.Check(Exists(v[k]) == (mv[k].kind != kNone) && Exists(w[k]) == (mw[k].kind != kNone), "exists");
        s.Check(Exists(nn[k]) == (inner[k] || mn[k].kind != kNone), "exists-nested");
        s.Check(Observe(s, v[k]) == mv[k], "held");
        s.Check(Observe(s, w[k]) == mw[k], "held-other");
        s.Check(Observe(s, nn[k]) == mn[k], "held-nested");
        s.Check(Exists<V>(nn[k]) == inner[k], "nested");
      }
      CheckCase<A>(s, v[i], mv[i]);
      CheckCase<AA>(s, v[i], mv[i]);
      CheckCase<B>(s, v[i], mv[i]);
      CheckCase<B>(s, w[i], mw[i]);
      CheckCase<C>(s, w[i], mw[i]);
    }
  }
  s.Eq(before, alive, "leak");
  if (n > 10 && moved) s.NonTrivial(h);
}

}  // namespace
