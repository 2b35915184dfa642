// A universe of types covering every construct of the type system, with, per type: a generator, a structural equality,
// a reference encoder to JSON and a reference decoder from JSON, all independent of the code under test.
#pragma once
#include <array>
#include <cfloat>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>

#include "minijson.h"
#include "pbt.h"

#include "typesystem/serialization/json.h"
#include "typesystem/struct.h"
#include "typesystem/variant.h"

namespace ju {

using mj::J;

CURRENT_ENUM(Color, int32_t){Red = 0, Green = 1, Blue = -7};
CURRENT_ENUM(Tiny, uint8_t){Zero = 0, One = 1, Top = 255};

CURRENT_STRUCT(Prims) {
  CURRENT_FIELD(b, bool, false);
  CURRENT_FIELD(u8, uint8_t, 0);
  CURRENT_FIELD(u16, uint16_t, 0);
  CURRENT_FIELD(u32, uint32_t, 0);
  CURRENT_FIELD(u64, uint64_t, 0);
  CURRENT_FIELD(i8, int8_t, 0);
  CURRENT_FIELD(i16, int16_t, 0);
  CURRENT_FIELD(i32, int32_t, 0);
  CURRENT_FIELD(i64, int64_t, 0);
  CURRENT_FIELD(c, char, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(f, float, 0);
  CURRENT_FIELD(d, double, 0);
  CURRENT_FIELD(us, std::chrono::microseconds, std::chrono::microseconds(0));
  CURRENT_FIELD(ms, std::chrono::milliseconds, std::chrono::milliseconds(0));
  CURRENT_FIELD(color, Color, Color::Red);
  CURRENT_FIELD(tiny, Tiny, Tiny::Zero);
};
CURRENT_STRUCT(Empty){};
CURRENT_STRUCT(Base) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_FIELD(name, std::string);
};
CURRENT_STRUCT(Derived, Base) {
  CURRENT_FIELD(list, std::vector<std::string>);
  CURRENT_FIELD(opt, Optional<Base>);
};
CURRENT_STRUCT(Derived2, Derived) { CURRENT_FIELD(y, Optional<int64_t>); };
CURRENT_STRUCT(EmptyDerived, Base){};
CURRENT_VARIANT(V1, Base, Derived2, Empty);
CURRENT_VARIANT(V2, V1, Prims, EmptyDerived);
CURRENT_STRUCT(Holder) {
  CURRENT_FIELD(v, V1);
  CURRENT_FIELD(ov, Optional<V2>);
  CURRENT_FIELD(vv, std::vector<V1>);
  CURRENT_FIELD(mv, (std::map<std::string, V2>));
};
CURRENT_STRUCT_T(Box) {
  CURRENT_FIELD(f, T);
  CURRENT_FIELD(more, std::vector<T>);
};
CURRENT_STRUCT(Ordered) {
  CURRENT_FIELD(vi, std::vector<int32_t>);
  CURRENT_FIELD(vb, std::vector<bool>);
  CURRENT_FIELD(vo, std::vector<Optional<int32_t>>);
  CURRENT_FIELD(vv, std::vector<std::vector<std::string>>);
  CURRENT_FIELD(ss, std::set<std::string>);
  CURRENT_FIELD(si, std::set<int32_t>);
  CURRENT_FIELD(ms, (std::map<std::string, int32_t>));
  CURRENT_FIELD(mi, (std::map<int32_t, Base>));
  CURRENT_FIELD(mc, (std::map<Color, std::string>));
  CURRENT_FIELD(mp, (std::map<std::pair<int32_t, std::string>, std::vector<double>>));
  CURRENT_FIELD(mm, (std::map<std::string, std::map<uint64_t, Optional<std::string>>>));
  CURRENT_FIELD(pr, (std::pair<std::string, Optional<int32_t>>));
  CURRENT_FIELD(tp, (std::tuple<int32_t, std::string, bool>));
  CURRENT_FIELD(ar, (std::array<int32_t, 3>));
  CURRENT_FIELD(av, (std::array<std::vector<std::string>, 2>));
  CURRENT_FIELD(ob, Optional<bool>);
  CURRENT_FIELD(os, Optional<std::string>);
  CURRENT_FIELD(ovec, Optional<std::vector<int32_t>>);
  CURRENT_FIELD(om, (Optional<std::map<std::string, Base>>));
};
CURRENT_STRUCT(Unordered) {
  CURRENT_FIELD(us, std::unordered_set<std::string>);
  CURRENT_FIELD(ui, std::unordered_set<int32_t>);
  CURRENT_FIELD(ums, (std::unordered_map<std::string, Derived>));
  CURRENT_FIELD(umi, (std::unordered_map<int64_t, std::vector<V1>>));
};
CURRENT_STRUCT(Everything, Prims) {
  CURRENT_FIELD(o, Ordered);
  CURRENT_FIELD(h, Holder);
  CURRENT_FIELD(oh, Optional<Holder>);
  CURRENT_FIELD(bx, Box<Base>);
  CURRENT_FIELD(bi, Box<int32_t>);
};

enum class Fmt { Current, Minimalistic, JavaScript, FSharp };
template <Fmt F> struct FormatOf;
template <> struct FormatOf<Fmt::Current> { using type = JSONFormat::Current; };
template <> struct FormatOf<Fmt::Minimalistic> { using type = JSONFormat::Minimalistic; };
template <> struct FormatOf<Fmt::JavaScript> { using type = JSONFormat::JavaScript; };
template <> struct FormatOf<Fmt::FSharp> { using type = JSONFormat::NewtonsoftFSharp; };

inline std::string GenString(pbt::Src& s) {
  switch (s.Weighted({8, 3, 1, 1})) {
    case 0: return s.Utf8(6);
    case 1: return s.Pick({"", "a", "x", "key", "\"", "\\", "null", "a\nb", "\xd0\xbf"});
    case 2: return s.Bytes(6);
    default: return std::string("a\0b", 3) + s.Utf8(2);
  }
}

template <class T, class = void>
struct U;

// The outcome of encoding: a value, or nothing, to be left out of the enclosing structure.
struct Enc {
  bool absent = false;
  J j;
  Enc(J j) : j(std::move(j)) {}
  static Enc Absent() { Enc e{J::N()}; e.absent = true; return e; }
};

template <>
struct U<bool> {
  static void Fill(pbt::Src& s, bool& x, int) { x = s.Bool(); }
  static bool Same(const bool& a, const bool& b) { return a == b; }
  static Enc Encode(Fmt, const bool& x) { return J::B(x); }
  static bool Decode(Fmt, const J* j, bool& x) {
    if (!j || j->kind != J::Bool) return false;
    x = j->b;
    return true;
  }
};
template <class T>
bool DecodeInteger(const J* j, T& x) {
  if (!j || !j->IsInteger()) return false;
  // Up to 20 digits.
  const std::string& t = j->s;
  const bool neg = t[0] == '-';
  unsigned __int128 v = 0;
  for (size_t i = neg ? 1 : 0; i < t.size(); ++i) {
    v = v * 10 + unsigned(t[i] - '0');
    if (v > ((unsigned __int128)1 << 64)) return false;
  }
  const __int128 w = neg ? -__int128(v) : __int128(v);
  if (w < __int128(std::numeric_limits<T>::min()) || w > __int128(std::numeric_limits<T>::max())) return false;
  x = T(w);
  return true;
}
template <class T>
struct U<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static void Fill(pbt::Src& s, T& x, int) { x = s.Integer<T>(); }
  static bool Same(const T& a, const T& b) { return a == b; }
  static Enc Encode(Fmt, const T& x) { return J::Number(std::is_signed_v<T> ? std::to_string(int64_t(x)) : std::to_string(uint64_t(x))); }
  static bool Decode(Fmt, const J* j, T& x) { return DecodeInteger(j, x); }
};
template <class T>
struct U<T, std::enable_if_t<std::is_enum_v<T>>> {
  using I = std::underlying_type_t<T>;
  static void Fill(pbt::Src& s, T& x, int) { x = T(s.Integer<I>()); }
  static bool Same(const T& a, const T& b) { return a == b; }
  static Enc Encode(Fmt f, const T& x) { return U<I>::Encode(f, I(x)); }
  static bool Decode(Fmt, const J* j, T& x) {
    I i;
    if (!DecodeInteger(j, i)) return false;
    x = T(i);
    return true;
  }
};
template <class T>
struct U<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static void Fill(pbt::Src& s, T& x, int) {
    do {
      x = T(s.FiniteDouble());
      if (s.Chance(1, 4)) x = T(s.Int(-1000, 1000)) / T(s.Int(1, 1000));
    } while (!std::isfinite(x));
  }
  static bool Same(const T& a, const T& b) { return a == b && std::signbit(a) == std::signbit(b); }
  static Enc Encode(Fmt, const T& x) {
    char b[64];
    snprintf(b, sizeof(b), "%.17g", double(x));
    if (!strpbrk(b, ".e")) strcat(b, ".0");
    return J::Number(b);
  }
  static bool Decode(Fmt, const J* j, T& x) {
    if (!j || j->kind != J::Num) return false;
    x = T(strtod(j->s.c_str(), nullptr));
    if (j->IsInteger() && x == 0) x = 0;  // The integer `-0` is zero.
    return true;
  }
};
template <>
struct U<std::string> {
  static void Fill(pbt::Src& s, std::string& x, int) { x = GenString(s); }
  static bool Same(const std::string& a, const std::string& b) { return a == b; }
  static Enc Encode(Fmt, const std::string& x) { return J::S(x); }
  static bool Decode(Fmt, const J* j, std::string& x) {
    if (!j || j->kind != J::Str) return false;
    x = j->s;
    return true;
  }
};
template <class P>
struct U<std::chrono::duration<int64_t, P>> {
  using T = std::chrono::duration<int64_t, P>;
  static void Fill(pbt::Src& s, T& x, int) { x = T(s.Integer<int64_t>()); }
  static bool Same(const T& a, const T& b) { return a == b; }
  static Enc Encode(Fmt, const T& x) { return J::Number(std::to_string(x.count())); }
  static bool Decode(Fmt, const J* j, T& x) {
    int64_t i;
    if (!DecodeInteger(j, i)) return false;
    x = T(i);
    return true;
  }
};
inline size_t GenLen(pbt::Src& s, int depth) { return depth > 3 ? size_t(s.Draw(1)) : s.Len(3); }

template <class T>
struct U<std::vector<T>> {
  static void Fill(pbt::Src& s, std::vector<T>& x, int d) {
    x.clear();
    const size_t n = GenLen(s, d);
    for (size_t i = 0; i < n; ++i) {
      T e{};
      U<T>::Fill(s, e, d + 1);
      x.push_back(e);
    }
  }
  static bool Same(const std::vector<T>& a, const std::vector<T>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
      const T x = a[i], y = b[i];
      if (!U<T>::Same(x, y)) return false;
    }
    return true;
  }
  static Enc Encode(Fmt f, const std::vector<T>& x) {
    J r = J::A();
    for (const T e : x) r.a.push_back(U<T>::Encode(f, e).j);
    return r;
  }
  static bool Decode(Fmt f, const J* j, std::vector<T>& x) {
    if (!j || j->kind != J::Arr) return false;
    x.clear();
    for (const auto& e : j->a) {
      T t{};
      if (!U<T>::Decode(f, &e, t)) return false;
      x.push_back(t);
    }
    return true;
  }
};
template <class T, size_t N>
struct U<std::array<T, N>> {
  static void Fill(pbt::Src& s, std::array<T, N>& x, int d) { for (auto& e : x) U<T>::Fill(s, e, d + 1); }
  static bool Same(const std::array<T, N>& a, const std::array<T, N>& b) {
    for (size_t i = 0; i < N; ++i) if (!U<T>::Same(a[i], b[i])) return false;
    return true;
  }
  static Enc Encode(Fmt f, const std::array<T, N>& x) {
    J r = J::A();
    for (const auto& e : x) r.a.push_back(U<T>::Encode(f, e).j);
    return r;
  }
  static bool Decode(Fmt f, const J* j, std::array<T, N>& x) {
    if (!j || j->kind != J::Arr || j->a.size() != N) return false;
    for (size_t i = 0; i < N; ++i) if (!U<T>::Decode(f, &j->a[i], x[i])) return false;
    return true;
  }
};
template <class SET, class T>
struct USet {
  static void Fill(pbt::Src& s, SET& x, int d) {
    x.clear();
    const size_t n = GenLen(s, d);
    for (size_t i = 0; i < n; ++i) {
      T e{};
      U<T>::Fill(s, e, d + 1);
      x.insert(e);
    }
  }
  static bool Same(const SET& a, const SET& b) { return a == b; }
  static Enc Encode(Fmt f, const SET& x) {
    J r = J::A();
    for (const auto& e : x) r.a.push_back(U<T>::Encode(f, e).j);
    return r;
  }
  static bool Decode(Fmt f, const J* j, SET& x) {
    if (!j || j->kind != J::Arr) return false;
    x.clear();
    for (const auto& e : j->a) {
      T t{};
      if (!U<T>::Decode(f, &e, t)) return false;
      x.insert(t);
    }
    return true;
  }
};
template <class T> struct U<std::set<T>> : USet<std::set<T>, T> {};
template <class T> struct U<std::unordered_set<T>> : USet<std::unordered_set<T>, T> {};
template <class MAP, class K, class V>
struct UMap {
  static void Fill(pbt::Src& s, MAP& x, int d) {
    x.clear();
    const size_t n = GenLen(s, d);
    for (size_t i = 0; i < n; ++i) {
      K k{};
      U<K>::Fill(s, k, d + 1);
      V v{};
      U<V>::Fill(s, v, d + 1);
      x.emplace(k, v);
    }
  }
  static bool Same(const MAP& a, const MAP& b) {
    if (a.size() != b.size()) return false;
    for (const auto& e : a) {
      const auto it = b.find(e.first);
      if (it == b.end() || !U<V>::Same(e.second, it->second)) return false;
    }
    return true;
  }
  static Enc Encode(Fmt f, const MAP& x) {
    if constexpr (std::is_same_v<K, std::string>) {
      J r = J::O();
      for (const auto& e : x) r.o.emplace_back(e.first, U<V>::Encode(f, e.second).j);
      return r;
    } else {
      J r = J::A();
      for (const auto& e : x) r.a.push_back(J::A({U<K>::Encode(f, e.first).j, U<V>::Encode(f, e.second).j}));
      return r;
    }
  }
  static bool Decode(Fmt f, const J* j, MAP& x) {
    x.clear();
    if constexpr (std::is_same_v<K, std::string>) {
      if (!j || j->kind != J::Obj) return false;
      for (const auto& e : j->o) {
        V v{};
        if (!U<V>::Decode(f, &e.second, v)) return false;
        x.emplace(e.first, v);
      }
    } else {
      if (!j || j->kind != J::Arr) return false;
      for (const auto& e : j->a) {
        if (e.kind != J::Arr || e.a.size() != 2) return false;
        K k{};
        V v{};
        if (!U<K>::Decode(f, &e.a[0], k) || !U<V>::Decode(f, &e.a[1], v)) return false;
        x.emplace(k, v);
      }
    }
    return true;
  }
};
template <class K, class V> struct U<std::map<K, V>> : UMap<std::map<K, V>, K, V> {};
template <class K, class V> struct U<std::unordered_map<K, V>> : UMap<std::unordered_map<K, V>, K, V> {};
template <class A, class B>
struct U<std::pair<A, B>> {
  using T = std::pair<A, B>;
  static void Fill(pbt::Src& s, T& x, int d) {
    U<A>::Fill(s, x.first, d + 1);
    U<B>::Fill(s, x.second, d + 1);
  }
  static bool Same(const T& a, const T& b) { return U<A>::Same(a.first, b.first) && U<B>::Same(a.second, b.second); }
  static Enc Encode(Fmt f, const T& x) {
    if (f == Fmt::FSharp) return J::O({{"Item1", U<A>::Encode(f, x.first).j}, {"Item2", U<B>::Encode(f, x.second).j}});
    return J::A({U<A>::Encode(f, x.first).j, U<B>::Encode(f, x.second).j});
  }
  static bool Decode(Fmt f, const J* j, T& x) {
    if (!j) return false;
    if (f == Fmt::FSharp) {
      const J* a = j->Find("Item1");
      const J* b = j->Find("Item2");
      return a && b && U<A>::Decode(f, a, x.first) && U<B>::Decode(f, b, x.second);
    }
    return j->kind == J::Arr && j->a.size() == 2 && U<A>::Decode(f, &j->a[0], x.first) && U<B>::Decode(f, &j->a[1], x.second);
  }
};
template <class... TS>
struct U<std::tuple<TS...>> {
  using T = std::tuple<TS...>;
  template <class F> static void Each(F&& f) { EachImpl(f, std::index_sequence_for<TS...>()); }
  template <class F, size_t... I> static void EachImpl(F& f, std::index_sequence<I...>) { (f(std::integral_constant<size_t, I>()), ...); }
  static void Fill(pbt::Src& s, T& x, int d) {
    Each([&](auto i) { U<std::tuple_element_t<decltype(i)::value, T>>::Fill(s, std::get<decltype(i)::value>(x), d + 1); });
  }
  static bool Same(const T& a, const T& b) {
    bool r = true;
    Each([&](auto i) { r = r && U<std::tuple_element_t<decltype(i)::value, T>>::Same(std::get<decltype(i)::value>(a), std::get<decltype(i)::value>(b)); });
    return r;
  }
  static Enc Encode(Fmt f, const T& x) {
    J r = J::A();
    Each([&](auto i) { r.a.push_back(U<std::tuple_element_t<decltype(i)::value, T>>::Encode(f, std::get<decltype(i)::value>(x)).j); });
    return r;
  }
  static bool Decode(Fmt f, const J* j, T& x) {
    if (!j || j->kind != J::Arr || j->a.size() != sizeof...(TS)) return false;
    bool r = true;
    Each([&](auto i) { r = r && U<std::tuple_element_t<decltype(i)::value, T>>::Decode(f, &j->a[decltype(i)::value], std::get<decltype(i)::value>(x)); });
    return r;
  }
};
template <class T>
struct U<Optional<T>> {
  static void Fill(pbt::Src& s, Optional<T>& x, int d) {
    if (s.Chance(d > 3 ? 1 : 2, 4)) {
      T t{};
      U<T>::Fill(s, t, d + 1);
      x = t;
    } else {
      x = nullptr;
    }
  }
  static bool Same(const Optional<T>& a, const Optional<T>& b) {
    if (Exists(a) != Exists(b)) return false;
    return !Exists(a) || U<T>::Same(Value(a), Value(b));
  }
  static Enc Encode(Fmt f, const Optional<T>& x) {
    if (!Exists(x)) return f == Fmt::Minimalistic || f == Fmt::FSharp ? Enc::Absent() : Enc(J::N());
    Enc e = U<T>::Encode(f, Value(x));
    if (f == Fmt::FSharp) return J::O({{"Case", J::S("Some")}, {"Fields", J::A({e.j})}});
    return e;
  }
  static bool Decode(Fmt f, const J* j, Optional<T>& x) {
    x = nullptr;
    if (!j || j->kind == J::Null) return true;
    T t{};
    if (f == Fmt::FSharp) {
      const J* c = j->Find("Case");
      if (!c || c->kind != J::Str) return false;
      if (c->s == "None") return true;
      const J* fs = j->Find("Fields");
      if (c->s != "Some" || !fs || fs->kind != J::Arr || fs->a.size() != 1) return false;
      if (!U<T>::Decode(f, &fs->a[0], t)) return false;
    } else if (!U<T>::Decode(f, j, t)) {
      return false;
    }
    x = t;
    return true;
  }
};

template <class T>
std::string TypeIDText() {
  return "T" + std::to_string(static_cast<uint64_t>(Value<current::reflection::ReflectedTypeBase>(current::reflection::Reflector().ReflectType<T>()).type_id));
}
template <class T>
std::string NameOf() { return current::reflection::CurrentTypeName<T>(); }

template <class T>
struct CaseList;
template <class... TS>
struct CaseList<TypeListImpl<TS...>> {
  static constexpr size_t N = sizeof...(TS);
  template <class F> static void Each(F&& f) { (f(static_cast<TS*>(nullptr)), ...); }
};
template <class T>
struct U<T, std::enable_if_t<IS_CURRENT_VARIANT(T)>> {
  using L = CaseList<typename T::typelist_t>;
  static void Fill(pbt::Src& s, T& x, int d) {
    const size_t pick = s.Draw(L::N - 1);
    size_t i = 0;
    L::Each([&](auto* p) {
      using C = std::remove_pointer_t<decltype(p)>;
      if (i++ == pick) {
        C c{};
        U<C>::Fill(s, c, d + 1);
        x = c;
      }
    });
  }
  static bool Same(const T& a, const T& b) {
    if (Exists(a) != Exists(b)) return false;
    bool r = true;
    L::Each([&](auto* p) {
      using C = std::remove_pointer_t<decltype(p)>;
      if (Exists<C>(a) != Exists<C>(b)) r = false;
      else if (Exists<C>(a) && !U<C>::Same(Value<C>(a), Value<C>(b))) r = false;
    });
    return r;
  }
  static Enc Encode(Fmt f, const T& x) {
    if (!Exists(x)) return f == Fmt::Minimalistic || f == Fmt::JavaScript ? Enc::Absent() : Enc(J::N());
    J r = J::O();
    L::Each([&](auto* p) {
      using C = std::remove_pointer_t<decltype(p)>;
      // `Exists<Base>` also holds for what is derived from `Base`.
      bool exactly = false;
      if (!Exists<C>(x)) return;
      if constexpr (IS_CURRENT_STRUCT(C) && !IS_CURRENT_VARIANT(C)) {
        const crnt::CurrentSuper& v = Value<C>(x);
        exactly = typeid(v) == typeid(C);
      } else {
        exactly = true;
      }
      if (!exactly) return;
      J e = U<C>::Encode(f, Value<C>(x)).j;
      if (f == Fmt::FSharp) {
        r.o.emplace_back("Case", J::S(NameOf<C>()));
        if (IS_CURRENT_VARIANT(C) || !(e.kind == J::Obj && std::is_same_v<C, Empty>)) r.o.emplace_back("Fields", J::A({e}));
        return;
      }
      r.o.emplace_back(NameOf<C>(), e);
      if (f == Fmt::Current) r.o.emplace_back("", J::S(TypeIDText<C>()));
      if (f == Fmt::JavaScript) r.o.emplace_back("$", J::S(NameOf<C>()));
    });
    return r;
  }
  static bool Decode(Fmt f, const J* j, T& x) {
    if ((!j || j->kind == J::Null) && (f == Fmt::Minimalistic || f == Fmt::JavaScript)) {
      x = T();  // These formats leave out the ones never initialized.
      return true;
    }
    if (!j || j->kind != J::Obj) return false;
    bool ok = false;
    L::Each([&](auto* p) {
      using C = std::remove_pointer_t<decltype(p)>;
      const J* body = nullptr;
      static const J empty = J::O();
      if (f == Fmt::Current) {
        const J* t = j->Find("");
        if (!t || t->kind != J::Str || t->s != TypeIDText<C>()) return;
        body = j->Find(NameOf<C>());
      } else if (f == Fmt::FSharp) {
        const J* c = j->Find("Case");
        if (!c || c->kind != J::Str || c->s != NameOf<C>()) return;
        const J* fs = j->Find("Fields");
        if (!fs) {
          if (std::is_same_v<C, Empty>) body = &empty;
        } else if (fs->kind == J::Arr && fs->a.size() == 1) {
          body = &fs->a[0];
        }
      } else {
        size_t n = 0;
        for (const auto& m : j->o) n += !m.first.empty() && m.first != "$";
        if (n == 1) body = j->Find(NameOf<C>());
      }
      C c{};
      if (!body || !U<C>::Decode(f, body, c)) return;
      x = c;
      ok = true;
    });
    return ok;
  }
};

// The fields, of the bases first.
template <class T, class F>
void EachField(T& x, F&& f) {
  using D = std::decay_t<T>;
  using SUPER = current::reflection::SuperType<D>;
  if constexpr (!std::is_same_v<SUPER, crnt::CurrentStruct>) {
    if constexpr (std::is_const_v<T>) EachField(static_cast<const SUPER&>(x), f);
    else EachField(static_cast<SUPER&>(x), f);
  }
  if constexpr (std::is_const_v<T>) {
    current::reflection::VisitAllFields<D, current::reflection::FieldNameAndImmutableValue>::WithObject(x, f);
  } else {
    current::reflection::VisitAllFields<D, current::reflection::FieldNameAndMutableValue>::WithObject(x, f);
  }
}
template <class T>
struct U<T, std::enable_if_t<IS_CURRENT_STRUCT(T) && !IS_CURRENT_VARIANT(T)>> {
  static void Fill(pbt::Src& s, T& x, int d) {
    EachField(x, [&](const char*, auto& v) { U<std::decay_t<decltype(v)>>::Fill(s, v, d + 1); });
  }
  static bool Same(const T& a, const T& b) {
    bool r = true;
    std::vector<const void*> other;
    EachField(b, [&](const char*, const auto& v) { other.push_back(&v); });
    size_t i = 0;
    EachField(a, [&](const char*, const auto& v) {
      using V = std::decay_t<decltype(v)>;
      r = r && U<V>::Same(v, *static_cast<const V*>(other[i]));
      ++i;
    });
    return r;
  }
  static Enc Encode(Fmt f, const T& x) {
    J r = J::O();
    EachField(x, [&](const char* name, const auto& v) {
      Enc e = U<std::decay_t<decltype(v)>>::Encode(f, v);
      if (!e.absent) r.o.emplace_back(name, std::move(e.j));
    });
    return r;
  }
  static bool Decode(Fmt f, const J* j, T& x) {
    if (!j || j->kind != J::Obj) return false;
    bool r = true;
    EachField(x, [&](const char* name, auto& v) { r = r && U<std::decay_t<decltype(v)>>::Decode(f, j->Find(name), v); });
    return r;
  }
};

template <class F>
void PickType(pbt::Src& s, F&& f) {
  switch (s.Weighted({3, 2, 3, 3, 2, 3, 1, 1, 1, 1, 1, 1})) {
    case 0: f(static_cast<Prims*>(nullptr)); break;
    case 1: f(static_cast<Derived2*>(nullptr)); break;
    case 2: f(static_cast<Holder*>(nullptr)); break;
    case 3: f(static_cast<Ordered*>(nullptr)); break;
    case 4: f(static_cast<Unordered*>(nullptr)); break;
    case 5: f(static_cast<Everything*>(nullptr)); break;
    case 6: f(static_cast<V2*>(nullptr)); break;
    case 7: f(static_cast<std::vector<Optional<V1>>*>(nullptr)); break;
    case 8: f(static_cast<std::map<std::string, Box<Optional<double>>>*>(nullptr)); break;
    case 9: f(static_cast<Box<std::pair<std::string, V1>>*>(nullptr)); break;
    case 10: f(static_cast<EmptyDerived*>(nullptr)); break;
    default: f(static_cast<std::vector<double>*>(nullptr)); break;
  }
}

}  // namespace ju
