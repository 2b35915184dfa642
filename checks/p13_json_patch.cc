// P13: patching objects with JSON.
#include "json_universe.h"

PBT_CHECK("P13", "exploration",
          "A case is a random value of one of seven types and a patch made of a random subset of the fields of another random "
          "value, recursively through nested structures, with unknown fields added: the patched value must be the one a reference "
          "merge gives, patching again must change nothing. Every fourth patch has one field of a wrong kind and must be rejected. "
          "Non-trivial: the patch names at least one and not all of the fields.");

namespace {
using namespace ju;

struct Stats {
  size_t kept = 0, left = 0;
};

// Returns the patch, applies it to `expected`.
template <class T>
J MakePatch(pbt::Src& s, const T& from, T& expected, Stats& st) {
  J r = J::O();
  std::vector<void*> other;
  EachField(expected, [&](const char*, auto& v) { other.push_back(&v); });
  size_t i = 0;
  const uint64_t density = s.Draw(3);
  EachField(from, [&](const char* name, const auto& v) {
    using V = std::decay_t<decltype(v)>;
    V& e = *static_cast<V*>(other[i++]);
    if (!s.Chance(density, 3)) {
      ++st.left;
      return;
    }
    ++st.kept;
    if constexpr (IS_CURRENT_STRUCT(V) && !IS_CURRENT_VARIANT(V)) {
      if (s.Bool()) {
        r.o.emplace_back(name, MakePatch<V>(s, v, e, st));
        return;
      }
    }
    r.o.emplace_back(name, U<V>::Encode(Fmt::Current, v).j);
    e = v;
  });
  if (s.Chance(1, 4)) r.o.emplace_back("unknown_to_all", J::O({{"x", J::Number("1")}}));
  for (size_t k = r.o.size(); k > 1; --k) std::swap(r.o[k - 1], r.o[s.Draw(k - 1)]);
  return r;
}
template <class T>
void Apply(pbt::Src& s, T& x, const std::string& patch) {
  if (s.Bool()) PatchObjectWithJSON(x, patch);
  else PatchObjectWithJSON(x, patch.c_str());
}
template <class T>
void Case(pbt::Src& s) {
  T x{}, y{};
  U<T>::Fill(s, x, 1);
  U<T>::Fill(s, y, 1);
  T expected = x;
  const T before = x;
  Stats st;
  J p = MakePatch<T>(s, y, expected, st);
  if (s.Chance(1, 4) && !p.o.empty()) {
    // Spoil one field.
    const size_t i = s.Draw(p.o.size() - 1);
    const J good = p.o[i].second;
    if (good.kind == J::Null || p.o[i].first == "unknown_to_all") s.Discard();
    static const std::vector<J> kinds{J::B(true), J::Number("7.5"), J::S("text"), J::A({J::B(true), J::N(), J::O(), J::S("x"), J::N()}), J::O({{"y", J::N()}, {"zz", J::A()}})};
    const J bad = s.OneOf(kinds);
    if (bad.kind == good.kind && !(bad.kind == J::Num && good.IsInteger())) s.Discard();
    p.o[i].second = bad;
    const std::string text = mj::Print(p);
    if (s.Describing()) s.Note(NameOf<T>() + " bad patch: " + pbt::Esc(text));
    s.NonTrivial(pbt::Hash(text));
    try {
      PatchObjectWithJSON(x, text);
      s.Fail("accepts-bad-patch", text);
    } catch (const current::TypeSystemParseJSONException&) {
    }
    return;
  }
  const std::string text = mj::Print(p, s.Pick({"", " "}).c_str());
  if (s.Describing()) s.Note(NameOf<T>() + ": " + pbt::Esc(JSON(x)) + " patch: " + pbt::Esc(text));
  if (st.kept && st.left) s.NonTrivial(pbt::Mix(pbt::Hash(text), pbt::Hash(JSON(x))));
  Apply(s, x, text);
  s.Check(U<T>::Same(expected, x), "merge", [&] { return JSON(before) + "\npatched with\n" + text + "\nbecomes\n" + JSON(x) + "\nrather than\n" + JSON(expected); });
  Apply(s, x, text);
  s.Check(U<T>::Same(expected, x), "twice", [&] { return text + "\n" + JSON(x); });
  Apply(s, x, s.Pick({"{}", " { } "}));
  s.Check(U<T>::Same(expected, x), "empty-patch");
  // The whole value as a patch.
  Apply(s, x, mj::Print(U<T>::Encode(Fmt::Current, y).j));
  s.Check(U<T>::Same(y, x), "complete-patch", [&] { return JSON(y) + "\nbecame\n" + JSON(x); });
}
PBT_PROP(merge, o.weight = 1) {
  switch (s.Draw(6)) {
    case 0: Case<Prims>(s); break;
    case 1: Case<Derived2>(s); break;
    case 2: Case<Ordered>(s); break;
    case 3: Case<Unordered>(s); break;
    case 4: Case<Holder>(s); break;
    case 5: Case<Box<Derived>>(s); break;
    default: Case<Everything>(s); break;
  }
}
PBT_PROP(not_a_patch, o.weight = 1) {
  Everything x;
  U<Everything>::Fill(s, x, 2);
  const std::string text = s.Pick({"", "[]", "null", "1", "\"x\"", "true", "{", "{\"b\":true", "{\"b\":true}}", "{b:1}", "[{\"b\":true}]"});
  s.NonTrivial(pbt::Hash(text));
  try {
    PatchObjectWithJSON(x, text);
    s.Fail("accepts", text);
  } catch (const current::TypeSystemParseJSONException&) {
  }
}

}  // namespace
