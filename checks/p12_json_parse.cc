// P12: what the JSON parser accepts and rejects.
#include "json_universe.h"

PBT_CHECK("P12", "exploration",
          "A case is a text parsed as one of twelve types in one of four formats: a valid document with up to four mutations of "
          "its tree (fields shuffled, dropped, added, duplicated, values of another kind, integers out of range, elements added "
          "to or dropped from arrays), printed with random whitespace, or a document with its bytes mutated, or random bytes. A "
          "reference parser and decoder say whether it must be accepted and as what value. Non-trivial: the text differs from "
          "what the serializer writes and is longer than 10 bytes.");

namespace {
using namespace ju;

bool HasExtremeNumber(const J& j) {
  if (j.kind == J::Num) {
    const size_t e = j.s.find_first_of("eE");
    return !std::isfinite(strtod(j.s.c_str(), nullptr)) || j.s.size() > 300 ||
           (e != std::string::npos && std::abs(atoi(j.s.c_str() + e + 1)) > 300);
  }
  for (const auto& x : j.a) if (HasExtremeNumber(x)) return true;
  for (const auto& x : j.o) if (HasExtremeNumber(x.second)) return true;
  return false;
}

template <class T>
struct Verdict {
  bool accepted = false;
  bool invalid = false;
  T value{};
  std::string error;
};
template <Fmt F, class T>
Verdict<T> Parse(const std::string& text) {
  Verdict<T> v;
  try {
    v.value = ParseJSON<T, typename FormatOf<F>::type>(text);
    v.accepted = true;
  } catch (const current::InvalidJSONException& e) {
    v.invalid = true;
    v.error = e.DetailedDescription();
  } catch (const current::TypeSystemParseJSONException& e) {
    v.error = e.DetailedDescription();
  }
  return v;
}

template <Fmt F, class T>
void Judge(pbt::Src& s, const std::string& text) {
  if (s.Describing()) s.Note(NameOf<T>() + ": " + pbt::Esc(text));
  const auto got = Parse<F, T>(text);
  J j;
  bool odd = false;
  const bool valid = mj::Parse(text, j, &odd);
  if (odd || (valid && HasExtremeNumber(j))) return;  // Which of those are numbers or strings at all is not promised.
  T want{};
  const bool ok = valid && U<T>::Decode(F, &j, want);
  s.Label(!valid ? "not JSON" : ok ? "accepted" : "rejected");
  s.Check(got.accepted == ok, ok ? "rejects-good" : valid ? "accepts-bad" : "accepts-invalid",
          [&] { return text + "\n" + (got.accepted ? "parsed as " + JSON(got.value) : got.error); });
  if (!valid) s.Check(got.invalid, "kind-of-error", [&] { return text + "\n" + got.error; });
  if (ok) {
    s.Check(U<T>::Same(want, got.value), "value", [&] { return text + "\nparsed as\n" + JSON(got.value); });
    // Nothing of what the target has been before is left.
    T z{};
    U<T>::Fill(s, z, 2);
    ParseJSON<T, typename FormatOf<F>::type>(text, z);
    s.Check(U<T>::Same(want, z), "left-over", [&] { return text + "\nparsed as\n" + JSON(z); });
  }
  const Optional<T> tried = TryParseJSON<T, typename FormatOf<F>::type>(text);
  s.Check(Exists(tried) == ok, "try-parse");
}

void Nodes(J& j, std::vector<J*>& out) {
  out.push_back(&j);
  for (auto& x : j.a) Nodes(x, out);
  for (auto& x : j.o) Nodes(x.second, out);
}
J AnyValue(pbt::Src& s) {
  switch (s.Draw(10)) {
    case 0: return J::N();
    case 1: return J::B(s.Bool());
    case 2: return J::S(GenString(s));
    case 3: return J::A();
    case 4: return J::O();
    case 5: return J::Number(s.Pick({"0", "-1", "1", "255", "256", "-128", "-129", "127", "128", "65535", "65536", "32767", "32768", "-32769",
                                     "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
                                     "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                                     "18446744073709551615", "18446744073709551616", "100000000000000000000"}));
    case 6: return J::Number(s.Pick({"0.5", "1.0", "-0.0", "1e2", "1E+2", "1e-7", "1.5e300", "0.1", "3.141592653589793238462643"}));
    case 7: return J::A({J::Number("1"), J::S("two")});
    case 8: return J::O({{"x", J::Number("1")}, {"name", J::S("n")}});
    case 9: return J::A({J::Number("1")});
    default: return J::Number(std::to_string(s.I64()));
  }
}
void Mutate(pbt::Src& s, J& root) {
  std::vector<J*> nodes;
  Nodes(root, nodes);
  J& n = *s.OneOf(nodes);
  const uint64_t what = s.Draw(6);
  if (n.kind == J::Obj && what < 5) {
    auto& o = n.o;
    if (what == 0 && o.size() > 1) {
      for (size_t i = o.size() - 1; i > 0; --i) std::swap(o[i], o[s.Draw(i)]);
    } else if (what == 1 && !o.empty()) {
      o.erase(o.begin() + s.Draw(o.size() - 1));
    } else if (what == 2 && !o.empty()) {
      o.insert(o.begin() + s.Draw(o.size()), o[s.Draw(o.size() - 1)]);
    } else if (what == 3 && !o.empty()) {
      o[s.Draw(o.size() - 1)].second = AnyValue(s);
    } else {
      static const std::vector<std::string> names{"", "$", "extra", "Case", "Fields", "Base", "x", "V1", "Item1", "b"};
      o.insert(o.begin() + s.Draw(o.size()), {s.OneOf(names), AnyValue(s)});
    }
  } else if (n.kind == J::Arr && what < 5) {
    auto& a = n.a;
    if (what == 0 && !a.empty()) a.erase(a.begin() + s.Draw(a.size() - 1));
    else if (what == 1 && !a.empty()) a.insert(a.begin() + s.Draw(a.size()), J(a[s.Draw(a.size() - 1)]));
    else if (what == 2 && a.size() > 1) std::swap(a[s.Draw(a.size() - 1)], a[s.Draw(a.size() - 1)]);
    else a.insert(a.begin() + s.Draw(a.size()), AnyValue(s));
  } else {
    n = AnyValue(s);
  }
}

template <Fmt F>
void Tree(pbt::Src& s) {
  PickType(s, [&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    T x{};
    U<T>::Fill(s, x, 0);
    J j = U<T>::Encode(F, x).j;
    const size_t n = s.Draw(4);
    for (size_t i = 0; i < n; ++i) Mutate(s, j);
    const std::string text = mj::Print(j, s.Pick({"", " ", "\n", "\t\r "}).c_str());
    if (n && text.size() > 10) s.NonTrivial(pbt::Hash(text));
    Judge<F, T>(s, text);
  });
}
PBT_PROP(tree_current, o.weight = 4) { Tree<Fmt::Current>(s); }
PBT_PROP(tree_minimalistic, o.weight = 2) { Tree<Fmt::Minimalistic>(s); }
PBT_PROP(tree_javascript, o.weight = 1) { Tree<Fmt::JavaScript>(s); }
PBT_PROP(tree_fsharp, o.weight = 1) { Tree<Fmt::FSharp>(s); }

template <class F>
void PickSmallType(pbt::Src& s, F&& f) {
  switch (s.Draw(7)) {
    case 0: f(static_cast<Base*>(nullptr)); break;
    case 1: f(static_cast<std::vector<int32_t>*>(nullptr)); break;
    case 2: f(static_cast<std::map<std::string, double>*>(nullptr)); break;
    case 3: f(static_cast<std::string*>(nullptr)); break;
    case 4: f(static_cast<std::vector<Optional<bool>>*>(nullptr)); break;
    case 5: f(static_cast<V1*>(nullptr)); break;
    case 6: f(static_cast<std::pair<uint8_t, std::vector<std::string>>*>(nullptr)); break;
    default: f(static_cast<Derived2*>(nullptr)); break;
  }
}
std::string MutateBytes(pbt::Src& s, std::string t) {
  static const std::vector<std::string> bits{"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u0041", "\\n", "\\x", "0", "-", "1", ".", "e", "+",
                                             "null", "true", "false", " ", "\n", "\t", "\xff", "\x01", "\xd0\xbf", "//", "NaN", "'", "01", "1."};
  const size_t n = 1 + s.Len(3);
  for (size_t i = 0; i < n; ++i) {
    const size_t at = s.Draw(t.size());
    switch (s.Draw(4)) {
      case 0: t.insert(at, s.OneOf(bits)); break;
      case 1: if (at < t.size()) t.erase(at, 1 + s.Len(5)); break;
      case 2: if (at < t.size()) t[at] = s.OneOf(bits)[0]; break;
      case 3: t.resize(at); break;
      default: t.insert(at, t.substr(s.Draw(t.size()), s.Len(10))); break;
    }
  }
  for (char& c : t) if (!c) c = ' ';
  return t;
}
template <Fmt F>
void Bytes(pbt::Src& s) {
  PickSmallType(s, [&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    T x{};
    U<T>::Fill(s, x, 0);
    const std::string text = MutateBytes(s, mj::Print(U<T>::Encode(F, x).j));
    if (text.size() > 10) s.NonTrivial(pbt::Hash(text));
    Judge<F, T>(s, text);
  });
}
PBT_PROP(mutated_bytes, o.weight = 3) { s.Bool() ? Bytes<Fmt::Current>(s) : Bytes<Fmt::Minimalistic>(s); }
PBT_PROP(random_bytes, o.weight = 1) {
  static const std::vector<std::string> bits{"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u00e9", "12", "-", ".5", "e1", "null", "true", "false", " ",
                                             "\"x\"", "\"name\"", "\"\"", "\"Base\"", "\xff"};
  std::string t;
  const size_t n = s.Len(20);
  for (size_t i = 0; i < n; ++i) t += s.OneOf(bits);
  if (t.size() > 10) s.NonTrivial(pbt::Hash(t));
  PickSmallType(s, [&](auto* p) { Judge<Fmt::Current, std::remove_pointer_t<decltype(p)>>(s, t); });
}

// One field of the top level is missing or of a wrong kind: the error names it.
template <Fmt F, class T>
void OneBadField(pbt::Src& s) {
  T x{};
  U<T>::Fill(s, x, 1);
  J j = U<T>::Encode(F, x).j;
  if (j.o.empty()) s.Discard();
  const size_t i = s.Draw(j.o.size() - 1);
  const std::string name = j.o[i].first;
  if (s.Bool()) j.o.erase(j.o.begin() + i);
  else j.o[i].second = AnyValue(s);
  const std::string text = mj::Print(j);
  T want{};
  if (U<T>::Decode(F, &j, want)) s.Discard();
  s.NonTrivial(pbt::Hash(text));
  if (s.Describing()) s.Note(NameOf<T>() + ": " + pbt::Esc(text) + " bad field " + name);
  try {
    ParseJSON<T, typename FormatOf<F>::type>(text);
    s.Fail("accepts-bad", text);
  } catch (const current::JSONUninitializedVariantObjectException&) {
  } catch (const current::JSONSchemaException& e) {
    const std::string what = e.DetailedDescription();
    s.Check(what.find("for `" + name + "`") != std::string::npos || what.find("for `" + name + ".") != std::string::npos ||
                what.find("for `" + name + "[") != std::string::npos,
            "does-not-name-the-field", [&] { return name + "\n" + text + "\n" + what; });
  }
}
PBT_PROP(one_bad_field, o.weight = 2) {
  switch (s.Draw(5)) {
    case 0: OneBadField<Fmt::Current, Prims>(s); break;
    case 1: OneBadField<Fmt::Current, Ordered>(s); break;
    case 2: OneBadField<Fmt::Current, Holder>(s); break;
    case 3: OneBadField<Fmt::Minimalistic, Unordered>(s); break;
    case 4: OneBadField<Fmt::Minimalistic, Derived2>(s); break;
    default: OneBadField<Fmt::JavaScript, Everything>(s); break;
  }
}
// Nesting far beyond what the stack would take for a recursive parser.
PBT_PROP(deep_nesting, o.weight = 1; o.fresh_process = true) {
  const size_t n = 1000 * (1 + s.Draw(200));
  std::string deep;
  const bool arrays = s.Bool();
  for (size_t i = 0; i < n; ++i) deep += arrays ? "[" : "{\"a\":";
  const bool closed = s.Chance(3, 4);
  if (!arrays) deep += "1";
  if (closed) deep.append(n, arrays ? ']' : '}');
  const std::string text = "{\"x\":1,\"more\":" + deep + ",\"name\":\"n\"}";
  s.NonTrivial(n * 4 + arrays * 2 + closed);
  const auto got = Parse<Fmt::Current, Base>(text);
  s.Check(got.accepted == closed, "deep");
  if (closed) s.Check(got.value.x == 1 && got.value.name == "n", "deep-value");
}
PBT_PROBE(deep_value_of_a_wrong_kind, "A deeply nested value in place of a field of another kind overflows the stack while its error is composed") {
  std::string deep(300000, '[');
  deep.append(300000, ']');
  const auto got = Parse<Fmt::Current, Base>("{\"x\":" + deep + ",\"name\":\"n\"}");
  s.Check(!got.accepted, "deep");
}

}  // namespace
