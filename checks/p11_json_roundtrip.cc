// P11: JSON round trips, in four formats.
#include "json_universe.h"

PBT_CHECK("P11", "exploration",
          "A case is a random value of one of twelve types, which among them use every construct of the type system, in one "
          "of the four JSON formats: its text must be valid JSON by an independent parser, equal to what a reference encoder of "
          "that format gives, parse back to an equal value, and serialize to the same bytes again. Non-trivial: the text is "
          "longer than 60 bytes.");

namespace {
using namespace ju;

template <class T>
constexpr bool kUnordered = std::is_same_v<T, Unordered>;

template <Fmt F, class T>
void RoundTrip(pbt::Src& s, const T& x) {
  using format_t = typename FormatOf<F>::type;
  const std::string text = JSON<format_t>(x);
  if (s.Describing()) s.Note(NameOf<T>() + ": " + pbt::Esc(text));
  J j;
  s.Check(mj::Parse(text, j), "invalid-json", [&] { return text; });
  const J expected = U<T>::Encode(F, x).j;
  s.Check(j == expected, "encoding", [&] { return text + "\nexpected\n" + mj::Print(expected); });
  T y{};
  if (s.Bool()) {
    y = ParseJSON<T, format_t>(text);
  } else if (s.Bool()) {
    ParseJSON<T, format_t>(text, y);
  } else if (s.Bool()) {
    ParseJSON<T, format_t>(text.c_str(), y);
  } else {
    auto o = TryParseJSON<T, format_t>(text);
    s.Check(Exists(o), "try-parse");
    y = Value(o);
  }
  s.Check(U<T>::Same(x, y), "round-trip", [&] { return text + "\nparsed as\n" + JSON<format_t>(y); });
  if (!kUnordered<T>) s.Eq(text, JSON<format_t>(y), "bytes");
  // Into an object which has been something else.
  T z{};
  U<T>::Fill(s, z, 2);
  ParseJSON<T, format_t>(text, z);
  s.Check(U<T>::Same(x, z), "into-another", [&] { return text + "\nparsed as\n" + JSON<format_t>(z); });
  if (text.size() > 60) s.NonTrivial(pbt::Hash(text));
}

template <Fmt F>
void Run(pbt::Src& s) {
  PickType(s, [&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    T x{};
    U<T>::Fill(s, x, 0);
    RoundTrip<F>(s, x);
  });
}

PBT_PROP(current_format, o.weight = 3) { Run<Fmt::Current>(s); }
PBT_PROP(minimalistic, o.weight = 2) { Run<Fmt::Minimalistic>(s); }
PBT_PROP(javascript, o.weight = 1) { Run<Fmt::JavaScript>(s); }
PBT_PROP(fsharp, o.weight = 1) { Run<Fmt::FSharp>(s); }
PBT_PROP(numbers, o.weight = 2) {
  std::vector<double> v;
  const size_t n = 1 + s.Len(6);
  for (size_t i = 0; i < n; ++i) {
    double d;
    U<double>::Fill(s, d, 0);
    v.push_back(d);
  }
  RoundTrip<Fmt::Current>(s, v);
  Prims p;
  U<Prims>::Fill(s, p, 0);
  RoundTrip<Fmt::Minimalistic>(s, p);
}
PBT_PROBE(not_a_number, "The JSON of a NaN or an infinity is not JSON") {
  std::vector<double> v{1.5, std::numeric_limits<double>::quiet_NaN(), 2.5};
  std::string text;
  try {
    text = JSON(v);
  } catch (const current::Exception&) {
    return;
  }
  J j;
  s.Check(mj::Parse(text, j), "invalid-json", [&] { return text; });
}

}  // namespace
