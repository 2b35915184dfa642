// P45: a query matches a schema in exactly the ways its grammar denotes.
#include <functional>
#include <map>
#include <string>
#include <tuple>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "nlp/nlp.h"

PBT_CHECK("P45", "exploration",
          "A case is a query of up to seven words out of a vocabulary with ambiguous words (in any case, with any whitespace, with "
          "unknown words), matched against each of about sixty schemas composed of keywords, dictionaries, sequences in both "
          "directions, conjunctions, alternatives, optional parts, filters and maps; all matches, in order, and the first one are "
          "compared with a reference interpreter of the grammar. Non-trivial: some schema matches in at least two ways.");

#include "nlp/nlp_schema_begin.inl"

NLPSchema(P45, QueryTerm) {
  CURRENT_STRUCT(Color) {
    CURRENT_FIELD(rgb, std::string);
    CURRENT_CONSTRUCTOR(Color)(std::string rgb = "") : rgb(std::move(rgb)) {}
  };
  CURRENT_STRUCT(Fruit) {
    CURRENT_FIELD(shape, std::string);
    CURRENT_CONSTRUCTOR(Fruit)(std::string shape = "") : shape(std::move(shape)) {}
  };
  CURRENT_STRUCT(Number) {
    CURRENT_FIELD(value, int32_t);
    CURRENT_CONSTRUCTOR(Number)(int32_t value = 0) : value(value) {}
  };
  CURRENT_STRUCT(Len) {
    CURRENT_FIELD(text, std::string);
    CURRENT_CONSTRUCTOR(Len)(std::string text = "") : text(text) {}
  };
  CURRENT_STRUCT(QueryTerm, AnnotatedQueryTerm) {
    CURRENT_FIELD(color, Optional<Color>);
    CURRENT_FIELD(fruit, Optional<Fruit>);
    CURRENT_FIELD(number, Optional<Number>);
  };
  CustomAnnotation(if (!original_term.empty() && original_term.find_first_not_of("0123456789") == std::string::npos) {
    output.number = Number(std::stoi(original_term));
  });
  DictionaryAnnotation(color, {"red", {"ff0000"}}, {"black", {"000000"}}, {"orange", {"ffbf2f"}}, {"lime", {"00ff00"}});
  DictionaryAnnotation(fruit, {"apple", {"bulky"}}, {"banana", {"long"}}, {"orange", {"sphere"}}, {"lime", {"small"}});
  DictionaryAnnotation(number, {"one", {1}}, {"two", {2}}, {"three", {3}}, {"7", {700}}, {"lime", {9}});
  Keyword(the);
  Keyword(big);
  Keyword(orange);

  Term(c_and_f, color & fruit);
  Term(c_or_f, color | fruit);
  Term(any, color | fruit | number);
  Term(any_right, color | (fruit | number));
  Term(any_both, (color | fruit) | (number | color));
  Term(twice, color | color);
  Term(c_f, color >> fruit);
  Term(c_f_back, color << fruit);
  Term(two_any, (color | number) >> (fruit | number));
  Term(two_any_back, (color | number) << (fruit | number));
  Term(maybe_color, Maybe(color));
  Term(the_color, Maybe(the) >> color);
  Term(the_color_greedy, GreedyMaybe(the) >> color);
  Term(color_big, color >> Maybe(big));
  Term(maybe_maybe, Maybe(color) >> Maybe(fruit));
  Term(maybe_maybe_greedy, GreedyMaybe(color) << GreedyMaybe(fruit));
  Term(void_void, Void(color) >> Void(fruit));
  Term(void_number, Void(c_or_f) >> number);
  Term(number_void, number >> Void(c_or_f));
  Term(number_void_back, number << Void(c_or_f));
  Term(big_the, big >> the);
  Term(big_or_the, big | the);
  Term(two_words, (big | the) >> (the | big));
  Term(orange_unit, orange | Void(color));
  Term(void_and, Void(color & fruit));
  Term(and_unit, color & orange);
  Term(unit_and, orange & fruit);
  Term(doubled, Map(number, Number, output.value = input.value * 2));
  Term(hundred, Map(number, Number, output.value = input.value + 100));
  Term(doubled_or_hundred, doubled | hundred);
  Term(hundred_then_doubled, hundred >> doubled);
  Term(more, Filter(number, input.value > 1));
  Term(less, Filter(number, input.value < 3));
  Term(less_more, less >> more);
  Term(less_and_more, less & more);
  Term(pair, Map(color >> fruit, Len, output.text = Input(0).rgb + "/" + Input(1).shape));
  Term(filtered_pair, Filter(color >> fruit, Input(0).rgb < Input(1).shape));
  Term(three, color >> fruit >> number);
  Term(three_back, color << fruit << number);
  Term(three_mixed, color >> (fruit << number));
  Term(three_and, (color & fruit) >> number);

  Term(len0, Map(None, Len, output.text = "0"));
  Term(len1, Map(any, Len, output.text = "1"));
  Term(len2, Map(any >> any, Len, output.text = "2"));
  Term(len, len0 | len1 | len2);
  Term(len_reversed, len2 | len1 | len0);
  Term(len_len, len >> len);
  Term(len_len_back, len << len);
  Term(len_len_len, len >> len >> len);
  Term(len_len_len_back, len << len << len);
  Term(len_len_len_mixed, len >> (len << len));
  Term(len_reversed_twice, len_reversed >> len_reversed);
  Term(len_and_len, (len >> len) & (len << len));
  Term(len_void_len, len >> Void(any) >> len);
  Term(void_len, Void(len));
  Term(void_len_twice, Void(len) >> Void(len));
  Term(len_void, len >> Void(len));
  Term(void_len_back, Void(len) << len);
  Term(first_or_last, (big >> len) | (len >> big));
  Term(first_and_last, (big >> len) & (len >> the));
  Term(not_both, Filter(len >> len, Input(0).text != Input(1).text));
  Term(joined, Map(len >> len, Len, output.text = Input(0).text + Input(1).text));
  Term(joined_back, Map(len << len, Len, output.text = Input(1).text + Input(0).text));
}

namespace {

using namespace ::current::nlp;
using namespace ::P45_schema;

using Val = std::vector<std::string>;  // The elements of a tuple.
using Vals = std::vector<Val>;

Val Show(const Unit&) { return {"."}; }
Val Show(const Color& x) { return {"color " + x.rgb}; }
Val Show(const Fruit& x) { return {"fruit " + x.shape}; }
Val Show(const Number& x) { return {"number " + std::to_string(x.value)}; }
Val Show(const Len& x) { return {"len " + x.text}; }
template <typename NAME, typename TYPES>
Val Show(const ::current::VariantImpl<NAME, TYPES>& x);
template <typename... TS>
Val Show(const std::tuple<TS...>& x) {
  Val r;
  std::apply([&](const auto&... e) { (..., [&](const Val& v) { r.insert(r.end(), v.begin(), v.end()); }(Show(e))); }, x);
  return r;
}
template <typename NAME, typename TYPES>
Val Show(const ::current::VariantImpl<NAME, TYPES>& x) {
  Val r;
  x.Call([&](const auto& y) { r = Show(y); });
  return r;
}

// The reference: what a word is.
struct Word {
  std::string w;
  bool Is(const char* x) const { return w == x; }
  const char* color() const { return Is("red") ? "ff0000" : Is("black") ? "000000" : Is("orange") ? "ffbf2f" : Is("lime") ? "00ff00" : nullptr; }
  const char* fruit() const { return Is("apple") ? "bulky" : Is("banana") ? "long" : Is("orange") ? "sphere" : Is("lime") ? "small" : nullptr; }
  int number() const {  // Negative: none.
    if (Is("one")) return 1;
    if (Is("two")) return 2;
    if (Is("three")) return 3;
    if (Is("7")) return 700;
    if (Is("lime")) return 9;
    return w.find_first_not_of("0123456789") == std::string::npos ? atoi(w.c_str()) : -1;
  }
};
using Words = std::vector<Word>;

// And what the matches of a grammar are.
struct G {
  bool unit;
  std::function<Vals(const Words&, size_t, size_t)> f;
};
const Val kUnit{"."};
G OneWord(std::function<std::string(const Word&)> f) {
  return {false, [f](const Words& q, size_t b, size_t e) {
            if (e != b + 1) return Vals();
            const std::string x = f(q[b]);
            return x.empty() ? Vals() : Vals{Val{x}};
          }};
}
G Key(std::string k) {
  return {true, [k](const Words& q, size_t b, size_t e) { return e == b + 1 && q[b].w == k ? Vals{kUnit} : Vals(); }};
}
const G none{true, [](const Words&, size_t b, size_t e) { return b == e ? Vals{kUnit} : Vals(); }};
G OnlyOnce(G g) {
  return {true, [g](const Words& q, size_t b, size_t e) { return g.f(q, b, e).empty() ? Vals() : Vals{kUnit}; }};
}
G Or(G x, G y) {
  const G r{x.unit && y.unit, [x, y](const Words& q, size_t b, size_t e) {
              Vals v = x.f(q, b, e);
              for (const auto& z : y.f(q, b, e)) v.push_back(z);
              return v;
            }};
  return r.unit ? OnlyOnce(r) : r;
}
Val Cat(Val x, const Val& y) {
  x.insert(x.end(), y.begin(), y.end());
  return x;
}
G And(G x, G y) {
  return {false, [x, y](const Words& q, size_t b, size_t e) {
            Vals r;
            const Vals ys = y.f(q, b, e);
            for (const auto& i : x.f(q, b, e)) {
              for (const auto& j : ys) r.push_back(Cat(i, j));
            }
            return r;
          }};
}
G Seq(G x, G y, bool back = false) {
  const G r{x.unit && y.unit, [x, y, back](const Words& q, size_t b, size_t e) {
              Vals v;
              for (size_t i = b; i <= e; ++i) {
                const Vals l = x.f(q, b, i), r = y.f(q, i, e);
                if (x.unit) {
                  if (!l.empty()) v.insert(v.end(), r.begin(), r.end());
                } else if (y.unit) {
                  if (!r.empty()) v.insert(v.end(), l.begin(), l.end());
                } else if (back) {
                  for (const auto& n : r) for (const auto& m : l) v.push_back(Cat(m, n));
                } else {
                  for (const auto& m : l) for (const auto& n : r) v.push_back(Cat(m, n));
                }
              }
              return v;
            }};
  return r.unit ? OnlyOnce(r) : r;
}
G Back(G x, G y) { return Seq(x, y, true); }
G MapG(G g, std::function<Val(const Val&)> m) {
  return {false, [g, m](const Words& q, size_t b, size_t e) {
            Vals v = g.f(q, b, e);
            for (auto& x : v) x = m(x);
            return v;
          }};
}
G FilterG(G g, std::function<bool(const Val&)> p) {
  return {g.unit, [g, p](const Words& q, size_t b, size_t e) {
            Vals v;
            for (auto& x : g.f(q, b, e)) if (p(x)) v.push_back(x);
            return v;
          }};
}
std::string Tail(const std::string& x) { return x.substr(x.find(' ') + 1); }

struct Entry {
  const char* name;
  std::function<Vals(const std::string&)> all;
  std::function<Vals(const std::string&)> first;
  G g;
};

template <typename S>
Entry E(const char* name, const S& schema, G g) {
  Entry e;
  e.name = name;
  e.g = g;
  const S* p = &schema;
  e.all = [p](const std::string& q) {
    Vals r;
    for (const auto& x : MatchQueryIntoVector(*p, q)) r.push_back(Show(x));
    return r;
  };
  e.first = [p](const std::string& q) {
    const auto x = JustMatchQuery(*p, q);
    return Exists(x) ? Vals{Show(Value(x))} : Vals();
  };
  return e;
}

std::vector<Entry> All() {
  const G c = OneWord([](const Word& w) { return w.color() ? std::string("color ") + w.color() : ""; });
  const G f = OneWord([](const Word& w) { return w.fruit() ? std::string("fruit ") + w.fruit() : ""; });
  const G n = OneWord([](const Word& w) { return w.number() >= 0 ? "number " + std::to_string(w.number()) : ""; });
  const G t = Key("the"), b = Key("big"), o = Key("orange");
  const auto num = [](const Val& x) { return atoi(Tail(x[0]).c_str()); };
  const G cf = Or(c, f), any_g = Or(cf, n);
  const auto opt = [](G x) { return Or(none, x); };
  const auto greedy = [](G x) { return Or(x, none); };
  const G dbl = MapG(n, [num](const Val& x) { return Val{"number " + std::to_string(num(x) * 2)}; });
  const G hun = MapG(n, [num](const Val& x) { return Val{"number " + std::to_string(num(x) + 100)}; });
  const G mr = FilterG(n, [num](const Val& x) { return num(x) > 1; });
  const G ls = FilterG(n, [num](const Val& x) { return num(x) < 3; });
  const auto constant = [](const char* x) { return [x](const Val&) { return Val{std::string("len ") + x}; }; };
  const G l0 = MapG(none, constant("0")), l1 = MapG(any_g, constant("1")), l2 = MapG(Seq(any_g, any_g), constant("2"));
  const G l = Or(Or(l0, l1), l2), lr = Or(Or(l2, l1), l0);
  std::vector<Entry> v;
#define P45_E(name, ...) v.push_back(E(#name, name, __VA_ARGS__))
  P45_E(color, c);
  P45_E(fruit, f);
  P45_E(number, n);
  P45_E(the, t);
  P45_E(None, none);
  P45_E(c_and_f, And(c, f));
  P45_E(c_or_f, cf);
  P45_E(any, any_g);
  P45_E(any_right, Or(c, Or(f, n)));
  P45_E(any_both, Or(cf, Or(n, c)));
  P45_E(twice, Or(c, c));
  P45_E(c_f, Seq(c, f));
  P45_E(c_f_back, Back(c, f));
  P45_E(two_any, Seq(Or(c, n), Or(f, n)));
  P45_E(two_any_back, Back(Or(c, n), Or(f, n)));
  P45_E(maybe_color, opt(c));
  P45_E(the_color, Seq(opt(t), c));
  P45_E(the_color_greedy, Seq(greedy(t), c));
  P45_E(color_big, Seq(c, opt(b)));
  P45_E(maybe_maybe, Seq(opt(c), opt(f)));
  P45_E(maybe_maybe_greedy, Back(greedy(c), greedy(f)));
  P45_E(void_void, Seq(OnlyOnce(c), OnlyOnce(f)));
  P45_E(void_number, Seq(OnlyOnce(cf), n));
  P45_E(number_void, Seq(n, OnlyOnce(cf)));
  P45_E(number_void_back, Back(n, OnlyOnce(cf)));
  P45_E(big_the, Seq(b, t));
  P45_E(big_or_the, Or(b, t));
  P45_E(two_words, Seq(Or(b, t), Or(t, b)));
  P45_E(orange_unit, Or(o, OnlyOnce(c)));
  P45_E(void_and, OnlyOnce(And(c, f)));
  P45_E(and_unit, And(c, o));
  P45_E(unit_and, And(o, f));
  P45_E(doubled, dbl);
  P45_E(hundred, hun);
  P45_E(doubled_or_hundred, Or(dbl, hun));
  P45_E(hundred_then_doubled, Seq(hun, dbl));
  P45_E(more, mr);
  P45_E(less, ls);
  P45_E(less_more, Seq(ls, mr));
  P45_E(less_and_more, And(ls, mr));
  P45_E(pair, MapG(Seq(c, f), [](const Val& x) { return Val{"len " + Tail(x[0]) + "/" + Tail(x[1])}; }));
  P45_E(filtered_pair, FilterG(Seq(c, f), [](const Val& x) { return Tail(x[0]) < Tail(x[1]); }));
  P45_E(three, Seq(Seq(c, f), n));
  P45_E(three_back, Back(Back(c, f), n));
  P45_E(three_mixed, Seq(c, Back(f, n)));
  P45_E(three_and, Seq(And(c, f), n));
  P45_E(len, l);
  P45_E(len_reversed, lr);
  P45_E(len_len, Seq(l, l));
  P45_E(len_len_back, Back(l, l));
  P45_E(len_len_len, Seq(Seq(l, l), l));
  P45_E(len_len_len_back, Back(Back(l, l), l));
  P45_E(len_len_len_mixed, Seq(l, Back(l, l)));
  P45_E(len_reversed_twice, Seq(lr, lr));
  P45_E(len_and_len, And(Seq(l, l), Back(l, l)));
  P45_E(len_void_len, Seq(Seq(l, OnlyOnce(any_g)), l));
  P45_E(void_len, OnlyOnce(l));
  P45_E(void_len_twice, Seq(OnlyOnce(l), OnlyOnce(l)));
  P45_E(len_void, Seq(l, OnlyOnce(l)));
  P45_E(void_len_back, Back(OnlyOnce(l), l));
  P45_E(first_or_last, Or(Seq(b, l), Seq(l, b)));
  P45_E(first_and_last, And(Seq(b, l), Seq(l, t)));
  P45_E(not_both, FilterG(Seq(l, l), [](const Val& x) { return x[0] != x[1]; }));
  P45_E(joined, MapG(Seq(l, l), [](const Val& x) { return Val{"len " + Tail(x[0]) + Tail(x[1])}; }));
  P45_E(joined_back, MapG(Back(l, l), [](const Val& x) { return Val{"len " + Tail(x[1]) + Tail(x[0])}; }));
  return v;
}

std::string Text(const Vals& v) {
  std::string r;
  for (const auto& x : v) {
    r += '(';
    for (const auto& y : x) r += "[" + y + "]";
    r += ')';
  }
  return r;
}

PBT_PROP(matching) {
  static const std::vector<Entry> all = All();
  const size_t length = s.Size(0, s.Chance(1, 5) ? 7 : 4);
  std::string query = s.From(" \t", 1);
  Words words;
  for (size_t i = 0; i < length; ++i) {
    std::string w = s.Chance(1, 15) ? s.Pick({"foo", "oranges", "re", "bigger", "0", "12"})
                                    : s.Pick({"orange", "red", "lime", "apple", "one", "two", "three", "big", "the", "7", "black", "banana"});
    words.push_back(Word{w});
    if (s.Chance(1, 6)) {
      for (auto& c : w) if (s.Bool()) c = char(toupper(c));
    }
    if (i) query += s.FromN(" \t\n", 1, 2);
    query += w;
  }
  query += s.From(" ", 2);
  s.Note(pbt::Esc(query));
  for (const auto& e : all) {
    const Vals expected = e.g.f(words, 0, words.size());
    const Vals actual = e.all(query);
    if (expected.size() >= 2) s.NonTrivial();
    s.Check(expected == actual, "matches", [&] { return std::string(e.name) + "\nexpected: " + Text(expected) + "\nactual:   " + Text(actual); });
    const Vals first = e.first(query);
    s.Check(first == (expected.empty() ? Vals() : Vals{expected[0]}), "first_match", [&] { return std::string(e.name) + ": " + Text(first); });
  }
}

PBT_PROP(annotation) {
  // Each word is annotated as it is, in order, with both the original and the normalized forms.
  const size_t length = s.Size(0, 6);
  std::string query;
  std::vector<std::string> originals;
  for (size_t i = 0; i < length; ++i) {
    std::string w = s.FromN("aZ09Q!-_\"\xd0\x9f", 1, 5);
    if (s.Chance(1, 3)) w = s.Pick({"orange", "LIME", "Seven", "7", "One", "42"});
    originals.push_back(w);
    query += (i ? s.FromN(" \t\n", 1, 2) : "") + w;
  }
  s.Note(pbt::Esc(query));
  if (length >= 2) s.NonTrivial();
  const auto q = AnnotateQuery<QueryTerm>(query);
  s.Eq(pbt::Esc(query), pbt::Esc(q.original_query), "original_query");
  s.Eq(length, q.annotated_terms.size(), "number_of_terms");
  for (size_t i = 0; i < length; ++i) {
    std::string lower;
    for (const char c : originals[i]) lower += c >= 'A' && c <= 'Z' ? char(c + 32) : c;
    const auto& a = q.annotated_terms[i];
    s.Eq(originals[i], a.original_term, "original_term");
    s.Eq(lower, a.normalized_term, "normalized_term");
    const Word w{lower};
    s.Eq(std::string(w.color() ? w.color() : "-"), Exists(a.color) ? Value(a.color).rgb : "-", "color");
    s.Eq(std::string(w.fruit() ? w.fruit() : "-"), Exists(a.fruit) ? Value(a.fruit).shape : "-", "fruit");
    s.Eq(w.number() >= 0 ? w.number() : -1, Exists(a.number) ? Value(a.number).value : -1, "number");
  }
}

}  // namespace

#include "nlp/nlp_schema_end.inl"
