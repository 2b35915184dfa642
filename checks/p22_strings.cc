// P22: string helpers obey their algebra.
#include "../lib/pbt.h"

#include <cmath>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>

#include "bricks/strings/strings.h"

PBT_CHECK("P22", "exploration",
          "a case is non-trivial if the text has at least two separators or two lines, the key-value text has a malformed field, the chunks repeat, the strings compared differ yet share a part, the number does not fit the digits, the expression has at least two groups, "
          "or what is formatted does not fit the static buffer");

namespace {

using namespace current::strings;

template <typename F>
std::vector<std::string> RefSplit(const std::string& text, F&& separator, bool keep) {
  std::vector<std::string> r(1);
  for (char c : text) {
    if (separator(c)) r.emplace_back(); else r.back() += c;
  }
  if (!keep) {
    std::vector<std::string> t;
    for (auto& e : r) if (!e.empty()) t.push_back(e);
    r = t;
  }
  return r;
}

std::string SomeText(pbt::Src& s) {
  switch (s.Weighted({4, 2, 1})) {
    case 0: return s.From(std::string(",;=: \t\n\r\v\0abc\xe9", 14), 14);
    case 1: return s.From(",,a", 10);
    default: return s.Bytes(10);
  }
}

// All the forms of `Split` with this separator. The input is never altered, except for the duration of the call for the mutable ones.
template <typename SEPARATOR, typename F>
void AllForms(pbt::Src& s, const std::string& text, SEPARATOR&& separator, F&& is_separator, const EmptyFields keep_or_skip) {
  const std::vector<std::string> expected = RefSplit(text, is_separator, keep_or_skip == EmptyFields::Keep);
  const std::string original(text.data(), text.size());
  const bool has_zero = text.find('\0') != std::string::npos;
  const auto check = [&](const std::vector<std::string>& got, const char* tag) {
    if (got != expected) {
      std::string e, g;
      for (auto& x : expected) e += pbt::Esc(x) + " ";
      for (auto& x : got) g += pbt::Esc(x) + " ";
      s.Fail(tag, pbt::Esc(text) + ": expected " + e + ", got " + g);
    }
  };
  // Exactly the size of the text in the heap, for AddressSanitizer.
  std::unique_ptr<char[]> buffer(new char[text.size() + 1]);
  memcpy(buffer.get(), text.c_str(), text.size() + 1);
  const auto chunks_to_strings = [](const std::vector<Chunk>& v) {
    std::vector<std::string> r;
    for (const auto& c : v) r.push_back(std::string(c));
    return r;
  };
  std::vector<std::string> got;
  bool terminated = true;
  const auto collect = [&](std::string&& x) { got.push_back(std::move(x)); };
  const auto collect_chunk = [&](Chunk x) {
    got.push_back(std::string(x));
    terminated = terminated && x.c_str()[x.length()] == '\0';
  };
  switch (s.Draw(8)) {
    case 0: check(Split(text, separator(), EmptyFields(keep_or_skip)), "split-const-string"); break;
    case 1: {
      std::string copy = text;
      check(Split(copy, separator(), EmptyFields(keep_or_skip)), "split-mutable-string");
      s.Eq(original, copy, "input-altered");
      break;
    }
    case 2: {
      const size_t n = Split(text, separator(), collect, EmptyFields(keep_or_skip));
      check(got, "split-callback");
      s.Eq(expected.size(), n, "count");
      break;
    }
    case 3: {
      std::string copy = text;
      const size_t n = Split(copy, separator(), collect_chunk, EmptyFields(keep_or_skip));
      check(got, "split-mutable-callback");
      s.Eq(expected.size(), n, "count");
      s.Eq(original, copy, "input-altered");
      break;
    }
    case 4:
      check(chunks_to_strings(SplitIntoChunks(text, separator(), EmptyFields(keep_or_skip))), "split-into-chunks");
      break;
    case 5: {
      const Chunk chunk(buffer.get(), text.size());
      check(chunks_to_strings(SplitIntoChunks(chunk, separator(), EmptyFields(keep_or_skip))), "split-chunk-into-chunks");
      break;
    }
    case 6: {
      const Chunk chunk(buffer.get(), text.size());
      const size_t n = Split(chunk, separator(), collect_chunk, EmptyFields(keep_or_skip));
      check(got, "split-chunk");
      s.Eq(expected.size(), n, "count");
      break;
    }
    case 7: {
      if (has_zero) break;
      const size_t n = Split(buffer.get(), separator(), collect_chunk, EmptyFields(keep_or_skip));
      check(got, "split-char-ptr");
      s.Eq(expected.size(), n, "count");
      break;
    }
    default: {
      if (has_zero) break;
      const char* p = buffer.get();
      check(Split(p, separator(), EmptyFields(keep_or_skip)), "split-const-char-ptr");
      break;
    }
  }
  s.Check(terminated, "chunk-not-terminated");
  s.Eq(original, text, "input-altered");
  s.Check(!memcmp(buffer.get(), original.c_str(), original.size() + 1), "buffer-altered");
}

}  // namespace

PBT_PROP(split, o.weight = 8) {
  const std::string text = SomeText(s);
  const EmptyFields empty = s.Bool() ? EmptyFields::Keep : EmptyFields::Skip;
  size_t separators = 0;
  const auto count = [&](auto f) {
    for (char c : text) separators += f(c) ? 1 : 0;
    return f;
  };
  const auto how = s.Draw(6);
  if (s.Describing()) s.Note("separator " + std::to_string(how) + " text " + pbt::Esc(text));
  switch (how) {
    case 0: AllForms(s, text, [] { return ','; }, count([](char c) { return c == ','; }), empty); break;
    case 1: AllForms(s, text, [] { return std::string(",;"); }, count([](char c) { return c == ',' || c == ';'; }), empty); break;
    case 2: {
      const std::string any = s.Bytes(3);
      AllForms(s, text, [&any] { return std::string(any); }, count([&any](char c) { return any.find(c) != std::string::npos; }), empty);
      break;
    }
    case 3: AllForms(s, text, []() -> const char (&)[3] { return ",;"; }, count([](char c) { return c == ',' || c == ';'; }), empty); break;
    case 4: AllForms(s, text, [] { return ByWhitespace::UseIsSpace; }, count([](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }), empty); break;
    case 5: AllForms(s, text, [] { return ByLines::Use0Aor0D; }, count([](char c) { return c == '\n' || c == '\r'; }), empty); break;
    default: AllForms(s, text, [] { return [](char c) { return c == 'a' || c == ','; }; }, count([](char c) { return c != 'a' && c != ','; }), empty); break;
  }
  if (separators >= 2) s.NonTrivial(pbt::Hash(text) + how);
}

PBT_PROP(join_then_split, o.weight = 4) {
  std::vector<std::string> v;
  for (size_t n = s.Len(5); n; --n) v.push_back(s.From("abc \n", 4));
  std::string any = s.FromN(",;", 0, 3);
  std::string expected, expected_any;
  for (size_t i = 0; i < v.size(); ++i) {
    expected += (i ? "," : "") + v[i];
    expected_any += (i ? any : "") + v[i];
  }
  s.Eq(expected, Join(v, ','), "join-char");
  s.Eq(expected, Join(v, ","), "join-literal");
  s.Eq(expected, Join(v, std::string(",")), "join-string");
  s.Eq(expected_any, Join(v, any), "join-any");
  s.Eq(expected_any, Join(std::list<std::string>(v.begin(), v.end()), any), "join-list");
  if (!v.empty()) s.Check(v == Split(Join(v, ','), ',', EmptyFields::Keep), "split-of-join");
  std::vector<std::string> nonempty;
  for (const auto& e : v) if (!e.empty()) nonempty.push_back(e);
  s.Check(nonempty == Split(Join(v, ','), ','), "split-of-join-skipping");
  std::set<std::string> set(v.begin(), v.end());
  s.Eq(Join(std::vector<std::string>(set.begin(), set.end()), any), Join(set, any), "join-set");
  std::vector<int> ints;
  std::string expected_ints;
  for (size_t n = s.Len(4); n; --n) {
    ints.push_back(s.Integer<int>());
    expected_ints += (expected_ints.empty() ? "" : any) + std::to_string(ints.back());
  }
  s.Eq(expected_ints, Join(ints, any), "join-ints");
  const std::string text = SomeText(s);
  s.Eq(text, Join(Split(text, ',', EmptyFields::Keep), ','), "join-of-split");
  if (v.size() >= 3) s.NonTrivial(pbt::Hash(expected_any));
}

PBT_PROP(key_values, o.weight = 4) {
  const std::string text = s.From("ab==, ;\t", 14);
  const auto how = s.Draw(3);
  const auto mode = s.Bool() ? KeyValueParsing::Throw : KeyValueParsing::Silent;
  const auto fields = RefSplit(text, [how](char c) { return how < 2 ? c == ',' : how == 2 ? c == ',' || c == ';' : c == ' ' || c == '\t'; }, false);
  std::vector<std::pair<std::string, std::string>> expected, got;
  int error = 0;
  for (const auto& f : fields) {
    const auto kv = RefSplit(f, [](char c) { return c == '='; }, false);
    if (kv.size() == 2) expected.emplace_back(kv[0], kv[1]);
    else if (!error) error = kv.size() < 2 ? 1 : 2;
  }
  int thrown = 0;
  if (s.Describing()) s.Note(pbt::Esc(text) + " how " + std::to_string(how));
  try {
    std::string copy = text;
    if (how == 0) got = SplitIntoKeyValuePairs(text, '=', ',', mode);
    else if (how == 1) got = SplitIntoKeyValuePairs(copy, '=', ',', mode), s.Eq(text, copy, "input-altered");
    else if (how == 2) got = SplitIntoKeyValuePairs(text.c_str(), "=", ",;", mode);
    else got = SplitIntoKeyValuePairs(text, '=', mode);
  } catch (const KeyValueNoValueException&) {
    thrown = 1;
  } catch (const KeyValueMultipleValuesException&) {
    thrown = 2;
  }
  s.Eq(mode == KeyValueParsing::Throw ? error : 0, thrown, "throws");
  if (!thrown) s.Check(expected == got, "key-values");
  if (error && fields.size() > 1) s.NonTrivial(pbt::Hash(text));
}

PBT_PROP(case_trim_escape, o.weight = 4) {
  const std::string text = s.Chance(1, 3) ? s.Bytes(10) : s.From("aZ@[`{ \t\n\r\v\f\"\\|\xe9\xc3n", 10);
  std::string lower, upper, cpp, markdown;
  size_t b = 0, e = text.size(), codepoints = 0;
  for (char c : text) {
    lower += c >= 'A' && c <= 'Z' ? char(c + 32) : c;
    upper += c >= 'a' && c <= 'z' ? char(c - 32) : c;
    cpp += c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\r' ? "\\r" : c == '"' ? "\\\"" : c == '\\' ? "\\\\" : std::string(1, c);
    markdown += c == '\n' ? "<br>" : c == '|' ? "&#124;" : std::string(1, c);
  }
  const auto space = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  while (b < e && space(text[b])) ++b;
  while (e > b && space(text[e - 1])) --e;
  const std::string trimmed = text.substr(b, e - b);
  std::unique_ptr<char[]> buffer(new char[text.size()]);
  memcpy(buffer.get(), text.data(), text.size());
  s.Eq(lower, ToLower(text), "lower");
  s.Eq(upper, ToUpper(text), "upper");
  s.Eq(lower, ToLower(text.begin(), text.end()), "lower-range");
  s.Eq(upper, ToUpper(text.begin(), text.end()), "upper-range");
  s.Eq(trimmed, Trim(text), "trim");
  s.Eq(trimmed, Trim(buffer.get(), text.size()), "trim-range");
  s.Eq(cpp, EscapeForCPlusPlus(text), "escape-cpp");
  s.Eq(markdown, EscapeForMarkdown(text), "escape-markdown");
  if (text.find('\0') == std::string::npos) {
    s.Eq(lower, ToLower(text.c_str()), "lower-c");
    s.Eq(upper, ToUpper(text.c_str()), "upper-c");
    s.Eq(trimmed, Trim(text.c_str()), "trim-c");
    for (unsigned char c : text) codepoints += c < 0x80 || c >= 0xc0;
    s.Eq(codepoints, UTF8StringLength(text), "utf8-length");
    s.Eq(codepoints, UTF8StringLength(text.c_str()), "utf8-length-c");
  }
  if (cpp != text && trimmed != text) s.NonTrivial(pbt::Hash(text));
}

PBT_PROP(lines, o.weight = 5) {
  std::string text = s.Chance(1, 3) ? s.Bytes(10) : s.From(std::string("ab\n\n\r\0", 6), 16);
  std::vector<std::string> expected = RefSplit(text, [](char c) { return c == '\n'; }, true);
  if (expected.back().empty()) expected.pop_back();
  // Fed in any pieces.
  std::vector<std::string> pieces;
  for (size_t i = 0; i < text.size();) {
    const size_t n = s.Draw(text.size() - i);
    pieces.push_back(text.substr(i, n));
    if (!n && s.Chance(1, 2)) pieces.back() = text.substr(i, 1), ++i;
    i += n;
  }
  const size_t fail_at = s.Chance(1, 4) ? s.Draw(4) : size_t(-1);
  std::vector<std::string> got;
  struct Stop {};
  const bool allow = s.Bool();
  size_t thrown = 0, complete_lines_before_feed_of_failure = 0;
  (void)complete_lines_before_feed_of_failure;
  const auto on_line = [&](std::string&& line) {
    got.push_back(std::move(line));
    if (allow && got.size() == fail_at + 1) throw Stop();
  };
  const auto feed = [&](auto& splitter) {
    std::string so_far;
    for (const auto& p : pieces) {
      try {
        if (p.find('\0') == std::string::npos && s.Bool()) splitter.Feed(p.c_str()); else splitter.Feed(p);
      } catch (const Stop&) {
        ++thrown;
      }
      so_far += p;
      if (!thrown) {
        // Each line is reported as soon as it is complete, and not before.
        s.Eq(size_t(std::count(so_far.begin(), so_far.end(), '\n')), got.size(), "reported-in-time");
      }
    }
  };
  if (allow) {
    auto splitter = CreateExceptionFriendlyStatefulGroupByLines(on_line);
    feed(splitter);
    const size_t before = got.size();
    try {
      splitter.Done();
    } catch (const Stop&) {
      ++thrown;
    }
    bool twice = false, after = false;
    try {
      splitter.Done();
    } catch (const GroupByLinesDoneCalledTwice&) {
      twice = true;
    }
    try {
      splitter.Feed("x\n");
    } catch (const GroupByLinesFeedCaledAfterDone&) {
      after = true;
    }
    s.Check(twice && after, "used-after-done");
    if (fail_at < expected.size()) {
      // Nothing past the line the processing of which has failed.
      s.Eq(size_t(1), thrown, "thrown-once");
      expected.resize(fail_at + 1);
      s.Check(got.size() >= expected.size() && std::equal(expected.begin(), expected.end(), got.begin()), "lines-before-failure");
      s.Eq(expected.size(), before < expected.size() ? got.size() : before, "lines-past-failure");
    } else {
      s.Eq(size_t(0), thrown, "thrown");
      s.Check(got == expected, "lines");
    }
  } else {
    {
      auto splitter = CreateStatefulGroupByLines(on_line);
      feed(splitter);
    }
    s.Check(got == expected, "lines");
    if (text.find('\0') == std::string::npos) {
      std::vector<std::string> got_c;
      {
        auto splitter = CreateStatefulGroupByLines([&](const char* line) { got_c.push_back(line); });
        for (const auto& p : pieces) splitter.Feed(p);
      }
      s.Check(got_c == expected, "lines-c");
    }
  }
  if (expected.size() >= 2 && pieces.size() >= 2) s.NonTrivial(pbt::Hash(text));
}

PBT_PROP(distances, o.weight = 4) {
  const std::string a = s.From("abc", 8);
  std::string b;
  if (s.Bool()) {
    b = s.From("abc", 8);
  } else {
    for (char c : a) switch (s.Weighted({6, 1, 1, 1})) {
      case 0: b += c; break;
      case 1: break;
      case 2: b += c; b += 'a'; break;
      default: b += 'b';
    }
  }
  std::vector<size_t> d(b.size() + 1), e;
  for (size_t j = 0; j <= b.size(); ++j) d[j] = j;
  for (size_t i = 1; i <= a.size(); ++i) {
    e = d;
    d[0] = i;
    for (size_t j = 1; j <= b.size(); ++j) d[j] = std::min(e[j - 1] + (a[i - 1] != b[j - 1]), 1 + std::min(e[j], d[j - 1]));
  }
  const size_t expected = d[b.size()];
  s.Eq(expected, SlowEditDistance(a, b), "slow");
  const size_t k = s.Draw(9);
  const size_t fast = FastEditDistance(a, b, k);
  if (expected <= k) s.Eq(expected, fast, "fast");
  else s.Check(fast >= expected, "fast-less");
  if (expected && expected < std::max(a.size(), b.size())) s.NonTrivial(pbt::Hash(a + "|" + b));
}

PBT_PROP(rounding, o.weight = 4) {
  const size_t digits = 1 + s.Draw(14);
  double value;
  switch (s.Weighted({3, 3, 2, 1})) {
    case 0: value = double(s.Int(-99999, 99999)) * std::pow(10.0, double(s.Int(-18, 15))); break;
    case 1: {
      // Next to a power of ten, from both sides.
      value = std::pow(10.0, double(s.Int(-14, 20)));
      value *= 1.0 + (s.Bool() ? 1 : -1) * std::pow(10.0, -double(s.Int(1, 16)));
      if (s.Bool()) value = -value;
      break;
    }
    case 2: value = double(s.Integer<int64_t>()) * (s.Bool() ? 1.0 : 1e-9); break;
    default: value = s.FiniteDouble(); break;
  }
  const bool plus = s.Bool();
  if (std::fabs(value) > 1e60) return;
  char buf[40];
  snprintf(buf, sizeof(buf), "%.17g", value);
  const std::string got = RoundDoubleToString(value, digits, plus);
  const std::string context = std::string(buf) + " to " + std::to_string(digits) + ": " + got;
  if (s.Describing()) s.Note(context);
  if (std::fabs(value) < 1e-16) {
    s.Eq(std::string("0"), got, "zero");
    return;
  }
  std::string t = got;
  if (value < 0) {
    s.Check(t[0] == '-', "sign", [&] { return context; });
    t = t.substr(1);
  } else if (plus) {
    s.Check(t[0] == '+', "plus-sign", [&] { return context; });
    t = t.substr(1);
  }
  const size_t dot = t.find('.');
  const std::string whole = t.substr(0, dot), fraction = dot == std::string::npos ? "" : t.substr(dot + 1);
  s.Check(!whole.empty() && whole.find_first_not_of("0123456789") == std::string::npos && fraction.find_first_not_of("0123456789") == std::string::npos, "not-a-number", [&] { return context; });
  s.Check(whole == "0" || whole[0] != '0', "leading-zero", [&] { return context; });
  s.Check(dot == std::string::npos || (!fraction.empty() && fraction.back() != '0'), "trailing-zero", [&] { return context; });
  std::string significant = whole + fraction;
  significant.erase(0, significant.find_first_not_of('0'));
  while (!significant.empty() && significant.back() == '0') significant.pop_back();
  s.Check(!significant.empty(), "became-zero", [&] { return context; });
  s.Check(significant.size() <= digits, "too-many-digits", [&] { return context; });
  // The nearest with that many digits, give or take the precision of the arithmetics of the double.
  const long double v = std::fabs((long double)value), r = strtold(t.c_str(), nullptr);
  const long double unit = powl(10.0L, floorl(log10l(v)) + 1 - (long double)digits);
  s.Check(fabsl(v - r) <= unit * 0.5L + v * 2e-15L, "not-nearest", [&] { return context; });
  if (digits == 2 && !plus) s.Eq(got, RoundDoubleToString(value), "default-digits");
  char exact[60];
  snprintf(exact, sizeof(exact), "%.*Lg", int(digits), (long double)value);
  if (strtold(exact, nullptr) != (long double)value) s.NonTrivial(pbt::Hash(std::string(buf)) + digits);
}

PBT_PROP(intervals, o.weight = 2) {
  int64_t us;
  switch (s.Weighted({3, 2, 1})) {
    case 0: us = s.Int(0, 200000) * 1000000 + s.Int(-1, 1); break;
    case 1: us = (s.Int(0, 100) * 86400 + s.Int(-1, 1)) * 1000000 + s.Int(-1, 1); break;
    // The 53 bits of the precision.
    default: us = s.Integer<int64_t>() / 2048; break;
  }
  const auto expected = [](int64_t us) {
    std::string sign = us < 0 ? "-" : "";
    uint64_t t = uint64_t(us < 0 ? -us : us) / 1000000;
    std::string r = std::to_string(t % 60) + "s";
    if (t >= 60) r = std::to_string(t / 60 % 60) + "m " + r;
    if (t >= 3600) r = std::to_string(t / 3600 % 24) + "h " + r;
    if (t >= 86400) r = std::to_string(t / 86400) + "d " + r;
    return sign + r;
  };
  const std::chrono::microseconds t(us);
  s.Eq(expected(us), TimeIntervalAsHumanReadableString(t), "interval");
  s.Eq(std::abs(us) < 50000 ? "just now" : us < 0 ? expected(-us) + " ago" : expected(us) + " into the future", TimeDifferenceAsHumanReadableString(t), "difference");
  if (std::abs(us) >= 60000000) s.NonTrivial(uint64_t(us));
}

PBT_PROP(printf, o.weight = 1) {
  const std::string text = s.Ascii(10);
  const int a = s.Integer<int>();
  const double d = s.FiniteDouble();
  s.Eq(text + "|" + std::to_string(a) + "|%", Printf("%s|%d|%%", text.c_str(), a), "printf");
  char buf[600];
  snprintf(buf, sizeof(buf), "%.3f", d);
  s.Eq(std::string(buf), Printf("%.3f", d), "printf-double");
  const size_t n = s.Chance(1, 2) ? size_t(64 * 1024 - 4 + int(s.Draw(8))) : s.Chance(1, 4) ? size_t(1024 * 1024 - 4 + int(s.Draw(8))) : s.Draw(5000);
  const std::string large(n, 'x');
  const std::string got = Printf("%s%d", large.c_str(), 42);
  s.Check(got == (large + "42").substr(0, 1024 * 1024 - 1), "printf-large");
  if (n > 64 * 1024 - 3) s.NonTrivial(n);
}

PBT_PROP(chunks, o.weight = 4) {
  std::deque<std::string> texts;
  std::deque<Chunk> chunks;
  ChunkDB db;
  std::map<std::string, size_t> first;
  const size_t n = 1 + s.Len(8);
  std::vector<const UniqueChunk*> unique;
  bool repeated = false;
  for (size_t i = 0; i < n; ++i) {
    texts.push_back(s.Chance(1, 4) ? s.Bytes(4) : s.From("ab\xe9", 3));
    const std::string& t = texts.back();
    switch (s.Draw(2)) {
      case 0: chunks.emplace_back(t); break;
      case 1: chunks.emplace_back(t.c_str(), t.length()); break;
      default: chunks.emplace_back(t.c_str(), t.c_str() + t.length()); break;
    }
    Chunk& c = chunks.back();
    UniqueChunk found;
    const bool was = first.count(t) > 0;
    s.Eq(was, db.Find(c, found), "find");
    if (was) s.Check(found == *unique[first[t]], "found-another");
    unique.push_back(s.Bool() ? &db[c] : &db.FromConstChunk(c));
    repeated |= was;
    first.emplace(t, i);
    s.Check(unique.back()->c_str() == chunks[first[t]].c_str(), "not-the-first");
    s.Eq(t, std::string(c), "chunk-to-string");
    s.Eq(t.length(), c.length(), "length");
    s.Eq(t.empty(), c.empty(), "empty");
    s.Eq(t, std::string(c.begin(), c.end()), "range");
    s.Check(c == t && !(c != t) && c != t + "x" && !(c == t + "x"), "compare-to-string");
    for (size_t k = 0; k <= t.size(); ++k) s.Check(c[k] == t.c_str()[k], "index");
  }
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < n; ++j) {
      const std::string &a = texts[i], &b = texts[j];
      const int order = chunks[i].LexicographicalCompare(chunks[j]);
      const int expected = a.compare(b);
      s.Check((order < 0) == (expected < 0) && (order > 0) == (expected > 0), "compare");
      s.Check(Chunk::LexicographicalComparator()(chunks[i], chunks[j]) == (a < b), "less");
      s.Check(Chunk::EqualityComparator()(chunks[i], chunks[j]) == (a == b), "equal");
      if (a == b) s.Check(Chunk::HashFunction()(chunks[i]) == Chunk::HashFunction()(chunks[j]), "hash");
      s.Check((*unique[i] == *unique[j]) == (a == b) && (*unique[i] != *unique[j]) == (a != b), "unique");
      s.Check(a == b || (*unique[i] < *unique[j]) != (*unique[i] > *unique[j]), "unique-order");
      const bool prefix = a.compare(0, b.size(), b) == 0;
      s.Check(chunks[i].HasPrefix(chunks[j]) == prefix, "prefix");
      Chunk rest("untouched");
      s.Check(chunks[i].ExpungePrefix(chunks[j], rest) == prefix, "expunge");
      s.Eq(prefix ? a.substr(b.size()) : "untouched", std::string(rest), "rest");
      Chunk self = chunks[i];
      self.ExpungePrefix(chunks[j], self);
      s.Eq(prefix ? a.substr(b.size()) : a, std::string(self), "rest-of-self");
    }
  }
  if (repeated) s.NonTrivial(n * 1000 + first.size());
}

namespace {

struct Regex {
  std::string named, plain, sample;
  std::vector<std::string> names;  // One per capture, empty if unnamed.
};

// In the order of the opening parentheses, which is how the groups are numbered.
void Generate(pbt::Src& s, Regex& r, int depth) {
  const auto both = [&](const std::string& x) {
    r.named += x;
    r.plain += x;
  };
  const size_t n = 1 + s.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    switch (depth > 0 ? s.Weighted({4, 3, 2, 2, 1, 1, 1, 1, 1}) : s.Weighted({4, 0, 0, 0, 1, 1, 1})) {
      case 0: {
        const std::string atom = s.Pick({"a", "b", "c", "a+", "b*", "[ab]"});
        both(atom);
        r.sample += atom[0] == '[' ? "b" : atom == "b*" ? "" : atom == "a+" ? "aa" : atom;
        break;
      }
      case 1: {
        std::string name = "n" + std::to_string(r.names.size());
        r.named += "(?<" + name + ">";
        r.plain += "(";
        r.names.push_back(name);
        Generate(s, r, depth - 1);
        both(")");
        if (s.Chance(1, 4)) both("?");
        break;
      }
      case 2: {
        both("(");
        r.names.push_back("");
        Generate(s, r, depth - 1);
        both(")");
        break;
      }
      case 3: {
        both("(?:");
        Generate(s, r, depth - 1);
        both(s.Bool() ? ")" : ")?");
        break;
      }
      case 4: {
        const bool open = s.Bool();
        both(open ? "\\(" : "\\)");
        r.sample += open ? "(" : ")";
        break;
      }
      case 5: both("\\\\"), r.sample += "\\"; break;
      case 6: {
        const std::string atom = s.Pick({"[(]", "[a(b]", "[)(]", "[\\](]", "[^(]"});
        both(atom);
        r.sample += atom[1] == '^' ? "a" : "(";
        break;
      }
      case 7: {
        both("(?=");
        const std::string sample = r.sample;
        Generate(s, r, 0);
        if (s.Bool()) r.sample = sample;
        both(")");
        break;
      }
      default: {
        both("(?!");
        const std::string sample = r.sample;
        Generate(s, r, 0);
        r.sample = sample;
        both(")");
        break;
      }
    }
  }
}

}  // namespace

PBT_PROP(named_groups, o.weight = 2) {
  Regex r;
  Generate(s, r, 2);
  const std::string text = s.Chance(1, 3) ? s.From("aab()\\c", 8) : s.Bool() ? r.sample : s.From("ab", 2) + r.sample + s.From("ab", 2) + r.sample;
  if (s.Describing()) s.Note(r.named + " on " + pbt::Esc(text));
  const NamedRegexCapturer re(r.named);
  const std::regex plain(r.plain);
  size_t named = 0;
  for (const auto& name : r.names) named += !name.empty();
  s.Eq(r.names.size(), size_t(plain.mark_count()), "harness-groups");
  s.Eq(r.names.size(), re.TotalCaptures(), "total");
  s.Eq(named, re.NamedCaptures(), "named");
  s.Check(r.names == re.GetTransformedRegexCaptureGroupNames(), "names");
  std::smatch m;
  const bool matches = std::regex_match(text, m, plain);
  s.Eq(matches, re.Test(text), "test");
  const auto got = s.Bool() ? re.Match(text) : re.Match(text.c_str());
  const auto moved = std::move(const_cast<NamedRegexCapturer::MatchResult&>(got));
  s.Eq(matches, !moved.empty(), "match");
  for (size_t i = 0; i < r.names.size(); ++i) {
    if (r.names[i].empty()) continue;
    const std::string expected = matches ? m[i + 1].str() : "";
    s.Eq(expected, moved[r.names[i]], "group");
    s.Eq(!expected.empty(), moved.Has(r.names[i]), "has");
  }
  s.Check(!moved.Has("nosuch") && moved["nosuch"].empty(), "nosuch");
  std::sregex_iterator it(text.begin(), text.end(), plain), end;
  size_t found = 0;
  for (const auto& e : re.Iterate(text)) {
    s.Check(it != end, "more-matches");
    s.Eq(it->str(), e.str(), "iterated");
    s.Eq(size_t(it->position()), e.position(), "position");
    for (size_t i = 0; i < r.names.size(); ++i) {
      if (r.names[i].empty()) continue;
      s.Eq((*it)[i + 1].str(), e[r.names[i]], "iterated-group");
      s.Eq((*it)[i + 1].length() > 0, e.Has(r.names[i]), "iterated-has");
    }
    ++it;
    ++found;
  }
  s.Check(it == end, "fewer-matches");
  std::sregex_iterator again(text.begin(), text.end(), plain);
  for (const auto& e : IterateByRegexMatches(plain, text)) {
    s.Eq(again->str(), e.str(), "by-matches");
    ++again;
  }
  s.Check(again == end, "fewer-by-matches");
  if (r.names.size() >= 2 && found) s.NonTrivial(pbt::Hash(r.named + "|" + text));
}
