// P23: values convert to text and back unchanged.
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
#include <type_traits>

#include "pbt.h"

#include "bricks/strings/util.h"
#include "bricks/strings/fixed_size_serializer.h"
#include "bricks/time/chrono.h"
#include "typesystem/enum.h"

PBT_CHECK("P23", "exploration",
          "A case is a value of one of the types with a text form (all integral widths, floating point, booleans, characters, "
          "strings, durations, enumerations over all underlying types, a type with its own conversions), or a text to "
          "convert to such a type, or two numbers to compare in the fixed-width form. Non-trivial: a number of two digits "
          "or more, a non-empty string, or a text which is not the text form of any value.");

namespace {

// The reference: the decimal form.
std::string Digits(unsigned __int128 v) {
  std::string r;
  do {
    r.insert(r.begin(), char('0' + int(v % 10)));
    v /= 10;
  } while (v);
  return r;
}

template <typename T>
std::string Reference(T v) {
  const __int128 w = v;
  return w < 0 ? "-" + Digits((unsigned __int128)(-w)) : Digits((unsigned __int128)(w));
}

template <typename T>
std::string Show(T v) {
  return Reference(v);
}

template <typename T>
void Integral(pbt::Src& s) {
  const T v = s.Integer<T>();
  if (s.Describing()) s.Note(Reference(v));
  const std::string text = current::ToString(v);
  s.Eq(Reference(v), text, "the text of an integer");
  s.Eq(Show(v), Show(current::FromString<T>(text)), "an integer from its text");
  T out = T(77);
  s.Eq(Show(v), Show(current::FromString(text, out)), "an integer from its text, by reference");
  s.Eq(Show(v), Show(out), "an integer from its text, by reference");
  s.Eq(Show(v), Show(current::FromString<T>(text.c_str())), "an integer from its text, a C string");
  if (text.length() > 1) s.NonTrivial();
}

// What must become of a text: the number it begins with, if it fits; zero otherwise.
template <typename T>
bool Parse(const std::string& t, T& value) {
  value = T();
  size_t i = 0;
  while (i < t.size() && ::isspace(static_cast<unsigned char>(t[i]))) ++i;
  bool negative = false;
  if (i < t.size() && (t[i] == '-' || t[i] == '+')) negative = t[i++] == '-';
  if (negative && std::is_unsigned<T>::value) return false;  // Left to the standard library: it wraps around.
  __int128 v = 0;
  const size_t begin = i;
  while (i < t.size() && t[i] >= '0' && t[i] <= '9') {
    v = v * 10 + (t[i++] - '0');
    if (v > (__int128(1) << 70)) v = __int128(1) << 70;
  }
  if (i == begin) return true;
  if (negative) v = -v;
  if (v >= std::numeric_limits<T>::min() && v <= __int128(std::numeric_limits<T>::max())) value = T(v);
  return true;
}

std::string NumericText(pbt::Src& s) {
  std::string t;
  if (s.Chance(1, 5)) t += s.From(" \t\n", 3);
  t += s.Pick({"", "", "-", "+", "--", "-+"});
  switch (s.Draw(4)) {
    case 0:
      t += s.From("0123456789", 6);
      break;
    case 1:
      t += s.From("0123456789", 25);
      break;
    case 2:
      // Just around the limits.
      t += s.Pick({"127", "128", "129", "255", "256", "257", "32767", "32768", "65535", "65536", "2147483647", "2147483648",
                   "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
                   "18446744073709551616", "0127", "00000000000000000000000005"});
      break;
    case 3:
      t += s.From("0123456789abcdefxXeE.,_ ", 8);
      break;
    default:
      t += s.Ascii(6);
      break;
  }
  if (s.Chance(1, 3)) t += s.Ascii(4);
  return t;
}

template <typename T>
void TextToIntegral(pbt::Src& s) {
  const std::string t = NumericText(s);
  if (s.Describing()) s.Note(pbt::Esc(t));
  T expected;
  if (!Parse(t, expected)) s.Discard();
  T out = T(77);
  current::FromString(t, out);
  s.Eq(Show(expected), Show(out), "a text to an integer");
  s.Eq(Show(expected), Show(current::FromString<T>(t)), "a text to an integer");
  s.LabelIf(t.empty(), "empty text");
  if (t != Reference(expected)) s.NonTrivial();
}

template <typename F>
void ForIntegral(pbt::Src& s, F f) {
  switch (s.Draw(9)) {
    case 0: return f(int8_t());
    case 1: return f(uint8_t());
    case 2: return f(int16_t());
    case 3: return f(uint16_t());
    case 4: return f(int32_t());
    case 5: return f(uint32_t());
    case 6: return f(int64_t());
    case 7: return f(uint64_t());
    case 8: return f((long long)(0));
    default: return f((unsigned long long)(0));
  }
}

CURRENT_ENUM(EI8, int8_t){A = -1, B = 2};
CURRENT_ENUM(EU8, uint8_t){A = 1, B = 2};
CURRENT_ENUM(EI16, int16_t){A = 1, B = 2};
CURRENT_ENUM(EU16, uint16_t){A = 1, B = 2};
CURRENT_ENUM(EI32, int32_t){A = 1, B = 2};
CURRENT_ENUM(EU32, uint32_t){A = 1, B = 2};
CURRENT_ENUM(EI64, int64_t){A = 1, B = 2};
CURRENT_ENUM(EU64, uint64_t){A = 1, B = 2};
enum Old { One = 1, Two = 2, Million = 1000000 };
enum class Plain { A, B };

template <typename E>
void Enum(pbt::Src& s) {
  using U = typename std::underlying_type<E>::type;
  const U u = s.Integer<U>();
  if (s.Describing()) s.Note(Reference(u));
  const std::string text = current::ToString(static_cast<E>(u));
  s.Eq(Reference(u), text, "the text of an enumeration");
  s.Eq(Show(u), Show(static_cast<U>(current::FromString<E>(text))), "an enumeration from its text");
  E e = static_cast<E>(1);
  current::FromString(text, e);
  s.Eq(Show(u), Show(static_cast<U>(e)), "an enumeration from its text, by reference");
  const std::string t = NumericText(s);
  if (s.Describing()) s.Note(pbt::Esc(t));
  U expected;
  if (Parse(t, expected)) {
    s.Eq(Show(expected), Show(static_cast<U>(current::FromString<E>(t))), "a text to an enumeration");
  }
  if (text.length() > 1) s.NonTrivial();
}

struct Custom {
  int x = 0;
  std::string rest;
  std::string ToString() const { return std::to_string(x) + "/" + rest; }
  void FromString(const std::string& t) {
    const size_t p = t.find('/');
    x = std::stoi(t.substr(0, p));
    rest = t.substr(p + 1);
  }
};

template <typename T>
void Floating(pbt::Src& s) {
  const bool is_float = sizeof(T) == sizeof(float);
  if (s.Bool()) {
    // As many decimals as the text form has: exactly the same value.
    const int64_t k = s.Int(is_float ? -(1 << 20) : -(int64_t(1) << 50), is_float ? (1 << 20) : (int64_t(1) << 50));
    const T v = T(T(k) / T(1000000));
    if (s.Describing()) s.Note(std::to_string(k) + " millionths");
    s.Eq(double(v), double(current::FromString<T>(current::ToString(v))), "a number of millionths from its text");
  } else {
    T v = T(s.FiniteDouble());
    if (!std::isfinite(v)) v = T(1);
    if (s.Describing()) s.Note(std::to_string(v));
    const T r = current::FromString<T>(current::ToString(v));
    const double error = std::fabs(double(v) - double(r));
    const double eps = is_float ? 1.2e-7 : 2.3e-16;
    if (!(error <= 5.1e-7 + std::fabs(double(v)) * eps)) {
      s.Fail("a number from its text is not within the precision of the text", current::ToString(v) + " vs. " + current::ToString(r));
    }
    // Integers come back as they were.
    if (double(v) == std::floor(double(v))) s.Eq(double(v), double(r), "a whole number from its text");
  }
  s.NonTrivial();
}

}  // namespace

PBT_PROP(integers, o.weight = 4) {
  ForIntegral(s, [&](auto t) { Integral<decltype(t)>(s); });
}

PBT_PROP(text_to_integers, o.weight = 4) {
  ForIntegral(s, [&](auto t) { TextToIntegral<decltype(t)>(s); });
}

PBT_PROP(enums, o.weight = 3) {
  switch (s.Draw(9)) {
    case 0: return Enum<EI8>(s);
    case 1: return Enum<EU8>(s);
    case 2: return Enum<EI16>(s);
    case 3: return Enum<EU16>(s);
    case 4: return Enum<EI32>(s);
    case 5: return Enum<EU32>(s);
    case 6: return Enum<EI64>(s);
    case 7: return Enum<EU64>(s);
    case 8: return Enum<Plain>(s);
    default: {
      const Old v = s.OneOf(std::vector<Old>{One, Two, Million});
      s.Eq(int(v), int(current::FromString<Old>(current::ToString(v))), "an enumeration from its text");
      return;
    }
  }
}

PBT_PROP(floating_point, o.weight = 2) {
  switch (s.Draw(2)) {
    case 0: return Floating<double>(s);
    case 1: return Floating<float>(s);
    default: {
      const std::string t = s.Pick({"", " ", "abc", "-", ".", "e5", "1e999", "-1e999", "--1", "+-2"});
      double d = 5;
      current::FromString(t, d);
      s.Eq(0.0, d, "a text which is not a number");
      float f = 5;
      current::FromString(t, f);
      s.Eq(0.0f, f, "a text which is not a number");
      return;
    }
  }
}

PBT_PROP(the_rest, o.weight = 2) {
  const bool b = s.Bool();
  s.Eq(std::string(b ? "true" : "false"), current::ToString(b), "the text of a boolean");
  s.Eq(b, current::FromString<bool>(current::ToString(b)), "a boolean from its text");
  s.Eq(b, current::FromString<bool>(std::string(b ? "1" : "0")), "a boolean from a digit");
  s.Eq(false, current::FromString<bool>(s.Pick({"", "0", "false", "False", "FALSE"})), "a false boolean");

  const std::string str = s.Bytes(20);
  if (s.Describing()) s.Note(pbt::Esc(str));
  s.Eq(str, current::ToString(str), "the text of a string");
  s.Eq(str, current::FromString(str), "a string from its text");
  s.Eq(str, current::FromString<std::string>(str), "a string from its text");
  std::string out = "before";
  current::FromString(str, out);
  s.Eq(str, out, "a string from its text, by reference");
  s.Eq(std::string(str.c_str()), current::ToString(str.c_str()), "the text of a C string");
  s.Eq(str, current::ToString(current::strings::Chunk(str)), "the text of a chunk");
  const char array[5] = {'a', '-', 'b', ' ', '\0'};
  s.Eq(std::string(array, 4), current::ToString(array), "the text of an array of characters");
  const char c = char(s.Int(-128, 127));
  s.Eq(std::string(1, c), current::ToString(c), "the text of a character");
  if (!::isspace(static_cast<unsigned char>(c))) {
    s.Eq(int(c), int(current::FromString<char>(std::string(1, c))), "a character from its text");
  }

  const int64_t n = s.I64();
  const std::chrono::microseconds us(n);
  const std::chrono::milliseconds ms(n);
  s.Eq(Reference(n), current::ToString(us), "the text of a duration");
  s.Eq(Reference(n), current::ToString(ms), "the text of a duration");
  s.Eq(n, int64_t(current::FromString<std::chrono::microseconds>(current::ToString(us)).count()), "a duration from its text");
  s.Eq(n, int64_t(current::FromString<std::chrono::milliseconds>(current::ToString(ms)).count()), "a duration from its text");
  const std::string t = NumericText(s);
  int64_t expected;
  if (Parse(t, expected)) {
    s.Eq(expected, int64_t(current::FromString<std::chrono::microseconds>(t).count()), "a text to a duration");
    s.Eq(expected, int64_t(current::FromString<std::chrono::milliseconds>(t).count()), "a text to a duration");
  }

  Custom custom;
  custom.x = int(s.Int(-1000, 1000));
  custom.rest = str;
  Custom restored = current::FromString<Custom>(current::ToString(custom));
  s.Eq(custom.x, restored.x, "a value with its own conversions");
  s.Eq(custom.rest, restored.rest, "a value with its own conversions");
  if (!str.empty()) s.NonTrivial();
}

namespace {
template <typename T>
void FixedWidth(pbt::Src& s) {
  using namespace current::strings;
  const T a = s.Integer<T>();
  const T b = s.Bool() ? s.Integer<T>() : T(a + T(s.Int(-3, 3)));
  if (s.Describing()) s.Note(Reference(a) + " and " + Reference(b));
  const std::string ta = PackToString(a);
  const std::string tb = PackToString(b);
  std::string longest = Reference(std::numeric_limits<T>::max());
  s.Eq(longest.size(), ta.size(), "the width");
  s.Eq(size_t(FixedSizeSerializer<T>::size_in_bytes), ta.size(), "the width declared");
  s.Eq(std::string(longest.size() - Reference(a).size(), '0') + Reference(a), ta, "the fixed-width form");
  T r;
  s.Eq(Show(a), Show(UnpackFromString(ta, r)), "a number from its fixed-width form");
  s.Eq(Show(b), Show(FixedSizeSerializer<T>::UnpackFromString(tb)), "a number from its fixed-width form");
  s.Eq(a < b, ta < tb, "the order of the fixed-width forms");
  s.Eq(a == b, ta == tb, "the equality of the fixed-width forms");
  const std::string bad = s.From("abcxyz -+", 3);
  if (bad.find('-') == std::string::npos) {
    s.Eq(Show(T(0)), Show(FixedSizeSerializer<T>::UnpackFromString(bad)), "a text which is not a number");
  }
  if (a > 9 && a != b) s.NonTrivial();
}
}  // namespace

PBT_PROP(fixed_width, o.weight = 3) {
  switch (s.Draw(4)) {
    case 0: return FixedWidth<uint16_t>(s);
    case 1: return FixedWidth<uint32_t>(s);
    case 2: return FixedWidth<uint64_t>(s);
    case 3: return FixedWidth<unsigned long long>(s);
    default: {
      using namespace current::strings;
      using us_t = std::chrono::microseconds;
      const int64_t a = s.I64();
      int64_t b = s.I64();
      if (s.Bool() && a < std::numeric_limits<int64_t>::max() - 4) b = a + s.Int(0, 3);
      const std::string ta = PackToString(us_t(a));
      const std::string tb = PackToString(us_t(b));
      s.Eq(size_t(20), ta.size(), "the width");
      us_t r;
      s.Eq(a, int64_t(UnpackFromString(ta, r).count()), "a time from its fixed-width form");
      if (a >= 0 && b >= 0) s.Eq(a < b, ta < tb, "the order of the fixed-width forms");
      s.Eq(int64_t(0), int64_t(FixedSizeSerializer<us_t>::UnpackFromString(s.From(" abc", 2)).count()), "a text which is not a time");
      if (a > 9 && b > 9) s.NonTrivial();
    }
  }
}
