// A strict JSON parser and printer, independent of the code under test. Numbers are kept as text.
#pragma once
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

namespace mj {

struct J {
  enum Kind { Null, Bool, Num, Str, Arr, Obj } kind = Null;
  bool b = false;
  std::string s;  // The number as text, or the string.
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  static J N() { return J(); }
  static J B(bool b) { J r; r.kind = Bool; r.b = b; return r; }
  static J Number(const std::string& t) { J r; r.kind = Num; r.s = t; return r; }
  static J S(const std::string& t) { J r; r.kind = Str; r.s = t; return r; }
  static J A(std::vector<J> v = {}) { J r; r.kind = Arr; r.a = std::move(v); return r; }
  static J O(std::vector<std::pair<std::string, J>> v = {}) { J r; r.kind = Obj; r.o = std::move(v); return r; }
  const J* Find(const std::string& k) const {
    if (kind != Obj) return nullptr;
    for (const auto& x : o) if (x.first == k) return &x.second;
    return nullptr;
  }
  bool IsInteger() const { return kind == Num && s.find_first_of(".eE") == std::string::npos; }
  bool operator==(const J& x) const {
    if (kind != x.kind) return false;
    switch (kind) {
      case Null: return true;
      case Bool: return b == x.b;
      case Num: return s == x.s || ((!IsInteger() || !x.IsInteger()) && strtod(s.c_str(), nullptr) == strtod(x.s.c_str(), nullptr));
      case Str: return s == x.s;
      case Arr: return a == x.a;
      default: return o == x.o;
    }
  }
};

inline void PrintString(const std::string& s, std::string& out) {
  out += '"';
  static const char* const hex = "0123456789abcdef";
  for (const char ch : s) {
    const unsigned char c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') {
      out += '\\';
      out += ch;
    } else if (c < 0x20) {
      out += "\\u00";
      out += hex[c >> 4];
      out += hex[c & 15];
    } else {
      out += ch;
    }
  }
  out += '"';
}
inline void Print(const J& j, std::string& out, const char* ws = "") {
  switch (j.kind) {
    case J::Null: out += "null"; break;
    case J::Bool: out += j.b ? "true" : "false"; break;
    case J::Num: out += j.s; break;
    case J::Str: PrintString(j.s, out); break;
    case J::Arr: {
      out += '[';
      out += ws;
      bool first = true;
      for (const auto& x : j.a) {
        if (!first) { out += ','; out += ws; }
        first = false;
        Print(x, out, ws);
      }
      out += ws;
      out += ']';
      break;
    }
    default: {
      out += '{';
      out += ws;
      bool first = true;
      for (const auto& x : j.o) {
        if (!first) { out += ','; out += ws; }
        first = false;
        PrintString(x.first, out);
        out += ws;
        out += ':';
        out += ws;
        Print(x.second, out, ws);
      }
      out += ws;
      out += '}';
    }
  }
}
inline std::string Print(const J& j, const char* ws = "") {
  std::string r;
  Print(j, r, ws);
  return r;
}

struct Parser {
  const std::string& t;
  size_t p = 0;
  bool odd_escape = false;  // A surrogate escape, the validity of which is not judged here.
  explicit Parser(const std::string& t) : t(t) {}
  void Ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
  bool Lit(const char* x) {
    const size_t n = std::char_traits<char>::length(x);
    if (t.compare(p, n, x) != 0) return false;
    p += n;
    return true;
  }
  bool Hex4(unsigned& u) {
    u = 0;
    for (int i = 0; i < 4; ++i) {
      if (p >= t.size()) return false;
      const char c = t[p++];
      u = u * 16;
      if (c >= '0' && c <= '9') u += unsigned(c - '0');
      else if (c >= 'a' && c <= 'f') u += unsigned(c - 'a' + 10);
      else if (c >= 'A' && c <= 'F') u += unsigned(c - 'A' + 10);
      else return false;
    }
    return true;
  }
  static void Utf8(unsigned c, std::string& o) {
    if (c < 0x80) { o += char(c); }
    else if (c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
  }
  bool String(std::string& o) {
    if (p >= t.size() || t[p] != '"') return false;
    ++p;
    while (p < t.size()) {
      const unsigned char c = static_cast<unsigned char>(t[p]);
      if (c == '"') { ++p; return true; }
      if (c < 0x20) return false;
      ++p;
      if (c != '\\') { o += char(c); continue; }
      if (p >= t.size()) return false;
      const char e = t[p++];
      switch (e) {
        case '"': case '\\': case '/': o += e; break;
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'n': o += '\n'; break;
        case 'r': o += '\r'; break;
        case 't': o += '\t'; break;
        case 'u': {
          unsigned u;
          if (!Hex4(u)) return false;
          if (u >= 0xd800 && u < 0xe000) {
            odd_escape = true;
            if (u < 0xdc00 && Lit("\\u")) {
              unsigned l;
              if (!Hex4(l)) return false;
              if (l >= 0xdc00 && l < 0xe000) u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
            }
          }
          Utf8(u, o);
          break;
        }
        default: return false;
      }
    }
    return false;
  }
  bool Value(J& j, int depth) {
    if (depth > 2000) return false;
    Ws();
    if (p >= t.size()) return false;
    const char c = t[p];
    if (c == 'n') { j.kind = J::Null; return Lit("null"); }
    if (c == 't') { j = J::B(true); return Lit("true"); }
    if (c == 'f') { j = J::B(false); return Lit("false"); }
    if (c == '"') { j.kind = J::Str; return String(j.s); }
    if (c == '[') {
      j.kind = J::Arr;
      ++p;
      Ws();
      if (p < t.size() && t[p] == ']') { ++p; return true; }
      while (true) {
        j.a.emplace_back();
        if (!Value(j.a.back(), depth + 1)) return false;
        Ws();
        if (p >= t.size()) return false;
        if (t[p] == ',') { ++p; continue; }
        if (t[p] == ']') { ++p; return true; }
        return false;
      }
    }
    if (c == '{') {
      j.kind = J::Obj;
      ++p;
      Ws();
      if (p < t.size() && t[p] == '}') { ++p; return true; }
      while (true) {
        Ws();
        j.o.emplace_back();
        if (!String(j.o.back().first)) return false;
        Ws();
        if (p >= t.size() || t[p] != ':') return false;
        ++p;
        if (!Value(j.o.back().second, depth + 1)) return false;
        Ws();
        if (p >= t.size()) return false;
        if (t[p] == ',') { ++p; continue; }
        if (t[p] == '}') { ++p; return true; }
        return false;
      }
    }
    const size_t b = p;
    auto Digits = [&] {
      const size_t q = p;
      while (p < t.size() && t[p] >= '0' && t[p] <= '9') ++p;
      return p > q;
    };
    if (t[p] == '-') ++p;
    if (p < t.size() && t[p] == '0') ++p;
    else if (!Digits()) return false;
    if (p < t.size() && t[p] == '.') { ++p; if (!Digits()) return false; }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
      ++p;
      if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
      if (!Digits()) return false;
    }
    j = J::Number(t.substr(b, p - b));
    return true;
  }
};
inline bool Parse(const std::string& t, J& j, bool* odd = nullptr) {
  Parser p(t);
  j = J();
  const bool ok = p.Value(j, 0);
  if (odd) *odd = p.odd_escape;
  if (!ok) return false;
  p.Ws();
  return p.p == t.size();
}

}  // namespace mj
