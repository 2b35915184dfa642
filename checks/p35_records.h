// P35: records, the reference inference, and the reading of the inferred schema as text.
#pragma once
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "minijson.h"
#include "pbt.h"

namespace p35 {

using mj::J;

// -- The types the schema is made of, both the ones inferred by the reference and the ones read from the text. --

struct Ty {
  std::string name;  // "bool", "double", "int64_t", "uint64_t", "std::chrono::microseconds", "std::string", "vector", "struct".
  bool optional = false;
  std::shared_ptr<Ty> element;
  std::map<std::string, std::shared_ptr<Ty>> fields;
  std::string Show() const {
    std::string r = name;
    if (element) r += "<" + element->Show() + ">";
    if (name == "struct") {
      r += "{";
      for (const auto& f : fields) r += f.first + ":" + f.second->Show() + ";";
      r += "}";
    }
    return optional ? "Optional<" + r + ">" : r;
  }
};
using T = std::shared_ptr<Ty>;  // Null for "nothing but nulls and empty arrays".

struct Refused {
  std::string why;
};

// -- The reference: what is known of the values at one path. --

struct Stats {
  size_t set = 0;
  size_t nulls = 0;    // Explicit ones.
  size_t missing = 0;  // The objects with no such field, for fields.
  size_t no = 0, yes = 0;
  std::map<std::string, size_t> strings;
  long double sum = 0, sum_abs = 0;
  std::string kind;
  size_t fields = 0;
};

inline bool EmptyArray(const J& v) { return v.kind == J::Arr && v.a.empty(); }

inline bool FitsInt64(const J& v, long long& x) {
  if (!v.IsInteger()) return false;
  errno = 0;
  x = strtoll(v.s.c_str(), nullptr, 10);
  return errno == 0;
}

inline bool Identifier(const std::string& s) {
  static const std::set<std::string> no = {"class", "int", "null", "true", "NULL", "for", "namespace", "and"};
  if (s.empty() || no.count(s)) return false;
  for (size_t i = 0; i < s.size(); ++i) {
    const char c = s[i];
    if (!(c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (i && c >= '0' && c <= '9'))) return false;
  }
  return true;
}

struct Reference {
  std::map<std::string, Stats> stats;  // By the path as the report has it.
  bool odd_empty = false;              // An empty array where other records have something which is not an array.

  // `values` are all the values at this path, other than empty arrays; `empty` is the number of those.
  T Infer(const std::vector<const J*>& values, size_t missing, size_t empty, const std::string& path) {
    Stats st;
    st.missing = missing;
    std::set<int> kinds;
    for (const J* v : values) {
      if (v->kind == J::Null) {
        ++st.nulls;
      } else {
        ++st.set;
        kinds.insert(v->kind);
      }
    }
    if (kinds.size() > 1) throw Refused{"incompatible at " + path};
    if (kinds.empty()) {
      stats[path] = st;
      return nullptr;
    }
    const int k = *kinds.begin();
    if (empty && k != J::Arr) odd_empty = true;
    auto t = std::make_shared<Ty>();
    t->optional = st.nulls || missing;
    std::vector<const J*> set;
    for (const J* v : values) {
      if (v->kind != J::Null) set.push_back(v);
    }
    if (k == J::Bool) {
      t->name = "bool";
      st.kind = "Bool";
      for (const J* v : set) ++(v->b ? st.yes : st.no);
    } else if (k == J::Str) {
      t->name = "std::string";
      st.kind = "String";
      for (const J* v : set) ++st.strings[v->s];
    } else if (k == J::Num) {
      bool integers = true, natural = true, us = true;
      for (const J* v : set) {
        long long x;
        if (!FitsInt64(*v, x)) {
          integers = false;
          st.sum += strtod(v->s.c_str(), nullptr);
          st.sum_abs += std::fabs(strtod(v->s.c_str(), nullptr));
        } else {
          natural &= x >= 0;
          us &= x >= 315561600ll * 1000000 && x < 8835984000ll * 1000000;
          st.sum += x;
          st.sum_abs += std::fabs(static_cast<long double>(x));
        }
      }
      t->name = !integers ? "double" : us ? "std::chrono::microseconds" : natural ? "uint64_t" : "int64_t";
      st.kind = integers ? "Integer" : "Double";
    } else if (k == J::Arr) {
      st.kind = "Array";
      std::vector<const J*> inner;
      size_t inner_empty = 0;
      for (const J* v : set) {
        bool any = false;
        for (const J& e : v->a) {
          if (EmptyArray(e)) {
            ++inner_empty;
          } else {
            any = true;
            inner.push_back(&e);
          }
        }
        if (!any) throw Refused{"an array of empty arrays at " + path};
      }
      t->name = "vector";
      t->element = Infer(inner, 0, inner_empty, path + "[]");
    } else {
      st.kind = "Object";
      std::map<std::string, std::vector<const J*>> fields;
      std::map<std::string, size_t> without;
      for (const J* v : set) {
        for (const auto& f : v->o) {
          if (EmptyArray(f.second)) {
            ++without[f.first];
          } else {
            if (!Identifier(f.first)) throw Refused{"not an identifier: " + f.first};
            fields[f.first].push_back(&f.second);
          }
        }
      }
      t->name = "struct";
      st.fields = fields.size();
      for (const auto& f : fields) {
        const T inner = Infer(f.second, set.size() - f.second.size(), without[f.first], path + "." + f.first);
        if (inner) t->fields[f.first] = inner;
      }
    }
    stats[path] = st;
    if (t->name == "vector" && !t->element) return nullptr;
    return t;
  }
  T Infer(const std::vector<J>& records, const std::string& name) {
    std::vector<const J*> v;
    for (const J& j : records) {
      if (EmptyArray(j)) throw Refused{"an empty array"};
      v.push_back(&j);
    }
    return Infer(v, 0, 0, "Schema");
  }
};

// -- The inferred schema is read as source code. --

struct Source {
  const std::string& text;
  size_t p = 0;
  std::string error;
  std::map<std::string, T> structs;
  T top;
  std::string top_name;
  explicit Source(const std::string& text) : text(text) { Read(); }
  void Ws() {
    while (p < text.size()) {
      if (isspace(static_cast<unsigned char>(text[p]))) {
        ++p;
      } else if (text.compare(p, 2, "//") == 0) {
        while (p < text.size() && text[p] != '\n') ++p;
      } else {
        break;
      }
    }
  }
  bool Lit(const char* x) {
    Ws();
    const size_t n = std::char_traits<char>::length(x);
    if (text.compare(p, n, x) != 0) return false;
    p += n;
    return true;
  }
  bool Expect(const char* x) {
    if (!error.empty()) return false;
    if (Lit(x)) return true;
    error = std::string("no ") + x + " at " + std::to_string(p);
    return false;
  }
  std::string Id() {
    Ws();
    std::string r;
    while (p < text.size() && (isalnum(static_cast<unsigned char>(text[p])) || text[p] == '_')) r += text[p++];
    if (!Identifier(r) && r != "bool" && r != "double" && error.empty()) error = "a bad identifier " + r + " at " + std::to_string(p);
    return r;
  }
  T Type() {
    auto t = std::make_shared<Ty>();
    if (!error.empty()) return t;
    t->name = Id();
    while (error.empty() && Lit("::")) t->name += "::" + Id();
    if (t->name == "Optional" || t->name == "std::vector") {
      Expect("<");
      const T inner = Type();
      Expect(">");
      if (t->name == "Optional") {
        if (inner->optional && error.empty()) error = "an optional of an optional";
        *t = *inner;
        t->optional = true;
      } else {
        t->name = "vector";
        t->element = inner;
      }
      return t;
    }
    static const std::set<std::string> known = {"bool", "double", "int64_t", "uint64_t", "std::chrono::microseconds", "std::string"};
    if (known.count(t->name)) return t;
    const auto cit = structs.find(t->name);
    if (cit == structs.end()) {
      if (error.empty()) error = "no type " + t->name;
      return t;
    }
    *t = *cit->second;
    return t;
  }
  void Read() {
    while (error.empty()) {
      Ws();
      if (p == text.size()) break;
      if (Lit("CURRENT_STRUCT")) {
        Expect("(");
        const std::string name = Id();
        Expect(")");
        Expect("{");
        auto t = std::make_shared<Ty>();
        t->name = "struct";
        while (error.empty() && !Lit("}")) {
          Expect("CURRENT_FIELD");
          Expect("(");
          const std::string field = Id();
          Expect(",");
          const T type = Type();
          Expect(")");
          Expect(";");
          if (error.empty() && (!t->fields.emplace(field, type).second || field == name)) error = "the field " + field + " again";
        }
        Expect(";");
        if (error.empty() && !structs.emplace(name, t).second) error = "the struct " + name + " again";
      } else {
        Expect("using");
        top_name = Id();
        Expect("=");
        top = Type();
        Expect(";");
        Ws();
        if (error.empty() && p != text.size()) error = "text after the end";
        if (error.empty() && structs.count(top_name)) error = "the top level name is taken";
        return;
      }
    }
    if (error.empty()) error = "no top level type";
  }
};

// Does the value hold nothing which a type could be given to?
inline bool Nothing(const J& v) {
  if (v.kind == J::Null) return true;
  if (v.kind != J::Arr) return false;
  for (const J& e : v.a) {
    if (!Nothing(e)) return false;
  }
  return true;
}

// What parsing this value into this type and printing it gives, up to the fields which are not there. Empty if it does not parse.
inline std::string Accepts(const T& t, const J& v, const std::string& path) {
  if (v.kind == J::Null) return t->optional ? "" : "null at " + path;
  long long x;
  if (t->name == "bool") return v.kind == J::Bool ? "" : "not a bool at " + path;
  if (t->name == "std::string") return v.kind == J::Str ? "" : "not a string at " + path;
  if (t->name == "double") return v.kind == J::Num ? "" : "not a number at " + path;
  if (t->name == "int64_t" || t->name == "std::chrono::microseconds") return v.kind == J::Num && FitsInt64(v, x) ? "" : "not an integer at " + path;
  if (t->name == "uint64_t") return v.kind == J::Num && FitsInt64(v, x) && x >= 0 ? "" : "not an unsigned at " + path;
  if (t->name == "vector") {
    if (v.kind != J::Arr) return "not an array at " + path;
    for (const J& e : v.a) {
      if (EmptyArray(e) && t->element->name != "vector") continue;
      const std::string r = Accepts(t->element, e, path + "[]");
      if (!r.empty()) return r;
    }
    return "";
  }
  if (v.kind != J::Obj) return "not an object at " + path;
  for (const auto& f : t->fields) {
    const J* inner = v.Find(f.first);
    if (!inner) {
      if (!f.second->optional) return "no " + path + "." + f.first;
    } else if (EmptyArray(*inner) && f.second->name != "vector") {
      // Nothing to ask for: an empty array where others have something else.
    } else {
      const std::string r = Accepts(f.second, *inner, path + "." + f.first);
      if (!r.empty()) return r;
    }
  }
  for (const auto& f : v.o) {
    if (!t->fields.count(f.first) && !Nothing(f.second)) return "the schema has no " + path + "." + f.first;
  }
  return "";
}

// -- The generator. --

struct Shape {
  int kind;  // 0 bool, 1 string, 2 natural, 3 integer, 4 microseconds, 5 mixed numbers, 6 double, 7 array, 8 object, 9 nothing but nulls.
  unsigned nulls = 0, missing = 0;  // Per ten.
  std::vector<std::pair<std::string, Shape>> fields;
};

struct Generator {
  pbt::Src& s;
  bool compile;
  std::vector<std::string> strings;
  Generator(pbt::Src& s, bool compile) : s(s), compile(compile) {
    for (size_t i = s.Size(1, 4); i; --i) strings.push_back(s.Bool() ? s.Ascii(6) : Text(5));
  }
  std::string Text(size_t n) {
    std::string r;
    for (const char c : s.Utf8(n)) {
      if (c) r += c;
    }
    return r;
  }
  std::string Name() {
    static const std::vector<std::string> names = {"a", "b", "c", "a_b", "b_a", "a_Element", "Element", "Object", "b_Object", "a_Object", "_", "x1", "a_Object_", "_a", "a_", "foo", "barBaz", "A"};
    return s.OneOf(names);
  }
  Shape MakeShape(int depth) {
    Shape r;
    r.kind = int(depth > 0 ? s.Weighted({2, 4, 3, 2, 1, 2, 2, 5, 8, 1}) : s.Weighted({2, 4, 3, 2, 1, 2, 2, 0, 1, 1}));
    if (s.Chance(1, 3)) r.nulls = unsigned(s.Size(1, 6));
    if (s.Chance(1, 3)) r.missing = unsigned(s.Size(1, 6));
    if (r.kind == 7) {
      r.fields.emplace_back("", MakeShape(depth - 1));
      if (!s.Chance(1, 3)) r.fields[0].second.nulls = 0;
    } else if (r.kind == 8 && depth > 0) {
      std::set<std::string> seen;
      for (size_t i = s.Size(0, 4); i; --i) {
        const std::string n = Name();
        if (seen.insert(n).second) r.fields.emplace_back(n, MakeShape(depth - 1));
      }
    }
    return r;
  }
  J Integer(bool negative) {
    if (s.Chance(1, 8)) {
      static const std::vector<std::string> edges = {"9223372036854775807", "9223372036854775806", "4294967296", "2147483648", "0"};
      static const std::vector<std::string> negative_edges = {"-9223372036854775808", "-9223372036854775807", "-1", "-2147483649", "-0"};
      return J::Number(negative && s.Bool() ? s.OneOf(negative_edges) : s.OneOf(edges));
    }
    return J::Number(std::to_string(s.Int(negative ? -1000 : 0, 1000)));
  }
  J Double() {
    if (s.Chance(1, 10)) return J::Number(s.OneOf(std::vector<std::string>{"9223372036854775808", "18446744073709551615", "1e10", "1.0", "-0.0", "1E+2", "0.1", "-9223372036854775809"}));
    char buf[40];
    snprintf(buf, sizeof buf, "%.2f", double(s.Int(-10000, 10000)) / 100);
    return J::Number(buf);
  }
  J Value(const Shape& h) {
    if (h.nulls && s.Chance(h.nulls, 10)) return J();
    switch (h.kind) {
      case 0: return J::B(s.Bool());
      case 1: return J::S(s.OneOf(strings));
      case 2: return Integer(false);
      case 3: return Integer(true);
      case 4: {
        if (s.Chance(1, 4)) return J::Number(s.OneOf(std::vector<std::string>{"315561600000000", "8835983999999999", s.Bool() ? "315561599999999" : "8835984000000000"}));
        return J::Number(std::to_string(1500000000000000ll + s.Int(-1000000, 1000000)));
      }
      case 5: return s.Bool() ? Double() : Integer(true);
      case 6: return Double();
      case 7: {
        J r = J::A();
        for (size_t i = s.Size(0, 3); i; --i) r.a.push_back(Value(h.fields[0].second));
        return r;
      }
      case 8: {
        J r = J::O();
        std::vector<const std::pair<std::string, Shape>*> f;
        for (const auto& x : h.fields) f.push_back(&x);
        if (s.Chance(1, 4)) {
          for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[s.Draw(i - 1)]);
        }
        for (const auto* x : f) {
          if (x->second.missing && s.Chance(x->second.missing, 10)) continue;
          r.o.emplace_back(x->first, Value(x->second));
        }
        return r;
      }
      default: return J();
    }
  }
  // Something of another kind, or a name which can not be one, at a random place.
  void Spoil(J& v) {
    if (!v.a.empty() && s.Chance(3, 4)) return Spoil(v.a[s.Draw(v.a.size() - 1)]);
    if (!v.o.empty() && s.Chance(3, 4)) {
      auto& f = v.o[s.Draw(v.o.size() - 1)];
      if (s.Chance(1, 5)) {
        f.first = s.OneOf(std::vector<std::string>{"1a", "a-b", "class", "", "a b", "null", "\xc3\xa9", "a.b", "for"});
      } else {
        Spoil(f.second);
      }
      return;
    }
    switch (s.Draw(6)) {
      case 0: v = J(); break;
      case 1: v = J::B(true); break;
      case 2: v = J::S("x"); break;
      case 3: v = Integer(true); break;
      case 4: v = J::A(); break;
      case 5: v = J::A({J::A()}); break;
      default: v = J::O(); break;
    }
  }
  std::vector<J> Records() {
    Shape h = MakeShape(s.Chance(1, 8) ? 4 : 3);
    if (s.Chance(9, 10)) {
      h.nulls = 0;
      if (h.kind < 7 || h.kind == 9) h = Shape{8, 0, 0, {{Name(), h}}};
    }
    std::vector<J> r;
    for (size_t i = 1 + s.Len(9); i; --i) r.push_back(Value(h));
    if (s.Chance(1, compile ? 12 : 5)) Spoil(r[s.Draw(r.size() - 1)]);
    if (s.Chance(1, 40)) {
      for (J& v : r) {
        if (!v.o.empty()) {
          v.o.push_back(v.o[s.Draw(v.o.size() - 1)]);  // A name again.
          break;
        }
      }
    }
    return r;
  }
};

// Only the first one of the fields with the same name counts, unless it is an empty array.
inline void DropRepeated(J& v) {
  for (J& e : v.a) DropRepeated(e);
  std::vector<std::pair<std::string, J>> o;
  for (auto& f : v.o) {
    DropRepeated(f.second);
    bool seen = false;
    for (auto& x : o) {
      if (x.first == f.first) {
        seen = true;
        if (EmptyArray(x.second)) x.second = f.second;
      }
    }
    if (!seen) o.push_back(f);
  }
  v.o = std::move(o);
}

inline std::string Lines(pbt::Src& s, const std::vector<J>& records) {
  std::string r;
  const bool last = s.Chance(9, 10);
  for (size_t i = 0; i < records.size(); ++i) {
    r += mj::Print(records[i], s.Chance(1, 6) ? " " : "");
    if (i + 1 < records.size() || last) r += '\n';
  }
  return r;
}

}  // namespace p35
