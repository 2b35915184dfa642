// Random type declarations: what P15 and P16 generate programs from.
#pragma once
#include <fcntl.h>
#include <sys/wait.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.h"

namespace decl {
struct Prim {
  const char* cpp;
  uint64_t id;
};
static const Prim prims[] = {{"int32_t", 33}, {"std::string", 42}, {"bool", 11}, {"uint8_t", 21}, {"uint16_t", 22}, {"uint32_t", 23}, {"uint64_t", 24}, {"int8_t", 31}, {"int16_t", 32}, {"int64_t", 34}, {"char", 41}, {"float", 51}, {"double", 52}, {"std::chrono::microseconds", 61}, {"std::chrono::milliseconds", 62}};
enum Kind { PRIM, ENUM, STRUCT, VARIANT, ARRAY, VECTOR, SET, USET, PAIR, MAP, UMAP, OPT, TEMPL, TPARAM };
struct Ty {
  Kind k = PRIM;
  size_t i = 0;  // The primitive, the declaration, or the size of the array.
  std::vector<Ty> a;
  bool operator==(const Ty& r) const { return k == r.k && i == r.i && a == r.a; }
};
struct Field {
  std::string name;
  Ty t;
  bool described = false;
  std::string description;
};
struct Decl {
  Kind k = STRUCT;  // ENUM, STRUCT, VARIANT, TEMPL.
  std::string name;
  size_t prim = 0;  // Of the enum.
  std::vector<std::pair<std::string, int>> values;
  int super = -1;
  int level = 0;
  std::vector<Field> fields;
  std::vector<size_t> cases;  // Structures.
  bool anonymous = false;     // A `Variant<...>`, not a `CURRENT_VARIANT`.
  bool recursive = false;
};
struct World {
  std::vector<Decl> d;

  std::string Z(const Ty& t) const {  // As the type IDs have it.
    switch (t.k) {
      case PRIM: return prims[t.i].cpp;
      case ENUM: case STRUCT: return d[t.i].name;
      case VARIANT: {
        if (!d[t.i].anonymous) return d[t.i].name;
        std::string r = "Variant_B";
        for (size_t c : d[t.i].cases) r += "_" + d[c].name;
        return r + "_E";
      }
      case TEMPL: return d[t.i].name + "_Z";
      default: return Container(t, [&](const Ty& x) { return Z(x); });
    }
  }
  std::string Cpp(const Ty& t, const std::string& self = "") const {
    switch (t.k) {
      case VARIANT: {
        if (!d[t.i].anonymous) return d[t.i].name;
        std::string r;
        for (size_t c : d[t.i].cases) r += (r.empty() ? "Variant<" : ", ") + d[c].name;
        return r + ">";
      }
      case TEMPL: return d[t.i].name + "<" + Cpp(t.a[0]) + ">";
      case TPARAM: return "T";
      case PRIM: case ENUM: case STRUCT: return Z(t);
      default: return Container(t, [&](const Ty& x) { return Cpp(x); });
    }
  }
  template <class F>
  static std::string Container(const Ty& t, F f) {
    switch (t.k) {
      case ARRAY: return "std::array<" + f(t.a[0]) + ", " + std::to_string(t.i) + ">";
      case VECTOR: return "std::vector<" + f(t.a[0]) + ">";
      case SET: return "std::set<" + f(t.a[0]) + ">";
      case USET: return "std::unordered_set<" + f(t.a[0]) + ">";
      case PAIR: return "std::pair<" + f(t.a[0]) + ", " + f(t.a[1]) + ">";
      case MAP: return "std::map<" + f(t.a[0]) + ", " + f(t.a[1]) + ">";
      case UMAP: return "std::unordered_map<" + f(t.a[0]) + ", " + f(t.a[1]) + ">";
      case OPT: return "Optional<" + f(t.a[0]) + ">";
      default: return "?";
    }
  }
  static Ty Instantiate(const Ty& t, const Ty& inner) {
    if (t.k == TPARAM) return inner;
    Ty r = t;
    for (auto& x : r.a) x = Instantiate(x, inner);
    return r;
  }
  static std::string Literal(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      char b[8];
      snprintf(b, sizeof(b), "\\%03o", c);
      r += b;
    }
    return r + "\"";
  }
  std::string Declaration(size_t i) const {
    const Decl& x = d[i];
    std::string r;
    if (x.k == ENUM) {
      r = "CURRENT_ENUM(" + x.name + ", " + prims[x.prim].cpp + ") {";
      for (auto& v : x.values) r += (r.back() == '{' ? "" : ", ") + v.first + " = " + std::to_string(v.second);
      return r + "};\n";
    }
    if (x.k == VARIANT) {
      if (x.anonymous) return "";
      r = "CURRENT_VARIANT(" + x.name;
      for (size_t c : x.cases) r += ", " + d[c].name;
      return r + ");\n";
    }
    r = std::string(x.k == TEMPL ? "CURRENT_STRUCT_T(" : "CURRENT_STRUCT(") + x.name + (x.super >= 0 ? ", " + d[x.super].name : "") + ") {\n";
    for (auto& f : x.fields) {
      const std::string t = Cpp(f.t);
      r += "  CURRENT_FIELD(" + f.name + ", " + (t.find(',') == std::string::npos ? t : "(" + t + ")") + ");\n";
      if (f.described) r += "  CURRENT_FIELD_DESCRIPTION(" + f.name + ", " + Literal(f.description) + ");\n";
    }
    return r + "};\n";
  }
  std::string Declarations() const {
    std::string r;
    for (size_t i = 0; i < d.size(); ++i) r += Declaration(i);
    return r;
  }
  std::string Key(const Ty& t) const {
    std::string r = std::to_string(t.k) + "." + std::to_string(t.i);
    for (auto& x : t.a) r += "(" + Key(x) + ")";
    return r;
  }

  // The reference for type IDs.
  static constexpr uint64_t R = 10000000000000000ull;
  static uint64_t Rol(uint64_t x, unsigned n) { return n &= 63, n ? (x << n) | (x >> (64 - n)) : x; }
  static uint32_t Crc(const std::string& s) {
    uint32_t c = ~0u;
    for (unsigned char b : s) {
      c ^= b;
      for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xedb88320u : c >> 1;
    }
    return ~c;
  }
  uint64_t Id(const Ty& top) const {
    std::map<std::string, uint64_t> cache;
    return Id(top, cache);
  }
  uint64_t Id(const Ty& t, std::map<std::string, uint64_t>& cache) const {
    const std::string key = Key(t);
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    cache[key] = 999 * R + Crc(Z(t));  // For those which refer back to this one.
    uint64_t r = 0;
    auto in = [&](const Ty& x) { return Id(x, cache); };
    switch (t.k) {
      case PRIM: r = 900 * R + prims[t.i].id; break;
      case ENUM: in(Ty{PRIM, d[t.i].prim, {}}); r = 901 * R + Crc(d[t.i].name); break;
      case OPT: r = 921 * R + Rol(in(t.a[0]), 5) % R; break;
      case VARIANT: {
        uint64_t h = Crc(Z(t)), n = 0;
        for (size_t c : d[t.i].cases) h ^= Rol(in(Ty{STRUCT, c, {}}), n++ * 3 + 17);
        r = 922 * R + h % R;
        break;
      }
      case ARRAY: r = 930 * R + Rol(in(t.a[0]), 3) % R + Rol(t.i, 7); break;
      case VECTOR: r = 931 * R + Rol(in(t.a[0]), 3) % R; break;
      case SET: { const uint64_t v = in(t.a[0]); r = 932 * R + (Rol(v, 5) ^ Rol(v, 11)) % R; break; }
      case USET: { const uint64_t v = in(t.a[0]); r = 935 * R + (Rol(v, 5) ^ Rol(v, 11)) % R; break; }
      case PAIR: case MAP: case UMAP: {
        const uint64_t k = in(t.a[0]), v = in(t.a[1]);
        r = (t.k == PAIR ? 933 : t.k == MAP ? 934 : 936) * R + (Rol(k, 5) ^ Rol(v, 11)) % R;
        break;
      }
      default: {  // STRUCT, TEMPL.
        const Decl& x = d[t.i];
        uint64_t base = 1;
        if (x.super >= 0) base = in(Ty{STRUCT, size_t(x.super), {}});
        std::string name = x.name;
        if (t.k == TEMPL) name += "_T" + std::to_string(in(t.a[0]));
        uint64_t h = Crc(name) ^ Rol(base ^ 1, 7), n = 0;
        for (auto& f : x.fields) {
          h ^= Rol(in(t.k == TEMPL ? Instantiate(f.t, t.a[0]) : f.t), n + 17) ^ Rol(Crc(f.name), n + 29);
          ++n;
        }
        r = 920 * R + h % R;
      }
    }
    return cache[key] = r;
  }

  // A value, as its JSON, which `JSON()` gives in the same form.
  std::string Value(pbt::Src& s, const Ty& t, int depth = 0) const {
    auto num = [&](int64_t lo, int64_t hi) { return std::to_string(s.Int(lo, hi)); };
    auto integer = [&](size_t p) -> std::string {
      switch (prims[p].id) {
        case 21: return num(0, 255);
        case 22: return num(0, 65535);
        case 23: return num(0, 4294967295ll);
        case 24: return s.Bool() ? num(0, 100) : std::to_string(s.U64());
        case 31: return num(-128, 127);
        case 32: return num(-32768, 32767);
        case 33: return num(-2147483648ll, 2147483647);
        default: return s.Bool() ? num(-100, 100) : std::to_string(s.I64());
      }
    };
    auto count = [&](size_t max) { return depth > 4 ? size_t(0) : size_t(s.Draw(max)); };
    switch (t.k) {
      case PRIM:
        switch (prims[t.i].id) {
          case 11: return s.Bool() ? "true" : "false";
          case 41: return num(0, 127);
          case 42: {
            std::string r = "\"";
            for (size_t n = s.Len(6); n; --n) r += char(s.Int('a', 'z'));
            return r + "\"";
          }
          case 51: case 52: return std::string(s.Bool() ? "-" : "") + num(1, 1000) + s.Pick({".5", ".0", ".25"});
          default: return integer(t.i);
        }
      case ENUM: return integer(d[t.i].prim);
      case VARIANT: {
        const size_t c = s.OneOf(d[t.i].cases);
        const Ty x{STRUCT, c, {}};
        return "{\"" + d[c].name + "\":" + Value(s, x, depth + 1) + ",\"\":\"T" + std::to_string(Id(x)) + "\"}";
      }
      case ARRAY: case VECTOR: case SET: case USET: {
        const size_t n = t.k == ARRAY ? t.i : count(t.k == VECTOR ? 3 : 1);
        std::string r = "[";
        for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + Value(s, t.a[0], depth + 1);
        return r + "]";
      }
      case PAIR: return "[" + Value(s, t.a[0], depth + 1) + "," + Value(s, t.a[1], depth + 1) + "]";
      case MAP: case UMAP: {
        const bool o = t.a[0].k == PRIM && prims[t.a[0].i].id == 42;
        std::string r;
        if (count(1)) {
          const std::string k = Value(s, t.a[0], depth + 1), v = Value(s, t.a[1], depth + 1);
          r = o ? k + ":" + v : "[" + k + "," + v + "]";
        }
        return o ? "{" + r + "}" : "[" + r + "]";
      }
      case OPT: return count(1) ? Value(s, t.a[0], depth + 1) : "null";
      default: {
        std::string r;
        for (auto& f : Flat(t)) r += (r.empty() ? "" : ",") + ("\"" + f.name + "\":") + Value(s, f.t, depth + 1);
        return "{" + r + "}";
      }
    }
  }
  std::vector<Field> Flat(const Ty& t) const {
    std::vector<Field> r;
    const Decl& x = d[t.i];
    if (x.super >= 0) r = Flat(Ty{STRUCT, size_t(x.super), {}});
    for (Field f : x.fields) {
      if (t.k == TEMPL) f.t = Instantiate(f.t, t.a[0]);
      r.push_back(f);
    }
    return r;
  }

  // What the declarations before `n` allow; `self`: the structure being declared, usable behind a vector or a map.
  struct Limits {
    bool templates = true, arrays = true, recursive = true;
  };
  Ty KeyType(pbt::Src& s, bool hashable) const {
    static const std::vector<size_t> keys = {1, 0, 3, 4, 5, 6, 7, 8, 9};
    static const std::vector<size_t> more = {1, 0, 3, 6, 9, 13, 14};
    (void)hashable;
    return Ty{PRIM, s.OneOf(hashable ? keys : more), {}};
  }
  Ty Type(pbt::Src& s, size_t n, const Limits& l, int self = -1, bool tparam = false, int depth = 0) const {
    std::vector<size_t> named;
    for (size_t i = 0; i < n; ++i) {
      if (d[i].k != TEMPL || (l.templates && depth < 2)) named.push_back(i);
    }
    for (;;) {
      switch (s.Weighted({6, named.empty() ? 0u : 8u, depth < 3 ? 8u : 0u, self >= 0 ? 3u : 0u, tparam ? 8u : 0u})) {
        case 0: return Ty{PRIM, size_t(s.Draw(sizeof(prims) / sizeof(prims[0]) - 1)), {}};
        case 1: {
          const size_t i = s.OneOf(named);
          if (d[i].k == TEMPL) return Ty{TEMPL, i, {Type(s, i, Limits{false, false, false}, -1, false, depth + 2)}};
          return Ty{d[i].k, i, {}};
        }
        case 2: {
          const Kind k = s.OneOf(std::vector<Kind>{VECTOR, OPT, MAP, PAIR, SET, UMAP, USET, ARRAY});
          if (k == ARRAY && !l.arrays) continue;
          if (k == SET || k == USET) return Ty{k, 0, {KeyType(s, k == USET)}};
          if (k == MAP || k == UMAP) {
            const Ty key = KeyType(s, k == UMAP);
            return Ty{k, 0, {key, Type(s, n, l, self, tparam, depth + 1)}};
          }
          // Not by value in itself.
          const int self2 = k == VECTOR ? self : -1;
          Ty x = Type(s, n, l, self2, tparam, depth + 1);
          if (k == OPT && x.k == OPT) return x;
          if (k == PAIR) return Ty{k, 0, {x, Type(s, n, l, -1, tparam, depth + 1)}};
          return Ty{k, k == ARRAY ? size_t(s.Int(1, 3)) : 0, {x}};
        }
        case 3: return Ty{s.Bool() ? VECTOR : MAP, 0, {}}.k == VECTOR ? Ty{VECTOR, 0, {Ty{STRUCT, size_t(self), {}}}}
                                                                       : Ty{MAP, 0, {Ty{PRIM, 1, {}}, Ty{STRUCT, size_t(self), {}}}};
        default: return Ty{TPARAM, 0, {}};
      }
    }
  }
  static bool Mentions(const Ty& t, Kind k, size_t i) {
    if (t.k == k && t.i == i) return true;
    for (auto& x : t.a) if (Mentions(x, k, i)) return true;
    return false;
  }
  std::string FieldName(pbt::Src& s, const Decl& x) const {
    for (;;) {
      std::string n = s.Chance(1, 3) ? s.Pick({"name", "id", "key", "value", "fields", "type_id", "from", "into", "data", "size", "count", "cases"}) : s.Pick({"a", "b", "c", "x", "y", "z", "foo", "bar", "camelCase", "under_score"});
      if (s.Bool()) n += std::to_string(s.Draw(20));
      if (x.level) n += "_" + std::to_string(x.level);
      bool used = false;
      for (auto& f : x.fields) used |= f.name == n;
      if (!used) return n;
    }
  }
  void Generate(pbt::Src& s, const Limits& l, size_t max = 7) {
    static const char* const names[] = {"A", "B", "C", "D", "Foo", "Bar", "Alpha", "Snake_Case", "X1", "Y_", "Node", "Event"};
    const size_t n = s.Int(1, max);
    std::set<std::string> used;
    for (size_t i = 0; i < n; ++i) {
      Decl x;
      x.name = names[s.Draw(11)];
      while (!used.insert(x.name).second) x.name += char('a' + s.Draw(25));
      std::vector<size_t> structs;
      for (size_t j = 0; j < i; ++j) if (d[j].k == STRUCT) structs.push_back(j);
      x.k = std::vector<Kind>{STRUCT, VARIANT, ENUM, TEMPL}[s.Weighted({8, structs.empty() ? 0u : 3u, 2, l.templates ? 2u : 0u})];
      if (x.k == ENUM) {
        x.prim = s.OneOf(std::vector<size_t>{4, 3, 5, 6, 7, 8, 0, 9});
        for (size_t v = s.Draw(2), k = 0; k < v; ++k) x.values.emplace_back("v" + std::to_string(k), int(s.Draw(100)));
      } else if (x.k == VARIANT) {
        x.anonymous = s.Chance(1, 3);
        std::set<size_t> c;
        for (size_t k = s.Int(1, 4); k; --k) {
          const size_t j = s.OneOf(structs);
          if (c.insert(j).second) x.cases.push_back(j);
        }
        if (x.anonymous) {  // The same one is the same type.
          for (auto& y : d) if (y.k == VARIANT && y.anonymous && y.cases == x.cases) x.anonymous = false;
        }
      } else {
        if (x.k == STRUCT && !structs.empty() && s.Chance(1, 4)) {
          x.super = int(s.OneOf(structs));
          x.level = d[x.super].level + 1;
        }
        for (size_t m = s.Len(5); m; --m) {
          Field f;
          f.name = FieldName(s, x);
          f.t = Type(s, i, l, x.k == STRUCT && l.recursive && s.Chance(1, 4) ? int(i) : -1, x.k == TEMPL);
          x.recursive |= Mentions(f.t, STRUCT, i);
          if (s.Chance(1, 6)) {
            f.described = true;
            f.description = s.Bool() ? s.Ascii(20) : s.Pick({"Plain.", "Quoted \"text\".", "Two\nlines.", "A back\\slash\\n", "\?\?/ \?\?=", "", "\xd0\xb4\xd0\xb0", "%s", "a\tb"});
          }
          x.fields.push_back(f);
        }
      }
      d.push_back(x);
    }
  }
  // The types which have values: structures, variants, and templates with some parameter.
  std::vector<Ty> Roots(pbt::Src& s) const {
    std::vector<Ty> r;
    for (size_t i = 0; i < d.size(); ++i) {
      if (d[i].k == TEMPL) {
        r.push_back(Ty{TEMPL, i, {Type(s, i, Limits{false, false, false}, -1, false, 2)}});
      } else if (d[i].k != ENUM) {
        r.push_back(Ty{d[i].k, i, {}});
      }
    }
    return r;
  }
};

inline void Write(const std::string& fn, const std::string& text) { std::ofstream(fn) << text; }
inline std::string Read(const std::string& fn) {
  std::ifstream f(fn);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
inline bool Compile(const std::string& dir, const std::string& name, std::string& errors) {
  const std::string cmd = "cd " + dir + " && timeout 100 clang++ -std=c++17 -w -DCURRENT_CI -O0 -fno-color-diagnostics -ferror-limit=3 -ftemplate-backtrace-limit=2 -Xclang -fno-pch-timestamp -include-pch " PCH " -I. -I" REPO_ROOT " " + name + ".cc " SUPPORT " -fuse-ld=lld -o " + name + " > " + name + ".log 2>&1";
  if (system(cmd.c_str()) == 0) return true;
  const std::string log = Read(dir + "/" + name + ".log");
  if (log.find("precompiled header") != std::string::npos || log.find("PCH file") != std::string::npos) return false;
  std::istringstream is(log);
  std::string line;
  for (int n = 0; n < 12 && std::getline(is, line);) {
    if (line.find("error:") != std::string::npos || line.find("note: in inst") != std::string::npos) {
      errors += line.substr(0, 400) + "\n";
      ++n;
    }
  }
  return false;
}
inline int Run(const std::string& dir, const std::string& name, const std::string& args = "") {
  const int rc = system(("cd " + dir + " && timeout 60 ./" + name + " " + args + " > " + name + ".out 2> " + name + ".err").c_str());
  return rc;
}
}  // namespace decl
