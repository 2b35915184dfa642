// P16: schema evolution, over generated programs.
#include "declarations.h"
#include "minijson.h"

PBT_CHECK("P16", "exploration",
          "A case is a random set of up to six declarations, exported as a schema, and its next version, where fields are reordered, "
          "enums widened, variants extended, and some structures changed along with a custom evolver for each (a field added, removed, "
          "renamed or altered; a variant case dropped), compiled together. Random values are evolved into the very same schema, and "
          "into the next version, into new and into used objects; the results are compared as JSON with a reference which "
          "transforms the JSON. Non-trivial: at least three declarations.");

namespace {
using namespace decl;
using mj::J;

const char* kOne = R"(
int main() {
  using namespace current::reflection;
  StructSchema s;
ADD
  std::ofstream("exported.h") << SchemaAsSource(s.GetSchemaInfo(), "X");
}
)";
const char* kTwo = R"(
struct Fn {
  std::string (*same)(const std::string&);
  std::string (*next)(const std::string&);
  std::string (*reuse)(const std::string&, const std::string&);
};
template <class E, class I, class F, class T> void Go(const F& from, T& into) { current::type_evolution::Evolve<X, F, E>::template Go<I>(from, into); }
template <class F> std::string Same(const std::string& s) {
  F into;
  Go<current::type_evolution::NaturalEvolver, X>(ParseJSON<F>(s), into);
  return JSON(into);
}
template <class F, class T> std::string Next(const std::string& s) {
  T into;
  Go<current::type_evolution::EVOLVER, Y>(ParseJSON<F>(s), into);
  return JSON(into);
}
template <class F, class T> std::string Reuse(const std::string& s, const std::string& s2) {
  T into;
  Go<current::type_evolution::EVOLVER, Y>(ParseJSON<F>(s), into);
  Go<current::type_evolution::EVOLVER, Y>(ParseJSON<F>(s2), into);
  return JSON(into);
}
static const Fn fns[] = {
FNS
};
int main() {
  std::ifstream f("in");
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    size_t k;
    std::string c, t, t2;
    is >> c >> k >> t >> t2;
    try {
      std::cout << (c == "same" ? fns[k].same(t) : c == "next" ? fns[k].next(t) : fns[k].reuse(t, t2)) << std::endl;
    } catch (const std::exception& e) {
      std::cout << "EXCEPTION " << e.what() << std::endl;
    }
  }
}
)";
void Replace(std::string& s, const std::string& what, const std::string& with) {
  for (size_t i = 0; (i = s.find(what, i)) != std::string::npos; i += with.size()) s.replace(i, what.size(), with);
}
struct Custom {
  enum What { ADD, REMOVE, RENAME, ALTER, DROP };
  What what = ADD;
  size_t field = 0, dropped = 0;
};
struct Versions {
  World w, v;
  std::map<size_t, Custom> custom;

  J Evolve(const J& x, const Ty& t) const {
    switch (t.k) {
      case VECTOR: {
        J r = J::A();
        for (auto& e : x.a) r.a.push_back(Evolve(e, t.a[0]));
        return r;
      }
      case PAIR: return J::A({Evolve(x.a[0], t.a[0]), Evolve(x.a[1], t.a[1])});
      case MAP: {
        J r = x;
        for (auto& e : r.o) e.second = Evolve(e.second, t.a[1]);
        for (auto& e : r.a) e = J::A({e.a[0], Evolve(e.a[1], t.a[1])});
        return r;
      }
      case OPT: return x.kind == J::Null ? x : Evolve(x, t.a[0]);
      case VARIANT: {
        for (size_t c : w.d[t.i].cases) {
          if (w.d[c].name != x.o[0].first) continue;
          auto it = custom.find(t.i);
          if (it != custom.end() && it->second.dropped == c) return J();
          const Ty ct{STRUCT, c, {}};
          return J::O({{w.d[c].name, Evolve(x.o[0].second, ct)}, {"", J::S("T" + std::to_string(v.Id(ct)))}});
        }
        return J();
      }
      case STRUCT: {
        J r = J::O();
        Fields(x, t.i, r);
        return r;
      }
      case TEMPL: {
        J r = J::O();
        for (auto& f : w.d[t.i].fields) r.o.emplace_back(f.name, Evolve(*x.Find(f.name), World::Instantiate(f.t, t.a[0])));
        return r;
      }
      default: return x;
    }
  }
  void Fields(const J& x, size_t i, J& r) const {
    const Decl &a = w.d[i], &b = v.d[i];
    if (a.super >= 0) Fields(x, a.super, r);
    auto it = custom.find(i);
    for (auto& f : b.fields) {
      if (it != custom.end() && it->second.what == Custom::ADD && f.name == "added") {
        r.o.emplace_back(f.name, J::Number("42"));
        continue;
      }
      const Field* g = nullptr;
      for (auto& y : a.fields) if (y.name == f.name) g = &y;
      if (it != custom.end() && it->second.what == Custom::RENAME && f.name == "renamed") g = &a.fields[it->second.field];
      J y = Evolve(*x.Find(g->name), g->t);
      if (it != custom.end() && it->second.what == Custom::ALTER && g == &a.fields[it->second.field]) {
        if (y.kind == J::Str) y.s = "evolved" + y.s;
        if (y.kind == J::Bool) y.b = !y.b;
      }
      r.o.emplace_back(f.name, y);
    }
  }
};
std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> r;
  std::istringstream is(s);
  for (std::string line; std::getline(is, line);) r.push_back(line);
  return r;
}
bool Evolvable(const World& w, const Ty& t) {
  if (t.k == SET || t.k == USET || t.k == UMAP || t.k == ARRAY) return false;
  for (auto& x : t.a) if (!Evolvable(w, x)) return false;
  return true;
}
void Mentioned(const World& w, const Ty& t, std::vector<Ty>& r) {
  if (t.k == TEMPL) {
    bool there = false;
    for (auto& x : r) there |= x == t;
    if (there) return;
    r.push_back(t);
    for (auto& f : w.d[t.i].fields) Mentioned(w, World::Instantiate(f.t, t.a[0]), r);
  }
  for (auto& x : t.a) Mentioned(w, x, r);
}
}  // namespace

PBT_PROP(programs, o.weight = 1; o.hang_s = 300) {
  Versions z;
  World& w = z.w;
  World& v = z.v;
  World::Limits l;
  l.arrays = false;
  l.templates = TEMPLATES;
  w.Generate(s, l, 6);
  for (auto& x : w.d) {
    std::vector<Field> keep;
    for (auto& f : x.fields) if (Evolvable(w, f.t)) keep.push_back(f);
    x.fields = keep;
  }
  std::vector<Ty> roots;
  for (auto& t : w.Roots(s)) if (Evolvable(w, t)) roots.push_back(t);
  if (roots.empty()) s.Discard();
  // The next version.
  v = w;
  std::string evolvers;
  for (size_t i = 0; i < v.d.size(); ++i) {
    Decl& x = v.d[i];
    if (x.k == ENUM) {
      if (s.Chance(1, 3)) x.prim = prims[x.prim].id < 30 ? 6 : 9;
    } else if (x.k == VARIANT) {
      for (size_t k = x.cases.size(); k-- > 1;) std::swap(x.cases[k], x.cases[s.Draw(k)]);
      if (s.Bool()) {
        const size_t c = s.Draw(i - 1);
        if (w.d[c].k == STRUCT && std::find(x.cases.begin(), x.cases.end(), c) == x.cases.end()) x.cases.push_back(c);
      }
      if (!x.anonymous && s.Chance(1, 4)) {
        Custom c;
        c.what = Custom::DROP;
        c.dropped = s.OneOf(w.d[i].cases);
        evolvers += "CURRENT_VARIANT_EVOLVER(Evolver, X, " + x.name + ", Y) {\n";
        for (size_t k : w.d[i].cases) evolvers += std::string(k == c.dropped ? "  CURRENT_DROP_CASE(" : "  CURRENT_COPY_CASE(") + w.d[k].name + ");\n";
        evolvers += "};\n";
        z.custom[i] = c;
      }
    } else if (x.k == STRUCT) {
      if (s.Chance(1, 3)) for (size_t k = x.fields.size(); k-- > 1;) std::swap(x.fields[k], x.fields[s.Draw(k)]);
      if (s.Chance(1, 3)) {
        Custom c;
        c.what = Custom::What(s.Draw(3));
        if (c.what != Custom::ADD && x.fields.empty()) c.what = Custom::ADD;
        if (c.what != Custom::ADD) c.field = s.Draw(x.fields.size() - 1);
        const auto& fields = w.d[i].fields;
        size_t at = 0;
        for (size_t k = 0; k < x.fields.size(); ++k) if (!fields.empty() && x.fields[k].name == fields[c.field].name) at = k;
        if (c.what == Custom::ALTER && fields[c.field].t.k != PRIM) c.what = Custom::REMOVE;
        if (c.what == Custom::ALTER && prims[fields[c.field].t.i].id != 42 && prims[fields[c.field].t.i].id != 11) c.what = Custom::RENAME;
        evolvers += "CURRENT_STRUCT_EVOLVER(Evolver, X, " + x.name + ", {\n";
        if (x.super >= 0) evolvers += "  CURRENT_COPY_SUPER(" + w.d[x.super].name + ");\n";
        for (size_t k = 0; k < fields.size(); ++k) {
          const std::string n = fields[k].name;
          if (c.what == Custom::REMOVE && k == c.field) continue;
          if (c.what == Custom::RENAME && k == c.field) {
            evolvers += "  CURRENT_NATURAL_EVOLVE(X, INTO, from." + n + ", into.renamed);\n";
          } else if (c.what == Custom::ALTER && k == c.field) {
            evolvers += prims[fields[k].t.i].id == 42 ? "  into." + n + " = \"evolved\" + from." + n + ";\n" : "  into." + n + " = !from." + n + ";\n";
          } else {
            evolvers += "  CURRENT_COPY_FIELD(" + n + ");\n";
          }
        }
        if (c.what == Custom::ADD) {
          evolvers += "  into.added = 42;\n";
          Field f;
          f.name = "added";
          x.fields.push_back(f);
        }
        evolvers += "});\n";
        if (c.what == Custom::REMOVE) x.fields.erase(x.fields.begin() + at);
        if (c.what == Custom::RENAME) x.fields[at].name = "renamed";
        z.custom[i] = c;
      }
    }
  }
  const std::string dir = s.Scratch();
  std::string one = "namespace w {\n" + w.Declarations();
  for (size_t i = 0; i < roots.size(); ++i) one += "using T" + std::to_string(i) + " = " + w.Cpp(roots[i]) + ";\n";
  one += "}\n";
  std::string add;
  for (size_t i = 0; i < roots.size(); ++i) add += "  s.AddType<w::T" + std::to_string(i) + ">();\n";
  std::string main1 = kOne;
  Replace(main1, "ADD", add);
  // The types as the evolvers name them.
  std::vector<Ty> templates;
  for (auto& r : roots) Mentioned(w, r, templates);
  for (auto& x : w.d) if (x.k == STRUCT) for (auto& f : x.fields) Mentioned(w, f.t, templates);
  auto external = [&](const Ty& t) { return t.k == TEMPL ? w.d[t.i].name + "_T" + std::to_string(w.Id(t.a[0])) : w.Z(t); };
  std::string two = "namespace v {\n" + v.Declarations() + "}\nnamespace vt {\nusing namespace v;\n";
  std::string names;
  for (size_t i = 0; i < w.d.size(); ++i) {
    if (w.d[i].k == TEMPL) continue;
    const Ty t{w.d[i].k, i, {}};
    two += "using V" + std::to_string(i) + " = " + v.Cpp(t) + ";\n";
    names += "  CURRENT_NAMESPACE_TYPE(" + w.Z(t) + ", vt::V" + std::to_string(i) + ");\n";
  }
  for (size_t i = 0; i < templates.size(); ++i) {
    two += "using W" + std::to_string(i) + " = " + v.Cpp(templates[i]) + ";\n";
    names += "  CURRENT_NAMESPACE_TYPE(" + external(templates[i]) + ", vt::W" + std::to_string(i) + ");\n";
  }
  two += "}\nCURRENT_NAMESPACE(Y) {\n" + names + "};\n" + evolvers;
  std::string fns;
  for (auto& t : roots) fns += "  {&Same<X::" + external(t) + ">, &Next<X::" + external(t) + ", Y::" + external(t) + ">, &Reuse<X::" + external(t) + ", Y::" + external(t) + ">},\n";
  std::string main2 = kTwo;
  Replace(main2, "FNS", fns);
  Replace(main2, "EVOLVER", evolvers.empty() ? "NaturalEvolver" : "Evolver");
  const std::string source = one + two;
  if (s.Describing()) s.Note(source);
  if (w.d.size() >= 3) s.NonTrivial(pbt::Hash(source));
  s.Label(z.custom.empty() ? "no custom evolvers" : "custom evolvers");
  Write(dir + "/one.cc", one + main1);
  Write(dir + "/two.cc", "#include \"exported.h\"\n" + two + main2);
  Write(dir + "/current.h", "");
  std::vector<std::string> expected;
  std::string in;
  bool drops = false;
  for (auto& c : z.custom) drops |= c.second.what == Custom::DROP;
  for (size_t i = 0; i < roots.size(); ++i) {
    std::string last;
    for (int k = 0; k < 4; ++k) {
      const std::string t = w.Value(s, roots[i]);
      J j;
      if (!mj::Parse(t, j)) s.Discard();
      in += "same " + std::to_string(i) + " " + t + "\n";
      expected.push_back(t);
      const std::string next = mj::Print(z.Evolve(j, roots[i]));
      in += "next " + std::to_string(i) + " " + t + "\n";
      expected.push_back(next);
      if (k && !drops) {
        in += "reuse " + std::to_string(i) + " " + last + " " + t + "\n";
        expected.push_back(next);
      }
      last = t;
    }
  }
  Write(dir + "/in", in);
  std::string errors;
  if (!Compile(dir, "one", errors)) {
    if (errors.empty()) s.Discard();
    s.Fail("declarations-do-not-compile", errors + source);
  }
  s.Check(Run(dir, "one") == 0, "program-fails", [&] { return source + Read(dir + "/one.err"); });
  if (!Compile(dir, "two", errors)) {
    if (errors.empty()) s.Discard();
    s.Fail("evolution-does-not-compile", errors + source);
  }
  s.Check(Run(dir, "two") == 0, "evolution-fails", [&] { return source + Read(dir + "/two.err"); });
  const std::vector<std::string> out = Lines(Read(dir + "/two.out")), what = Lines(in);
  s.Check(out.size() == expected.size(), "output", [&] { return source; });
  for (size_t i = 0; i < out.size(); ++i) {
    s.Check(out[i] == expected[i], what[i].substr(0, 4).c_str(), [&] { return source + "evolving " + what[i] + "\nexpected " + expected[i] + "\nactual   " + out[i]; });
  }
}

PBT_PROBE(uninitialized_variant, "a value with an uninitialized variant can not be evolved") {
  const std::string dir = s.Scratch();
  World w;
  w.d.resize(3);
  w.d[0].name = "A";
  w.d[1].k = VARIANT;
  w.d[1].name = "V";
  w.d[1].cases = {0};
  w.d[2].name = "S";
  w.d[2].fields.resize(1);
  w.d[2].fields[0].name = "v";
  w.d[2].fields[0].t = Ty{VARIANT, 1, {}};
  std::string main1 = kOne;
  Replace(main1, "ADD", "s.AddType<w::S>();");
  Write(dir + "/one.cc", "namespace w {\n" + w.Declarations() + "}\n" + main1);
  Write(dir + "/two.cc", R"(
#include "exported.h"
int main() {
  X::S from, into;
  try {
    current::type_evolution::Evolve<X, X::S, current::type_evolution::NaturalEvolver>::Go<X>(from, into);
    std::cout << JSON(into) << std::endl;
  } catch (const std::exception& e) {
    std::cout << "threw" << std::endl;
  }
})");
  Write(dir + "/current.h", "");
  std::string errors;
  if (!Compile(dir, "one", errors) || Run(dir, "one") || !Compile(dir, "two", errors)) s.Discard();
  Run(dir, "two");
  s.Eq(std::string("{\"v\":null}\n"), Read(dir + "/two.out"), "uninitialized-variant");
}
