// P15: type identifiers and schemas, over generated programs.
#include "declarations.h"

#include "typesystem/struct.h"
#include "typesystem/reflection/reflection.h"

PBT_CHECK("P15", "exploration",
          "A case is a random set of up to seven declarations (structures, derived, templated and recursive ones, enums, variants, "
          "with fields of every kind of type, and descriptions), written out as a program and compiled. The identifiers it gives, in "
          "random orders of first use, must be those of a reference; its schema must survive JSON; and the source exported from "
          "the schema, compiled again, must give the same identifiers, the same schema, and the same JSON of random values. "
          "Non-trivial: at least three declarations.");

namespace {
using namespace decl;

const char* kMain = R"(
using namespace current::reflection;
struct Fn {
  TypeID (*id)();
  std::string (*json)(const std::string&);
  void (*add)(StructSchema&);
};
template <class T> TypeID Id() { return CurrentTypeID<T>(); }
template <class T> std::string Json(const std::string& s) { return JSON(ParseJSON<T>(s)); }
template <class T> void Add(StructSchema& s) { s.AddType<T>(); }
static const Fn fns[] = {
FNS
};
int main() {
  std::ifstream f("INPUT");
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string c;
    is >> c;
    std::thread([&]() {
      try {
        if (c == "ids") {
          for (size_t k; is >> k;) std::cout << ' ' << current::ToString(fns[k].id());
        } else if (c == "json") {
          size_t k;
          is >> k;
          std::string t;
          is >> t;
          std::cout << fns[k].json(t);
        } else {
          StructSchema s;
          for (size_t k; is >> k;) fns[k].add(s);
          const SchemaInfo& info = s.GetSchemaInfo();
          if (c == "schema") std::cout << SchemaAsJSON(info);
          if (c == "order") for (auto t : info.order) std::cout << ' ' << current::ToString(t);
          if (c == "again") std::cout << SchemaAsJSONAgain(info);
          if (c == "mini") std::cout << SchemaAsMinimalisticJSONAgain(info);
          if (c == "export") std::ofstream("exported.h") << SchemaAsSource(info, "X");
        }
        std::cout << std::endl;
      } catch (const std::exception& e) {
        std::cout << "EXCEPTION " << e.what() << std::endl;
      }
    }).join();
  }
}
)";
void Replace(std::string& s, const std::string& what, const std::string& with) { s.replace(s.find(what), what.size(), with); }
std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> r;
  std::istringstream is(s);
  for (std::string line; std::getline(is, line);) r.push_back(line);
  return r;
}
// One change, which must change the identifier; false: it did not apply.
bool Mutate(pbt::Src& s, World& w, size_t i) {
  Decl& x = w.d[i];
  switch (s.Draw(5)) {
    case 0:
      x.name += "2";
      return true;
    case 1: {
      if (x.fields.empty()) return false;
      auto& f = x.fields[s.Draw(x.fields.size() - 1)];
      f.name += "q";
      return true;
    }
    case 2: {
      if (x.fields.empty()) return false;
      auto& f = x.fields[s.Draw(x.fields.size() - 1)];
      const Ty t = w.Type(s, i, World::Limits(), -1, false);
      if (w.Cpp(t) == w.Cpp(f.t)) return false;
      f.t = t;
      return true;
    }
    case 3: {
      if (x.fields.size() < 2) return false;
      const size_t a = s.Draw(x.fields.size() - 1), b = s.Draw(x.fields.size() - 1);
      if (a == b) return false;
      std::swap(x.fields[a], x.fields[b]);
      return true;
    }
    case 4: {
      if (x.fields.empty()) return false;
      x.fields.erase(x.fields.begin() + s.Draw(x.fields.size() - 1));
      return true;
    }
    default: {
      if (x.super >= 0) {
        x.super = -1;
        return true;
      }
      Field f;
      f.name = "added";
      f.t = w.Type(s, i, World::Limits(), -1, false);
      x.fields.push_back(f);
      return true;
    }
  }
}
}  // namespace

PBT_PROP(programs, o.weight = 1; o.hang_s = 300) {
  World w;
  World::Limits l;
  w.Generate(s, l);
  std::vector<Ty> types = w.Roots(s);
  const size_t roots = types.size();
  if (!roots) s.Discard();
  for (auto& x : w.d) {
    if (x.k == STRUCT && !x.fields.empty() && types.size() < roots + 4 && s.Bool()) types.push_back(x.fields[s.Draw(x.fields.size() - 1)].t);
  }
  const std::string dir = s.Scratch();
  std::string fns;
  for (size_t i = 0; i < types.size(); ++i) {
    // The names of types are spelled within the namespace.
    fns += "{&Id<T" + std::to_string(i) + ">, " + (i < roots ? "&Json<T" + std::to_string(i) + ">, &Add<T" + std::to_string(i) + ">" : std::string("nullptr, nullptr")) + "},\n";
  }
  std::string source = "namespace w {\n" + w.Declarations();
  for (size_t i = 0; i < types.size(); ++i) source += "using T" + std::to_string(i) + " = " + w.Cpp(types[i]) + ";\n";
  source += "}\n";
  // Another version of one of the structures.
  World v = w;
  Ty mutant;
  bool has_mutant = false;
  std::vector<size_t> structs;
  for (size_t i = 0; i < w.d.size(); ++i) if (w.d[i].k == STRUCT) structs.push_back(i);
  if (!structs.empty() && s.Chance(1, 2)) {
    const size_t i = s.OneOf(structs);
    if (Mutate(s, v, i)) {
      v.d.resize(i + 1);
      has_mutant = true;
      mutant = Ty{STRUCT, i, {}};
      source += "namespace v {\n" + v.Declarations() + "using M = " + v.d[i].name + ";\n}\n";
    }
  }
  for (size_t i = 0; i < types.size(); ++i) source += "using T" + std::to_string(i) + " = w::T" + std::to_string(i) + ";\n";
  std::string main1 = kMain;
  Replace(main1, "FNS", fns + (has_mutant ? "{&Id<v::M>, nullptr, nullptr},\n" : ""));
  Replace(main1, "INPUT", "in1");
  if (s.Describing()) s.Note(source);
  s.Label(w.d.size() < 3 ? "one or two declarations" : w.d.size() < 6 ? "three to five declarations" : "six or seven declarations");
  if (w.d.size() >= 3) s.NonTrivial(pbt::Hash(source));
  Write(dir + "/one.cc", source + main1);

  // The orders of use, and the values.
  std::string in, all, values;
  std::vector<std::vector<size_t>> orders;
  for (int k = 0; k < 4; ++k) {
    std::vector<size_t> p;
    for (size_t i = 0; i < types.size(); ++i) p.push_back(i);
    for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[s.Draw(i)]);
    in += "ids";
    for (size_t i : p) in += " " + std::to_string(i);
    in += "\n";
    orders.push_back(p);
  }
  for (size_t i = 0; i < roots; ++i) all += " " + std::to_string(orders[0].size() ? i : 0);
  {
    std::vector<size_t> p;
    for (size_t i = 0; i < roots; ++i) p.push_back(i);
    for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[s.Draw(i)]);
    all.clear();
    for (size_t i : p) all += " " + std::to_string(i);
  }
  for (const char* c : {"schema", "again", "mini", "order", "export"}) in += c + all + "\n";
  std::vector<std::string> texts;
  for (size_t i = 0; i < roots; ++i) {
    for (int k = 0; k < 3; ++k) {
      texts.push_back(w.Value(s, types[i]));
      values += "json " + std::to_string(i) + " " + texts.back() + "\n";
    }
  }
  const std::string mutant_line = has_mutant ? "ids " + std::to_string(types.size()) + "\n" : "";
  Write(dir + "/in1", in + values + mutant_line);
  std::string errors;
  if (!Compile(dir, "one", errors)) {
    if (errors.empty()) s.Discard();
    s.Fail("declarations-do-not-compile", errors + source);
  }
  s.Check(Run(dir, "one") == 0, "program-fails", [&] { return source + Read(dir + "/one.err"); });
  const std::vector<std::string> out = Lines(Read(dir + "/one.out"));
  size_t at = 0;
  auto next = [&](const std::vector<std::string>& o) {
    s.Check(at < o.size(), "program-output", [&] { return source; });
    return o[at++];
  };
  std::vector<uint64_t> ids;
  for (auto& t : types) ids.push_back(w.Id(t));
  auto check_ids = [&](const std::string& line, const std::vector<size_t>& p, const char* tag) {
    std::string expected;
    for (size_t i : p) expected += " " + std::to_string(ids[i]);
    s.Check(line == expected, tag, [&] {
      std::string r = source + "in the order";
      for (size_t i : p) r += " " + w.Cpp(types[i]);
      return r + "\nexpected" + expected + "\nactual  " + line;
    });
  };
  for (auto& p : orders) check_ids(next(out), p, "type-id");
  const std::string schema = next(out);
  s.Check(schema.substr(0, 9) != "EXCEPTION", "schema", [&] { return source + schema; });
  for (size_t i = 0; i < roots; ++i) s.Check(schema.find("\"T" + std::to_string(ids[i]) + "\"") != std::string::npos, "schema-lacks-a-type", [&] { return source + w.Cpp(types[i]) + " in " + schema; });
  for (const char* c : {"json-of-the-schema", "minimalistic-json-of-the-schema"}) {
    const std::string line = next(out);
    s.Check(line == schema, c, [&] { return source + schema + "\nturned into\n" + line; });
  }
  // Every type comes after those it is made of, and every structure is there.
  {
    std::istringstream is(next(out));
    std::vector<uint64_t> order;
    for (uint64_t x; is >> x;) order.push_back(x);
    auto find = [&](uint64_t x) { return size_t(std::find(order.begin(), order.end(), x) - order.begin()); };
    for (size_t i = 0; i < roots; ++i) {
      const size_t me = find(ids[i]);
      s.Check(me < order.size(), "order-lacks-a-type", [&] { return source + w.Cpp(types[i]); });
      if (types[i].k == VARIANT || w.d[types[i].i].recursive) continue;
      for (auto& f : w.Flat(types[i])) {
        if (f.t.k == PRIM) continue;
        const size_t it = find(w.Id(f.t));
        s.Check(it < me, "order-of-types", [&] { return source + w.Cpp(types[i]) + "::" + f.name; });
      }
    }
  }
  next(out);
  auto check_values = [&](const std::vector<std::string>& o, const char* tag) {
    for (size_t i = 0; i < texts.size(); ++i) {
      const std::string line = next(o);
      s.Check(line == texts[i], tag, [&] { return source + w.Cpp(types[i / 3]) + ": " + texts[i] + "\nread and written as\n" + line; });
    }
  };
  check_values(out, "values");
  if (has_mutant) {
    const std::string line = next(out);
    s.Eq(" " + std::to_string(v.Id(mutant)), line, "type-id-of-the-changed-one");
    s.Check(v.Id(mutant) != w.Id(mutant), "changed-but-same-id", [&] { return source; });
  }

  // The exported source.
  std::string two = "#include \"exported.h\"\nCURRENT_STRUCT(Nothing) {};\n";
  for (size_t i = 0; i < roots; ++i) {
    const Ty& t = types[i];
    two += "using T" + std::to_string(i) + " = X::" + (t.k == TEMPL ? w.d[t.i].name + "_T" + std::to_string(w.Id(t.a[0])) : w.Z(t)) + ";\n";
  }
  for (size_t i = roots; i < types.size(); ++i) two += "using T" + std::to_string(i) + " = Nothing;\n";
  std::string main2 = kMain;
  Replace(main2, "FNS", fns);
  Replace(main2, "INPUT", "in2");
  Write(dir + "/current.h", "");
  Write(dir + "/two.cc", two + main2);
  std::string in2 = "ids";
  std::vector<size_t> p2;
  for (size_t i : orders[1]) if (i < roots) p2.push_back(i);
  for (size_t i : p2) in2 += " " + std::to_string(i);
  Write(dir + "/in2", in2 + "\nschema" + all + "\n" + values);
  if (!Compile(dir, "two", errors)) {
    if (errors.empty()) s.Discard();
    s.Fail("exported-source-does-not-compile", errors + source);
  }
  s.Check(Run(dir, "two") == 0, "exported-program-fails", [&] { return source + Read(dir + "/two.err"); });
  const std::vector<std::string> out2 = Lines(Read(dir + "/two.out"));
  at = 0;
  check_ids(next(out2), p2, "exported-type-id");
  const std::string schema2 = next(out2);
  s.Check(schema2 == schema, "exported-schema", [&] { return source + schema + "\nexported as\n" + schema2; });
  check_values(out2, "values-of-the-exported");
}

namespace clash {
namespace a {
CURRENT_STRUCT(S) {
  CURRENT_FIELD(x, std::string);
  CURRENT_FIELD(y, std::string);
};
}  // namespace a
namespace b {
CURRENT_STRUCT(S) {
  CURRENT_FIELD(x, uint16_t);
  CURRENT_FIELD(y, double);
};
}  // namespace b
}  // namespace clash

PBT_PROBE(two_fields_changed, "two structures which differ in the types of two adjacent fields have the same type ID") {
  if (current::reflection::CurrentTypeID<clash::a::S>() == current::reflection::CurrentTypeID<clash::b::S>()) {
    s.Fail("same-id", "S { string x; string y; } and S { uint16_t x; double y; }");
  }
}
