// P35: the inferred schemas are compiled, and the records are parsed into them and printed back.
#include <cstdlib>
#include <fstream>
#include <sstream>

#include "p35_records.h"

#include "port.h"
#include "utils/json_schema/infer.h"

#include "declarations.h"

PBT_CHECK("P35", "exploration",
          "A case is a program with up to eight schemas, each inferred from a file of up to ten JSON records: compiled, it parses "
          "each record into the type inferred, and prints it. Non-trivial: at least two schemas with a field which is optional.");

namespace {

using namespace p35;

// Without what is not described, or is there for the same as nothing.
J Normal(const J& v, const T& t) {
  J r = v;
  if (t->name == "vector") {
    r.a.clear();
    for (const J& e : v.a) r.a.push_back(Normal(e, t->element));
  } else if (t->name == "struct" && v.kind == J::Obj) {
    r.o.clear();
    for (const auto& f : t->fields) {
      const J* inner = v.Find(f.first);
      if (inner && inner->kind != J::Null) r.o.emplace_back(f.first, Normal(*inner, f.second));
    }
  } else if (v.kind == J::Num && v.s == "-0") {
    r.s = "0";
  } else if (t->name == "double" && v.kind == J::Num) {
    char buf[60];
    snprintf(buf, sizeof buf, "%.17g", strtod(v.s.c_str(), nullptr));
    r.s = buf;
  }
  return r;
}

}  // namespace

PBT_PROP(compiled, o.weight = 1; o.hang_s = 200) {
  struct One {
    std::vector<J> records;
    std::string text, file;
    T type;
  };
  std::vector<One> all;
  size_t optional = 0;
  for (size_t i = s.Size(1, 8); i; --i) {
    Generator g(s, true);
    One o;
    o.records = g.Records();
    for (J& v : o.records) DropRepeated(v);
    Reference ref;
    try {
      o.type = ref.Infer(o.records, "Schema");
    } catch (const Refused&) {
    }
    // An empty array is of no type, and it may well not be of the one the others are.
    if (!o.type || ref.odd_empty || o.type->optional) continue;
    o.file = s.Scratch() + "/" + std::to_string(all.size());
    std::ofstream(o.file) << Lines(s, o.records);
    o.text = current::utils::JSONSchemaAsCurrentStructs(o.file);
    optional += o.text.find("Optional") != std::string::npos;
    all.push_back(o);
  }
  if (all.empty()) s.Discard();
  std::string program;
  for (size_t i = 0; i < all.size(); ++i) program += "namespace n" + std::to_string(i) + " {\n" + all[i].text + "}\n";
  program += "template <typename T> void Go(const char* fn) {\n  std::ifstream f(fn);\n  std::string line;\n  while (std::getline(f, line)) {\n"
             "    try {\n      std::cout << JSON(ParseJSON<T>(line)) << '\\n';\n    } catch (const std::exception& e) {\n      std::cout << \"! \" << e.what() << '\\n';\n    }\n  }\n}\nint main() {\n";
  for (size_t i = 0; i < all.size(); ++i) program += "  Go<n" + std::to_string(i) + "::Schema>(\"" + std::to_string(i) + "\");\n";
  program += "}\n";
  if (s.Describing()) {
    s.Note(program);
    for (const One& o : all) {
      for (const J& v : o.records) s.Note(mj::Print(v));
    }
  }
  const std::string dir = s.Scratch();
  decl::Write(dir + "/p.cc", program);
  std::string errors;
  if (!decl::Compile(dir, "p", errors)) {
    if (errors.empty()) s.Discard();  // The compiler itself could not do it.
    s.Fail("does-not-compile", errors);
  }
  decl::Run(dir, "p");
  std::istringstream is(decl::Read(dir + "/p.out"));
  std::string line;
  for (const One& o : all) {
    for (const J& v : o.records) {
      s.Check(bool(std::getline(is, line)), "no-output");
      s.Check(line.empty() || line[0] != '!', "does-not-parse", [&] { return mj::Print(v) + "\n" + line + "\n" + o.text; });
      mj::Parser p(line);
      J back;
      s.Check(p.Value(back, 0), "not-json", [&] { return line; });
      s.Eq(mj::Print(Normal(v, o.type)), mj::Print(Normal(back, o.type)), "content");
    }
  }
  if (optional > 1) s.NonTrivial(pbt::Hash(program));
}
