// P51: values, functions and promises cross between C++ and JavaScript unchanged.
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

PBT_CHECK("P51", "exploration",
          "A case is a plan of up to thirty operations for an addon, run by node in a process of its own: values of each type sent "
          "there and back by each of the ways, also of wrong types, objects read and written by names and through nested names, "
          "functions called from either side, returned, composed and kept through garbage collections, promises and callbacks of "
          "asynchronous work, and loops of calls from a thread, several at once. What node writes down is compared to a model. "
          "Non-trivial: at least four operations, of at least two kinds.");

namespace {

struct V {
  enum Kind { Undefined, Null, Bool, Number, String, Object } kind = Undefined;
  bool b = false;
  double n = 0;
  std::string s;
  std::map<std::string, V> o;
  static V B(bool b) { V v; v.kind = Bool; v.b = b; return v; }
  static V N(double n) { V v; v.kind = Number; v.n = n; return v; }
  static V S(const std::string& s) { V v; v.kind = String; v.s = s; return v; }
  static V O(std::map<std::string, V> o = {}) { V v; v.kind = Object; v.o = o; return v; }
  static V Nil() { V v; v.kind = Null; return v; }
};

std::string Hex(const std::string& s) {
  static const char* const digits = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += digits[c >> 4];
    r += digits[c & 15];
  }
  return r;
}
std::string Bits(double x) {
  uint64_t u;
  memcpy(&u, &x, sizeof(u));
  char r[20];
  snprintf(r, sizeof(r), "%016llx", static_cast<unsigned long long>(u));
  return r;
}
// For the plan.
std::string Plan(const V& v) {
  switch (v.kind) {
    case V::Undefined: return "{}";
    case V::Null: return "null";
    case V::Bool: return v.b ? "true" : "false";
    case V::Number: return "{\"n\":\"" + Bits(v.n) + "\"}";
    case V::String: return "{\"s\":\"" + Hex(v.s) + "\"}";
    default: {
      std::string r;
      for (const auto& x : v.o) r += (r.empty() ? "[\"" : ",[\"") + Hex(x.first) + "\"," + Plan(x.second) + "]";
      return "{\"o\":[" + r + "]}";
    }
  }
}
// As the runner writes it down.
std::string Show(const V& v) {
  switch (v.kind) {
    case V::Undefined: return "undefined";
    case V::Null: return "null";
    case V::Bool: return v.b ? "true" : "false";
    case V::Number: return "n" + (std::isnan(v.n) ? "nan" : Bits(v.n));
    case V::String: return "s" + Hex(v.s);
    default: {
      std::map<std::string, std::string> fields;
      std::vector<std::string> all;
      for (const auto& x : v.o) all.push_back(Hex(x.first) + ":" + Show(x.second));
      std::sort(all.begin(), all.end());
      std::string r;
      for (const auto& x : all) r += (r.empty() ? "" : ",") + x;
      return "{" + r + "}";
    }
  }
}

enum Type { Int, Double, Boolean, Text };
const char* const kTypes[] = {"int", "double", "bool", "string"};

// What the value is when taken as of this type, if it can be.
bool As(Type t, const V& v, V& r) {
  switch (t) {
    case Int:
      if (v.kind != V::Number) return false;
      r = V::N(0);
      if (std::isfinite(v.n)) {
        const double m = std::fmod(std::trunc(v.n), 4294967296.0);
        r.n = static_cast<int32_t>(static_cast<uint32_t>(static_cast<int64_t>(m)));
      }
      return true;
    case Double: r = v; return v.kind == V::Number;
    case Boolean: r = v; return v.kind == V::Bool;
    default: r = v; return v.kind == V::String;
  }
}

struct Planner {
  pbt::Src& s;
  std::vector<V> objects;
  std::vector<int> counters;
  int loops = 0;
  explicit Planner(pbt::Src& s) : s(s) {}

  std::string Str() {
    switch (s.Weighted({4, 3, 1})) {
      case 0: return s.Utf8(12);
      case 1: return s.From("ab\"\\ \n", 6);
      default: return std::string(s.Size(0, 40), 'x') + s.Utf8(300);
    }
  }
  V OfType(Type t) {
    switch (t) {
      case Int: return V::N(s.Integer<int32_t>());
      case Double: return V::N(s.Weighted({3, 2, 1}) == 0 ? s.FiniteDouble() : s.OneOf(std::vector<double>{0.0, -0.0, 0.5, -1.5, 1e300, 5e-324, HUGE_VAL, -HUGE_VAL, std::nan(""), 9007199254740993.0, 2147483648.0, -2147483649.0, 4294967295.0}));
      case Boolean: return V::B(s.Bool());
      default: return V::S(Str());
    }
  }
  V Primitive() {
    const size_t k = s.Weighted({3, 3, 2, 3, 1, 1});
    return k < 4 ? OfType(static_cast<Type>(k)) : k == 4 ? V::Nil() : V();
  }
  V Any(size_t depth = 2) {
    if (!depth || s.Weighted({3, 1}) == 0) return Primitive();
    V v = V::O();
    for (size_t i = s.Size(0, 3); i; --i) {
      const std::string key = Key();
      v.o[key] = Any(depth - 1);
    }
    return v;
  }
  V MostlyOf(Type t) { return s.Weighted({5, 1}) == 0 ? OfType(t) : Any(1); }
  // The API of node itself takes names up to the first zero, so there are none.
  std::string Key() { return s.Weighted({6, 1, 1}) == 0 ? s.Pick({"a", "b", "c", "d"}) : s.Bool() ? s.Pick({"", "key with spaces", "\xd0\xba\xd0\xbb\xd1\x8e\xd1\x87", "\"", "a.b", "[a]", "0x", "\xf0\x9f\x98\x80"}) : std::string("k") + s.From("abcdefghijklmnopqrstuvwxyz", 40); }
  Type AnyType() { return static_cast<Type>(s.Draw(3)); }

  struct Step {
    std::string plan, expected, what;
  };
  static std::string Args(const std::vector<V>& args) {
    std::string r;
    for (const V& v : args) r += (r.empty() ? "" : ",") + Plan(v);
    return "\"args\":[" + r + "]";
  }
  static std::string Shown(const std::vector<V>& args) {
    std::string r;
    for (const V& v : args) r += (r.empty() ? "" : ", ") + Show(v);
    return "(" + r + ")";
  }
  static Step Call(const std::string& f, const std::vector<V>& args, const std::string& expected) {
    return Step{"{\"kind\":\"call\",\"f\":\"" + f + "\"," + Args(args) + "}", expected, f + Shown(args)};
  }
  Step OnObject(size_t i, const std::string& f, const std::vector<V>& args, const std::string& expected) {
    return Step{"{\"kind\":\"on_object\",\"i\":" + std::to_string(i) + ",\"f\":\"" + f + "\"," + Args(args) + "}", expected + " " + Show(objects[i]), f + " of object " + std::to_string(i) + " " + Shown(args)};
  }
  static std::string Field(const char* name, const std::string& raw) { return std::string(",\"") + name + "\":" + raw; }
  std::string GC() { return Field("gc", s.Chance(1, 4) ? "true" : "false"); }
  static Step Of(const std::string& kind, const std::string& fields, const std::string& expected) { return Step{"{\"kind\":\"" + kind + "\"" + fields + "}", expected, kind + fields}; }

  Step Value() {
    const Type t = AnyType();
    const std::string name = kTypes[t];
    switch (s.Weighted({5, 2, 2, 2, 1, 1, 1, 2, 1})) {
      case 0: {
        const V v = MostlyOf(t);
        V r;
        const bool ok = As(t, v, r);
        return Call(s.Pick({"id_", "id_any_", "as_any_", "through_any_"}) + name, {v}, ok ? Show(r) : "throws");
      }
      case 1: {
        const V v = Any();
        return Call("any", {v}, Show(v));
      }
      case 2: {
        const V v = Any();
        return Call("kind", {v}, Show(V::S(v.kind == V::Number ? "n" : v.kind == V::String ? "s" : v.kind == V::Bool ? "b" : v.kind == V::Object ? "o" : v.kind == V::Null ? "0" : "")));
      }
      case 3: {
        V v = Any();
        if (v.kind != V::Object) v = V::O({{"v", v}});
        if (s.Bool()) return Call(s.Pick({"object", "object_through_any"}), {v}, Show(v));
        return Of("same", Field("f", s.Pick({"\"any\"", "\"object\"", "\"object_through_any\""})) + Field("v", Plan(v)), "true");
      }
      case 4: return Call("null", {}, "null");
      case 5: return Call(s.Pick({"nothing", "undefined"}), {}, "undefined");
      case 6: {
        const size_t k = s.Draw(6);
        const V r[] = {V::N(42), V::N(-0.5), V::B(true), V::S("a literal"), V::S("a string"), V::Nil(), V::O({{"one", V::N(1)}, {"nested", V::O({{"two", V::S("2")}})}})};
        return Call("literal", {V::N(k)}, Show(r[k]));
      }
      case 7: {
        std::vector<V> args{OfType(Int), OfType(Double), OfType(Boolean), OfType(Text), Any()};
        bool ok = true;
        const size_t n = s.Weighted({6, 1, 1, 1});
        if (n == 1) args.push_back(Any());
        if (n == 2) {
          args.resize(s.Draw(4));
          ok = args.size() == 4;
        }
        if (n == 3) {
          const size_t i = s.Draw(3);
          args[i] = Any();
          V r;
          ok = As(static_cast<Type>(i), args[i], r);
          if (ok && i == 0) args[i] = V::N(7);
        }
        return Call("five", args, ok ? Show(V::O({{"a", args[0]}, {"b", args[1]}, {"c", args[2]}, {"d", args[3]}, {"e", args.size() > 4 ? args[4] : V()}})) : "throws");
      }
      default: return Of("function_is_any", "", "true");
    }
  }
  Step MakeObject() {
    V v = V::O();
    for (size_t i = s.Size(0, 4); i; --i) {
      const std::string key = Key();
      v.o[key] = Any(2);
    }
    objects.push_back(v);
    return Of("make_object", Field("v", Plan(v)), Show(v));
  }
  Step WithObject() {
    if (objects.empty() || s.Chance(1, 6)) return MakeObject();
    const size_t i = s.Draw(objects.size() - 1);
    V& o = objects[i];
    const Type t = AnyType();
    const std::string name = kTypes[t];
    const std::string a = Key(), b = Key(), c = Key();
    const auto nestable = [](const V& o, const std::string& k) { return !o.o.count(k) || o.o.at(k).kind == V::Object; };
    V r;
    switch (s.Weighted({5, 5, 3, 3, 3, 3, 1, 1})) {
      case 0: {
        const std::string f = s.Pick({"set_", "set_c_", "add_", "add_c_"});
        
        const std::string key = Key();
        const V v = MostlyOf(t);
        const bool ok = As(t, v, r);
        if (ok) o.o[key] = r;
        return OnObject(i, f + name, {V::S(key), v}, !ok ? "throws" : f[0] == 'a' ? Show(o) : "undefined");
      }
      case 1: {
        const std::string f = s.Pick({"get_", "get_as_", "get_c_"});
        const std::string key = Key();
        const bool ok = o.o.count(key) && As(t, o.o[key], r);
        return OnObject(i, f + name, {V::S(key)}, ok ? Show(r) : "throws");
      }
      case 2: {
        if (!nestable(o, a)) return OnObject(i, "field_as_any", {V::S(a)}, Show(o.o[a]));
        const V v = MostlyOf(t);
        const bool ok = As(t, v, r);
        if (ok) {
          if (!o.o.count(a)) o.o[a] = V::O();
          o.o[a].o[b] = r;
        }
        return OnObject(i, "set_nested_" + name, {V::S(a), V::S(b), v}, ok ? "undefined" : "throws");
      }
      case 3: {
        if (!nestable(o, a)) return OnObject(i, "field_as_any", {V::S(a)}, Show(o.o[a]));
        if (!o.o.count(a)) o.o[a] = V::O();
        const bool ok = o.o[a].o.count(b) && As(t, o.o[a].o[b], r);
        return OnObject(i, "get_nested_" + name, {V::S(a), V::S(b)}, ok ? Show(r) : "throws");
      }
      case 4: {
        if (!nestable(o, a) || (o.o.count(a) && !nestable(o.o[a], b))) return OnObject(i, "field_as_any", {V::S(a)}, Show(o.o[a]));
        const V v = OfType(t);
        if (!o.o.count(a)) o.o[a] = V::O();
        V& na = o.o[a];
        if (!na.o.count(b)) na.o[b] = V::O();
        na.o[b].o[c] = v;
        return OnObject(i, "set_deep_" + name, {V::S(a), V::S(b), V::S(c), v}, "undefined");
      }
      case 5: {
        if (o.o.count(a) && s.Bool()) return OnObject(i, "field_as_any", {V::S(a)}, Show(o.o[a]));
        if (!nestable(o, a)) return OnObject(i, "field_as_any", {V::S(a)}, Show(o.o[a]));
        if (!o.o.count(a)) o.o[a] = V::O();
        return OnObject(i, "nested_object", {V::S(a)}, Show(o.o[a]));
      }
      case 6: return Of("on_object_same", Field("i", std::to_string(i)) + Field("f", s.Pick({"\"object\"", "\"any\""})) + ",\"args\":[]", "true");
      default: {
        const size_t j = s.Draw(objects.size() - 1);
        const std::string key = Key();
        o.o.erase(key);
        return Of("put_object", Field("i", std::to_string(i)) + Field("j", std::to_string(j)) + Field("key", Plan(V::S(key))), "true");
      }
    }
  }
  Step WithFunction() {
    switch (s.Weighted({3, 1, 1, 4, 3, 2, 2})) {
      case 0: {
        const int n = s.Int(0, 5);
        const std::string text = Str();
        std::string expected;
        for (int i = 0; i < n; ++i) {
          expected += "(" + Show(V::N(i)) + " " + Show(V::N(i * 0.5)) + " " + (i % 2 ? "false" : "true") + " " + Show(V::S(text + std::to_string(i))) + " null " + Show(V::S("literal")) + " undefined " + Show(V::O({{"i", V::N(i)}})) + ")";
        }
        return Of("calls", Field("f", s.Pick({"\"calls\"", "\"calls_reference\""})) + Field("n", std::to_string(n)) + Field("s", Plan(V::S(text))) + GC(), expected + "undefined");
      }
      case 1: return Of("throws_in_call", Field("f", s.Pick({"\"calls\"", "\"calls_reference\""})), "1 mine");
      case 2: {
        const int n = s.Int(0, 12);
        std::string expected;
        for (int i = 0; i < n; ++i) expected += (i ? " " : "") + std::string(i % 3 == 2 ? "g" : "f") + std::to_string(i);
        return Of("in_turn", Field("n", std::to_string(n)), expected);
      }
      case 3: {
        const Type t = AnyType();
        const V a = MostlyOf(t), b = MostlyOf(t), c = MostlyOf(t);
        V ra, rb, rc;
        std::string expected = "f" + Show(V::N(1)) + " ";
        if (!As(t, a, ra)) {
          expected += "throws";
        } else {
          expected += "g" + Show(V::S("two")) + " ";
          if (!As(t, b, rb)) {
            expected += "throws";
          } else {
            expected += "f" + Show(V::N(3)) + ",null ";
            expected += As(t, c, rc) ? Show(V::O({{"a", ra}, {"b", rb}, {"c", rc}})) : "throws";
          }
        }
        return Of("returns", Field("f", "\"" + s.Pick({"call_", "call_reference_"}) + kTypes[t] + "\"") + Field("a", Plan(a)) + Field("b", Plan(b)) + Field("c", Plan(c)) + GC(), expected);
      }
      case 4: {
        if (counters.empty() || s.Chance(1, 4)) {
          counters.push_back(s.Int(-1000, 1000));
          return Of("make_counter", Field("base", std::to_string(counters.back())), "function");
        }
        const size_t i = s.Draw(counters.size() - 1);
        const int step = s.Int(-50, 50);
        counters[i] += step;
        return Of("call_counter", Field("i", std::to_string(i)) + Field("step", std::to_string(step)), Show(V::N(counters[i])));
      }
      case 5: {
        const int x = s.Int(-9, 9), y = s.Int(-9, 9);
        const std::string text = Str();
        return Of("wrapped", Field("x", std::to_string(x)) + Field("y", std::to_string(y)) + Field("s", Plan(V::S(text))) + GC(), Show(V::S(std::to_string(x) + " " + std::to_string(y) + " " + text + "/" + std::to_string(x) + " " + std::to_string(y + 1) + " " + text)));
      }
      default: {
        const int x = s.Int(-1000, 1000), add = s.Int(-1000, 1000);
        return Of("composed", Field("x", std::to_string(x)) + Field("add", std::to_string(add)) + GC(), Show(V::N(x * 3 + add)) + Show(V::N(x * 3 + 3 + add)));
      }
    }
  }
  Step Later() {
    const std::string ms = Field("ms", std::to_string(s.Draw(3)));
    switch (s.Weighted({4, 1, 1, 2, 2, 2, 4})) {
      case 0: {
        const Type t = AnyType();
        const V v = OfType(t);
        V r;
        As(t, v, r);
        return Of("promise", Field("f", "\"later_" + std::string(kTypes[t]) + "\"") + ms + "," + Args({v}), "true " + Show(r));
      }
      case 1: return Of("promise", Field("f", "\"later_null\"") + ms + ",\"args\":[]", "true null");
      case 2: {
        V v = Any();
        if (v.kind == V::Number && std::isnan(v.n)) v.n = 1;
        return Of("resolved", Field("v", Plan(v)), "true true");
      }
      case 3: {
        const int n = s.Int(0, 5);
        std::string expected = Show(V::N(n)) + " ";
        for (int i = 0; i < n; ++i) expected += (i ? " " : "") + std::to_string(i);
        return Of("later_calls", ms + Field("n", std::to_string(n)) + GC(), expected);
      }
      case 4: {
        const std::string text = Str();
        const int add = s.Int(-99, 99);
        return Of("later_results", ms + Field("s", Plan(V::S(text))) + Field("add", std::to_string(add)) + GC(), Show(V::S("a" + text + std::to_string(17 + add) + "b" + text)));
      }
      case 5: {
        const std::string text = Str();
        return Of("later_later", ms + Field("s", Plan(V::S(text))) + GC(), Show(V::S(text + "1" + text + "2")) + " 1 2");
      }
      default: {
        const int n = s.Int(0, 8), stop = s.Bool() ? s.Int(0, 8) : 100;
        std::string report, seen;
        for (int i = 0; i < n; ++i) {
          seen += (i ? " " : "") + std::string(i % 3 == 2 ? "g" : "f") + std::to_string(i);
          if (i % 3 == 2) {
            report += "g";
          } else {
            report += i < stop ? "f+" : "f-";
            if (i >= stop) break;
          }
        }
        return Of("loop", Field("id", std::to_string(++loops)) + Field("n", std::to_string(n)) + Field("stop", std::to_string(stop)) + Field("ms", std::to_string(s.Draw(2))) + GC(), report + ". " + seen);
      }
    }
  }
  Step Next(size_t& kind) {
    kind = s.Weighted({5, 5, 4, 4, 2, 1});
    switch (kind) {
      case 0: return Value();
      case 1: return WithObject();
      case 2: return WithFunction();
      case 3: return Later();
      case 4: {
        std::string plan, expected;
        for (size_t i = s.Size(2, 7); i; --i) {
          const Step step = Later();
          plan += (plan.empty() ? "" : ",") + step.plan;
          expected += (expected.empty() ? "" : " | ") + step.expected;
        }
        return Of("together", Field("ops", "[" + plan + "]"), expected);
      }
      default: return Of("gc", "", "");
    }
  }
};

std::string Slurp(const std::string& f) {
  std::ifstream is(f, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
}

// Runs the plan, and compares.
void Run(pbt::Src& s, const std::vector<Planner::Step>& steps) {
  const std::string base = s.Scratch() + "/";
  std::string plan;
  for (const auto& x : steps) plan += (plan.empty() ? "" : ",\n") + x.plan;
  std::ofstream(base + "plan") << "[" << plan << "]";
  const pid_t pid = fork();
  if (!pid) {
    const int e = open((base + "err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 1);
    dup2(e, 2);
    setenv("UV_THREADPOOL_SIZE", "4", 1);
    execlp("node", "node", "--expose-gc", "--single-threaded-gc", RUNNER, ADDON, (base + "plan").c_str(), (base + "out").c_str(), static_cast<char*>(nullptr));
    _exit(111);
  }
  const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(40);
  int status = 0;
  bool ended = false;
  while (!(ended = waitpid(pid, &status, WNOHANG) == pid) && std::chrono::steady_clock::now() < deadline) std::this_thread::sleep_for(std::chrono::milliseconds(2));
  if (!ended) {
    kill(pid, SIGKILL);
    waitpid(pid, &status, 0);
  }
  const std::string out = Slurp(base + "out"), err = Slurp(base + "err");
  std::istringstream is(out);
  std::string line;
  for (const auto& x : steps) {
    if (!std::getline(is, line)) break;
    s.Check(line == x.expected, "differs", [&] { return x.what + "\n  is       " + line + "\n  expected " + x.expected; });
  }
  s.Check(ended, "never_ends", [&] { return "node has not ended\n" + err.substr(0, 600); });
  s.Check(WIFEXITED(status) && !WEXITSTATUS(status), "crashes", [&] { return "node has ended with status " + std::to_string(status) + "\n" + err.substr(0, 900); });
  s.Check(static_cast<bool>(is) && !out.empty(), "incomplete", [&] { return "node has ended too early\n" + err.substr(0, 600); });
  std::getline(is, line);
  s.Check(line == "alive 0", "not_released", [&] { return "what asynchronous work has captured is not released: " + line; });
  std::getline(is, line);
  s.Check(line == "released aside 0", "released_aside", [&] { return "what asynchronous work has captured is released outside the main thread: " + line; });
}

}  // namespace

PBT_PROP(plans, o.weight = 10; o.hang_s = 60) {
  Planner planner(s);
  std::vector<Planner::Step> steps;
  std::map<size_t, size_t> kinds;
  for (size_t i = s.Size(1, 30); i; --i) {
    size_t kind;
    steps.push_back(planner.Next(kind));
    ++kinds[kind];
    if (s.Describing()) s.Note(steps.back().what);
  }
  s.LabelIf(kinds.count(4), "several at once");
  s.LabelIf(planner.loops, "a loop");
  s.LabelIf(planner.objects.size() > 1, "several objects");
  s.LabelIf(planner.counters.size() > 1, "several counters");
  Run(s, steps);
  if (steps.size() >= 4 && kinds.size() >= 2) s.NonTrivial();
}
