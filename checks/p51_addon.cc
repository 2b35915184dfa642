// The addon for `p51_javascript.cc`: loaded into `node` by `p51_runner.js`.
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "javascript.hpp"

using namespace current::javascript;

namespace {

const std::thread::id main_thread = std::this_thread::get_id();
std::atomic_int alive(0);           // The tokens captured by what is asynchronous.
std::atomic_int released_aside(0);  // Of them, those the last owner of which was not in the main thread.
std::mutex mutex;
std::map<int, std::string> finished;  // What the loops have to tell.

struct Token {
  Token() { ++alive; }
  ~Token() {
    if (std::this_thread::get_id() != main_thread) ++released_aside;
    --alive;
  }
};

// What `JSAsync` and the loop are given: sleeps for a while first.
void Pause(int ms) {
  if (ms) std::this_thread::sleep_for(std::chrono::milliseconds(ms));
}

template <typename T>
void Later(JSObject exports, const char* name) {
  exports[name] = [](int ms, T value) {
    JSPromise promise;
    const auto token = std::make_shared<Token>();
    const auto stage = std::make_shared<std::atomic_int>(0);
    JSAsync(
        [ms, stage, token]() {
          Pause(ms);
          if (std::this_thread::get_id() != main_thread) *stage = 1;
        },
        [promise, stage, value, token]() {
          if (*stage == 1 && std::this_thread::get_id() == main_thread) {
            promise = value;
          } else {
            promise = "not in this order";
          }
        });
    return promise;
  };
}

template <typename T>
void OfType(JSObject exports, const std::string& name) {
  exports["id_" + name] = [](T x) { return x; };
  exports["id_any_" + name] = [](JSAny x) {
    const T value = x;
    return value;
  };
  exports["as_any_" + name] = [](JSAny x) { return x.As<T>(); };
  exports["through_any_" + name] = [](T x) { return JSAny(x); };
  exports["call_reference_" + name] = [](JSFunctionReferenceReturning<T> f, JSFunctionReferenceReturning<T> g) {
    JSObject o;
    const T a = f(1), b = g("two"), c = f(3, nullptr);
    o["a"] = a;
    o["b"] = b;
    o["c"] = c;
    return o;
  };
  exports["call_" + name] = [](JSFunctionReturning<T> f, JSFunctionReturning<T> g) {
    JSObject o;
    const T a = f(1), b = g("two"), c = f(3, nullptr);
    o["a"] = a;
    o["b"] = b;
    o["c"] = c;
    return o;
  };
  exports["set_" + name] = [](JSObject o, std::string key, T value) { o[key] = value; };
  exports["set_c_" + name] = [](JSObject o, std::string key, T value) { o[key.c_str()] = value; };
  exports["add_" + name] = [](JSObject o, std::string key, T value) { return o.Add(key, value); };
  exports["add_c_" + name] = [](JSObject o, std::string key, T value) { return o.Add(key.c_str(), value); };
  exports["get_" + name] = [](JSObject o, std::string key) {
    const T value = o[key];
    return value;
  };
  exports["get_as_" + name] = [](JSObject o, std::string key) { return o[key].template As<T>(); };
  exports["get_c_" + name] = [](JSObject o, std::string key) {
    const T value = o[key.c_str()];
    return value;
  };
  exports["set_nested_" + name] = [](JSObject o, std::string a, std::string b, T value) { o[a][b.c_str()] = value; };
  exports["get_nested_" + name] = [](JSObject o, std::string a, std::string b) {
    const T value = o[a][b.c_str()];
    return value;
  };
  exports["set_deep_" + name] = [](JSObject o, std::string a, std::string b, std::string c, T value) { o[a.c_str()][b.c_str()][c.c_str()] = value; };
}

}  // namespace

Napi::Object Init(Napi::Env env, Napi::Object unwrapped_exports) {
  JSEnvScope scope(env);
  JSObject exports(unwrapped_exports);

  OfType<int>(exports, "int");
  OfType<double>(exports, "double");
  OfType<bool>(exports, "bool");
  OfType<std::string>(exports, "string");
  Later<int>(exports, "later_int");
  Later<double>(exports, "later_double");
  Later<bool>(exports, "later_bool");
  Later<std::string>(exports, "later_string");

  exports["any"] = [](JSAny x) { return x; };
  exports["object"] = [](JSObject x) { return x; };
  exports["object_through_any"] = [](JSAny x) {
    JSObject object = x;
    return object;
  };
  exports["kind"] = [](JSAny x) -> std::string {
    return std::string(x.IsNumber() ? "n" : "") + (x.IsString() ? "s" : "") + (x.IsBoolean() ? "b" : "") + (x.IsObject() ? "o" : "") + (x.IsNull() ? "0" : "");
  };
  exports["null"] = []() { return nullptr; };
  exports["nothing"] = []() {};
  exports["undefined"] = []() { return Undefined(); };
  exports["literal"] = [](int which) -> JSAny {
    switch (which) {
      case 0: return 42;
      case 1: return -0.5;
      case 2: return true;
      case 3: return "a literal";
      case 4: return std::string("a string");
      case 5: return nullptr;
      default: return JSObject().Add("one", 1).Add("nested", JSObject().Add(std::string("two"), "2"));
    }
  };
  exports["five"] = [](int a, double b, bool c, std::string d, JSAny e) {
    JSObject o;
    o["a"] = a;
    o["b"] = b;
    o["c"] = c;
    o["d"] = d;
    o["e"] = e;
    return o;
  };
  exports["nested_object"] = [](JSObject o, std::string key) {
    JSObject nested = o[key];
    return nested;
  };
  exports["field_as_any"] = [](JSObject o, std::string key) {
    JSAny any = o[key];
    return any;
  };
  exports["object_in_object"] = [](JSObject o, std::string key, JSObject value) { o[key] = value; };

  // Calls with arguments of each type, the number of times asked for.
  exports["calls_reference"] = [](JSFunctionReference f, int n, std::string s) {
    for (int i = 0; i < n; ++i) f(i, i * 0.5, i % 2 == 0, s + std::to_string(i), nullptr, "literal", Undefined(), JSObject().Add("i", i));
  };
  exports["calls"] = [](JSFunction f, int n, std::string s) {
    for (int i = 0; i < n; ++i) f(i, i * 0.5, i % 2 == 0, s + std::to_string(i), nullptr, "literal", Undefined(), JSObject().Add("i", i));
  };
  // In turn.
  exports["in_turn"] = [](JSFunctionReference f, JSFunctionReference g, int n) {
    for (int i = 0; i < n; ++i) {
      if (i % 3 == 2) {
        g(i);
      } else {
        f(i);
      }
    }
  };
  // Functions which are returned, or passed to the ones called.
  exports["counter"] = [](int base) { return [state = std::make_shared<int>(base)](int step) { return (*state) += step; }; };
  exports["wrapped"] = [](int x, JSFunctionReturning<std::string> f) {
    return f([x](int y, std::string s) { return std::to_string(x) + " " + std::to_string(y) + " " + s; });
  };
  exports["composed"] = [](JSFunctionReturning<int> f, JSFunctionReturning<int> g) { return [f, g](int x) { return g(f(x)); }; };

  exports["resolved"] = [](JSAny value) {
    JSPromise promise;
    promise = value;
    return promise;
  };
  exports["later_null"] = [](int ms) {
    JSPromise promise;
    JSAsync([ms]() { Pause(ms); }, [promise]() { promise = nullptr; });
    return promise;
  };
  exports["later_calls"] = [](int ms, int n, JSFunction f) {
    JSPromise promise;
    const auto token = std::make_shared<Token>();
    JSAsync([ms, token]() { Pause(ms); },
            [promise, n, f, token]() {
              for (int i = 0; i < n; ++i) f(i);
              promise = n;
            });
    return promise;
  };
  exports["later_results"] = [](int ms, JSFunctionReturning<std::string> f, JSFunctionReturning<int> g) {
    JSPromise promise;
    const auto token = std::make_shared<Token>();
    JSAsync([ms, token]() { Pause(ms); }, [promise, f, g, token]() { promise = f("a") + std::to_string(g(17)) + f("b"); });
    return promise;
  };
  // One after another.
  exports["later_later"] = [](int ms, JSFunctionReturning<std::string> f) {
    JSPromise promise;
    const auto token = std::make_shared<Token>();
    JSAsync([ms, token]() { Pause(ms); },
            [promise, ms, f, token]() {
              const std::string first = f(1);
              JSAsync([ms]() { Pause(ms); }, [promise, first, f, token]() { promise = first + f(2); });
            });
    return promise;
  };

  // The loop: calls the function until it is told to stop, or `n` times.
  exports["loop"] = [](int id, int n, int ms, JSFunctionReturning<bool> f, JSFunction g) {
    const auto token = std::make_shared<Token>();
    JSAsyncEventLoop([id, n, ms, f, g, token](JSAsyncEventLoopRunner run) {
      std::string report = std::this_thread::get_id() == main_thread ? "in the main thread" : "";
      for (int i = 0; i < n; ++i) {
        Pause(ms);
        if (i % 3 == 2) {
          run([g, i, &report]() {
            g(i);
            report += std::this_thread::get_id() == main_thread ? 'g' : '!';
          });
        } else {
          const bool more = run([f, i, &report]() {
            const bool result = f(i);
            report += std::this_thread::get_id() == main_thread ? 'f' : '!';
            return result;
          });
          report += more ? '+' : '-';
          if (!more) break;
        }
      }
      std::lock_guard<std::mutex> lock(mutex);
      finished[id] = report + ".";
    });
  };
  exports["loop_finished"] = [](int id) {
    std::lock_guard<std::mutex> lock(mutex);
    return finished[id];
  };
  exports["alive"] = []() { return alive.load(); };
  exports["released_aside"] = []() { return released_aside.load(); };
  return exports;
}

NODE_API_MODULE(example, Init)
