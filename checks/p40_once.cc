// P40: what is deferred, shared or dispatched is done exactly once, by the right party.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "bricks/template/combine.h"
#include "bricks/template/rtti_dynamic_call.h"
#include "bricks/util/accumulative_scoped_deleter.h"
#include "bricks/util/atomic_that_works.h"
#include "bricks/util/future.h"
#include "bricks/util/iterator.h"
#include "bricks/util/lazy_instantiation.h"
#include "bricks/util/make_scope_guard.h"
#include "bricks/util/null_deleter.h"
#include "bricks/util/random.h"
#include "bricks/util/singleton.h"

PBT_CHECK("P40", "exploration",
          "A case is a history over scope guards, accumulative deleters, futures, delayed instantiations, singletons and map "
          "accessors (created, moved, merged, assigned, cleared, destroyed, waited for), or a sequence of calls dispatched by "
          "run-time type, compared with a model which records who has to be called, with what, and when. Non-trivial: at least "
          "one move or merge of something armed, or three dispatched calls, or two threads.");

namespace {

std::string Join(const std::vector<int>& v) {
  std::string r;
  for (const int x : v) r += (r.empty() ? "" : ",") + std::to_string(x);
  return r;
}

// Guards.

PBT_PROP(scope_guards, o.weight = 4) {
  std::vector<int> log, expected;
  using F = std::function<void()>;
  using G = current::ScopeGuard<F>;
  std::vector<std::unique_ptr<G>> live;
  std::vector<int> ids;
  int next = 0;
  const size_t n = s.Size(1, 25);
  for (size_t i = 0; i < n; ++i) {
    const size_t op = live.empty() ? 0 : s.Weighted({4, 3, 3});
    if (op == 0) {
      const int id = next++;
      s.Note("guard " + std::to_string(id));
      F f = [&log, id] { log.push_back(id); };
      live.push_back(std::make_unique<G>(f));
      ids.push_back(id);
    } else if (op == 1) {
      const size_t j = s.Size(0, live.size() - 1);
      s.Note("move " + std::to_string(ids[j]));
      s.NonTrivial();
      auto moved = std::make_unique<G>(std::move(*live[j]));
      live[j].reset();  // The guard moved away from has nothing to do.
      live[j] = std::move(moved);
    } else {
      const size_t j = s.Size(0, live.size() - 1);
      s.Note("destroy " + std::to_string(ids[j]));
      expected.push_back(ids[j]);
      live[j].reset();
      live.erase(live.begin() + j);
      ids.erase(ids.begin() + j);
    }
    s.Eq(Join(expected), Join(log), "guards");
  }
  while (!live.empty()) {
    expected.push_back(ids.back());
    ids.pop_back();
    live.pop_back();
  }
  s.Eq(Join(expected), Join(log), "guards_at_the_end");
}

struct Boom {
  int value;
};

void Nested(pbt::Src& s, std::vector<int>& log, std::vector<int>& expected, int depth, int throw_at) {
  // A list of guards of various kinds in one scope, in the order opposite to the one they are to be run in.
  const int a = depth * 10 + 1, b = depth * 10 + 2, c = depth * 10 + 3;
  const auto first = current::MakeScopeGuard([&log, a] { log.push_back(a); });
  struct Functor {
    std::vector<int>* log;
    int id;
    void operator()() const { log->push_back(id); }
  };
  Functor functor{&log, b};
  const auto second = current::MakeScopeGuard(functor);
  int payload = 0;
  const auto third = current::MakePointerScopeGuard(&payload, [&log, c](int*) { log.push_back(c); });
  if (depth < throw_at) {
    Nested(s, log, expected, depth + 1, throw_at);
  } else if (s.Bool()) {
    s.Note("throws at " + std::to_string(depth));
    throw Boom{depth};
  }
}

PBT_PROP(scope_guards_and_exceptions, o.weight = 4) {
  const int depth = int(s.Size(0, 5));
  std::vector<int> log, expected;
  for (int d = depth; d >= 0; --d) {
    expected.push_back(d * 10 + 3);
    expected.push_back(d * 10 + 2);
    expected.push_back(d * 10 + 1);
  }
  if (depth >= 1) s.NonTrivial();
  try {
    Nested(s, log, expected, 0, depth);
  } catch (const Boom& e) {
    s.Eq(depth, e.value, "exception");
  }
  s.Eq(Join(expected), Join(log), "guards_of_nested_scopes");
}

PBT_PROP(guards_in_a_vector, o.weight = 4) {
  std::vector<int> log;
  const size_t n = s.Size(0, 12);
  s.Note(std::to_string(n) + " guards");
  if (n >= 2) s.NonTrivial();
  const auto guard = [&log](int i) { return current::MakeScopeGuard([&log, i] { log.push_back(i); }); };
  {
    std::vector<decltype(guard(0))> guards;  // Moves them as it grows.
    for (size_t i = 0; i < n; ++i) {
      guards.push_back(guard(int(i)));
      s.Eq(std::string(), Join(log), "guard_run_while_in_use");
    }
  }
  std::sort(log.begin(), log.end());
  std::vector<int> expected;
  for (size_t i = 0; i < n; ++i) expected.push_back(int(i));
  s.Eq(Join(expected), Join(log), "guards_in_a_vector");
}

// Accumulative deleters.

struct Tag;
using D = current::AccumulativeScopedDeleter<Tag, true>;
using Idle = current::AccumulativeScopedDeleter<Tag, false>;

PBT_PROP(accumulative_deleters, o.weight = 4) {
  constexpr size_t kSlots = 4;
  std::unique_ptr<D> d[kSlots];
  std::unique_ptr<Idle> idle[kSlots];
  std::vector<int> model_d[kSlots], model_idle[kSlots];
  std::vector<int> log, expected;
  int next = 0;
  const auto release = [&](std::vector<int>& m) {
    expected.insert(expected.end(), m.rbegin(), m.rend());
    m.clear();
  };
  const size_t n = s.Size(1, 40);
  for (size_t i = 0; i < n; ++i) {
    const size_t a = s.Size(0, kSlots - 1), b = (a + s.Size(1, kSlots - 1)) % kSlots;
    const std::string where = std::to_string(a) + ", " + std::to_string(b);
    if (!d[a]) {
      if (s.Bool()) {
        d[a] = std::make_unique<D>();
        s.Note("new empty " + std::to_string(a));
      } else {
        const int id = next++;
        d[a] = std::make_unique<D>([&log, id] { log.push_back(id); });
        model_d[a] = {id};
        s.Note("new " + std::to_string(a) + " with " + std::to_string(id));
      }
      continue;
    }
    switch (s.Weighted({3, 3, 4, 3, 2, 2, 2, 2, 2, 2, 3})) {
      case 0: {
        s.Note("destroy " + std::to_string(a));
        release(model_d[a]);
        d[a].reset();
        break;
      }
      case 1: {
        if (!d[b]) break;
        s.Note("move assign " + where);
        if (!model_d[b].empty()) s.NonTrivial();
        *d[a] = std::move(*d[b]);
        release(model_d[a]);
        model_d[a].swap(model_d[b]);
        break;
      }
      case 2: {
        if (!d[b]) break;
        s.Note("+= " + where);
        if (!model_d[b].empty()) s.NonTrivial();
        *d[a] += std::move(*d[b]);
        model_d[a].insert(model_d[a].end(), model_d[b].begin(), model_d[b].end());
        model_d[b].clear();
        break;
      }
      case 3: {
        const int id = next++;
        s.Note("+= " + std::to_string(a) + " with " + std::to_string(id));
        *d[a] += D([&log, id] { log.push_back(id); });
        model_d[a].push_back(id);
        break;
      }
      case 4: {
        if (!d[b]) break;
        s.Note("+ " + where + " into the former");
        if (!model_d[b].empty()) s.NonTrivial();
        auto sum = std::make_unique<D>(*d[a] + std::move(*d[b]));
        d[a].reset();  // It is empty by now.
        d[a] = std::move(sum);
        model_d[a].insert(model_d[a].end(), model_d[b].begin(), model_d[b].end());
        model_d[b].clear();
        break;
      }
      case 5: {
        s.Note("= nullptr " + std::to_string(a));
        *d[a] = nullptr;
        release(model_d[a]);
        break;
      }
      case 6: {
        s.Note("move construct " + std::to_string(a));
        if (!model_d[a].empty()) s.NonTrivial();
        auto moved = std::make_unique<D>(std::move(*d[a]));
        d[a].reset();
        d[a] = std::move(moved);
        break;
      }
      case 7: {
        // A deleter of the idle kind never calls anything, but what it holds can be moved into a real one.
        if (idle[b]) {
          s.Note("destroy idle " + std::to_string(b));
          idle[b].reset();
          model_idle[b].clear();
        } else {
          const int id = next++;
          s.Note("new idle " + std::to_string(b) + " with " + std::to_string(id));
          idle[b] = std::make_unique<Idle>([&log, id] { log.push_back(id); });
          model_idle[b] = {id};
        }
        break;
      }
      case 8: {
        if (!idle[b]) break;
        s.NonTrivial();
        if (s.Bool()) {
          s.Note("+= from idle " + where);
          *d[a] += std::move(*idle[b]);
          model_d[a].insert(model_d[a].end(), model_idle[b].begin(), model_idle[b].end());
          model_idle[b].clear();
        } else {
          s.Note("move assign from idle " + where);
          *d[a] = std::move(*idle[b]);
          release(model_d[a]);
          model_d[a].swap(model_idle[b]);
        }
        break;
      }
      case 9: {
        if (!idle[b]) break;
        s.NonTrivial();
        if (s.Bool()) {
          s.Note("idle += " + std::to_string(b) + ", " + std::to_string(a));
          *idle[b] += std::move(*d[a]);
          model_idle[b].insert(model_idle[b].end(), model_d[a].begin(), model_d[a].end());
          model_d[a].clear();
        } else {
          s.Note("idle + real " + std::to_string(b) + ", " + std::to_string(a));
          // The sum is a real one.
          auto sum = std::make_unique<D>(*idle[b] + std::move(*d[a]));
          d[a] = std::move(sum);
          auto m = model_idle[b];
          m.insert(m.end(), model_d[a].begin(), model_d[a].end());
          model_idle[b].clear();
          model_d[a] = m;
        }
        break;
      }
      default: {
        // A deleter made and gone within an expression.
        const int x = next++, y = next++;
        s.Note("temporary sum of " + std::to_string(x) + " and " + std::to_string(y));
        { D(D([&log, x] { log.push_back(x); }) + D([&log, y] { log.push_back(y); })); }
        expected.push_back(y);
        expected.push_back(x);
      }
    }
    s.Eq(Join(expected), Join(log), "deleters");
  }
  for (size_t i = 0; i < kSlots; ++i) {
    d[i].reset();
    release(model_d[i]);
    idle[i].reset();
  }
  s.Eq(Join(expected), Join(log), "deleters_at_the_end");
}

// Futures.

struct Precious {  // Move-only, and tells what has been moved away from.
  int value;
  explicit Precious(int value) : value(value) {}
  Precious(Precious&& rhs) : value(rhs.value) { rhs.value = -1; }
  Precious& operator=(Precious&&) = delete;
};

template <typename FUTURE, typename SET>
void FutureCase(pbt::Src& s, FUTURE future, std::thread& t, SET set_expected, int value, bool throws) {
  const size_t waits = s.Size(0, 2);
  for (size_t i = 0; i < waits; ++i) {
    future.Wait();
    s.Check(set_expected(), "wait_returned_early");
  }
  if (s.Chance(1, 6)) {
    future.Detach();
    s.Note("detached");
  } else {
    try {
      const Precious result = future.Go();
      s.Check(!throws, "exception_lost");
      s.Eq(value, result.value, "value");
    } catch (const Boom& e) {
      s.Check(throws, "unexpected_exception");
      s.Eq(value, e.value, "exception_value");
    }
    s.Check(set_expected(), "go_returned_early");
  }
  t.join();
}

PBT_PROP(futures, o.weight = 4) {
  const bool throws = s.Bool(), strict = s.Bool();
  const size_t moves = s.Size(0, 2);
  const int value = int(s.Int(0, 1000)), delay = int(s.Size(0, 3)) * 200;
  s.Note(std::string(throws ? "throws, " : "returns, ") + (strict ? "strict, " : "forgiving, ") + std::to_string(moves) + " moves");
  s.NonTrivial();
  std::promise<Precious> promise;
  std::atomic_bool set{false};
  auto f = promise.get_future();
  std::thread t([&] {
    if (delay) usleep(delay);
    set = true;
    if (throws) {
      promise.set_exception(std::make_exception_ptr(Boom{value}));
    } else {
      promise.set_value(Precious(value));
    }
  });
  const auto is_set = [&set] { return set.load(); };
  if (strict) {
    using F = current::Future<Precious, current::StrictFuture::Strict>;
    F a(std::move(f));
    if (moves == 0) {
      FutureCase<F>(s, std::move(a), t, is_set, value, throws);
    } else {
      F b(std::move(a));
      FutureCase<F>(s, std::move(b), t, is_set, value, throws);
    }
  } else {
    using F = current::Future<Precious>;
    F a(std::move(f));
    if (moves == 0) {
      FutureCase<F>(s, std::move(a), t, is_set, value, throws);
    } else {
      F b(std::move(a));
      FutureCase<F>(s, std::move(b), t, is_set, value, throws);
    }
  }
}

PBT_PROP(futures_of_nothing, o.weight = 4) {
  const bool throws = s.Bool(), wait = s.Bool();
  const int value = int(s.Int(0, 1000)), delay = int(s.Size(0, 3)) * 200;
  s.Note(throws ? "throws" : "returns");
  s.NonTrivial();
  std::promise<void> promise;
  std::atomic_bool set{false};
  auto f = promise.get_future();
  std::thread t([&] {
    if (delay) usleep(delay);
    set = true;
    if (throws) {
      promise.set_exception(std::make_exception_ptr(Boom{value}));
    } else {
      promise.set_value();
    }
  });
  current::Future<void, current::StrictFuture::Strict> future(std::move(f));
  if (wait) {
    future.Wait();
    s.Check(set, "wait_returned_early");
  }
  bool thrown = false;
  try {
    future.Go();
  } catch (const Boom& e) {
    thrown = true;
    s.Eq(value, e.value, "exception_value");
  }
  const bool was_set = set;
  t.join();
  s.Check(was_set, "go_returned_early");
  s.Eq(throws, thrown, "exception_of_nothing");
}

template <typename F>
int ExitCodeOf(F f) {
  const pid_t pid = fork();
  if (!pid) {
    if (!freopen("/dev/null", "w", stderr)) _exit(100);
    f();
    _exit(42);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  return WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
}

PBT_PROP(strict_futures_left_hanging, o.weight = 1) {
  // A strict future which is left hanging is fatal; one which was used, or moved away from, or is forgiving, is not.
  const bool strict = s.Bool(), moved = s.Bool();
  const size_t use = s.Size(0, 3);
  s.Note(std::string(strict ? "strict" : "forgiving") + (moved ? ", moved" : "") + ", use " + std::to_string(use));
  s.NonTrivial();
  const auto body = [&](auto maker) {
    std::promise<int> promise;
    promise.set_value(1);
    auto a = maker(promise.get_future());
    const auto finish = [&](auto& future) {
      if (use == 1) future.Go();
      if (use == 2) future.Wait();
      if (use == 3) future.Detach();
    };
    if (moved) {
      auto b(std::move(a));
      finish(b);
    } else {
      finish(a);
    }
  };
  const int code = ExitCodeOf([&] {
    if (strict) {
      body([](std::future<int> f) { return current::Future<int, current::StrictFuture::Strict>(std::move(f)); });
    } else {
      body([](std::future<int> f) { return current::Future<int>(std::move(f)); });
    }
  });
  s.Eq(strict && use == 0 ? 255 : 42, code, "strictness");
}

// Delayed instantiation.

struct Made {
  static int& Live() {
    static int live = 0;
    return live;
  }
  static int& Total() {
    static int total = 0;
    return total;
  }
  int extra;
  int by_value;
  std::string text;
  int seen_reference;
  Made(int by_value, const std::string& text, int& reference) : extra(-1), by_value(by_value), text(text), seen_reference(reference) {
    ++Live();
    ++Total();
    ++reference;
  }
  Made(const std::string& extra, int by_value, const std::string& text, int& reference) : Made(by_value, text, reference) {
    this->extra = std::stoi(extra);
  }
  Made(const Made&) = delete;
  ~Made() { --Live(); }
};

PBT_PROP(delayed_instantiation, o.weight = 4) {
  Made::Live() = Made::Total() = 0;
  int reference = int(s.Int(0, 100));
  int model_reference = reference;
  int value = int(s.Int(0, 100));
  std::string text = s.Ascii(20);
  const int value_then = value;
  const std::string text_then = text;
  const bool extra = s.Bool(), from_tuple = s.Bool();
  using Plain = current::LazilyInstantiated<Made>;
  using Extra = current::LazilyInstantiated<Made, std::string>;
  std::unique_ptr<Plain> plain;
  std::unique_ptr<Extra> with;
  if (extra) {
    if (from_tuple) {
      with = std::make_unique<Extra>(current::DelayedInstantiateWithExtraParameterFromTuple<Made, std::string>(
          std::make_tuple(value, text, std::ref(reference))));
    } else {
      with = std::make_unique<Extra>(
          current::DelayedInstantiateWithExtraParameter<Made, std::string>(value, text, std::ref(reference)));
    }
  } else {
    if (from_tuple) {
      plain = std::make_unique<Plain>(current::DelayedInstantiateFromTuple<Made>(
          std::tuple<int, std::string, std::reference_wrapper<int>>(value, text, std::ref(reference))));
    } else {
      plain = std::make_unique<Plain>(current::DelayedInstantiate<Made>(value, text, std::ref(reference)));
    }
  }
  s.Eq(0, Made::Total(), "made_ahead_of_time");
  value = -1;
  text = "changed since";
  std::vector<std::shared_ptr<Made>> shared;
  std::vector<std::unique_ptr<Made>> unique;
  std::shared_ptr<Made> storage;
  int live = 0, total = 0;
  const size_t n = s.Size(1, 10);
  if (n >= 2) s.NonTrivial();
  for (size_t i = 0; i < n; ++i) {
    const int parameter = int(s.Int(0, 1000));
    const size_t op = s.Weighted({3, 3, 2, 2, 1});
    s.Note("op " + std::to_string(op));
    const auto check = [&](const Made& made) {
      s.Eq(extra ? parameter : -1, made.extra, "extra_parameter");
      s.Eq(value_then, made.by_value, "by_value");
      s.Eq(text_then, made.text, "text");
      s.Eq(model_reference, made.seen_reference, "by_reference");
      ++model_reference;
      s.Eq(model_reference, reference, "reference");
      ++live;
      ++total;
    };
    if (op == 0) {
      shared.push_back(extra ? with->InstantiateAsSharedPtrWithExtraParameter(std::to_string(parameter)) : plain->InstantiateAsSharedPtr());
      check(*shared.back());
    } else if (op == 1) {
      unique.push_back(extra ? with->InstantiateAsUniquePtrWithExtraParameter(std::to_string(parameter)) : plain->InstantiateAsUniquePtr());
      check(*unique.back());
    } else if (op == 2 && !extra) {
      const bool empty = !storage;
      const Made* before = storage.get();
      Made& made = plain->InstantiateAsSharedPtr(
          storage, s.Bool() ? current::LazyInstantiationStrategy::Flexible
                            : (empty ? current::LazyInstantiationStrategy::ShouldNotBeInitialized
                                     : current::LazyInstantiationStrategy::ShouldAlreadyBeInitialized));
      s.Check(&made == storage.get(), "not_the_shared_one");
      if (empty) {
        check(made);
      } else {
        s.Check(before == &made, "instantiated_again");
      }
    } else if (op == 3) {
      reference = model_reference = int(s.Int(0, 100));
    } else if (op == 4 && storage) {
      storage.reset();
      --live;
    }
    s.Eq(total, Made::Total(), "instantiations");
    s.Eq(live, Made::Live(), "alive");
  }
  for (size_t i = 1; i < shared.size(); ++i) s.Check(shared[i] != shared[i - 1], "not_separate");
  plain.reset();
  with.reset();
  shared.clear();
  unique.clear();
  storage.reset();
  s.Eq(0, Made::Live(), "leaked");
}

// Calls by the run-time type.

struct Base {
  int id = 0;
  virtual ~Base() = default;
};
struct A : Base {};
struct B : A {};
struct C : virtual Base {};
struct Side {
  int filler = 7;
  virtual ~Side() = default;
};
struct E : Side, Base {};
struct F1 : B {};
struct Unlisted : A {};

struct Log {
  std::vector<std::string> entries;
};

template <typename T>
const char* Name();
template <> const char* Name<Base>() { return "Base"; }
template <> const char* Name<A>() { return "A"; }
template <> const char* Name<B>() { return "B"; }
template <> const char* Name<C>() { return "C"; }
template <> const char* Name<E>() { return "E"; }
template <> const char* Name<F1>() { return "F1"; }

struct Handler {
  Log& log;
  // Which of the overloads is called is what is to be seen here.
  template <typename T>
  void operator()(const T& x, int& counter, std::unique_ptr<int> p) const {
    ++counter;
    log.entries.push_back(std::string("const ") + Name<T>() + ' ' + std::to_string(x.id) + ' ' + std::to_string(*p));
  }
  template <typename T>
  void operator()(T& x, int& counter, std::unique_ptr<int> p) const {
    ++counter;
    log.entries.push_back(std::string("ref ") + Name<T>() + ' ' + std::to_string(x.id) + ' ' + std::to_string(*p));
    x.id += 1000;
  }
  template <typename T, class = std::enable_if_t<!std::is_lvalue_reference<T>::value && !std::is_const<T>::value>>
  void operator()(T&& x, int& counter, std::unique_ptr<int> p) const {
    ++counter;
    log.entries.push_back(std::string("rvalue ") + Name<T>() + ' ' + std::to_string(x.id) + ' ' + std::to_string(*p));
    x.id += 2000;
  }
};

template <typename LIST>
void DynamicCalls(pbt::Src& s, const std::set<std::string>& listed) {
  const size_t n = s.Size(1, 12);
  if (n >= 3) s.NonTrivial();
  Log log;
  std::vector<std::string> expected;
  int counter = 0, model_counter = 0;
  for (size_t i = 0; i < n; ++i) {
    std::unique_ptr<Base> x;
    std::string name;
    switch (s.Size(0, 6)) {
      case 0: x.reset(new Base()); name = "Base"; break;
      case 1: x.reset(new A()); name = "A"; break;
      case 2: x.reset(new B()); name = "B"; break;
      case 3: x.reset(new C()); name = "C"; break;
      case 4: x.reset(new E()); name = "E"; break;
      case 5: x.reset(new F1()); name = "F1"; break;
      default: x.reset(new Unlisted()); name = "Unlisted";
    }
    const int id = x->id = int(s.Int(0, 999));
    const int parameter = int(s.Int(0, 999));
    const size_t how = s.Size(0, 2);
    const std::string text = std::string(how == 0 ? "const " : how == 1 ? "ref " : "rvalue ") + name + ' ' + std::to_string(id) + ' ' + std::to_string(parameter);
    s.Note(text);
    bool thrown = false;
    const Handler handler{log};
    try {
      if (how == 0) {
        current::metaprogramming::RTTIDynamicCall<LIST>(static_cast<const Base&>(*x), handler, counter, std::make_unique<int>(parameter));
      } else if (how == 1) {
        current::metaprogramming::RTTIDynamicCall<LIST>(*x, handler, counter, std::make_unique<int>(parameter));
      } else {
        current::metaprogramming::RTTIDynamicCall<LIST>(std::move(*x), handler, counter, std::make_unique<int>(parameter));
      }
    } catch (const current::metaprogramming::UnlistedTypeException&) {
      thrown = true;
    }
    const bool is_listed = listed.count(name) != 0;
    s.Eq(!is_listed, thrown, "unlisted");
    if (is_listed) {
      expected.push_back(text);
      ++model_counter;
    }
    s.Check(log.entries == expected, "dispatched", [&] {
      return "expected the last to be: " + (expected.empty() ? "nothing" : expected.back()) + "\nwas: " + (log.entries.empty() ? "nothing" : log.entries.back());
    });
    s.Eq(model_counter, counter, "calls");
    s.Eq(id + (is_listed ? (how == 1 ? 1000 : how == 2 ? 2000 : 0) : 0), x->id, "side_effect");
  }
}

PBT_PROP(calls_by_type, o.weight = 4) {
  switch (s.Size(0, 3)) {
    case 0: return DynamicCalls<TypeList<Base, A, B, C, E, F1>>(s, {"Base", "A", "B", "C", "E", "F1"});
    case 1: return DynamicCalls<TypeList<E, A, Base>>(s, {"E", "A", "Base"});
    case 2: return DynamicCalls<std::tuple<B, C>>(s, {"B", "C"});
    default: return DynamicCalls<std::tuple<F1, A>>(s, {"F1", "A"});
  }
}

// Combined handlers.

struct TakesInt {
  std::vector<std::string>& log;
  explicit TakesInt(std::vector<std::string>* log) : log(*log) {}
  std::string operator()(int x) { log.push_back("int"); return "int " + std::to_string(x); }
  template <typename T> void DispatchToAll(T&& x) const { log.push_back("all int " + x); }
};
struct TakesText {
  std::vector<std::string>& log;
  explicit TakesText(std::vector<std::string>* log) : log(*log) {}
  std::string operator()(const std::string& x) { log.push_back("text"); return "text " + x; }
  template <typename T> void DispatchToAll(T&& x) const { log.push_back("all text " + x); }
};
struct TakesTwo {
  std::vector<std::string>& log;
  explicit TakesTwo(std::vector<std::string>* log) : log(*log) {}
  int operator()(int x, const std::string& y) { log.push_back("two"); return x + int(y.size()); }
  template <typename T> void DispatchToAll(T&& x) const { log.push_back("all two " + x); }
};

template <typename LIST>
void Combined(pbt::Src& s, const std::vector<std::string>& order) {
  std::vector<std::string> log, expected;
  current::metaprogramming::combine<LIST> c(&log);
  const size_t n = s.Size(1, 6);
  if (n >= 3) s.NonTrivial();
  for (size_t i = 0; i < n; ++i) {
    const int x = int(s.Int(0, 99));
    std::string y = s.Ascii(6);
    switch (s.Size(0, 3)) {
      case 0: s.Eq("int " + std::to_string(x), c(int(x)), "int"); expected.push_back("int"); break;
      case 1: s.Eq("text " + y, c(std::string(y)), "text"); expected.push_back("text"); break;
      case 2: s.Eq(x + int(y.size()), c(int(x), std::string(y)), "two"); expected.push_back("two"); break;
      default: c.DispatchToAll(y); for (const auto& o : order) expected.push_back("all " + o + ' ' + y);
    }
    s.Check(log == expected, "combined");
  }
}

PBT_PROP(combined_handlers, o.weight = 4) {
  switch (s.Size(0, 2)) {
    case 0: return Combined<TypeList<TakesInt, TakesText, TakesTwo>>(s, {"int", "text", "two"});
    case 1: return Combined<std::tuple<TakesTwo, TakesInt, TakesText>>(s, {"two", "int", "text"});
    default: return Combined<TypeList<TakesText, TakesTwo, TakesInt>>(s, {"text", "two", "int"});
  }
}

// Singletons.

template <int N>
struct Counted {
  static std::atomic_int& Made() { static std::atomic_int n{0}; return n; }
  static std::atomic_int& Gone() { static std::atomic_int n{0}; return n; }
  int value = 0;
  Counted() { usleep(200); ++Made(); }
  ~Counted() { ++Gone(); }
};

PBT_PROP(singletons, o.fresh_process = true, o.weight = 1) {
  const size_t threads = s.Size(1, 6);
  if (threads >= 2) s.NonTrivial();
  s.Note(std::to_string(threads) + " threads");
  std::vector<std::thread> pool;
  std::vector<void*> shared(threads);
  std::atomic_int wrong{0};
  std::atomic_size_t ready{0};
  std::vector<int> writes;
  for (size_t t = 0; t < threads; ++t) writes.push_back(int(s.Size(1, 4)));
  for (size_t t = 0; t < threads; ++t) {
    pool.emplace_back([&, t] {
      ++ready;
      while (ready < threads) std::this_thread::yield();
      shared[t] = &current::Singleton<Counted<0>>();
      void* mine = &current::ThreadLocalSingleton<Counted<1>>();
      for (int i = 0; i < writes[t]; ++i) {
        auto& one = current::ThreadLocalSingleton<Counted<1>>();
        auto& other = current::ThreadLocalSingleton<Counted<2>>();
        if (&one != mine || one.value != i || other.value != 2 * i) ++wrong;
        one.value += 1;
        other.value += 2;
        std::this_thread::yield();
      }
    });
  }
  for (auto& t : pool) t.join();
  for (const void* p : shared) s.Check(p == &current::Singleton<Counted<0>>(), "not_the_same_singleton");
  s.Eq(1, Counted<0>::Made().load(), "singleton_made");
  s.Eq(0, Counted<0>::Gone().load(), "singleton_gone");
  s.Eq(0, wrong.load(), "thread_local_shared");
  s.Eq(int(threads), Counted<1>::Made().load(), "thread_local_made");
  s.Eq(int(threads), Counted<1>::Gone().load(), "thread_local_gone");
  s.Eq(int(threads), Counted<2>::Gone().load(), "second_thread_local_gone");
}

// Random numbers.

template <typename T>
void RandomOf(pbt::Src& s, T (*plain)(const T, const T), T (*secure)(const T, const T)) {
  T a = s.Integer<T>(), b = s.Integer<T>();
  if (s.Bool()) b = a;
  if (s.Chance(1, 3)) {
    a = T(s.Int(0, 20));
    b = T(a + T(s.Int(0, 5)));
  }
  if (b < a) std::swap(a, b);
  s.Note("[" + std::to_string(a) + ", " + std::to_string(b) + "]");
  for (int i = 0; i < 20; ++i) {
    const T x = plain(a, b);
    s.Check(a <= x && x <= b, "random_out_of_range");
    const T y = secure(a, b);
    s.Check(a <= y && y <= b, "secure_random_out_of_range");
  }
  if (uint64_t(b) - uint64_t(a) <= 3) {
    // Every value is reached, the bounds included.
    std::set<T> seen;
    for (int i = 0; i < 400; ++i) seen.insert(plain(a, b));
    s.Eq(size_t(uint64_t(b) - uint64_t(a)) + 1, seen.size(), "values_reached");
  }
}

PBT_PROP(random_numbers, o.weight = 4) {
  using namespace current::random;
  s.NonTrivial();
  switch (s.Size(0, 6)) {
    case 0: return RandomOf<int>(s, RandomInt, CSRandomInt);
    case 1: return RandomOf<unsigned int>(s, current::random::RandomUInt, CSRandomUInt);
    case 2: return RandomOf<long>(s, RandomLong, CSRandomLong);
    case 3: return RandomOf<unsigned long>(s, RandomULong, CSRandomULong);
    case 4: return RandomOf<int64_t>(s, RandomInt64, CSRandomInt64);
    case 5: return RandomOf<uint64_t>(s, RandomUInt64, CSRandomUInt64);
    default: {
      const double a = double(s.Int(-1000, 1000)) / 8, b = a + double(s.Int(1, 1000)) / 8;
      s.Note("[" + std::to_string(a) + ", " + std::to_string(b) + ")");
      for (int i = 0; i < 50; ++i) {
        const double x = RandomDouble(a, b), y = CSRandomDouble(a, b);
        s.Check(a <= x && x <= b && a <= y && y <= b, "double_out_of_range");
        const float z = RandomFloat(float(a), float(b));
        s.Check(float(a) <= z && z <= float(b), "float_out_of_range");
      }
    }
  }
}

PBT_PROP(seeded_random_numbers, o.weight = 1) {
  // The same seed gives the same numbers, in every thread on its own.
  const uint64_t seed = s.U64(), other = s.Bool() ? seed : s.U64();
  const size_t n = s.Size(4, 20);
  s.Note(std::to_string(seed) + " and " + std::to_string(other));
  s.NonTrivial();
  std::vector<uint64_t> a, b;
  const auto body = [n](uint64_t seed, std::vector<uint64_t>& v) {
    current::random::SetRandomSeed(seed);
    for (size_t i = 0; i < n; ++i) v.push_back(current::random::RandomUInt64(0, ~0ull));
  };
  std::thread x([&] { body(seed, a); }), y([&] { body(other, b); });
  x.join();
  y.join();
  s.Eq(seed == other, a == b, "seeds");
  s.Check(std::set<uint64_t>(a.begin(), a.end()).size() == n, "not_random");
}

// Accessors of maps.

struct Item {
  int value = 0;
  explicit Item(int value = 0) : value(value) {}
};

template <typename MAP>
int ValueOf(const MAP& map, int key) {
  return current::is_unique_ptr<std::remove_pointer_t<typename MAP::mapped_type>>::extract(map.at(key)).value;
}

template <typename MAP, typename MAKE>
void Accessor(pbt::Src& s, MAKE make) {
  MAP map;
  std::map<int, int> model;
  const size_t n = s.Size(0, 8);
  for (size_t i = 0; i < n; ++i) {
    const int key = int(s.Int(-5, 5)), value = int(s.Int(0, 99));
    map[key] = make(value);
    model[key] = value;
  }
  if (n >= 3) s.NonTrivial();
  const current::GenericMapAccessor<MAP> accessor(map);
  s.Eq(model.size(), accessor.Size(), "size");
  s.Eq(int64_t(model.size()), accessor.TotalElementsForHypermediaCollectionView(), "total");
  s.Eq(model.empty(), accessor.Empty(), "empty");
  std::map<int, int> seen;
  size_t steps = 0;
  for (auto it = accessor.begin(); it != accessor.end(); ++it) {
    s.Check(seen.emplace(it.key(), (*it).value).second, "seen_twice");
    s.Eq((*it).value, it->value, "arrow");
    ++steps;
  }
  s.Eq(model.size(), steps, "steps");
  s.Check(model == seen, "elements");
  for (int key = -6; key <= 6; ++key) s.Eq(model.count(key) == 1, accessor.Has(key), "has");
  if constexpr (!current::stl_wrappers::sfinae::is_unordered_map<MAP>::value) {
    auto m = model.begin();
    for (auto it = accessor.begin(); it != accessor.end(); it++, ++m) s.Eq(m->first, it.key(), "order");
    auto r = model.rbegin();
    for (auto it = accessor.rbegin(); it != accessor.rend(); ++it, ++r) {
      s.Eq(r->first, it.key(), "reverse_order");
      s.Eq(r->second, (*it).value, "reverse_value");
      s.Eq(r->second, it->value, "reverse_arrow");
    }
    s.Check(r == model.rend(), "reverse_end");
    for (int key = -6; key <= 6; ++key) {
      const auto lower = accessor.LowerBound(key), upper = accessor.UpperBound(key);
      const auto ml = model.lower_bound(key), mu = model.upper_bound(key);
      s.Eq(ml == model.end(), lower == accessor.end(), "lower_bound_end");
      s.Eq(mu == model.end(), upper == accessor.end(), "upper_bound_end");
      if (ml != model.end()) s.Eq(ml->first, lower.key(), "lower_bound");
      if (mu != model.end()) s.Eq(mu->first, upper.key(), "upper_bound");
      if (ml != model.begin()) {
        auto before = lower;
        --before;
        s.Eq(std::prev(ml)->first, before.key(), "decrement");
        auto same = before++;
        s.Check(same != before && before == lower, "post_increment");
        auto back = before--;
        s.Check(back == lower && same == before, "post_decrement");
      }
    }
  }
}

PBT_PROP(map_accessors, o.weight = 4) {
  std::list<Item> items;
  switch (s.Size(0, 4)) {
    case 0: s.Note("unique"); return Accessor<std::map<int, std::unique_ptr<Item>>>(s, [](int x) { return std::make_unique<Item>(x); });
    case 1: s.Note("unordered unique"); return Accessor<std::unordered_map<int, std::unique_ptr<Item>>>(s, [](int x) { return std::make_unique<Item>(x); });
    case 2: s.Note("pointers"); return Accessor<std::map<int, const Item*>>(s, [&](int x) { items.emplace_back(x); return &items.back(); });
    case 3: s.Note("values"); return Accessor<std::map<int, Item>>(s, [](int x) { return Item(x); });
    default: s.Note("unordered values"); return Accessor<std::unordered_map<int, Item>>(s, [](int x) { return Item(x); });
  }
}

// A value of several words is stored and loaded as a whole.

struct Words {
  uint64_t w[5];
};

PBT_PROP(atomic_values, o.weight = 1) {
  const size_t writers = s.Size(1, 3), readers = s.Size(1, 3), n = s.Size(10, 300);
  s.NonTrivial();
  s.Note(std::to_string(writers) + " writers, " + std::to_string(readers) + " readers, " + std::to_string(n) + " stores");
  current::atomic_that_works<Words> value(Words{{0, 0, 0, 0, 0}});
  std::atomic_int torn{0};
  std::vector<std::thread> pool;
  for (size_t t = 0; t < writers; ++t) {
    pool.emplace_back([&, t] {
      for (uint64_t i = 1; i <= n; ++i) {
        const uint64_t x = t * 1000000 + i;
        value.store(Words{{x, x, x, x, x}});
      }
    });
  }
  for (size_t t = 0; t < readers; ++t) {
    pool.emplace_back([&, t] {
      for (size_t i = 0; i < n; ++i) {
        Words w;
        if (i & 1) {
          w = value.load();
        } else {
          if (&value.load_into(w) != &w) ++torn;
        }
        for (int k = 1; k < 5; ++k) if (w.w[k] != w.w[0]) ++torn;
      }
    });
  }
  for (auto& t : pool) t.join();
  s.Eq(0, torn.load(), "torn");
  const Words last = value.load();
  s.Eq(n, size_t(last.w[0] % 1000000), "last_value");
}

}  // namespace
