// P38: pipelines deliver every record to every stage.
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "ripcurrent/ripcurrent.h"

PBT_CHECK("P38", "exploration",
          "A case is a pipeline of random shape (up to five sources united and transformed on their way, up to six stages "
          "which map, drop, repeat, split by type into branches and merge, and up to three sinks), fed with up to a hundred "
          "records per source from constructors, destructors and threads, run once or twice at a time; or a script of posting, "
          "scheduling and moving the head; or a history of declaring, using, running and leaving blocks. Non-trivial: at least "
          "two sources or a split, and at least ten records delivered; or a script with both kept and refused messages.");

namespace p38 {

using namespace current::ripcurrent;

CURRENT_STRUCT(M) {
  CURRENT_FIELD(src, uint32_t, 0);
  CURRENT_FIELD(seq, uint32_t, 0);
  CURRENT_FIELD(v, int64_t, 0);
  CURRENT_FIELD(text, std::string);
  CURRENT_CONSTRUCTOR(M)(uint32_t src = 0, uint32_t seq = 0, int64_t v = 0, const std::string& text = "") : src(src), seq(seq), v(v), text(text) {}
};
#define SAME_AS_M(X)                                                                                                                          \
  CURRENT_STRUCT(X) {                                                                                                                         \
    CURRENT_FIELD(src, uint32_t, 0);                                                                                                          \
    CURRENT_FIELD(seq, uint32_t, 0);                                                                                                          \
    CURRENT_FIELD(v, int64_t, 0);                                                                                                             \
    CURRENT_FIELD(text, std::string);                                                                                                         \
    CURRENT_CONSTRUCTOR(X)(uint32_t src = 0, uint32_t seq = 0, int64_t v = 0, const std::string& text = "") : src(src), seq(seq), v(v), text(text) {} \
  }
SAME_AS_M(A);
SAME_AS_M(B);
SAME_AS_M(C);

struct Rec {
  uint32_t src, seq;
  int64_t v;
  std::string text;
  char type = 'M';
  bool operator==(const Rec& r) const { return src == r.src && seq == r.seq && v == r.v && text == r.text && type == r.type; }
  std::string Show() const { return std::string(1, type) + std::to_string(src) + "." + std::to_string(seq) + "=" + std::to_string(v) + text; }
};
using Stream = std::vector<Rec>;
template <typename T>
Rec R(const T& x, char type) {
  return Rec{x.src, x.seq, x.v, x.text, type};
}

// What is watched as the pipelines run.
std::atomic<int> instances{0};
std::atomic<int> overlaps{0};
std::mutex mutex;
std::vector<std::string> errors;
struct Instance {
  std::atomic<int> inside{0};
  Instance() { ++instances; }
  ~Instance() { --instances; }
  Instance(const Instance&) = delete;
};
struct Alone {
  std::atomic<int>& inside;
  explicit Alone(std::atomic<int>& inside) : inside(inside) {
    if (inside.fetch_add(1, std::memory_order_relaxed)) ++overlaps;
  }
  ~Alone() { inside.fetch_sub(1, std::memory_order_relaxed); }
};

// What the sinks collect: a slot per an instance of the sink.
struct Collector {
  std::mutex mutex;
  std::vector<std::shared_ptr<Stream>> slots;
  std::shared_ptr<Stream> New() {
    std::lock_guard<std::mutex> lock(mutex);
    slots.push_back(std::make_shared<Stream>());
    return slots.back();
  }
};

struct Script {
  uint32_t src = 0;
  Stream records;
  int mode = 0;     // From the constructor, from a thread, from a thread with pauses, half from each, from the destructor.
};

RIPCURRENT_NODE(Source, void, M), Instance {
  Script script;
  std::thread thread;
  Source(const Script& script) : script(script) {
    const size_t n = script.records.size();
    if (script.mode == 0) {
      Emit(0, n);
    } else if (script.mode == 1 || script.mode == 2) {
      thread = std::thread([this, n]() { Emit(0, n); });
    } else if (script.mode == 3) {
      Emit(0, n / 2);
      thread = std::thread([this, n]() { Emit(n / 2, n); });
    }
  }
  ~Source() {
    if (thread.joinable()) thread.join();
    if (script.mode == 4) Emit(0, script.records.size());
  }
  void Emit(size_t a, size_t b) {
    for (size_t i = a; i < b; ++i) {
      const Rec& r = script.records[i];
      if (i % 2) {
        emit<M>(r.src, r.seq, r.v, r.text);
      } else {
        emit<M>(M(r.src, r.seq, r.v, r.text));
      }
      if (script.mode == 2 && i % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
  }
};

// Emits messages of two types.
RIPCURRENT_NODE(SourceAB, void, (A, B)), Instance {
  Script script;
  std::thread thread;
  SourceAB(const Script& script) : script(script) {
    thread = std::thread([this]() {
      for (const Rec& r : this->script.records) {
        if (r.v % 2) {
          emit<A>(r.src, r.seq, r.v, r.text);
        } else {
          emit<B>(r.src, r.seq, r.v, r.text);
        }
      }
    });
  }
  ~SourceAB() { thread.join(); }
};

RIPCURRENT_NODE(Map, M, M), Instance {
  int op;
  int64_t k;
  size_t n = 0;
  Map(int op, int64_t k) : op(op), k(k) {}
  void f(M x) {
    const Alone alone(inside);
    ++n;
    if (op == 0) {
      emit<M>(x.src, x.seq, x.v + k, x.text);
    } else if (op == 1) {
      emit<M>(x.src, x.seq, x.v * k, x.text + "*");
    } else if (op == 2) {
      if (x.v % k) emit<M>(std::move(x));
    } else if (op == 3) {
      emit<M>(x);
      x.v += k;
      emit<M>(x);
    } else {
      if (n % 16 == 0) std::this_thread::sleep_for(std::chrono::microseconds(60));
      emit<M>(x);
    }
  }
};

// Passes everything, and tells what has passed once everything has.
RIPCURRENT_NODE(Total, M, M), Instance {
  uint32_t k;
  std::map<uint32_t, int64_t> sum;
  Total(uint32_t k) : k(k) {}
  void f(M x) {
    const Alone alone(inside);
    sum[x.src] += x.v;
    emit<M>(std::move(x));
  }
  ~Total() {
    for (const auto& x : sum) emit<M>(x.first, 1000000 + k, x.second, "total");
  }
};

RIPCURRENT_NODE(Split2, M, (A, B)), Instance {
  Split2() {}
  void f(const M& x) {
    const Alone alone(inside);
    if (x.v % 2) {
      emit<A>(x.src, x.seq, x.v, x.text);
    } else {
      emit<B>(x.src, x.seq, x.v, x.text);
    }
  }
};
RIPCURRENT_NODE(Split3, M, (A, B, C)), Instance {
  Split3() {}
  void f(M x) {
    const Alone alone(inside);
    const int64_t m = ((x.v % 3) + 3) % 3;
    if (m == 0) emit<A>(x.src, x.seq, x.v, x.text);
    if (m == 1) emit<B>(x.src, x.seq, x.v, x.text);
    if (m == 2) emit<C>(x.src, x.seq, x.v, x.text);
  }
};
#define FROM(X, D)                                                   \
  RIPCURRENT_NODE(From##X, X, M), Instance {                         \
    From##X() {}                                                     \
    void f(X x) {                                                    \
      const Alone alone(inside);                                     \
      emit<M>(x.src, x.seq, x.v + D, x.text + #X);                   \
    }                                                                \
  }
FROM(A, 10);
FROM(B, 20);
FROM(C, 30);

RIPCURRENT_NODE(BtoB, B, B), Instance {
  BtoB() {}
  void f(B x) {
    const Alone alone(inside);
    emit<B>(x.src, x.seq, x.v, x.text + "b");
  }
};

#define SINK(X, TYPE)                                                                   \
  RIPCURRENT_NODE(Sink##X, X, void), Instance {                                         \
    std::shared_ptr<Stream> to;                                                         \
    Sink##X(Collector & c) : to(c.New()) {}                                             \
    void f(X x) {                                                                       \
      const Alone alone(inside);                                                        \
      to->push_back(R(x, TYPE));                                                        \
    }                                                                                   \
  }
SINK(M, 'M');
SINK(A, 'A');
SINK(B, 'B');
SINK(C, 'C');
RIPCURRENT_NODE(SinkAB, (A, B), void), Instance {
  std::shared_ptr<Stream> to;
  SinkAB(Collector & c) : to(c.New()) {}
  void f(const A& x) {
    const Alone alone(inside);
    to->push_back(R(x, 'A'));
  }
  void f(B && x) {
    const Alone alone(inside);
    to->push_back(R(x, 'B'));
  }
};

using S1 = LHS<RHSTypes<M>>;
using V1 = VIA<LHSTypes<M>, RHSTypes<M>>;
using T1 = RHS<LHSTypes<M>>;

Stream MapModel(const Stream& in, int op, int64_t k) {
  Stream out;
  for (Rec r : in) {
    if (op == 0) {
      r.v += k;
      out.push_back(r);
    } else if (op == 1) {
      r.v *= k;
      r.text += "*";
      out.push_back(r);
    } else if (op == 2) {
      if (r.v % k) out.push_back(r);
    } else if (op == 3) {
      out.push_back(r);
      r.v += k;
      out.push_back(r);
    } else {
      out.push_back(r);
    }
  }
  return out;
}

using Model = std::function<Stream(const Stream&)>;
struct Via {
  V1 block;
  Model model;
  std::string text;
};
struct Src {
  S1 block;
  std::map<uint32_t, Stream> streams;
  std::string text;
};
struct Snk {
  T1 block;
  std::vector<std::pair<Collector*, Model>> sinks;
  std::string text;
};

struct Builder {
  pbt::Src& s;
  std::vector<std::unique_ptr<Collector>> collectors;
  uint32_t next_src = 1;
  size_t splits = 0;
  bool totals = true;
  explicit Builder(pbt::Src& s) : s(s) {}

  Script MakeScript() {
    Script r;
    r.src = next_src++;
    r.mode = int(s.Weighted({2, 4, 1, 1, 1}));
    const size_t n = s.Len(100);
    const int64_t base = s.Int(-20, 20);
    for (size_t i = 0; i < n; ++i) r.records.push_back(Rec{r.src, uint32_t(i), base + int64_t(i) * 7, i % 5 ? "" : std::string(i % 40, 'x')});
    return r;
  }

  Via Leaf() {
    switch (s.Weighted({6, 1, 2, 2, 1, 1})) {
      case 1: {
        return Via{RIPCURRENT_PASS(M), [](const Stream& in) { return in; }, "Pass(M)"};
      }
      case 2: {
        ++splits;
        const int which = int(s.Draw(2));
        const auto model = [](const Stream& in) {
          Stream out;
          for (Rec r : in) {
            r.text += r.v % 2 ? "A" : "B";
            r.v += r.v % 2 ? 10 : 20;
            out.push_back(r);
          }
          return out;
        };
        if (which == 0) {
          return Via{RIPCURRENT_MACRO(Split2) | (RIPCURRENT_MACRO(FromA) + RIPCURRENT_MACRO(FromB)), model, "Split2() | FromA() + FromB()"};
        } else if (which == 1) {
          return Via{RIPCURRENT_MACRO(Split2) | (RIPCURRENT_PASS(A) + RIPCURRENT_PASS(B)) | (RIPCURRENT_MACRO(FromA) + RIPCURRENT_MACRO(FromB)), model, "Split2() | Pass(A) + Pass(B) | FromA() + FromB()"};
        } else {
          return Via{RIPCURRENT_MACRO(Split2) | RIPCURRENT_PASS(A, B) | (RIPCURRENT_MACRO(FromA) + RIPCURRENT_MACRO(FromB)), model, "Split2() | Pass(A, B) | FromA() + FromB()"};
        }
      }
      case 3: {
        ++splits;
        const auto model = [](const Stream& in) {
          Stream out;
          for (Rec r : in) {
            const int64_t m = ((r.v % 3) + 3) % 3;
            r.text += "ABC"[m];
            r.v += 10 * (m + 1);
            out.push_back(r);
          }
          return out;
        };
        const auto a = RIPCURRENT_MACRO(FromA);
        const auto b = RIPCURRENT_MACRO(FromB);
        const auto c = RIPCURRENT_MACRO(FromC);
        switch (s.Draw(2)) {
          case 0: return Via{RIPCURRENT_MACRO(Split3) | (a + b + c), model, "Split3() | FromA() + FromB() + FromC()"};
          case 1: return Via{RIPCURRENT_MACRO(Split3) | (a + (b + c)), model, "Split3() | FromA() + FromB() + FromC()"};
          default: return Via{RIPCURRENT_MACRO(Split3) | (RIPCURRENT_PASS(A, B) + RIPCURRENT_PASS(C)) | ((a + b) + c), model, "Split3() | Pass(A, B) + Pass(C) | FromA() + FromB() + FromC()"};
        }
      }
      case 4: {
        // A branch of two stages, and one which only passes.
        ++splits;
        const auto model = [](const Stream& in) {
          Stream out;
          for (Rec r : in) {
            r.text += r.v % 2 ? "A" : "bB";
            r.v += r.v % 2 ? 10 : 20;
            out.push_back(r);
          }
          return out;
        };
        return Via{RIPCURRENT_MACRO(Split2) | (RIPCURRENT_PASS(A) + RIPCURRENT_MACRO(BtoB)) | (RIPCURRENT_MACRO(FromA) + RIPCURRENT_MACRO(FromB)), model,
                   "Split2() | Pass(A) + BtoB() | FromA() + FromB()"};
      }
      case 5:
        if (totals) {
          const uint32_t k = uint32_t(s.Draw(9));
          return Via{RIPCURRENT_MACRO(Total, k),
                     [k](const Stream& in) {
                       Stream out = in;
                       int64_t sum = 0;
                       for (const Rec& r : in) sum += r.v;
                       if (!in.empty()) out.push_back(Rec{in[0].src, 1000000 + k, sum, "total"});
                       return out;
                     },
                     "Total(k)"};
        }
        return Via{RIPCURRENT_PASS(M), [](const Stream& in) { return in; }, "Pass(M)"};
      default: {
        const int op = int(s.Draw(4));
        const int64_t k = s.Int(2, 5);
        return Via{RIPCURRENT_MACRO(Map, op, k), [op, k](const Stream& in) { return MapModel(in, op, k); }, "Map(op, k)"};
      }
    }
  }
  Via MakeVia(int depth) {
    if (depth > 0 && s.Chance(1, 3)) {
      const Via a = MakeVia(depth - 1), b = MakeVia(depth - 1);
      const Model f = a.model, g = b.model;
      return Via{a.block | b.block, [f, g](const Stream& in) { return g(f(in)); }, a.text + " | " + b.text};
    }
    return Leaf();
  }
  Src MakeSource(int depth) {
    const size_t w = depth > 0 ? s.Weighted({3, 3, 2, 1}) : 0;
    if (w == 1) {
      const Src a = MakeSource(depth - 1), b = MakeSource(depth - 1);
      Src r{a.block + b.block, a.streams, a.text + " + " + b.text};
      for (const auto& x : b.streams) r.streams.insert(x);
      return r;
    } else if (w == 2) {
      const Src a = MakeSource(depth - 1);
      const Via v = MakeVia(1);
      Src r{a.block | v.block, {}, a.text + " | " + v.text};
      for (const auto& x : a.streams) r.streams[x.first] = v.model(x.second);
      return r;
    } else if (w == 3) {
      const Script script = MakeScript();
      Stream out;
      for (Rec r : script.records) {
        r.text += r.v % 2 ? "A" : "B";
        r.v += r.v % 2 ? 10 : 20;
        out.push_back(r);
      }
      ++splits;
      return Src{RIPCURRENT_MACRO(SourceAB, script) | (RIPCURRENT_MACRO(FromA) + RIPCURRENT_MACRO(FromB)), {{script.src, out}}, "SourceAB(script) | FromA() + FromB()"};
    }
    const Script script = MakeScript();
    return Src{RIPCURRENT_MACRO(Source, script), {{script.src, script.records}}, "Source(script)"};
  }
  Collector& NewCollector() {
    collectors.push_back(std::make_unique<Collector>());
    return *collectors.back();
  }
  static Model Only(char type, int n) {
    return [type, n](const Stream& in) {
      Stream out;
      for (Rec r : in) {
        r.type = n == 2 ? (r.v % 2 ? 'A' : 'B') : "ABC"[((r.v % 3) + 3) % 3];
        if (type == '*' || r.type == type) out.push_back(r);
      }
      return out;
    };
  }
  Snk MakeSink() {
    switch (s.Weighted({4, 2, 1, 1, 1})) {
      case 1: {
        ++splits;
        Collector& a = NewCollector();
        Collector& b = NewCollector();
        return Snk{RIPCURRENT_MACRO(Split2) | (RIPCURRENT_MACRO(SinkA, std::ref(a)) + RIPCURRENT_MACRO(SinkB, std::ref(b))),
                   {{&a, Only('A', 2)}, {&b, Only('B', 2)}},
                   "Split2() | SinkA(std::ref(a)) + SinkB(std::ref(b))"};
      }
      case 2: {
        ++splits;
        Collector& a = NewCollector();
        Collector& b = NewCollector();
        Collector& c = NewCollector();
        return Snk{RIPCURRENT_MACRO(Split3) |
                       (RIPCURRENT_MACRO(SinkA, std::ref(a)) + (RIPCURRENT_MACRO(SinkB, std::ref(b)) + RIPCURRENT_MACRO(SinkC, std::ref(c)))),
                   {{&a, Only('A', 3)}, {&b, Only('B', 3)}, {&c, Only('C', 3)}},
                   "Split3() | SinkA(std::ref(a)) + SinkB(std::ref(b)) + SinkC(std::ref(c))"};
      }
      case 3: {
        ++splits;
        Collector& a = NewCollector();
        return Snk{RIPCURRENT_MACRO(Split2) | (RIPCURRENT_DROP(A) + RIPCURRENT_MACRO(SinkB, std::ref(a))), {{&a, Only('B', 2)}}, "Split2() | Drop(A) + SinkB(std::ref(a))"};
      }
      case 4: {
        Collector& a = NewCollector();
        return Snk{RIPCURRENT_MACRO(Split2) | RIPCURRENT_MACRO(SinkAB, std::ref(a)), {{&a, Only('*', 2)}}, "Split2() | SinkAB(std::ref(a))"};
      }
      default: {
        Collector& c = NewCollector();
        return Snk{RIPCURRENT_MACRO(SinkM, std::ref(c)), {{&c, [](const Stream& in) { return in; }}}, "SinkM(std::ref(c))"};
      }
    }
  }
};

struct Watch {
  decltype(current::Singleton<RipCurrentMockableErrorHandler>().ScopedInjectHandler({})) scope;
  Watch() : scope(current::Singleton<RipCurrentMockableErrorHandler>().ScopedInjectHandler([](const std::string& e) {
    std::lock_guard<std::mutex> lock(mutex);
    errors.push_back(e);
  })) {
    errors.clear();
    instances = 0;
    overlaps = 0;
  }
};

std::string Show(const Stream& v) {
  std::string r;
  for (const Rec& x : v) r += x.Show() + " ";
  return r;
}

}  // namespace p38

using namespace p38;

PBT_PROP(pipelines, o.weight = 6; o.hang_s = 40; o.hang_is_violation = true; o.schedule = true) {
  Watch watch;
  size_t delivered = 0, sources = 0;
  Builder b(s);
  {
    Src src = b.MakeSource(int(s.Draw(3)));
    sources = src.streams.size();
    b.totals = b.totals && sources < 100;
    for (size_t i = s.Size(0, 3); i; --i) {
      const Via v = b.MakeVia(1);
      Src r{src.block | v.block, {}, src.text + " | " + v.text};
      for (const auto& x : src.streams) r.streams[x.first] = v.model(x.second);
      src = Src{r.block, r.streams, r.text};
    }
    const Snk snk = b.MakeSink();
    const E2E flow = src.block | snk.block;
    if (s.Describing()) s.Note(src.text + " | " + snk.text);
    s.Eq(src.text + " | " + snk.text, flow.Describe(), "description");
    s.Eq(0, instances.load(), "instantiated-before-it-is-run");
    const size_t runs = 1 + s.Weighted({3, 1});
    const bool async = s.Chance(1, 4);
    if (runs == 1) {
      if (async) {
        RipCurrentScope scope = flow.RipCurrent();
        scope.Async();
      } else {
        flow.RipCurrent().Join();
      }
    } else {
      RipCurrentScope one = flow.RipCurrent();
      RipCurrentScope two = flow.RipCurrent();
      if (async) {
        two.Async();
        one.Join();
      } else {
        two.Join();
        one.Join();
      }
    }
    s.Eq(0, instances.load(), "instances-left");
    for (const auto& sink : snk.sinks) {
      s.Eq(runs, sink.first->slots.size(), "sink-instances");
      for (const auto& slot : sink.first->slots) {
        std::map<uint32_t, Stream> got;
        for (const Rec& r : *slot) got[r.src].push_back(r);
        for (const auto& x : src.streams) {
          const Stream expected = sink.second(x.second);
          const Stream& actual = got[x.first];
          delivered += actual.size();
          if (!(expected == actual)) s.Eq(Show(expected), Show(actual), "delivered");
        }
        s.Eq(src.streams.size(), got.size(), "sources");
      }
    }
  }
  s.Eq(0, overlaps.load(), "two-threads-in-one-block");
  s.Check(errors.empty(), "errors", [&] { return errors[0]; });
  if ((sources > 1 || b.splits) && delivered >= 10) s.NonTrivial(pbt::Hash(Show(*b.collectors[0]->slots[0])));
}

// -- The time. --

namespace p38 {
struct Op {
  int kind;  // 0: post, 1: schedule, 2: head, 3: emit, 4: pause.
  int64_t t;
  uint32_t id;
};
RIPCURRENT_NODE(Timed, void, M), Instance {
  Timed(const std::vector<Op>& ops) {
    for (const Op& op : ops) {
      const auto t = std::chrono::microseconds(op.t);
      if (op.kind == 0) post<M>(t, 0u, op.id, op.t);
      if (op.kind == 1) schedule<M>(t, M(0u, op.id, op.t));
      if (op.kind == 2) head(t);
      if (op.kind == 3) emit<M>(0u, op.id, op.t);
      if (op.kind == 4) std::this_thread::sleep_for(std::chrono::microseconds(op.t));
    }
  }
};
}  // namespace p38

PBT_PROP(timing, o.weight = 3; o.hang_s = 40; o.hang_is_violation = true; o.schedule = true) {
  Watch watch;
  std::vector<Op> ops;
  constexpr int64_t kFuture = int64_t(9e15);
  int64_t guess = 0;
  bool emitted = false;
  for (size_t i = 1 + s.Len(30); i; --i) {
    Op op;
    op.kind = int(s.Weighted({4, 5, 3, 1, 1}));
    op.id = uint32_t(ops.size());
    const int64_t near = guess + s.Int(-3, 12);
    op.t = std::max<int64_t>(near, 0);
    if (op.kind == 3) emitted = true;
    if (op.kind == 4) op.t = s.Int(0, 200);
    if (op.kind == 0 || op.kind == 2) guess = std::max(guess, op.t);
    ops.push_back(op);
  }
  ops.push_back(Op{2, kFuture, uint32_t(ops.size())});  // So that everything scheduled gets delivered.
  Collector c;
  { (RIPCURRENT_MACRO(Timed, ops) | RIPCURRENT_MACRO(SinkM, std::ref(c))).RipCurrent().Join(); }
  // The model.
  struct Published {
    Op op;
    int64_t head_then;
  };
  std::vector<Published> published;
  int64_t head = -1;
  size_t refused = 0, scheduled = 0;
  std::string log;
  for (const Op& op : ops) {
    log += std::to_string(op.kind) + "@" + std::to_string(op.t) + " ";
    if (op.kind == 4) continue;
    if (op.kind == 1) {
      ++scheduled;
      published.push_back({op, head});
      continue;
    }
    const int64_t t = op.kind == 3 ? int64_t(1e15) : op.t;  // Whatever now is, it is after everything else here.
    if (op.kind != 3 && t <= head) {
      ++refused;
      continue;
    }
    if (op.kind == 3 && head > int64_t(1e15)) continue;
    head = t;
    Op at = op;
    if (op.kind == 3) at.t = t;
    if (op.kind != 2) published.push_back({at, head});
  }
  s.Note(log);
  s.Check(refused == errors.size(), "errors", [&] { return log + std::to_string(refused) + (errors.empty() ? "" : errors[0]); });
  s.Eq(size_t(1), c.slots.size(), "sinks");
  const Stream& got = *c.slots[0];
  std::map<uint32_t, size_t> position;
  for (size_t i = 0; i < got.size(); ++i) s.Check(position.emplace(got[i].seq, i).second, "delivered-twice");
  for (const auto& p : published) s.Check(position.count(p.op.id), "not-delivered", [&] { return std::to_string(p.op.id); });
  s.Eq(published.size(), got.size(), "delivered");
  for (const Rec& r : got) s.Eq(ops[r.seq].t, r.v, "content");
  for (size_t i = 0; i < published.size(); ++i) {
    for (size_t j = i + 1; j < published.size(); ++j) {
      const Op &x = published[i].op, &y = published[j].op;
      const bool x_first = position[x.id] < position[y.id];
      if (emitted && (x.kind == 3) != (y.kind == 3) && x.t > int64_t(1e14)) continue;
      if (x.t <= y.t) s.Check(x_first, "order", [&] { return log + ": " + std::to_string(x.id) + " before " + std::to_string(y.id); });
      // The former was still waiting for the head as the latter was published.
      if (x.t > y.t && published[j].head_then < x.t) s.Check(!x_first, "order-of-time", [&] { return log + ": " + std::to_string(y.id) + " before " + std::to_string(x.id); });
    }
  }
  if (refused && scheduled && published.size() > 3) s.NonTrivial(pbt::Hash(log));
}

// -- Using the blocks. --

PBT_PROP(usage, o.weight = 1; o.hang_s = 40; o.hang_is_violation = true; o.schedule = true) {
  Watch watch;
  size_t expected = 0;
  Collector c;
  std::string log;
  const size_t n = s.Size(1, 5);
  for (size_t i = 0; i < n; ++i) {
    errors.clear();
    Script script;
    script.src = 1;
    script.records = {Rec{1, 0, 5, ""}, Rec{1, 1, 6, ""}};
    const size_t what = s.Draw(6);
    log += std::to_string(what);
    expected = 0;
    std::string text;
    const int op = 0;
    const int64_t k = 1;
    if (what == 0) {  // A block nobody uses.
      text = s.Bool() ? "... | Map(op, k) | ...\n" : "... | SinkM(std::ref(c))\n";
      if (text[6] == 'M') {
        V1 block = RIPCURRENT_MACRO(Map, op, k);
        const V1 copy = block;
      } else {
        T1 block = RIPCURRENT_MACRO(SinkM, std::ref(c));
      }
      expected = 1;
    } else if (what == 1) {  // A larger block nobody uses.
      const V1 block = RIPCURRENT_MACRO(Map, op, k);
      S1 larger = RIPCURRENT_MACRO(Source, script) | block;
      text = "Source(script) | Map(op, k) | ...\n";
      expected = 1;
    } else if (what == 2) {
      const V1 block = RIPCURRENT_MACRO(Map, op, k);
      if (s.Bool()) {
        s.Eq(std::string("... | Map(op, k) | ..."), block.Describe(), "description");
      } else if (s.Bool()) {
        s.Eq(std::string("... | { M } => Map(op, k) => { M } | ..."), block.DescribeWithTypes(), "description");
      } else {
        block.Dismiss();
      }
    } else if (what == 3) {  // Run, and left hanging.
      { auto scope = (RIPCURRENT_MACRO(Source, script) | RIPCURRENT_MACRO(SinkM, std::ref(c))).RipCurrent(); }
      expected = 1;
      text = "RipCurrent run context was left hanging.";
    } else if (what == 4) {  // Joined twice.
      auto scope = (RIPCURRENT_MACRO(Source, script) | RIPCURRENT_MACRO(SinkM, std::ref(c))).RipCurrent();
      scope.Join();
      if (s.Bool()) {
        scope.Join();
        text = "`RipCurrent::Join()` on a scope that has already been";
      } else {
        scope.Async();
        text = "`RipCurrent::Async()` on a scope that has already been";
      }
      expected = 1;
    } else if (what == 5) {  // Moved, then joined.
      auto scope = (RIPCURRENT_MACRO(Source, script) | RIPCURRENT_MACRO(SinkM, std::ref(c))).RipCurrent();
      RipCurrentScope moved(std::move(scope));
      moved.Join();
    } else {  // A flow which is never run.
      const E2E flow = RIPCURRENT_MACRO(Source, script) | RIPCURRENT_MACRO(SinkM, std::ref(c));
      expected = 1;
      text = "Source(script) | SinkM(std::ref(c))\n";
    }
    // The blocks of this step are gone here, except for the ones which are in scope of the branch.
    const std::vector<std::string> e = errors;
    s.Check(expected == e.size(), "errors", [&] { return log + (e.empty() ? "" : e[0]); });
    if (expected) s.Check(e[0].find(text) != std::string::npos, "error", [&] { return e[0]; });
  }
  for (const auto& slot : c.slots) s.Eq(size_t(2), slot->size(), "delivered");
  s.Eq(0, instances.load(), "instances-left");
  if (n > 2) s.NonTrivial(pbt::Hash(log));
}
