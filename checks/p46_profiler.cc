// P46: the profiler reports what has really been executed, how many times, and for how long.
#define CURRENT_PROFILER

#include <unistd.h>

#include <condition_variable>
#include <functional>
#include <map>
#include <mutex>
#include <stack>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "typesystem/serialization/json.h"
#include "profiler/profiler.h"

PBT_CHECK("P46", "exploration",
          "A case is a history of scopes entered and left by up to three threads, nested and recursive, with time spent in "
          "between, of reports taken over HTTP, and of resets; each report is compared with a model of the call trees, the "
          "counts exactly, the times within the bounds measured around each call. Non-trivial: a report with at least four "
          "nodes.");

namespace {

using current::profiler::PerThreadReporting;
using current::profiler::ProfilingReport;

int64_t NowUs() { return current::time::Now().count(); }

// What is known of the time spent: no less, and no more.
struct Span {
  int64_t lo = 0, hi = 0;
};

struct Node {
  std::string name;
  uint64_t entries = 0;
  Span done;
  bool active = false;
  Span entered;  // As instants.
  std::map<std::string, Node> children;
  // At an instant which is not before `t.lo` and not after `t.hi`.
  Span At(Span t) const {
    if (!active) return done;
    return Span{done.lo + std::max<int64_t>(0, t.lo - entered.hi), done.hi + (t.hi - entered.lo)};
  }
  size_t Size() const {
    size_t r = 1;
    for (const auto& c : children) r += c.second.Size();
    return r;
  }
  void Reset(Span t) {
    entries = 1;
    done = Span();
    entered = t;
    for (auto it = children.begin(); it != children.end();) {
      if (it->second.active) {
        it->second.Reset(t);
        ++it;
      } else {
        it = children.erase(it);
      }
    }
  }
};

const char* const kNames[] = {"alpha", "beta", "gamma", "delta"};

// A thread which does what it is told to, one thing at a time.
class Worker {
 public:
  Worker() : thread_([this] { Run(); }) {}
  ~Worker() {
    Do([this] { stop_ = true; });
    thread_.join();
  }
  void Do(std::function<void()> f) {
    std::unique_lock<std::mutex> lock(mutex_);
    f_ = std::move(f);
    cv_.notify_all();
    cv_.wait(lock, [this] { return !f_; });
  }
  std::thread::id Id() const { return thread_.get_id(); }

 private:
  void Run() {
    std::unique_lock<std::mutex> lock(mutex_);
    while (!stop_) {
      cv_.wait(lock, [this] { return bool(f_); });
      f_();
      f_ = nullptr;
      cv_.notify_all();
    }
  }
  std::mutex mutex_;
  std::condition_variable cv_;
  std::function<void()> f_;
  bool stop_ = false;
  std::thread thread_;
};

struct Thread {
  using Scope = current::profiler::Profiler::ScopedStateMaintainer;
  std::unique_ptr<Worker> worker = std::make_unique<Worker>();
  bool known = false;
  Node root;
  std::vector<Node*> path;
  std::vector<std::unique_ptr<Scope>> scopes;
  std::string name;
};

bool Near(double expected, double actual) { return std::fabs(expected - actual) <= 1e-6 * std::max(1.0, std::fabs(expected)); }

void Compare(pbt::Src& s, const Node& model, const PerThreadReporting& r, const std::string& name, int64_t parent_us, Span t) {
  s.Eq(name, r.scope, "scope");
  s.Eq(model.entries, r.entries, "entries");
  const Span us = model.At(t);
  s.Check(us.lo <= r.us.count() && r.us.count() <= us.hi, "time", [&] {
    return name + ": " + std::to_string(r.us.count()) + " is not within [" + std::to_string(us.lo) + ", " + std::to_string(us.hi) + "]";
  });
  s.Check(Near(double(r.us.count()) / r.entries, r.us_per_entry), "us_per_entry");
  s.Check(Near(r.us.count() ? 1e6 * r.entries / r.us.count() : 1e6, r.absolute_best_possible_qps), "qps");
  s.Check(Near(parent_us ? double(r.us.count()) / parent_us : 1.0, r.ratio_of_parent), "ratio_of_parent");
  s.Eq(model.children.size(), r.subscope.size(), "subscopes");
  int64_t total = 0, last = -1;
  std::map<std::string, const PerThreadReporting*> by_name;
  for (const auto& c : r.subscope) {
    total += c.us.count();
    s.Check(last < 0 || c.us.count() <= last, "not_sorted");
    last = c.us.count();
    by_name[c.scope] = &c;
  }
  s.Check(total <= r.us.count(), "more_than_the_parent", [&] { return name + ": " + std::to_string(total) + " of " + std::to_string(r.us.count()); });
  s.Check(Near(r.us.count() ? double(total) / r.us.count() : 1.0, r.subscope_total_ratio_of_parent), "subscope_total");
  for (const auto& c : model.children) {
    const auto it = by_name.find(c.first);
    s.Check(it != by_name.end(), "subscope_missing", [&] { return c.first; });
    Compare(s, c.second, *it->second, c.first, r.us.count(), t);
  }
}

PBT_PROP(reports, o.fresh_process = true) {
  const size_t threads = s.Size(1, 3);
  std::vector<Thread> t(threads);
  for (auto& x : t) {
    std::ostringstream os;
    os << "C++ thread with internal ID " << x.worker->Id();
    x.name = os.str();
  }
  auto reserved = current::net::ReserveLocalPort();
  const uint16_t port = reserved;
  auto& http = HTTP(std::move(reserved));
  HTTPRoutesScope scope = http.Register("/profiler", current::profiler::Profiler::HTTPRoute);
  const std::string url = "http://localhost:" + std::to_string(port) + "/profiler";
  const size_t n = s.Size(1, 30);
  for (size_t i = 0; i <= n; ++i) {
    const size_t j = s.Size(0, threads - 1);
    Thread& x = t[j];
    const size_t op = i == n ? 2 : s.Weighted({6, 4, 1, 1, 3});
    if (op == 0 || (op == 1 && x.path.size() <= 1)) {
      const char* name = kNames[s.Size(0, 3)];
      s.Note(std::to_string(j) + " enters " + name);
      Span at;
      x.worker->Do([&] {
        at.lo = NowUs();
        x.scopes.push_back(std::make_unique<Thread::Scope>(name));
        at.hi = NowUs();
      });
      if (!x.known) {
        x.known = true;
        x.root.active = true;
        x.root.entries = 1;
        x.root.entered = at;
        x.path.push_back(&x.root);
      }
      Node& node = x.path.back()->children[name];
      s.Check(!node.active, "harness");
      node.active = true;
      ++node.entries;
      node.entered = at;
      x.path.push_back(&node);
    } else if (op == 1) {
      s.Note(std::to_string(j) + " leaves");
      Span at;
      x.worker->Do([&] {
        at.lo = NowUs();
        x.scopes.pop_back();
        at.hi = NowUs();
      });
      Node& node = *x.path.back();
      node.done = node.At(at);
      node.active = false;
      x.path.pop_back();
    } else if (op == 2) {
      Span at;
      at.lo = NowUs();
      const auto response = HTTP(GET(url));
      at.hi = NowUs();
      s.Eq(200, static_cast<int>(response.code), "code");
      ProfilingReport report;
      try {
        report = ParseJSON<ProfilingReport>(response.body);
      } catch (const current::Exception& e) {
        s.Fail("report_json", e.DetailedDescription() + "\n" + response.body);
      }
      std::map<std::string, const PerThreadReporting*> by_name;
      for (const auto& r : report.thread) s.Check(by_name.emplace(r.scope, &r).second, "thread_twice");
      size_t known = 0, nodes = 0;
      for (const auto& y : t) {
        if (!y.known) continue;
        ++known;
        nodes += y.root.Size();
        const auto it = by_name.find(y.name);
        s.Check(it != by_name.end(), "thread_missing");
        Compare(s, y.root, *it->second, y.name, it->second->us.count(), at);
      }
      s.Note("report of " + std::to_string(nodes) + " nodes");
      if (nodes >= 4) s.NonTrivial();
      // The thread of the HTTP server is there as well.
      s.Eq(known + 1, report.thread.size(), "threads");
      s.Check(report.profiling_overhead.count() >= 0 && report.profiling_mutex_overhead.count() >= 0 && report.reporting_overhead.count() >= 0, "overhead");
    } else if (op == 3) {
      s.Note("reset");
      Span at;
      at.lo = NowUs();
      s.Eq(std::string("The profiler has been reset.\n"), HTTP(GET(url + "?reset")).body, "reset");
      at.hi = NowUs();
      for (auto& y : t) {
        if (y.known) y.root.Reset(at);
      }
    } else {
      usleep(useconds_t(s.Size(1, 10) * 50));
    }
  }
  for (auto& x : t) {
    x.worker->Do([&x] {
      while (!x.scopes.empty()) x.scopes.pop_back();
    });
    x.worker.reset();
  }
}

}  // namespace
