// P44: Claire keeps Karl informed.
//
// A real Claire, reporting to fake Karls which record what they are told and answer as they are instructed to.
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"
#include "httpc.h"
#include "karl_build.h"

#include "karl/claire.h"

PBT_CHECK("P44", "exploration",
          "A case is a history of up to fifteen operations on a Claire (registration with and without confirmation, forced "
          "keepalives, changes of dependencies, of the boilerplate, and of the Karl to report to, by the call and by the request, "
          "requests for the status, good and bad) with Karls which accept, refuse, or are not there, ended by the destruction of "
          "Claire; or threads which do this at once. Non-trivial: at least two keepalives were to be sent.");

namespace p44 {
CURRENT_STRUCT(load) {
  CURRENT_FIELD(qps, uint32_t, 0u);
};
}  // namespace p44

namespace {

using namespace current::karl;
using runtime_t = Variant<p44::load>;
using claire_t = GenericClaire<runtime_t>;
using status_t = ClaireServiceStatus<runtime_t>;

int Port(int i) {
  static std::map<int, int> ports;
  int& p = ports[i];
  if (!p) {
    auto reserved = current::net::ReserveLocalPort();
    p = reserved;
    static_cast<void>(HTTP(std::move(reserved)));
  }
  return p;
}
// Taken, but no one listens there.
int DeadPort() {
  static int port = [] {
    const int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_ANY);
    socklen_t n = sizeof(a);
    if (bind(fd, reinterpret_cast<sockaddr*>(&a), n) || getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n)) abort();
    return int(ntohs(a.sin_port));
  }();
  return port;
}

struct Told {
  std::string method, codename, port, body;
  bool confirm;
  std::string called_back;  // With `confirm`.
  int answered;
};

struct FakeKarl {
  std::mutex m;
  std::vector<Told> told;
  std::atomic<int> answer{200};
  std::atomic<int> begun{0}, delay_ms{0};
  std::string url;
  HTTPRoutesScope scope;
  explicit FakeKarl(int i, const std::string& path) : url("http://localhost:" + std::to_string(Port(i)) + path) {
    scope += HTTP(current::net::BarePort(uint16_t(Port(i)))).Register(path, [this](Request r) {
      if (r.method == "POST") ++begun;
      if (delay_ms) std::this_thread::sleep_for(std::chrono::milliseconds(int(delay_ms)));
      Told t;
      t.method = r.method;
      t.codename = r.url.query.has("codename") ? r.url.query["codename"] : "";
      t.port = r.url.query.has("port") ? r.url.query["port"] : "";
      t.confirm = r.url.query.has("confirm");
      t.body = r.body;
      t.answered = answer;
      if (t.confirm) {
        t.called_back = httpc::Request(atoi(t.port.c_str()), "GET", "/.current?all").body;
      }
      {
        std::lock_guard<std::mutex> lock(m);
        told.push_back(t);
      }
      r("OK\n", current::net::HTTPResponseCodeValue(t.answered));
    });
  }
  std::vector<Told> Take() {
    std::lock_guard<std::mutex> lock(m);
    auto r = std::move(told);
    told.clear();
    return r;
  }
  size_t Count() {
    std::lock_guard<std::mutex> lock(m);
    return told.size();
  }
};

struct Listener final : IClaireNotifiable {
  std::vector<std::string> urls;
  void OnKarlLocatorChanged(const Locator& l) override { urls.push_back(l.address_port_route); }
};

std::string Key(int i) { return "http://127.0.0.1:" + std::to_string(20000 + i) + (i % 2 ? "/x/" : "/"); }

PBT_PROP(history, o.weight = 8; o.hang_s = 40) {
  FakeKarl k1(1, "/one"), k2(2, "/two");
  const std::string dead = "http://localhost:" + std::to_string(DeadPort()) + "/three";
  const std::vector<std::string> urls = {k1.url, k2.url, dead};
  Listener listener;
  int at = int(s.Weighted({4, 1, 1}));
  std::vector<std::string> given;
  std::set<std::string> deps;
  const size_t d0 = s.Size(0, 2);
  for (size_t i = 0; i < d0; ++i) {
    given.push_back(Key(int(s.Int(0, 3))));
    deps.insert(given.back());
  }
  auto claire = std::make_unique<claire_t>(Locator(urls[size_t(at)]), "svc", uint16_t(Port(0)), listener, given);
  const std::string codename = claire->Codename();
  std::string instance;
  bool registered = false, running = false, filler = false;
  std::vector<std::string> heard;
  uint32_t calls = 0;
  std::mutex calls_mutex;
  int keepalives = 0;
  uint64_t shape = 0;
  std::string last_status;  // "" when not attempted yet.
  bool has_success = false;

  auto Depends = [&](const std::vector<ClaireServiceKey>& v, const char* tag) {
    std::set<std::string> a;
    for (const auto& x : v) a.insert("http://" + x.ip + ":" + std::to_string(x.port) + x.prefix);
    s.Check(a == deps && v.size() == a.size(), tag, [&] { return JSON(v) + " vs " + JSON(deps); });
  };
  auto IsCurrent = [&](const std::string& json, const char* tag, bool build) {
    status_t x;
    try {
      x = ParseJSON<status_t>(json);
    } catch (const current::Exception& e) {
      s.Fail(tag, std::string("does not parse: ") + e.what() + ": " + json);
    }
    s.Eq(codename, x.codename, tag);
    s.Eq(std::string("svc"), x.service, tag);
    s.Eq(Port(0), int(x.local_port), tag);
    s.Eq(urls[size_t(at)], x.reporting_to, tag);
    s.Eq(instance, Exists(x.cloud_instance_name) ? Value(x.cloud_instance_name) : "", tag);
    s.Eq(build, Exists(x.build), "the build");
    s.Eq(filler, Exists(x.runtime), "the runtime status");
    if (filler) s.Check(Value<p44::load>(Value(x.runtime)).qps > 0, "the runtime status");
    Depends(x.dependencies, tag);
    return x;
  };
  // Where the keepalives go.
  auto Karl = [&]() -> FakeKarl* { return at == 0 ? &k1 : at == 1 ? &k2 : nullptr; };
  // At least `least` keepalives have come to the right place, each with the current state, and none to the other ones.
  auto Came = [&](size_t least, bool wait, bool confirm = false) {
    if (Karl() && wait) {
      for (int i = 0; i < 2500 && Karl()->Count() < least; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(4));
    }
    for (FakeKarl* k : {&k1, &k2}) {
      const auto told = k->Take();
      if (k != Karl()) {
        s.Check(told.empty(), "a keepalive to the wrong Karl", [&] { return told[0].method + " " + told[0].body; });
        continue;
      }
      s.Check(told.size() >= least, "keepalives sent", [&] { return std::to_string(told.size()); });
      for (const auto& t : told) {
        s.Eq(std::string("POST"), t.method, "keepalive");
        s.Eq(codename, t.codename, "codename in the URL");
        s.Eq(std::to_string(Port(0)), t.port, "port in the URL");
        s.Eq(confirm, t.confirm, "confirm in the URL");
        IsCurrent(t.body, "keepalive", true);
        if (confirm) IsCurrent(t.called_back, "called back", true);
        last_status = t.answered == 200 ? "Success" : "HTTP response code " + std::to_string(t.answered);
        has_success |= t.answered == 200;
        ++keepalives;
        shape = pbt::Mix(shape, pbt::Hash(t.method + t.body.substr(t.body.find("\"dependencies\""), 200)) + uint64_t(t.answered));
      }
    }
    if (!Karl() && least) last_status = "HTTP connection attempt failed";
  };
  // The result of the attempt is known to Claire a moment after Karl has sent the response.
  auto Status = [&](const std::string& q, bool build) {
    status_t x;
    for (int i = 0; i < 2500; ++i) {
      const auto r = httpc::Request(Port(0), "GET", "/.current" + q);
      s.Eq(200, r.code, "status");
      x = IsCurrent(r.body, "status", build);
      if (x.last_keepalive_status == last_status) break;
      std::this_thread::sleep_for(std::chrono::milliseconds(4));
    }
    s.Eq(last_status, x.last_keepalive_status, "the last keepalive");
    s.Eq(has_success, Exists(x.last_successful_keepalive), "the last successful keepalive");
    s.Eq(has_success, Exists(x.last_successful_keepalive_ping_us), "the ping");
    s.Eq(!last_status.empty(), !x.last_keepalive_sent.empty(), "the last keepalive");
  };

  const size_t n = s.Size(1, 15);
  for (size_t i = 0; i < n; ++i) {
    switch (s.Weighted({4, 4, 2, 2, 1, 2, 2, 2, 4, 2, 2})) {
      case 0: {
        const bool confirm = s.Bool(), fill = s.Bool();
        if (s.Describing()) s.Note(std::string("Register") + (confirm ? ", confirm" : "") + (fill ? ", with a status" : ""));
        const bool was_filler = filler;
        if (!registered) filler = fill;  // Set even if the registration fails.
        static_cast<void>(was_filler);
        std::function<runtime_t()> f;
        if (fill) {
          f = [&] {
            std::lock_guard<std::mutex> lock(calls_mutex);
            p44::load x;
            x.qps = ++calls;
            return runtime_t(x);
          };
        }
        const bool can = Karl() && Karl()->answer == 200;
        bool thrown = false;
        try {
          claire->Register(f, confirm);
        } catch (const ClaireRegistrationException&) {
          thrown = true;
        }
        const bool expect_thrown = !registered && confirm && !can;
        s.Eq(expect_thrown, thrown, "confirmed registration");
        if (registered) {
          Came(0, false);
        } else if (confirm) {
          // The thread, if just started, waits for its time: the last keepalive is recent.
          Came(1, false, true);
          if (!thrown) registered = running = true;
        } else {
          const bool first = last_status.empty();
          registered = running = true;
          if (first) {
            // Claire reports right away.
            if (Karl()) Came(1, true); else {
              last_status = "HTTP connection attempt failed";
            }
          }
        }
        s.Label(thrown ? "registration refused" : "registered");
        break;
      }
      case 1: {
        if (s.Describing()) s.Note("ForceSendKeepalive");
        claire->ForceSendKeepalive(ForceSendKeepaliveWaitRequest::Wait);
        Came(1, false);
        if (!running) {
          // When this starts the thread, there may be one more.
          std::this_thread::sleep_for(std::chrono::milliseconds(30));
          Came(0, false);
        }
        running = true;
        s.Label("forced keepalive");
        break;
      }
      case 2: {
        const std::string k = Key(int(s.Int(0, 4)));
        if (s.Describing()) s.Note("AddDependency " + k);
        if (s.Bool()) claire->AddDependency(k); else claire->AddDependency(ClaireServiceKey(k));
        deps.insert(k);
        break;
      }
      case 3: {
        const std::string k = Key(int(s.Int(0, 4)));
        if (s.Describing()) s.Note("RemoveDependency " + k);
        if (s.Bool()) claire->RemoveDependency(k); else claire->RemoveDependency(ClaireServiceKey(k));
        deps.erase(k);
        break;
      }
      case 4: {
        deps.clear();
        std::vector<std::string> v;
        const size_t m = s.Size(0, 3);
        for (size_t j = 0; j < m; ++j) {
          v.push_back(Key(int(s.Int(0, 4))));
          deps.insert(v.back());
        }
        claire->SetDependencies(v);
        break;
      }
      case 5: {
#if __has_feature(thread_sanitizer)
        if (running) break;  // The boilerplate is the user's, to be changed while no keepalive is being sent.
#endif
        instance = "i" + std::to_string(s.Int(0, 3));
        claire->BoilerplateStatus().cloud_instance_name = instance;
        break;
      }
      case 6: {
        at = int(s.Weighted({4, 4, 1}));
        if (s.Describing()) s.Note("SetKarlLocator " + urls[size_t(at)]);
        claire->SetKarlLocator(Locator(urls[size_t(at)]), ForceSendKeepaliveWaitRequest::Wait);
        heard.push_back(urls[size_t(at)]);
        Came(1, false);
        if (!running) {
          std::this_thread::sleep_for(std::chrono::milliseconds(30));
          Came(0, false);
        }
        running = true;
        s.Eq(urls[size_t(at)], claire->GetKarlLocator().address_port_route, "Karl's locator");
        s.Label("another Karl");
        break;
      }
      case 7: {
        if (s.Chance(1, 3)) {
          const std::string q = s.Pick({"", "?report_to=", "?report_to=/x", "?report=http://localhost:1/"});
          const auto r = httpc::Request(Port(0), "POST", "/.current" + q, "", "", true);
          s.Eq(400, r.code, "a request to report to no one");
          break;
        }
        at = int(s.Weighted({4, 4}));
        if (s.Describing()) s.Note("POST report_to " + urls[size_t(at)]);
        const auto r = httpc::Request(Port(0), "POST", "/.current?report_to=" + urls[size_t(at)], "", "", true);
        s.Eq(200, r.code, "a request to report to another Karl");
        heard.push_back(urls[size_t(at)]);
        Came(1, true);
        if (!running) {
          std::this_thread::sleep_for(std::chrono::milliseconds(30));
          Came(0, false);
        }
        running = true;
        s.Label("another Karl, by request");
        break;
      }
      case 8: {
        const bool all = s.Bool();
        Status(all ? s.Pick({"?all", "?a"}) : "", all);
        break;
      }
      case 9: {
        switch (s.Int(0, 2)) {
          case 0: {
            const auto r = httpc::Request(Port(0), "GET", "/.current?build");
            s.Check(r.code == 200 && r.body.find("git_commit_hash") != std::string::npos && r.body.find("codename") == std::string::npos, "the build only", [&] { return r.body; });
            break;
          }
          case 1: {
            const auto r = httpc::Request(Port(0), "GET", "/.current?runtime");
            s.Eq(filler ? 200 : 503, r.code, "the runtime status only");
            if (filler) s.Check(r.body.find("\"qps\":") != std::string::npos && r.body.find("codename") == std::string::npos, "the runtime status only", [&] { return r.body; });
            break;
          }
          case 2: s.Eq(405, httpc::Request(Port(0), s.Bool() ? "PUT" : "DELETE", "/.current", "", "", true).code, "other methods"); break;
        }
        break;
      }
      case 10: {
        FakeKarl& k = s.Bool() ? k1 : k2;
        k.answer = s.OneOf(std::vector<int>{200, 200, 400, 500, 204});
        if (k.answer == 204) k.answer = 200;
        if (s.Describing()) s.Note(k.url + " answers " + std::to_string(k.answer));
        break;
      }
    }
  }
  Came(0, false);
  if (s.Bool()) Status("?all", true);
  s.Check(heard == listener.urls, "notifications of the change of Karl", [&] { return JSON(heard) + " vs " + JSON(listener.urls); });
  claire = nullptr;
  for (FakeKarl* k : {&k1, &k2}) {
    const auto told = k->Take();
    if (k == Karl() && running) {
      s.Check(told.size() == 1 && told[0].method == "DELETE" && told[0].codename == codename, "deregistration", [&] { return std::to_string(told.size()) + " requests"; });
      s.Label("deregistered");
    } else {
      s.Check(told.empty(), "the silence of the one who did not report", [&] { return told[0].method; });
    }
  }
  const auto r = httpc::Request(Port(0), "GET", "/.current");
  s.Eq(404, r.code, "status of the one who is no more");
  if (keepalives >= 2) s.NonTrivial(pbt::Mix(shape, deps.size()));
}

PBT_PROP(at_once, o.weight = 2; o.hang_s = 40; o.schedule = true) {
  FakeKarl k1(1, "/one");
  auto claire = std::make_unique<claire_t>(Locator(k1.url), "svc", uint16_t(Port(0)));
  const bool reg = s.Bool();
  if (reg) claire->Register(nullptr, s.Bool());
  const int n = int(s.Int(1, 20));
  std::atomic_bool done(false);
  std::string bad;
  std::thread reader([&] {
    while (!done) {
      const auto r = httpc::Request(Port(0), "GET", "/.current");
      try {
        const auto x = ParseJSON<status_t>(r.body);
        for (const auto& d : x.dependencies) {
          if (d.port < 20000 || d.port > 20004) bad = r.body;
        }
      } catch (const current::Exception&) {
        bad = "does not parse: " + r.body;
      }
    }
  });
  std::thread forcer([&] {
    for (int i = 0; i < n; ++i) claire->ForceSendKeepalive(i % 2 ? ForceSendKeepaliveWaitRequest::Wait : ForceSendKeepaliveWaitRequest::DoNotWait);
  });
  for (int i = 0; i < n * 5; ++i) {
    const std::string k = Key(int(s.Int(0, 4)));
    if (s.Bool()) claire->AddDependency(k); else claire->RemoveDependency(k);
  }
  forcer.join();
  done = true;
  reader.join();
  claire = nullptr;
  s.Check(bad.empty(), "status of the one who is being changed", [&] { return bad; });
  const auto told = k1.Take();
  s.Check(!told.empty() && told.back().method == "DELETE", "deregistration");
  for (size_t i = 0; i + 1 < told.size(); ++i) s.Eq(std::string("POST"), told[i].method, "keepalive");
  s.NonTrivial(uint64_t(n));
}

// A keepalive which is asked for begins, at whatever moment of the previous one it was asked for.
PBT_PROP(asked_for, o.weight = 2; o.hang_s = 60; o.schedule = true) {
  FakeKarl k1(1, "/one");
  auto claire = std::make_unique<claire_t>(Locator(k1.url), "svc", uint16_t(Port(0)));
  if (s.Bool()) claire->Register(nullptr, s.Bool());
  const int n = int(s.Int(1, 5));
  int in_flight = 0;
  for (int i = 0; i < n; ++i) {
    k1.delay_ms = int(s.Weighted({2, 1, 1})) * 10;
    k1.answer = s.Chance(1, 4) ? 500 : 200;
    std::vector<std::thread> askers;
    std::atomic<int> unanswered{0};
    const size_t k = s.Size(1, 3);
    for (size_t j = 0; j < k; ++j) {
      const int after_us = int(s.Int(0, 12)) * 1000;
      askers.emplace_back([&, after_us] {
        if (after_us) std::this_thread::sleep_for(std::chrono::microseconds(after_us));
        const int before = k1.begun;
        claire->ForceSendKeepalive();
        for (int ms = 0; ms < 8000 && k1.begun == before; ++ms) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if (k1.begun == before) ++unanswered;
      });
    }
    for (auto& t : askers) t.join();
    in_flight += k > 1 && k1.delay_ms;
    s.Check(!unanswered, "keepalives asked for", [&] { return std::to_string(int(unanswered)) + " of them never began, in step " + std::to_string(i); });
  }
  k1.delay_ms = 0;
  claire = nullptr;
  s.LabelIf(in_flight != 0, "in_flight");
  if (in_flight) s.NonTrivial(uint64_t(n));
}

}  // namespace
