// P43: Karl's picture of the fleet is the one the keepalives give.
//
// A real Karl, on the mock time, is driven by raw HTTP requests from a few loopback addresses; a model keeps the history of
// the accepted keepalives and what each of Karl's pages, its storage, and its notifications must be.
#include <dirent.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"
#include "httpc.h"
#include "karl_build.h"

#include "karl/karl.h"

PBT_CHECK("P43", "exploration",
          "A case is a history of up to thirty requests and moments: keepalives (complete, in either JSON format, with an unknown "
          "runtime status, inconsistent, malformed, by other methods), deregistrations, silences short and long, restarts of "
          "Karl, from up to three machines, with the pages of Karl compared with a model in between. Non-trivial: at least two "
          "services, three keepalives and one query of an interval, or a timeout, a deregistration or a restart.");

namespace p43 {
CURRENT_STRUCT(load) {
  CURRENT_FIELD(qps, uint32_t, 0u);
  void Render(std::ostream&, std::chrono::microseconds) const {}
};
CURRENT_STRUCT(other) {
  CURRENT_FIELD(text, std::string);
  void Render(std::ostream&, std::chrono::microseconds) const {}
};
CURRENT_STRUCT(unheard_of) {
  CURRENT_FIELD(depth, int32_t, 0);
  CURRENT_FIELD(text, std::string);
};
}  // namespace p43

namespace {

using us_t = std::chrono::microseconds;
using namespace current::karl;
using karl_t = GenericKarl<UseOwnStorage, p43::load, p43::other>;
using runtime_t = Variant<p43::load, p43::other>;
using foreign_t = Variant<p43::unheard_of>;
using claire_t = ClaireServiceStatus<runtime_t>;
using foreign_claire_t = ClaireServiceStatus<foreign_t>;
using status_t = GenericKarlStatus<runtime_t>;

int Port(int i) {
  static std::map<int, int> ports;
  int& p = ports[i];
  if (!p) {
    auto reserved = current::net::ReserveLocalPort();
    p = reserved;
    static_cast<void>(HTTP(std::move(reserved)));
  }
  return p;
}

constexpr int64_t kSecond = 1000000;
// Half a second apart from all the moments at which anything happens.
const us_t kTimeout(45 * kSecond + kSecond / 2);

struct Notified {
  std::string what;
  int64_t second;
  bool operator<(const Notified& o) const { return what < o.what; }
};

struct Notifiable final : IKarlNotifiable<runtime_t> {
  std::mutex m;
  std::vector<std::string> log;
  static std::string Second(us_t t) { return std::to_string(t.count() / kSecond); }
  void OnKeepalive(us_t now, const ClaireServiceKey& l, const std::string& c, const claire_t& status) override {
    std::lock_guard<std::mutex> lock(m);
    log.push_back("keepalive " + c + " at " + Second(now) + " from " + l.StatusPageURL() + " of " + status.service);
  }
  void OnDeregistered(us_t now, const std::string& c, const ImmutableOptional<ClaireInfo>& info) override {
    std::lock_guard<std::mutex> lock(m);
    log.push_back("deregistered " + c + " at " + Second(now) + (Exists(info) ? " from " + Value(info).location.StatusPageURL() : " unknown"));
  }
  void OnTimedOut(us_t, const std::string& c, const ImmutableOptional<ClaireInfo>& info) override {
    std::lock_guard<std::mutex> lock(m);
    log.push_back("timed out " + c + (Exists(info) ? " from " + Value(info).location.StatusPageURL() : " unknown"));
  }
  std::vector<std::string> Take() {
    std::lock_guard<std::mutex> lock(m);
    auto r = std::move(log);
    log.clear();
    std::sort(r.begin(), r.end());
    return r;
  }
};

httpc::Reply Ask(int port, int from, const std::string& method, const std::string& url, const std::string& body = "", bool has_body = false) {
  return httpc::Request(port, method, url, body, "", has_body, from);
}

// The model.
struct Kept {
  int64_t second;
  ClaireServiceKey location;
  claire_t keepalive;
};
struct Registered {
  std::string service;
  ClaireServiceKey location;
  ClaireRegisteredState state;
  int64_t reported = 0;
};
struct Machine {
  int64_t skew = 0;
  std::string instance, group;
  bool exists = false;
};

struct World {
  pbt::Src& s;
  Notifiable notifiable;
  std::unique_ptr<karl_t> karl;
  KarlParameters params;
  int64_t second = 1000000;  // Of the mock time.
  std::vector<Kept> kept;
  std::map<std::string, Registered> claires;
  std::map<std::string, int64_t> alive;  // Codename -> the second of the last sign of life.
  std::map<std::string, current::build::BuildInfo> builds;
  std::map<std::string, Machine> machines;
  std::vector<std::pair<bool, int64_t>> launches;  // Up or down; the number of keepalives persisted by this moment.
  std::vector<std::string> expected;

  explicit World(pbt::Src& s) : s(s) {
    current::time::ResetToZero();
    Moment();
    params.keepalives_port = uint16_t(Port(0));
    params.fleet_view_port = uint16_t(Port(1));
    params.stream_persistence_file = s.Scratch() + "/stream";
    params.storage_persistence_file = s.Scratch() + "/storage";
    params.service_timeout_interval = kTimeout;
    Start();
  }
  // From now on, each reading of the clock is one microsecond later than the previous one.
  void Moment() { current::time::SetNow(us_t(second * kSecond), us_t(second * kSecond + kSecond / 3)); }
  void Start() {
    karl = std::make_unique<karl_t>(params, notifiable);
    launches.emplace_back(true, int64_t(kept.size()));
    for (const auto& kv : claires) {
      if (kv.second.state == ClaireRegisteredState::Active) alive[kv.first] = second;
    }
  }
  void Stop() {
    karl = nullptr;
    launches.emplace_back(false, 0);
    alive.clear();
  }
  void Advance(int64_t seconds) {
    second += seconds;
    std::vector<std::string> gone;
    for (const auto& kv : alive) {
      if ((second - kv.second) * kSecond > kTimeout.count()) gone.push_back(kv.first);
    }
    for (const auto& c : gone) {
      alive.erase(c);
      auto& r = claires[c];
      r.state = ClaireRegisteredState::DisconnectedByTimeout;
      expected.push_back("timed out " + c + " from " + r.location.StatusPageURL());
      s.Label("timeout");
    }
    Moment();
    if (!gone.empty()) Settle();
  }
  // Karl notices the timeouts in a thread of its own.
  void Settle() {
    for (int i = 0; i < 3000; ++i) {
      if (karl->ActiveServicesCount() == alive.size()) {
        bool all = true;
        karl->BorrowStorage()->ReadOnlyTransaction([&](ImmutableFields<karl_t::storage_t> fields) {
          for (const auto& kv : claires) {
            const ImmutableOptional<ClaireInfo> c = fields.claires[kv.first];
            if (!Exists(c) || Value(c).registered_state != kv.second.state) all = false;
          }
        }).Go();
        if (all) break;
      }
      std::this_thread::sleep_for(std::chrono::milliseconds(3));
    }
    s.Eq(alive.size(), karl->ActiveServicesCount(), "active services");
    Notifications();
  }
  void Notifications() {
    std::sort(expected.begin(), expected.end());
    const auto actual = notifiable.Take();
    s.Check(actual == expected, "notifications", [&] {
      std::string r = "expected:";
      for (const auto& x : expected) r += "\n    " + x;
      r += "\nactual:";
      for (const auto& x : actual) r += "\n    " + x;
      return r;
    });
    expected.clear();
  }
  // The cache of who is alive is updated after the response has been sent.
  void Quiesce() {
    for (int i = 0; i < 3000 && karl->ActiveServicesCount() != alive.size(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(2));
    s.Eq(alive.size(), karl->ActiveServicesCount(), "active services");
  }
};

const char* const kNames[5] = {"AAAAAA", "BBBBBB", "CCCCCC", "DDDDDD", "E &/"};
const char* const kEncoded[5] = {"AAAAAA", "BBBBBB", "CCCCCC", "DDDDDD", "E%20%26%2F"};

template <class STATUS>
void FillStatus(pbt::Src& s, World& w, int c, STATUS& k) {
  k.codename = kNames[c];
  k.service = "service" + std::to_string(c % 3);
  k.local_port = uint16_t(10000 + (s.Chance(1, 8) ? 7 : c));
  if (s.Chance(1, 3)) k.cloud_instance_name = "i" + std::to_string(s.Int(0, 2));
  if (s.Chance(1, 3)) k.cloud_availability_group = "g" + std::to_string(s.Int(0, 2));
  const size_t deps = s.Size(0, 3);
  for (size_t i = 0; i < deps; ++i) {
    ClaireServiceKey key;
    key.ip = "127.0.0." + std::to_string(s.Int(1, 3));
    key.port = uint16_t(10000 + s.Int(0, 5));
    key.prefix = s.Chance(1, 8) ? "/x/" : "/";
    k.dependencies.push_back(key);
  }
  k.reporting_to = "http://localhost/";
  k.now = us_t(w.second * kSecond - s.Int(-30, 30) * (s.Chance(1, 4) ? 300000 : 30000));
  k.start_time_epoch_microseconds = us_t((w.second - s.Int(0, 1000)) * kSecond);
  k.uptime = std::to_string(s.Int(0, 100)) + "s";
  if (s.Chance(2, 3)) k.last_successful_keepalive_ping_us = us_t(s.Int(0, 4) * 60000);
  if (s.Chance(1, 2)) {
    current::build::BuildInfo b;
    if (s.Chance(1, 4)) b.git_commit_hash = nullptr; else b.git_commit_hash = "c" + std::to_string(s.Int(0, 2));
    if (s.Bool()) b.git_dirty_files = std::vector<std::string>({"a.h"});
    if (s.Chance(1, 6)) b.git_dirty_files = nullptr;
    k.build = b;
  }
}

// What Karl is to do with an accepted keepalive.
void Accept(World& w, int machine, const claire_t& k) {
  ClaireServiceKey location;
  location.ip = "127.0.0." + std::to_string(machine);
  location.port = k.local_port;
  location.prefix = "/";
  w.kept.push_back({w.second, location, k});
  w.alive[k.codename] = w.second;
  if (Exists(k.cloud_instance_name) || Exists(k.cloud_availability_group) || Exists(k.last_successful_keepalive_ping_us)) {
    auto& m = w.machines[location.ip];
    if (Exists(k.cloud_instance_name)) {
      m.instance = Value(k.cloud_instance_name);
      m.exists = true;
    }
    if (Exists(k.cloud_availability_group)) {
      m.group = Value(k.cloud_availability_group);
      m.exists = true;
    }
    if (Exists(k.last_successful_keepalive_ping_us)) {
      const int64_t behind = w.second * kSecond - k.now.count() - Value(k.last_successful_keepalive_ping_us).count() / 2;
      if (std::abs(behind - m.skew) >= 50000) {
        m.skew = behind;
        m.exists = true;
      }
    }
  }
  if (Exists(k.build)) w.builds[k.codename] = Value(k.build);
  auto& r = w.claires[k.codename];
  if (r.service.empty() || r.location != location || r.state != ClaireRegisteredState::Active) {
    r.service = k.service;
    r.location = location;
    r.state = ClaireRegisteredState::Active;
    r.reported = w.second;
  }
  w.expected.push_back("keepalive " + k.codename + " at " + std::to_string(w.second) + " from " + location.StatusPageURL() + " of " + k.service);
}

void Keepalive(pbt::Src& s, World& w) {
  const int c = int(s.Int(0, 4));
  const int machine = int(s.Weighted({3, 2, 1})) + 1;
  claire_t k;
  FillStatus(s, w, c, k);
  const size_t runtime = s.Weighted({2, 3, 3, 2});
  if (runtime == 1) {
    p43::load x;
    x.qps = uint32_t(s.Int(0, 1000));
    k.runtime = runtime_t(x);
  } else if (runtime == 2) {
    p43::other x;
    x.text = s.Ascii(12);
    k.runtime = runtime_t(x);
  }
  std::string body = JSON(k);
  const bool minimalistic = s.Chance(1, 4);
  if (runtime == 3) {  // A service which is newer than Karl.
    foreign_claire_t f(static_cast<const ClaireStatus&>(k));
    p43::unheard_of x;
    x.text = "?";
    f.runtime = foreign_t(x);
    body = JSON(f);
    s.Label("foreign runtime status");
  } else if (minimalistic) {
    body = JSON<JSONFormat::Minimalistic>(k);
  }
  std::string params = "?codename=" + std::string(kEncoded[c]) + "&port=" + std::to_string(k.local_port);
  bool good = true;
  int code = 400;
  std::string method = s.Chance(1, 8) ? "GET" : "POST";
  switch (s.Weighted({10, 1, 1, 1, 1, 1, 1})) {
    case 0: break;
    case 1: params = s.Bool() ? "" : "?port=" + std::to_string(k.local_port); break;  // Both are optional.
    case 2: params = "?codename=" + std::string(kEncoded[(c + 1) % 5]) + "&port=" + std::to_string(k.local_port); good = false; break;
    case 3: params = "?codename=" + std::string(kEncoded[c]) + "&port=" + std::to_string(k.local_port + 1); good = false; break;
    case 4: body = body.substr(0, body.size() - 1 - s.Draw(body.size() - 1)); good = false; break;
    case 5: body = s.Bool() ? "[]" : "{\"codename\":\"" + std::string(kNames[0]) + "\"}"; good = false; break;
    case 6: method = s.Bool() ? "PUT" : "PATCH"; code = 405; good = false; break;
  }
  if (s.Describing()) s.Note("@" + std::to_string(w.second) + " " + method + " " + params + " from machine " + std::to_string(machine) + ": " + pbt::Esc(body).substr(0, 400));
  const auto r = Ask(Port(0), machine, method, "/" + params, body, true);
  s.Eq(good ? 200 : code, r.code, good ? "keepalive accepted" : "keepalive refused");
  if (good) {
    s.Eq(std::string("OK\n"), r.body, "keepalive response");
    Accept(w, machine, k);
    s.Label("keepalive");
  } else {
    s.Label("refused");
  }
  w.Quiesce();
  w.Notifications();
}

void Deregister(pbt::Src& s, World& w) {
  const int c = int(s.Int(0, 4));
  const bool nop = s.Chance(1, 8);
  if (s.Describing()) s.Note("@" + std::to_string(w.second) + " DELETE " + (nop ? std::string("of nothing") : kNames[c]));
  const auto r = Ask(Port(0), 1, "DELETE", nop ? "/?port=10000" : "/?codename=" + std::string(kEncoded[c]) + "&port=1");
  s.Eq(200, r.code, "deregistration");
  if (!nop) {
    const std::string name = kNames[c];
    const bool known = w.claires.count(name);
    w.expected.push_back("deregistered " + name + " at " + std::to_string(w.second) + (known ? " from " + w.claires[name].location.StatusPageURL() : " unknown"));
    w.claires[name].state = ClaireRegisteredState::Deregistered;
    w.alive.erase(name);
    s.Label("deregistered");
  }
  w.Quiesce();
  w.Notifications();
}

// The page with the fleet.
void Fleet(pbt::Src& s, World& w) {
  const int64_t now = w.second;
  // All in half seconds, so that nothing happens at these moments.
  int64_t from2 = (now - 300) * 2, to2 = now * 2 + 1;
  bool exact = true;  // Whether the boundaries are known to a microsecond.
  std::string q = "/?full";
  const int64_t some = s.Int(1, 200) * 2 + 1;
  switch (s.Weighted({4, 2, 2, 1, 1, 1})) {
    case 0: from2 = now * 2 - some; q += "&from=" + std::to_string(from2 * kSecond / 2); break;
    case 1: from2 = now * 2 - some; q += "&m=" + current::ToString(some / 120.0 ); exact = false; break;
    case 2: from2 = now * 2 - some; q += "&h=" + current::ToString(some / 7200.0); exact = false; break;
    case 3: from2 = now * 2 - some; q += "&d=" + current::ToString(some / 172800.0); exact = false; break;
    case 4: from2 = 0; q += "&from=0"; break;
    case 5: from2 = (now - 300) * 2; exact = false; break;  // By default: five minutes.
  }
  const bool default_from = q == "/?full";
  const int64_t len = s.Int(1, 100) * 2;  // The interval from zero to zero is unlimited.
  bool backwards = false;
  if (s.Chance(1, 2)) {
    if (exact && s.Bool()) {
      to2 = from2 + len;
      q += "&interval_us=" + std::to_string(len * kSecond / 2);
    } else if (exact && s.Chance(1, 6)) {
      q += "&to=" + std::to_string(from2 * kSecond / 2 - s.Int(1, 1000) * kSecond - 1);
      backwards = true;
      s.Label("an interval which ends before it begins");
    } else {
      to2 = std::max(exact ? from2 | 1 : from2 + 2, now * 2 - 1 - int64_t(s.Int(0, 50)) * 2);
      q += "&to=" + std::to_string(to2 * kSecond / 2);
    }
  }
  const bool active_only = s.Chance(1, 3);
  if (active_only) q += "&active_only";
  if (s.Describing()) s.Note("@" + std::to_string(w.second) + " GET " + q);
  const auto r = Ask(Port(1), 1, "GET", q);
  if (backwards) {  // There is nothing to ask for; what matters is that Karl goes on.
    s.Check(r.headers_done, "an interval which ends before it begins");
    return;
  }
  s.Eq(200, r.code, "fleet view");
  status_t actual;
  try {
    actual = ParseJSON<status_t>(r.body);
  } catch (const current::Exception& e) {
    s.Fail("fleet view", std::string("does not parse: ") + e.what() + "\n" + r.body.substr(0, 2000));
  }
  s.Eq(now, actual.now.count() / kSecond, "now of the fleet view");

  struct Report {
    const Kept* last = nullptr;
  };
  std::map<std::string, const Kept*> last;
  std::map<ClaireServiceKey, std::string> at;
  for (const auto& k : w.kept) {
    const int64_t t2 = k.second * 2;
    if (t2 >= from2 && t2 < to2) {
      last[k.keepalive.codename] = &k;
      at[k.location] = k.keepalive.codename;
    }
  }
  std::map<std::string, std::map<std::string, const Kept*>> fleet;
  for (const auto& kv : last) {
    const auto& c = w.claires.at(kv.first);
    if (active_only && c.state != ClaireRegisteredState::Active) continue;
    fleet[c.location.ip][kv.first] = kv.second;
  }
  auto Shape = [&](const auto& fleet_view, auto&& services) {
    std::string r;
    for (const auto& m : fleet_view) {
      r += m.first + ":";
      for (const auto& x : services(m.second)) r += " " + x.first;
      r += "\n";
    }
    return r;
  };
  const std::string e = Shape(fleet, [](const auto& m) -> const auto& { return m; });
  const std::string a = Shape(actual.machines, [](const auto& m) -> const auto& { return m.services; });
  s.Check(e == a, "services of the fleet", [&] { return "expected:\n" + e + "actual:\n" + a; });
  for (const auto& m : fleet) {
    const auto& server = actual.machines.at(m.first);
    const auto mit = w.machines.find(m.first);
    if (mit != w.machines.end() && mit->second.exists) {
      const Machine& x = mit->second;
      s.Eq(x.instance, Exists(server.cloud_instance_name) ? Value(server.cloud_instance_name) : "", "instance name");
      s.Eq(x.group, Exists(server.cloud_availability_group) ? Value(server.cloud_availability_group) : "", "availability group");
      // "behind by 0.3s", "ahead by 0.3s", "NTP OK".
      const double by = std::abs(x.skew) * 1e-6;
      if (std::abs(x.skew) < 100000) {
        s.Eq(std::string("NTP OK"), server.time_skew, "time skew");
      } else {
        const std::string prefix = x.skew > 0 ? "behind by " : "ahead by ";
        double printed = -1;
        if (server.time_skew.compare(0, prefix.size(), prefix) == 0) printed = atof(server.time_skew.c_str() + prefix.size());
        s.Check(printed >= 0 && std::abs(printed - by) < 0.06, "time skew", [&] { return "skew " + std::to_string(x.skew) + ": " + server.time_skew; });
      }
    } else {
      s.Check(!Exists(server.cloud_instance_name) && !Exists(server.cloud_availability_group) && (server.time_skew.empty()), "a machine of which nothing is known", [&] { return JSON(server); });
    }
    for (const auto& kv : m.second) {
      const auto& x = server.services.at(kv.first);
      const Kept& k = *kv.second;
      s.Eq(kv.first, x.codename, "codename");
      s.Eq(k.keepalive.service, x.service, "service");
      s.Check(x.location == w.claires.at(kv.first).location, "location");
      s.Eq(x.location.StatusPageURL(), x.url_status_page_direct, "status page");
      const bool up = (now - k.second) * kSecond < kTimeout.count();
      s.Eq(up, Exists<current_service_state::up>(x.currently), "up or down");
      us_t start, seen;
      if (up) {
        start = Value<current_service_state::up>(x.currently).start_time_epoch_microseconds;
        seen = Value<current_service_state::up>(x.currently).last_keepalive_received_epoch_microseconds;
      } else {
        start = Value<current_service_state::down>(x.currently).start_time_epoch_microseconds;
        seen = Value<current_service_state::down>(x.currently).last_keepalive_received_epoch_microseconds;
        s.Eq(k.keepalive.uptime, Value<current_service_state::down>(x.currently).last_confirmed_uptime, "last confirmed uptime");
      }
      s.Eq(k.keepalive.start_time_epoch_microseconds.count(), start.count(), "start time");
      s.Eq(k.second, seen.count() / kSecond, "last keepalive received");
      std::vector<std::string> deps, unresolved;
      for (const auto& d : k.keepalive.dependencies) {
        if (at.count(d)) deps.push_back(at[d]); else unresolved.push_back(d.StatusPageURL());
      }
      s.Check(deps == x.dependencies, "dependencies", [&] { return JSON(deps) + " vs " + JSON(x.dependencies); });
      s.Check(unresolved == x.unresolved_dependencies, "unresolved dependencies", [&] { return JSON(unresolved) + " vs " + JSON(x.unresolved_dependencies); });
      s.LabelIf(!deps.empty(), "resolved dependency");
      s.Check(JSON(k.keepalive.runtime) == JSON(x.runtime), "runtime status", [&] { return JSON(k.keepalive.runtime) + " vs " + JSON(x.runtime); });
      if (w.builds.count(kv.first)) {
        const auto& b = w.builds.at(kv.first);
        s.Check(JSON(b.git_commit_hash) == JSON(x.git_commit), "commit", [&] { return JSON(x); });
        s.Check(Exists(x.git_dirty) && Value(x.git_dirty) == (Exists(b.git_dirty_files) && !Value(b.git_dirty_files).empty()), "dirty", [&] { return JSON(x); });
        s.Eq(b.build_time_epoch_microseconds.count(), x.build_time_epoch_microseconds.count(), "build time");
      } else {
        s.Check(!Exists(x.git_commit) && !Exists(x.git_dirty), "no build is known", [&] { return JSON(x); });
      }
    }
  }
  s.LabelIf(!fleet.empty(), "fleet");
}

void Snapshot(pbt::Src& s, World& w) {
  const int c = int(s.Int(0, 3));
  const bool nobuild = s.Bool();
  const std::string q = "/snapshot/" + std::string(kEncoded[c]) + (nobuild ? "?nobuild" : "");
  if (s.Describing()) s.Note("@" + std::to_string(w.second) + " GET " + q);
  const auto r = Ask(Port(1), 1, "GET", q);
  const Kept* last = nullptr;
  for (const auto& k : w.kept) {
    if (k.keepalive.codename == kNames[c]) last = &k;
  }
  s.Eq(last ? 200 : 404, r.code, "snapshot");
  if (last) {
    claire_t k = last->keepalive;
    if (nobuild) k.build = nullptr;
    const std::string e = ",\"snapshot\":" + JSON<JSONFormat::Minimalistic>(k) + "}";
    s.Check(r.body.compare(0, 8, "{\"age\":\"") == 0 && r.body.size() > e.size() && r.body.compare(r.body.size() - e.size(), e.size(), e) == 0, "snapshot", [&] { return "expected: " + e + "\nactual:   " + r.body; });
    s.Label("snapshot");
  }
}

void Build(pbt::Src& s, World& w) {
  const int c = int(s.Int(0, 3));
  const auto r = Ask(Port(1), 1, "GET", "/build/" + std::string(kEncoded[c]));
  const auto it = w.builds.find(kNames[c]);
  s.Eq(it == w.builds.end() ? 404 : 200, r.code, "build");
  if (it != w.builds.end()) {
    const auto b = ParseJSON<ClaireBuildInfo>(r.body);
    s.Check(b.codename == kNames[c] && b.build == it->second, "build", [&] { return JSON(it->second) + " vs " + r.body; });
    s.Label("build");
  }
}

void StorageIs(pbt::Src& s, World& w) {
  w.karl->BorrowStorage()->ReadOnlyTransaction([&](ImmutableFields<karl_t::storage_t> fields) {
    std::string e, a;
    for (const auto& kv : w.claires) {
      e += kv.first + " " + kv.second.service + " " + JSON(kv.second.location) + " " + std::to_string(int(kv.second.state)) + " since " + std::to_string(kv.second.reported) + "\n";
    }
    std::map<std::string, std::string> sorted;
    for (const auto& c : fields.claires) {
      sorted[c.codename] = c.codename + " " + c.service + " " + JSON(c.location) + " " + std::to_string(int(c.registered_state)) + " since " + std::to_string(c.reported_timestamp.count() / kSecond) + "\n";
    }
    for (const auto& kv : sorted) a += kv.second;
    s.Check(e == a, "stored services", [&] { return "expected:\n" + e + "actual:\n" + a; });
    e = a = "";
    for (const auto& l : w.launches) e += std::string(l.first ? "up " : "down ") + (l.first && l.second ? std::to_string(l.second) : "") + "\n";
    for (const auto& k : fields.karl) a += std::string(k.up ? "up " : "down ") + (Exists(k.persisted_keepalives_info) ? std::to_string(Value(k.persisted_keepalives_info).index + 1) : "") + "\n";
    s.Check(e == a, "launches of Karl", [&] { return "expected:\n" + e + "actual:\n" + a; });
  }).Go();
}

PBT_PROP(fleet, o.weight = 10; o.hang_s = 60) {
  World w(s);
  int keepalives = 0, queries = 0, events = 0;
  const size_t n = s.Size(1, 30);
  for (size_t i = 0; i < n; ++i) {
    switch (s.Weighted({8, 5, 2, 5, 4, 1, 1, 1})) {
      case 0: Keepalive(s, w); ++keepalives; break;
      case 1: Fleet(s, w); ++queries; break;
      case 2: {
        Deregister(s, w);
        ++events;
        break;
      }
      case 3: {
        const int64_t d = s.OneOf(std::vector<int64_t>{1, 5, 20, 44, 45, 46, 47, 100});
        if (s.Describing()) s.Note("+" + std::to_string(d) + "s");
        w.Advance(d);
        events += d > 45;
        break;
      }
      case 4: Snapshot(s, w); break;
      case 5: Build(s, w); break;
      case 6: StorageIs(s, w); break;
      case 7: {
        if (s.Describing()) s.Note("@" + std::to_string(w.second) + " restart");
        s.Label("restart");
        w.Stop();
        if (s.Bool()) {
          w.second += s.Int(1, 100);
          w.Moment();
        }
        w.Start();
        w.Quiesce();
        w.Notifications();
        ++events;
        break;
      }
    }
  }
  Fleet(s, w);
  for (int i = 0; i < 2; ++i) Snapshot(s, w);
  StorageIs(s, w);
  if (s.Chance(1, 8)) {  // No one is to be timed out before the time.
    std::this_thread::sleep_for(std::chrono::milliseconds(60));
    w.Quiesce();
    w.Notifications();
  }
  std::set<std::string> names;
  for (const auto& k : w.kept) names.insert(k.keepalive.codename);
  if ((names.size() >= 2 && keepalives >= 3 && queries) || (events && !w.kept.empty())) {
    uint64_t h = uint64_t(events);
    for (const auto& k : w.kept) h = pbt::Mix(h, pbt::Hash(JSON(k.keepalive)) + uint64_t(k.second));
    s.NonTrivial(h);
  }
}

// The pages are asked for while the keepalives are coming.
PBT_PROP(at_once, o.weight = 2; o.hang_s = 60; o.schedule = true) {
  World w(s);
  const int senders = int(s.Int(1, 3)), readers = int(s.Int(1, 3)), each = int(s.Int(1, 15));
  const int restart = int(s.Chance(1, 3));
  std::atomic_bool done(false);
  std::atomic<int> bad(0);
  std::mutex m;
  std::string what;
  auto Bad = [&](const std::string& x) {
    std::lock_guard<std::mutex> lock(m);
    if (!bad++) what = x;
  };
  if (restart) {
    for (int i = 0; i < 3; ++i) {
      claire_t k;
      k.codename = kNames[i];
      k.service = "s";
      k.local_port = uint16_t(10000 + i);
      Ask(Port(0), 1, "POST", "/", JSON(k));
    }
    w.karl = nullptr;
    w.Start();
  }
  std::vector<std::thread> threads;
  std::vector<int> sent(static_cast<size_t>(senders), 0);
  for (int t = 0; t < senders; ++t) {
    threads.emplace_back([&, t] {
      for (int i = 1; i <= each; ++i) {
        claire_t k;
        k.codename = kNames[t];
        k.service = "s";
        k.local_port = uint16_t(10000 + t);
        k.uptime = std::to_string(i);
        const auto r = Ask(Port(0), t + 1, "POST", "/?codename=" + k.codename, JSON(k));
        if (r.code != 200) Bad("keepalive: " + std::to_string(r.code));
        sent[size_t(t)] = i;
      }
    });
  }
  std::vector<std::thread> more;
  for (int t = 0; t < readers; ++t) {
    more.emplace_back([&, t] {
      int least = 0;
      const std::string name = kNames[t % senders];
      while (!done && !bad) {
        const auto r = Ask(Port(1), 1, "GET", "/snapshot/" + name + "?nobuild");
        if (r.code == 200) {
          const size_t p = r.body.find("\"codename\":\""), u = r.body.find("\"uptime\":\"");
          if (p == std::string::npos || r.body.compare(p + 12, 6, name) != 0) {
            Bad("the snapshot of another service: " + r.body);
          } else if (u != std::string::npos) {
            const int got = atoi(r.body.c_str() + u + 10);
            if (got < least) Bad("the snapshot goes back: " + std::to_string(got) + " after " + std::to_string(least));
            least = got;
          }
        } else if (r.code != 404 || least) {
          Bad("snapshot: " + std::to_string(r.code));
        }
        const auto f = Ask(Port(1), 1, "GET", "/?from=0&full&active_only");
        if (f.code != 200) Bad("fleet: " + std::to_string(f.code));
      }
    });
  }
  for (auto& t : threads) t.join();
  done = true;
  for (auto& t : more) t.join();
  s.Check(!bad, "pages while the keepalives come", [&] { return what; });
  for (int t = 0; t < senders; ++t) {
    const auto r = Ask(Port(1), 1, "GET", "/snapshot/" + std::string(kNames[t]) + "?nobuild");
    s.Check(r.code == 200 && r.body.find("\"uptime\":\"" + std::to_string(each) + "\"") != std::string::npos && r.body.find(kNames[t]) != std::string::npos, "the last snapshot", [&] { return r.body; });
  }
  s.NonTrivial(pbt::Mix(uint64_t(senders), uint64_t(each)));
}

}  // namespace
