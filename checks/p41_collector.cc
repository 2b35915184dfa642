// P41: the server which collects the events logs each event it is sent, once, as it is, and accounts for what it can not parse.
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"
#include "httpc.h"

#include "midichlorians/server/server.h"

PBT_CHECK("P41", "exploration",
          "A case is a history of up to twelve requests (batches of iOS events with lines which are no events, web events by GET, "
          "HEAD and POST, complete and incomplete, with odd parameters, other methods, empty bodies) and moments, on the mock time, with "
          "or without ticks; or such requests with the time going on from another thread. Non-trivial: at least two events and one "
          "unparsable line or request, or a tick, were to be logged.");

namespace {

using us_t = std::chrono::microseconds;
namespace srv = current::midichlorians::server;
namespace ios = current::midichlorians::ios;

int Port() {
  static int port = [] {
    auto reserved = current::net::ReserveLocalPort();
    const int p = reserved;
    HTTP(std::move(reserved));
    return p;
  }();
  return port;
}

struct Consumer {
  std::mutex m;
  std::vector<std::string> log;
  std::atomic_int inside{0};
  std::atomic_bool twice{false};
  template <typename T>
  void Log(const T& e, const char* kind) {
    if (inside++) twice = true;
    {
      std::lock_guard<std::mutex> lock(m);
      log.push_back(std::to_string(e.server_us.count()) + " " + kind);
      Append(e);
    }
    --inside;
  }
  void operator()(const srv::TickLogEntry& e) { Log(e, "tick"); }
  void operator()(const srv::EventLogEntry& e) { Log(e, "event"); }
  void operator()(const srv::UnparsableLogEntry& e) { Log(e, "unparsable"); }
  void Append(const srv::TickLogEntry&) {}
  void Append(const srv::EventLogEntry& e) { log.back() += " " + JSON(e.event); }
  void Append(const srv::UnparsableLogEntry& e) {
    log.back() += " " + e.method + "|" + e.body + "|" + e.cookies + "|";
    for (const auto& h : e.headers) {
      if (h.first != "Host" && h.first != "Content-Length") log.back() += h.first + "=" + h.second + ";";
    }
  }
  size_t Size() {
    std::lock_guard<std::mutex> lock(m);
    return log.size();
  }
  std::vector<std::string> Take() {
    std::lock_guard<std::mutex> lock(m);
    return log;
  }
};
using server_t = srv::midichloriansHTTPServer<Consumer>;

std::string Encode(pbt::Src& s, const std::string& text) {
  std::string r;
  for (char c : text) {
    const bool plain = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
    if (plain && !s.Chance(1, 10)) {
      r += c;
    } else if (c == ' ' && s.Bool()) {
      r += '+';
    } else {
      char hex[4];
      snprintf(hex, sizeof(hex), s.Bool() ? "%%%02X" : "%%%02x", unsigned((unsigned char)c));
      r += hex;
    }
  }
  return r;
}

ios::iOSBaseEvent* Base(srv::ios_variant_t& v) { return &Value<ios::iOSBaseEvent>(v); }

std::string Text(pbt::Src& s) { return s.Chance(1, 3) ? s.Pick({"", "a\tb", "\"", "\\", "{}", "x\r\ny", "&a=b", "ea=En"}) : s.Utf8(6); }

std::string IOSEvent(pbt::Src& s) {
  srv::ios_variant_t v;
  switch (s.Int(0, 5)) {
    case 0: v = ios::iOSFirstLaunchEvent(); break;
    case 1: {
      ios::iOSAppLaunchEvent e(Text(s), uint64_t(s.Int(0, 1000000)), uint64_t(s.Int(0, 1000000)));
      e.binary_version = Text(s);
      v = e;
      break;
    }
    case 2: {
      std::map<std::string, std::string> info;
      for (size_t i = 0, n = s.Len(3); i < n; ++i) info[Text(s)] = Text(s);
      v = ios::iOSDeviceInfo(info);
      break;
    }
    case 3: v = ios::iOSIdentifyEvent(); break;
    case 4: v = ios::iOSFocusEvent(s.Bool(), Text(s)); break;
    default: {
      ios::iOSGenericEvent e;
      e.event = Text(s);
      e.source = Text(s);
      for (size_t i = 0, n = s.Len(3); i < n; ++i) e.fields[Text(s)] = Text(s);
      for (size_t i = 0, n = s.Len(2); i < n; ++i) e.unparsable_fields.push_back(Text(s));
      v = e;
    }
  }
  auto& b = *Base(v);
  b.customer_id = Text(s);
  b.user_ms = std::chrono::milliseconds(s.Int(0, 2000000000000ll));
  b.client_id = Text(s);
  b.device_id = Text(s);
  return JSON(v);
}

// A line which is not an event, of any of the kinds there are.
std::string NotAnEvent(pbt::Src& s) {
  switch (s.Int(0, 5)) {
    case 0: return s.Pick({"blah", "", "{", "{}", "[]", "null", "0", "\"iOSFocusEvent\"", "true", "[{}]", " ", "{\"\":\"T1\"}", "\r"});
    case 1: return "{\"iOSFocusEvent\":" + s.Pick({"{}", "null", "[]", "1", "{\"gained_focus\":1}"}) + "}";
    case 2: {
      srv::web_variant_t web;
      web = current::midichlorians::web::WebEnterEvent();
      return JSON(web);  // It is an event, but not the one to be sent this way.
    }
    case 3: {
      std::string e = IOSEvent(s);
      return e.substr(0, size_t(s.Draw(e.size() - 1)));
    }
    case 4: {
      std::string e = IOSEvent(s);
      const std::string what = s.Pick({"\"user_ms\":", "\"client_id\":", "\"device_id\":", "\"customer_id\":"});
      e.insert(e.find(what) + 1, "x");
      return e;
    }
    default: {
      std::string e = IOSEvent(s);
      const size_t p = e.find("\"user_ms\":") + 10;
      return e.substr(0, p) + s.Pick({"null", "\"1\"", "{}", "[1]", "true"}) + e.substr(e.find_first_not_of("0123456789", p));
    }
  }
}

struct Expected {
  std::vector<std::string> log;  // Without the time.
  size_t events = 0, unparsable = 0;
};

struct R {
  std::string method, url, body, headers;
  bool has_body = false;
  Expected expected;
};

std::string J(const std::string& s) { return JSON(s); }

R RandomRequest(pbt::Src& s) {
  R r;
  std::map<std::string, std::string> headers;
  std::map<std::string, std::string> cookies;
  auto Header = [&](const std::string& k, const std::string& v, bool odd = true) {
    std::string name = k;
    if (odd && s.Chance(1, 6)) for (char& c : name) c = char(s.Bool() ? tolower(c) : toupper(c));
    headers[name] = v;
    r.headers += name + ": " + v + "\r\n";
  };
  auto Unparsable = [&] {
    std::string l = "unparsable " + r.method + "|" + r.body + "|";
    for (const auto& c : cookies) l += (l.back() == '|' && &c == &*cookies.begin() ? "" : "; ") + c.first + "=" + c.second;
    l += "|";
    for (const auto& h : headers) l += h.first + "=" + h.second + ";";
    r.expected.log.push_back(l);
    ++r.expected.unparsable;
  };
  if (s.Chance(1, 4)) {
    const size_t n = 1 + s.Len(2);
    std::string c;
    for (size_t i = 0; i < n; ++i) {
      const std::string k = "c" + std::to_string(i);
      cookies[k] = s.From("abc123", 4);
      c += (i ? "; " : "") + k + "=" + cookies[k];
    }
    r.headers += "Cookie: " + c + "\r\n";
  }
  r.url = "/log";
  const int kind = int(s.Weighted({4, 4, 1}));
  if (kind == 0) {  // A batch.
    r.method = "POST";
    const size_t n = 1 + s.Len(4);
    std::vector<std::pair<std::string, bool>> lines;
    for (size_t i = 0; i < n; ++i) {
      const bool event = s.Chance(2, 3);
      std::string l = event ? IOSEvent(s) : NotAnEvent(s);
      const std::string as_is = l;
      if (event && s.Chance(1, 8)) l = s.Pick({" ", "\t"}) + l;
      if (event && s.Chance(1, 8)) l += s.Pick({" ", "\r"});
      r.body += l;
      if (i + 1 < n || s.Bool()) r.body += "\n";
      else if (l.empty()) continue;  // Nothing is not a line.
      lines.emplace_back(as_is, event);
    }
    if (r.body.empty()) r.has_body = true;
    if (s.Bool()) Header("X-Forwarded-For", "1.2.3.4", false);
    if (r.body.empty()) lines.assign(1, std::make_pair(std::string(), false));
    for (const auto& l : lines) {
      if (l.second) {
        r.expected.log.push_back("event " + l.first);
        ++r.expected.events;
      } else {
        Unparsable();
      }
    }
    return r;
  }
  if (kind == 2) {
    r.method = s.Pick({"PUT", "DELETE", "PATCH", "POST"});
    if (r.method == "PUT" || r.method == "PATCH") r.body = IOSEvent(s);
    if (r.method == "POST") r.has_body = true;
    Unparsable();
    return r;
  }
  // A web event.
  r.method = s.Pick({"GET", "GET", "HEAD", "POST", "POST"});
  std::map<std::string, std::string> q;
  static const char* const actions[] = {"En", "Ex", "Fg", "Bg"};
  static const char* const names[] = {"WebEnterEvent", "WebExitEvent", "WebForegroundEvent", "WebBackgroundEvent"};
  const int action = int(s.Int(0, 5));
  auto Value = [&] {
    // What ends a line would make it two.
    return s.Chance(1, 2) ? s.From("abcXYZ019", 5) : s.From("ab &=+%?#/\\\"\t\n;:@,~\xd0\xb0", 5);
  };
  q["ea"] = action < 4 ? actions[action] : action == 4 ? Value() : s.Pick({"en", "EN", "Enter", ""});
  if (action >= 4 || s.Chance(1, 4)) q["ec"] = Value();
  const uint64_t t = uint64_t(s.Int(0, 2000000000000ll));
  q["_t"] = std::to_string(t);
  q["CUSTOMER_ACCOUNT"] = Value();
  q["cid"] = Value();
  if (s.Chance(1, 4)) q["unrelated"] = Value();
  bool good = true;
  if (s.Chance(1, 5)) {
    const std::string gone = s.Pick({"ea", "_t", "CUSTOMER_ACCOUNT", "cid", "ec"});
    q.erase(gone);
    if (gone != "ec" || action >= 4) good = false;
  }
  const std::string ip = s.From("0123456789.", 8) + "1", agent = "A" + s.From("abc /();.0", 6) + "z";
  const std::string host = "h" + s.From("abc.-0", 5) + "z", path = "/" + s.From("abc/._-", 5);
  std::map<std::string, std::string> rq;
  std::string referer = s.Pick({"http://", "https://"}) + host + s.Pick({"", "", ":8080"}) + path;
  for (size_t i = 0, n = s.Len(2); i < n; ++i) {
    const std::string k = std::string(1, char('k' + i)), v = Value();
    rq[k] = v;
    referer += (i ? "&" : "?") + k + "=" + Encode(s, v);
  }
  const std::string no = s.Chance(1, 6) ? s.Pick({"X-Forwarded-For", "User-Agent", "Referer"}) : "";
  if (!no.empty()) good = false;
  if (no != "X-Forwarded-For") Header("X-Forwarded-For", ip);
  if (no != "User-Agent") Header("User-Agent", agent);
  if (no != "Referer") Header("Referer", referer);
  std::string in_url, in_body;
  for (const auto& kv : q) {
    std::string& where = r.method == "POST" && !s.Chance(1, 4) ? in_body : in_url;
    where += (where.empty() ? "" : "&") + kv.first + "=" + Encode(s, kv.second);
  }
  if (!in_url.empty()) r.url += "?" + in_url;
  r.body = in_body;
  if (r.method == "POST" && r.body.empty()) {
    r.has_body = true;
    good = false;
  }
  if (good) {
    const std::string name = action < 4 ? names[action] : "WebGenericEvent";
    std::string rqs;
    for (const auto& kv : rq) rqs += (rqs.empty() ? "" : ",") + J(kv.first) + ":" + J(kv.second);
    r.expected.log.push_back("event {\"" + name + "\":{\"customer_id\":" + J(q["CUSTOMER_ACCOUNT"]) + ",\"user_ms\":" + std::to_string(t) + ",\"client_id\":" + J(q["cid"]) + ",\"ip\":" + J(ip) + ",\"user_agent\":" + J(agent) +
                             ",\"referer_host\":" + J(host) + ",\"referer_path\":" + J(path) + ",\"referer_querystring\":{" + rqs + "}" +
                             (action < 4 ? "" : ",\"event_category\":" + J(q["ec"]) + ",\"event_action\":" + J(q["ea"])) + "},\"\":\"");
    ++r.expected.events;
  } else {
    Unparsable();
  }
  return r;
}

std::string Show(const std::vector<std::string>& v) {
  std::string r;
  for (const auto& l : v) r += "  " + pbt::Esc(l) + "\n";
  return r;
}

bool Matches(const std::string& expected, const std::string& got) {
  // The identifier of the type of the web event is not spelled out.
  const bool prefix = expected.size() > 4 && expected.compare(expected.size() - 4, 4, "\"\":\"") == 0;
  return prefix ? got.compare(0, expected.size(), expected) == 0 : got == expected;
}

bool WaitFor(const std::function<bool()>& f) {
  const auto until = std::chrono::steady_clock::now() + std::chrono::seconds(10);
  while (!f()) {
    if (std::chrono::steady_clock::now() > until) return false;
    std::this_thread::sleep_for(us_t(50));
  }
  return true;
}

PBT_PROP(history, o.weight = 6; o.hang_s = 40) {
  current::time::ResetToZero();
  current::time::SetNow(us_t(0));
  const int64_t tick = s.Bool() ? 0 : s.Int(1, 300);
  Consumer consumer;
  const std::string text = s.Pick({"OK\n", "", "thanks"});
  std::vector<std::string> expected;
  size_t events = 0, unparsable = 0, ticks = 0;
  int64_t now = 0, last = 0;
  {
    server_t server(Port(), consumer, us_t(tick), "/log", text);
    const size_t n = s.Len(12);
    for (size_t i = 0; i < n; ++i) {
      if (s.Chance(1, 2)) {
        now += s.Bool() && tick ? tick + s.Int(-1, 1) : s.Int(1, 400);
        if (now < 0) now = 0;
        current::time::SetNow(us_t(now));
        if (s.Describing()) s.Note("now " + std::to_string(now));
        if (tick && now - last >= tick) {
          expected.push_back(std::to_string(now) + " tick");
          last = now;
          ++ticks;
          s.Check(WaitFor([&] { return consumer.Size() >= expected.size(); }), "there is no tick", [&] { return Show(consumer.Take()) + "expected\n" + Show(expected); });
        }
        continue;
      }
      const R r = RandomRequest(s);
      if (s.Describing()) s.Note(r.method + " " + r.url + " " + pbt::Esc(r.headers) + " " + pbt::Esc(r.body));
      const auto reply = httpc::Request(Port(), r.method, r.url, r.body, r.headers, r.has_body);
      s.Check(reply.code == 200, "code", [&] { return std::to_string(reply.code) + " " + reply.body; });
      if (r.method != "HEAD") s.Eq(text, reply.body, "response");
      for (const auto& l : r.expected.log) {
        expected.push_back(std::to_string(now) + " " + l);
        if (l.compare(0, 5, "event") == 0) last = now;
      }
      events += r.expected.events;
      unparsable += r.expected.unparsable;
      const auto got = consumer.Take();
      bool same = got.size() == expected.size();
      for (size_t j = 0; same && j < got.size(); ++j) same = Matches(expected[j], got[j]);
      s.Check(same, "log", [&] { return Show(got) + "expected\n" + Show(expected); });
      s.Eq(events + ticks, server.EventsPushed(), "events pushed");
    }
  }
  s.Eq(expected.size(), consumer.Size(), "log, after the server is gone");
  s.LabelIf(ticks > 0, "ticks");
  if ((events >= 2 && unparsable >= 1) || ticks) s.NonTrivial();
}

PBT_PROP(at_once, o.weight = 2; o.hang_s = 40; o.schedule = true) {
  current::time::ResetToZero();
  current::time::SetNow(us_t(0));
  Consumer consumer;
  std::vector<R> requests[2];
  size_t events = 0, unparsable = 0;
  for (auto& v : requests) {
    const size_t n = 1 + s.Len(6);
    for (size_t i = 0; i < n; ++i) {
      v.push_back(RandomRequest(s));
      events += v.back().expected.events;
      unparsable += v.back().expected.unparsable;
    }
  }
  const int64_t tick = s.Int(1, 50), step = s.Int(1, 20);
  std::atomic_bool done{false}, good{true};
  {
    if (s.Describing()) for (auto& v : requests) for (auto& r : v) s.Note(r.method + " " + r.url + " " + pbt::Esc(r.headers) + " " + pbt::Esc(r.body));
    server_t server(Port(), consumer, us_t(tick), "/log");
    std::thread time([&] {
      for (int64_t now = step; !done; now += step) {
        current::time::SetNow(us_t(now));
        std::this_thread::sleep_for(us_t(20));
      }
    });
    std::vector<std::thread> threads;
    for (auto& v : requests) {
      threads.emplace_back([&] {
        for (const auto& r : v) {
          if (httpc::Request(Port(), r.method, r.url, r.body, r.headers, r.has_body).code != 200) good = false;
        }
      });
    }
    for (auto& t : threads) t.join();
    done = true;
    time.join();
  }
  s.Check(good, "code");
  s.Check(!consumer.twice, "the consumer is called from two threads at once");
  const auto log = consumer.Take();
  int64_t last_us = 0;
  std::vector<std::string> got;
  for (const auto& l : log) {
    const int64_t us = atoll(l.c_str());
    s.Check(us >= last_us, "in the order of time");
    last_us = us;
    const std::string rest = l.substr(l.find(' ') + 1);
    if (rest != "tick") got.push_back(rest);
  }
  s.Eq(events + unparsable, got.size(), "each, once");
  // Each thread's requests are logged in the order they were made.
  std::vector<std::string> e[2];
  for (int i = 0; i < 2; ++i) for (const auto& r : requests[i]) e[i].insert(e[i].end(), r.expected.log.begin(), r.expected.log.end());
  std::vector<std::vector<bool>> can(e[0].size() + 1, std::vector<bool>(e[1].size() + 1, false));
  can[0][0] = true;
  for (size_t i = 0; i <= e[0].size(); ++i) {
    for (size_t j = 0; j <= e[1].size(); ++j) {
      if (i && can[i - 1][j] && Matches(e[0][i - 1], got[i + j - 1])) can[i][j] = true;
      if (j && can[i][j - 1] && Matches(e[1][j - 1], got[i + j - 1])) can[i][j] = true;
    }
  }
  s.Check(can[e[0].size()][e[1].size()], "an interleaving of what was sent", [&] { return Show(got) + "of\n" + Show(e[0]) + "and\n" + Show(e[1]); });
  if (events >= 2) s.NonTrivial();
}

}  // namespace
