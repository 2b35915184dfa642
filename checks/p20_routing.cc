// P20: requests reach exactly the handler registered for their path.
#include "../lib/pbt.h"
#include "../lib/httpc.h"

#include <sys/stat.h>

#include <atomic>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <thread>

#include "blocks/http/api.h"

PBT_CHECK("P20", "exploration",
          "a case is non-trivial if at least two handlers are registered as a request with at least one path argument, or a path with a prefix registered too, is routed; "
          "for the static files, if there is a directory with an index; for the concurrent part, if requests were served both before and after a scope was left");

namespace {

using mask_t = current::url::URLPathArgs::CountMask;
using scope_t = current::http::HTTPServerPOSIX::HTTPRoutesScope;

bool IsHex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int HexValue(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

std::string RefDecode(const std::string& e) {
  std::string r;
  for (size_t i = 0; i < e.size(); ++i) {
    if (e[i] == '+') {
      r += ' ';
    } else if (e[i] == '%' && i + 2 < e.size() && IsHex(e[i + 1]) && IsHex(e[i + 2])) {
      r += char(HexValue(e[i + 1]) * 16 + HexValue(e[i + 2]));
      i += 2;
    } else {
      r += e[i];
    }
  }
  return r;
}

// The routing model: path and the number of arguments to the handler.
struct Model {
  std::map<std::pair<std::string, int>, int> routes;
  std::string Route(const std::string& url) const {
    std::vector<std::string> components;
    std::string current;
    for (char c : url + "/") {
      if (c == '/') {
        components.push_back(current);
        current.clear();
      } else {
        current += c;
      }
    }
    components.erase(components.begin());  // Before the leading slash.
    // Drop the trailing empty components, repeatedly cut the last one off.
    std::vector<std::string> args;
    while (true) {
      while (!components.empty() && components.back().empty()) components.pop_back();
      std::string path;
      for (const auto& c : components) path += "/" + c;
      if (path.empty()) path = "/";
      const auto it = routes.find({path, int(args.size())});
      if (it != routes.end()) {
        std::string r = std::to_string(it->second) + " " + path;
        for (auto a = args.rbegin(); a != args.rend(); ++a) r += " [" + pbt::Esc(*a) + "]";
        return r;
      }
      if (components.empty()) return "none";
      args.push_back(RefDecode(components.back()));
      components.pop_back();
    }
  }
};

void Answer(Request r, int id) {
  std::string body = std::to_string(id) + " " + r.url_path_args.base_path;
  for (const auto& a : r.url_path_args) body += " [" + pbt::Esc(a) + "]";
  if (r.url.path != r.url_path_args.base_path) body += " BUT THE PATH IS " + r.url.path;
  r(body);
}

current::http::HTTPServerPOSIX& Server(int* port) {
  static int p = 0;
  static current::http::HTTPServerPOSIX* server = nullptr;
  if (!server) {
    auto reserved = current::net::ReserveLocalPort();
    p = reserved;
    server = &HTTP(std::move(reserved));
  }
  *port = p;
  return *server;
}

std::string Component(pbt::Src& s) { return s.Chance(3, 4) ? s.Pick({"a", "b", "aa", "ab", "A"}) : s.FromN("ab.-_~!$&'()*+,;=:@", 1, 3); }

std::string ValidPath(pbt::Src& s) {
  std::string p;
  for (size_t i = s.Weighted({2, 5, 5, 3}); i; --i) p += "/" + Component(s);
  return p.empty() ? "/" : p;
}

std::string AnyURL(pbt::Src& s, const Model& m) {
  std::string p;
  if (!m.routes.empty() && s.Chance(3, 4)) {
    auto it = m.routes.begin();
    std::advance(it, s.Draw(m.routes.size() - 1));
    p = it->first.first == "/" ? "" : it->first.first;
    for (int i = 0; i < it->first.second && i < 17; ++i) p += "/" + s.Pick({"x", "a", "%20", "+", "%2F", "y%zz", "b"});
  }
  for (size_t i = s.Weighted({3, 2, 1, 1}); i; --i) p += "/" + (s.Chance(1, 3) ? s.FromN("ab%20+f.", 1, 5) : Component(s));
  for (size_t i = s.Weighted({6, 1, 1}); i; --i) {
    const size_t at = s.Draw(p.size());
    if (at > 1 && (p[at - 1] == '/' || at == p.size() || p[at] == '/')) p.insert(at, "/");
  }
  if (p.empty() || p[0] != '/') p = "/" + p;
  return p;
}

mask_t SomeMask(pbt::Src& s) {
  switch (s.Weighted({4, 3, 2, 1, 2, 3})) {
    case 0: return mask_t::None;
    case 1: return mask_t::One;
    case 2: return mask_t::Two;
    case 3: return mask_t::Any;
    case 4: return mask_t::None | mask_t::One;
    default: return static_cast<mask_t>(1 + s.Draw(s.Chance(1, 4) ? 65534 : 14));
  }
}

struct Owned {
  std::string path;
  std::vector<int> counts;
};

}  // namespace

PBT_PROP(routing, o.weight = 4; o.hang_s = 60; o.hang_is_violation = true) {
  int port;
  auto& server = Server(&port);
  Model m;
  // Each scope, with what it has added, in this order.
  std::vector<std::pair<std::unique_ptr<scope_t>, std::vector<Owned>>> scopes;
  std::vector<Owned> loose;
  int next_id = 1;
  const auto Forget = [&](const std::vector<Owned>& what) {
    for (const auto& o : what) {
      for (int c : o.counts) m.routes.erase({o.path, c});
    }
  };
  const auto CheckCount = [&] {
    std::set<std::string> paths;
    for (const auto& r : m.routes) paths.insert(r.first.first);
    s.Eq(paths.size(), server.PathHandlersCount(), "path-handlers-count");
  };
  // A loose one is unregistered explicitly at the end.
  const auto cleanup = current::MakeScopeGuard([&] {
    scopes.clear();
    for (const auto& l : loose) {
      for (int c : l.counts) {
        try {
          server.UnRegister(l.path, static_cast<mask_t>(1 << c));
        } catch (const current::Exception&) {
        }
      }
    }
  });
  const size_t steps = 2 + s.Len(25);
  for (size_t step = 0; step < steps; ++step) {
    switch (s.Weighted({5, 8, 2, 2, 2, 1, 1})) {
      case 0: {  // Register.
        const bool bad = s.Chance(1, 10);
        const std::string path = bad ? s.Pick({"", "a", "/a/", "//", "/a b", "/a?", "/%41", "/a#", "/\xc3\xa9"}) : ValidPath(s);
        const mask_t mask = SomeMask(s);
        const bool update = s.Chance(1, 5);
        Owned o{path, {}};
        bool conflict = false, missing = false;
        for (int i = 0; i < 16; ++i) {
          if ((unsigned(mask) >> i) & 1) {
            o.counts.push_back(i);
            (m.routes.count({path, i}) ? conflict : missing) = true;
          }
        }
        const int id = next_id++;
        if (s.Describing()) s.Note(std::string(update ? "update " : "register ") + path + " mask " + std::to_string(unsigned(mask)) + " as " + std::to_string(id));
        std::unique_ptr<scope_t> scope;
        std::string thrown;
        try {
          if (update) {
            scope = std::make_unique<scope_t>(server.Register<ReRegisterRoute::SilentlyUpdateExisting>(path, mask, [id](Request r) { Answer(std::move(r), id); }));
          } else {
            scope = std::make_unique<scope_t>(server.Register(path, mask, [id](Request r) { Answer(std::move(r), id); }));
          }
        } catch (const current::http::HandlerAlreadyExistsException&) {
          thrown = "exists";
        } catch (const current::http::HandlerDoesNotExistException&) {
          thrown = "missing";
        } catch (const current::http::InvalidHandlerPathException&) {
          thrown = "invalid";
        }
        const std::string expected = bad ? "invalid" : update ? (missing ? "missing" : "") : (conflict ? "exists" : "");
        s.Eq(expected, thrown, "register-outcome");
        if (thrown.empty()) {
          for (int c : o.counts) m.routes[{path, c}] = id;
          if (!update) {
            if (!scopes.empty() && s.Chance(1, 3)) {
              auto& to = scopes[s.Draw(scopes.size() - 1)];
              *to.first += std::move(*scope);
              to.second.push_back(o);
            } else {
              scopes.emplace_back(std::move(scope), std::vector<Owned>{o});
            }
          }
        }
        CheckCount();
        break;
      }
      case 1: {  // Request.
        const std::string url = AnyURL(s, m);
        if (url.compare(0, 2, "//") == 0) break;
        const std::string expected = m.Route(url);
        if (s.Describing()) s.Note("request " + url + ": " + expected);
        const httpc::Reply r = httpc::Request(port, "GET", url + (s.Chance(1, 5) ? "?q=/a/b" : ""));
        s.Check(r.complete, "no-reply");
        s.Eq(expected == "none" ? 404 : 200, r.code, "code");
        if (expected != "none") s.Eq(expected, r.body, "handler");
        s.LabelIf(expected == "none", "not found");
        if (m.routes.size() >= 2 && (expected.find('[') != std::string::npos || (expected != "none" && url.rfind('/') > 0))) s.NonTrivial(pbt::Mix(pbt::Hash(url), pbt::Hash(expected)));
        break;
      }
      case 2: {  // Leave a scope.
        if (scopes.empty()) break;
        const size_t i = s.Draw(scopes.size() - 1);
        if (s.Describing()) s.Note("leave the scope of " + scopes[i].second[0].path);
        Forget(scopes[i].second);
        if (s.Bool()) {
          *scopes[i].first = nullptr;
        }
        scopes.erase(scopes.begin() + i);
        CheckCount();
        break;
      }
      case 3: {  // Move a scope onto another one, which is thus left.
        if (scopes.size() < 2) break;
        const size_t i = s.Draw(scopes.size() - 1), j = s.Draw(scopes.size() - 1);
        if (i == j) break;
        if (s.Describing()) s.Note("assign the scope of " + scopes[j].second[0].path + " to the one of " + scopes[i].second[0].path);
        Forget(scopes[i].second);
        *scopes[i].first = std::move(*scopes[j].first);
        scopes[i].second = scopes[j].second;
        scopes.erase(scopes.begin() + j);
        CheckCount();
        break;
      }
      case 4: {  // Unite two scopes.
        if (scopes.size() < 2) break;
        const size_t i = s.Draw(scopes.size() - 1), j = s.Draw(scopes.size() - 1);
        if (i == j) break;
        if (s.Describing()) s.Note("unite the scopes of " + scopes[i].second[0].path + " and " + scopes[j].second[0].path);
        auto united = std::make_unique<scope_t>(*scopes[i].first + std::move(*scopes[j].first));
        scopes[i].first = std::move(united);
        for (const auto& o : scopes[j].second) scopes[i].second.push_back(o);
        scopes.erase(scopes.begin() + j);
        CheckCount();
        break;
      }
      case 5: {  // Register for good.
        const std::string path = ValidPath(s);
        const int c = int(s.Draw(3));
        if (m.routes.count({path, c})) break;
        const int id = next_id++;
        if (s.Describing()) s.Note("register for good " + path + " " + std::to_string(c) + " as " + std::to_string(id));
        auto* leaked = new scope_t(server.Register(path, static_cast<mask_t>(1 << c), [id](Request r) { Answer(std::move(r), id); }));
        static std::vector<scope_t*>& leaks = *new std::vector<scope_t*>();
        leaks.push_back(leaked);
        m.routes[{path, c}] = id;
        loose.push_back({path, {c}});
        CheckCount();
        break;
      }
      default: {  // Unregister explicitly, possibly more than there is.
        if (loose.empty()) break;
        const size_t i = s.Draw(loose.size() - 1);
        unsigned mask = 0;
        for (int c : loose[i].counts) mask |= 1u << c;
        bool missing = false;
        if (s.Chance(1, 3)) {
          for (int c = 0; c < 16; ++c) {
            if (s.Chance(1, 8) && !m.routes.count({loose[i].path, c})) {
              mask |= 1u << c;
              missing = true;
            }
          }
        }
        if (s.Describing()) s.Note("unregister " + loose[i].path + " mask " + std::to_string(mask));
        bool thrown = false;
        try {
          server.UnRegister(loose[i].path, static_cast<mask_t>(mask));
        } catch (const current::http::HandlerDoesNotExistException&) {
          thrown = true;
        }
        s.Check(thrown == missing, "unregister-outcome");
        if (!thrown) {
          Forget({loose[i]});
          loose.erase(loose.begin() + i);
        }
        CheckCount();
      }
    }
  }
  // Leave everything: nothing of it remains.
  scopes.clear();
  m.routes.clear();
  for (const auto& l : loose) {
    for (int c : l.counts) server.UnRegister(l.path, static_cast<mask_t>(1 << c));
  }
  loose.clear();
  s.Eq(size_t(0), server.PathHandlersCount(), "left-behind");
}

PBT_PROP(static_files, o.weight = 2; o.hang_s = 60; o.hang_is_violation = true) {
  int port;
  auto& server = Server(&port);
  const std::string dir = s.Scratch();
  const std::string prefix = s.Pick({"/", "/static", "/a/b"});
  std::map<std::string, std::pair<std::string, std::string>> files;  // URL to the content and the type.
  std::map<std::string, std::string> index;                          // URL of a directory to the content.
  std::map<std::string, std::string> index_type;
  std::set<std::string> hidden;
  bool unknown = false, two = false, invalid = false;
  static const std::vector<std::pair<std::string, std::string>> types{{"html", "text/html"}, {"txt", "text/plain"}, {"png", "image/png"}, {"JS", "application/javascript"}, {"json", "application/json; charset=utf-8"}};
  const size_t n = s.Len(8);
  for (size_t i = 0; i < n; ++i) {
    std::string sub;
    bool is_hidden = false;
    for (size_t d = s.Weighted({4, 3, 1}); d; --d) {
      const std::string name = s.Pick({"x", "y", "z.html", ".h"});
      if (name == ".h") is_hidden = true;
      sub += "/" + name;
      mkdir((dir + sub).c_str(), 0755);
    }
    const auto& type = s.OneOf(types);
    std::string name = s.Weighted({3, 2}) ? "index." + s.Pick({"html", "htm"}) : s.Pick({"f", "g", ".p", "h.i"}) + "." + type.first;
    if (s.Chance(1, 20)) name = s.Pick({"noextension", "x.unknown"});
    const std::string content = s.Bytes(40);
    struct stat st;
    if (!stat((dir + sub + "/" + name).c_str(), &st)) continue;
    std::ofstream(dir + sub + "/" + name, std::ios::binary) << content;
    if (name[0] == '.') {
      hidden.insert((prefix == "/" ? "" : prefix) + sub + "/" + name);
      continue;
    }
    const size_t dot = name.rfind('.');
    const std::string extension = dot == std::string::npos ? "" : httpc::Lower(name.substr(dot + 1));
    std::string content_type;
    for (const auto& t : types) if (httpc::Lower(t.first) == extension) content_type = t.second;
    if (extension == "htm") content_type = "text/html";
    if (content_type.empty()) {
      unknown = true;
      continue;
    }
    if (is_hidden) {
      hidden.insert((prefix == "/" ? "" : prefix) + sub + "/" + name);
      continue;
    }
    files[(prefix == "/" ? "" : prefix) + sub + "/" + name] = {content, content_type};
    if (name == "index.html" || name == "index.htm") {
      const std::string url = prefix == "/" ? (sub.empty() ? "/" : sub) : prefix + sub;
      if (index.count(url)) two = true;
      index[url] = content;
      index_type[url] = content_type;
    }
  }
  const std::string public_prefix = s.Chance(1, 3) ? s.Pick({"/public", "http://example.com/", "/p/"}) : "";
  if (s.Describing()) {
    for (const auto& f : files) s.Note("file " + f.first);
  }
  scope_t scope;
  std::string thrown;
  try {
    scope = server.ServeStaticFilesFrom(dir, current::http::ServeStaticFilesFromOptions(prefix, public_prefix));
  } catch (const current::http::ServeStaticFilesFromCanNotServeStaticFilesOfUnknownMIMEType&) {
    thrown = "unknown";
  } catch (const current::http::ServeStaticFilesFromCannotServeMoreThanOneIndexFile&) {
    thrown = "two";
  }
  if (!thrown.empty()) {
    s.Check((thrown == "unknown" && unknown) || (thrown == "two" && two), "static-refused");
    s.Eq(size_t(0), server.PathHandlersCount(), "left-behind-by-static-files");
    return;
  }
  s.Check(!unknown && !two && !invalid, "static-not-refused");
  std::set<std::string> paths;
  for (const auto& f : files) paths.insert(f.first);
  for (const auto& d : index) paths.insert(d.first);
  s.Eq(paths.size(), server.PathHandlersCount(), "number-of-static-routes");
  for (const auto& f : files) {
    const httpc::Reply r = httpc::Request(port, "GET", f.first);
    s.Eq(200, r.code, "static-code");
    s.Eq(f.second.first, r.body, "static-content");
    s.Eq(f.second.second, r.Header("Content-Type"), "static-type");
    s.Eq(404, httpc::Request(port, "GET", f.first + "/").code, "static-file-with-slash");
    s.Eq(405, httpc::Request(port, "DELETE", f.first).code, "static-method");
    s.Eq(404, httpc::Request(port, "GET", f.first + "/more").code, "static-file-with-more");
  }
  for (const auto& d : index) {
    const std::string with_slash = d.first == "/" ? "/" : d.first + "/";
    const httpc::Reply r = httpc::Request(port, "GET", with_slash);
    s.Eq(200, r.code, "index-code");
    s.Eq(d.second, r.body, "index-content");
    s.Eq(index_type[d.first], r.Header("Content-Type"), "index-type");
    if (d.first != "/") {
      const httpc::Reply q = httpc::Request(port, "GET", d.first);
      s.Eq(302, q.code, "index-redirect-code");
      std::string expected = with_slash;
      if (!public_prefix.empty()) {
        const std::string rest = with_slash.substr(prefix == "/" ? 1 : prefix.size() + 1);
        expected = public_prefix + (public_prefix.back() == '/' ? "" : "/") + rest;
      }
      s.Eq(expected, q.Header("Location"), "index-redirect");
    }
  }
  for (const auto& h : hidden) s.Eq(404, httpc::Request(port, "GET", h).code, "hidden-served");
  scope = nullptr;
  s.Eq(size_t(0), server.PathHandlersCount(), "left-behind-by-static-files");
  for (const auto& f : files) s.Eq(404, httpc::Request(port, "GET", f.first).code, "static-still-there");
  if (!index.empty() && files.size() > 1) s.NonTrivial(pbt::Hash(files.begin()->first) + files.size());
}

// A handler is never run once its scope has been left, and is not left while it is being run.
PBT_PROP(leaving_while_requested, o.weight = 1; o.schedule = true; o.hang_s = 60; o.hang_is_violation = true) {
  int port;
  auto& server = Server(&port);
  struct State {
    std::atomic<int> running{0};
    std::atomic<int> served{0};
    std::atomic<bool> gone{false};
    std::atomic<bool> late{false};
  };
  std::atomic<bool> stop{false};
  std::atomic<int> wrong{0}, found{0}, not_found{0};
  std::vector<std::thread> clients;
  const size_t n = 1 + s.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    clients.emplace_back([&] {
      while (!stop) {
        const httpc::Reply r = httpc::Request(port, "GET", "/route/x");
        if (!r.complete || (r.code != 200 && r.code != 404)) ++wrong;
        ++(r.code == 200 ? found : not_found);
      }
    });
  }
  std::vector<std::unique_ptr<State>> states;
  bool bad = false;
  int served = 0;
  const size_t rounds = 1 + s.Draw(5);
  const int work_us = int(s.Draw(300));
  for (size_t i = 0; i < rounds; ++i) {
    states.push_back(std::make_unique<State>());
    State& st = *states.back();
    {
      auto handler = [&st, work_us](Request r) {
        ++st.running;
        if (st.gone) st.late = true;
        if (work_us) std::this_thread::sleep_for(std::chrono::microseconds(work_us));
        r("ok");
        if (st.gone) st.late = true;
        ++st.served;
        --st.running;
      };
      const auto scope = server.Register("/route", mask_t::One, handler);
      std::this_thread::sleep_for(std::chrono::microseconds(s.Draw(2000)));
    }
    if (st.running) bad = true;
    st.gone = true;
    std::this_thread::sleep_for(std::chrono::microseconds(s.Draw(500)));
    served += st.served;
  }
  stop = true;
  for (auto& t : clients) t.join();
  s.Eq(0, int(wrong), "wrong-reply");
  s.Check(!bad, "left-while-running");
  for (auto& st : states) s.Check(!st->late, "run-after-left");
  s.Eq(size_t(0), server.PathHandlersCount(), "left-behind");
  if (found && not_found) s.NonTrivial(pbt::Mix(served, rounds));
}
