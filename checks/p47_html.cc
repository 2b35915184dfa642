// P47: generated HTML is balanced, complete, and goes where it belongs.
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "blocks/html/html.h"
#include "blocks/html/html_http.h"
#include "httpc.h"

PBT_CHECK("P47", "exploration",
          "A case is a random tree of tags with attributes and of raw pieces, generated by several threads at once into streams "
          "or into HTTP responses, possibly cut by an exception, by an attempt to open another scope, or by the use of a tag "
          "outside of any scope, compared with the text the tree stands for. Non-trivial: a tree of at least three nodes.");

namespace {

struct Node {
  int kind;  // As in `Emit()`.
  std::string a, b, c;
  std::vector<Node> children;
  bool throws = false;     // After the children.
  bool intersect = false;  // Attempt to open another scope here.
};

struct Boom {};

constexpr int kKinds = 16;

size_t Size(const Node& n) {
  size_t r = 1;
  for (const auto& c : n.children) r += Size(c);
  return r;
}

Node Generate(pbt::Src& s, int depth) {
  Node n;
  n.kind = int(s.Size(0, kKinds - 1));
  const auto value = [&] { return s.From("abc 019#/:.?=-", 6); };
  n.a = value();
  n.b = value();
  n.c = value();
  n.intersect = s.Chance(1, 25);
  n.throws = s.Chance(1, 40);
  if (depth < 5 && n.kind < 13) {
    const size_t children = s.Size(0, depth < 2 ? 3 : 2);
    for (size_t i = 0; i < children; ++i) n.children.push_back(Generate(s, depth + 1));
  }
  return n;
}

void Emit(const Node& n);

void Inside(const Node& n) {
  if (n.intersect) {
    std::ostringstream other;
    bool thrown = false;
    try {
      current::html::HTMLGeneratorOStreamScope scope(other);
      HTML(_) << "must not be seen";
    } catch (const current::html::HTMLGenerationIntersectingScopesException&) {
      thrown = true;
    }
    HTML(_) << (thrown && other.str().empty() ? "[I]" : "[?]");
  }
  for (const auto& c : n.children) Emit(c);
  if (n.throws) throw Boom();
}

void Emit(const Node& n) {
  switch (n.kind) {
    case 0: { HTML(html); Inside(n); break; }
    case 1: { HTML(b); Inside(n); break; }
    case 2: { HTML(i); Inside(n); break; }
    case 3: { HTML(pre); Inside(n); break; }
    case 4: { HTML(font, color(n.a).size(n.b)); Inside(n); break; }
    case 5: { HTML(font, size(int(n.a.size()))); Inside(n); break; }
    case 6: { HTML(form, action(n.a).method(n.b)); Inside(n); break; }
    case 7: { HTML(a, href(n.a)); Inside(n); break; }
    case 8: { HTML(table, cellpadding(n.a).border(int(n.b.size()))); Inside(n); break; }
    case 9: { HTML(tr); Inside(n); break; }
    case 10: { HTML(td, valign(n.a).align(n.b).colspan(n.c)); Inside(n); break; }
    case 11: { HTML(td, colspan(n.a)); Inside(n); break; }
    case 12: {
      HTML(h3);
      Inside(n);
      HTML(_) << "tail";
      break;
    }
    case 13: { HTML(br); Inside(n); break; }
    case 14: { HTML(input, value(n.a).type(n.b)); Inside(n); break; }
    default: { HTML(_) << n.a << int(n.b.size()) << '!' << n.c; Inside(n); }
  }
}

// Returns false if thrown.
bool Model(const Node& n, std::string& out) {
  const auto attribute = [](const char* name, const std::string& v) { return v.empty() ? std::string() : std::string(" ") + name + "='" + v + "'"; };
  const auto number = [](size_t n) { return std::to_string(n); };
  std::string tag, attributes;
  switch (n.kind) {
    case 0: tag = "html"; break;
    case 1: tag = "b"; break;
    case 2: tag = "i"; break;
    case 3: tag = "pre"; break;
    case 4: tag = "font"; attributes = attribute("color", n.a) + attribute("size", n.b); break;
    case 5: tag = "font"; attributes = attribute("size", number(n.a.size())); break;
    case 6: tag = "form"; attributes = attribute("method", n.b) + attribute("action", n.a); break;
    case 7: tag = "a"; attributes = attribute("href", n.a); break;
    case 8: tag = "table"; attributes = attribute("border", number(n.b.size())) + attribute("cellpadding", n.a); break;
    case 9: tag = "tr"; break;
    case 10: tag = "td"; attributes = attribute("align", n.b) + attribute("colspan", n.c) + attribute("valign", n.a); break;
    case 11: tag = "td"; attributes = attribute("colspan", n.a); break;
    case 12: tag = "h3"; break;
    case 13: out += "<br>"; break;
    case 14: out += "<input" + attribute("type", n.b) + attribute("value", n.a) + ">"; break;
    default: out += n.a + number(n.b.size()) + '!' + n.c;
  }
  if (!tag.empty()) out += '<' + tag + attributes + '>';
  bool ok = true;
  if (n.intersect) out += "[I]";
  for (const auto& c : n.children) {
    if (ok) ok = Model(c, out);
  }
  if (n.throws) ok = false;
  if (ok && n.kind == 12) out += "tail";
  if (!tag.empty()) out += "</" + tag + ">";
  return ok;
}

bool HasActiveScope() { return current::ThreadLocalSingleton<current::html::HTMLGeneratorThreadLocalSingleton>().HasActiveScope(); }

PBT_PROP(streams, o.weight = 8) {
  const size_t threads = s.Size(1, 3);
  std::vector<std::vector<Node>> documents(threads);
  for (auto& d : documents) {
    const size_t n = s.Size(1, 2);
    for (size_t i = 0; i < n; ++i) {
      d.push_back(Generate(s, 0));
      if (Size(d.back()) >= 3) s.NonTrivial();
    }
  }
  std::vector<std::vector<std::string>> expected(threads), actual(threads);
  std::vector<int> unscoped(threads);
  for (size_t t = 0; t < threads; ++t) {
    for (const auto& d : documents[t]) {
      std::string text;
      const bool ok = Model(d, text);
      expected[t].push_back((ok ? "+" : "-") + text);
      s.Note(expected[t].back());
    }
  }
  const auto body = [&](size_t t) {
    for (const auto& d : documents[t]) {
      std::ostringstream os;
      bool ok = true;
      if (HasActiveScope()) ++unscoped[t];
      try {
        HTML(b);
        ++unscoped[t];
      } catch (const current::html::HTMLGenerationNoActiveScopeException& e) {
        if (std::string(e.tag) != "b") ++unscoped[t];
      }
      try {
        current::html::HTMLGeneratorOStreamScope scope(os);
        if (!HasActiveScope()) ++unscoped[t];
        Emit(d);
      } catch (const Boom&) {
        ok = false;
      }
      if (HasActiveScope()) ++unscoped[t];
      actual[t].push_back((ok ? "+" : "-") + os.str());
    }
  };
  std::vector<std::thread> pool;
  for (size_t t = 1; t < threads; ++t) pool.emplace_back(body, t);
  body(0);
  for (auto& t : pool) t.join();
  for (size_t t = 0; t < threads; ++t) {
    for (size_t i = 0; i < expected[t].size(); ++i) s.Eq(expected[t][i], actual[t][i], "html");
    s.Eq(0, unscoped[t], "scopes");
  }
}

PBT_PROP(responses, o.weight = 1) {
  struct Server {
    current::net::ReservedLocalPort reserved = current::net::ReserveLocalPort();
    const uint16_t port = reserved;
    current::http::HTTPServerPOSIX* http = &HTTP(std::move(reserved));
  };
  static Server server;
  std::vector<Node> documents;
  const size_t n = s.Size(1, 3);
  for (size_t i = 0; i < n; ++i) {
    documents.push_back(Generate(s, 1));
    if (Size(documents.back()) >= 3) s.NonTrivial();
  }
  std::atomic_size_t next{0};
  const auto scope = server.http->Register("/html", [&](Request r) {
    const Node& d = documents[next++];
    try {
      const current::html::HTMLGeneratorHTTPResponseScope html(std::move(r));
      Emit(d);
    } catch (const Boom&) {
    }
  });
  for (const auto& d : documents) {
    std::string text;
    Model(d, text);
    s.Note(text);
    const auto response = HTTP(GET("http://localhost:" + std::to_string(server.port) + "/html"));
    s.Eq(200, static_cast<int>(response.code), "code");
    s.Eq(text, response.body, "body");
    s.Eq(std::string("text/html"), response.headers.GetOrDefault("Content-Type", "").substr(0, 9), "content_type");
  }
}

}  // namespace
