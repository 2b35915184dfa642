// P42: configs, blobs, tables, and nginx configs: what is in the small files is what was put there.
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.h"
#include "minijson.h"

#include "blocks/self_modifying_config/config.h"
#include "blocks/blobs/blobs.h"
#include "utils/csv/csv.h"
#include "utils/nginx/config.h"

PBT_CHECK("P42", "exploration",
          "A case is a history of up to fifteen updates, reloads, restarts and edits by hand of a self-modifying config, some of the "
          "writes failing or cut short, or the process being killed as it updates; a table written as CSV, well-formed or not; a vector written as a blob, "
          "then possibly damaged; or a tree of nginx directives. Non-trivial: two updates; two rows of two columns; two elements; two levels of directives.");

namespace p42 {
CURRENT_STRUCT(Inner) {
  CURRENT_FIELD(v, std::vector<int32_t>);
  CURRENT_FIELD(o, Optional<std::string>);
};
CURRENT_STRUCT(Config) {
  CURRENT_FIELD(x, int64_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(m, (std::map<std::string, Inner>));
};
CURRENT_STRUCT(Pod) {
  CURRENT_FIELD(a, int32_t, 0);
  CURRENT_FIELD(b, double, 0);
};
}  // namespace p42

namespace {

using us_t = std::chrono::microseconds;
using config_t = current::SelfModifyingConfig<p42::Config>;

p42::Config Random(pbt::Src& s) {
  p42::Config c;
  c.x = s.Int(-5, 5);
  c.s = s.Chance(1, 6) ? std::string(size_t(s.Int(100, 3000)), 'x') : s.Utf8(5);
  for (size_t i = 0, n = s.Len(3); i < n; ++i) {
    auto& inner = c.m[s.From("abc", 2)];
    for (size_t j = 0, k = s.Len(3); j < k; ++j) inner.v.push_back(int32_t(s.Int(-9, 9)));
    if (s.Bool()) inner.o = s.Utf8(3);
  }
  return c;
}

std::string Slurp(const std::string& fn) {
  std::ifstream f(fn, std::ios::binary);
  std::stringstream r;
  r << f.rdbuf();
  return r.str();
}
void Spill(const std::string& fn, const std::string& text) {
  std::ofstream f(fn, std::ios::binary | std::ios::trunc);
  f << text;
}
std::map<std::string, std::string> Files(const std::string& dir) {
  std::map<std::string, std::string> r;
  DIR* d = opendir(dir.c_str());
  while (dirent* e = readdir(d)) {
    struct stat st;
    if (!stat((dir + "/" + e->d_name).c_str(), &st) && S_ISREG(st.st_mode)) r[e->d_name] = Slurp(dir + "/" + e->d_name);
  }
  closedir(d);
  return r;
}
std::string Stamp(int64_t us) {
  const time_t t = time_t(us / 1000000);
  tm x;
  gmtime_r(&t, &x);
  char r[64];
  strftime(r, sizeof(r), "c.json.%Y%m%d-%H%M%S", &x);
  return r;
}

struct Limit {  // No file may grow beyond that.
  rlimit before;
  explicit Limit(size_t n) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &before);
    rlimit r = before;
    r.rlim_cur = n;
    setrlimit(RLIMIT_FSIZE, &r);
  }
  ~Limit() { setrlimit(RLIMIT_FSIZE, &before); }
};

std::string Show(const std::map<std::string, std::string>& m) {
  std::string r;
  for (const auto& kv : m) r += "  " + kv.first + ": " + pbt::Esc(kv.second.substr(0, 200)) + "\n";
  return r;
}

PBT_PROP(config, o.weight = 4) {
  current::time::ResetToZero();
  const std::string dir = s.Scratch() + "/d";
  mkdir(dir.c_str(), 0755);
  const std::string fn = dir + "/c.json";
  int64_t now = s.Int(0, 2000000000ll) * 1000000 + s.Int(0, 999999);
  current::time::SetNow(us_t(now));
  p42::Config now_is = Random(s);
  std::map<std::string, std::string> files;
  files["c.json"] = (s.Bool() ? " " : "") + JSON(now_is);
  Spill(fn, files["c.json"]);
  auto c = std::make_unique<config_t>(fn);
  files[Stamp(now)] = files["c.json"] = JSON(now_is);
  size_t updates = 0;
  auto Verify = [&](const char* when) {
    s.Eq(JSON(now_is), JSON(c->Config()), when);
    const auto got = Files(dir);
    s.Check(got == files, when, [&] { return "got\n" + Show(got) + "expected\n" + Show(files); });
  };
  Verify("as it starts");
  const size_t n = s.Len(15);
  for (size_t i = 0; i < n; ++i) {
    if (s.Chance(2, 3)) {
      now += s.Chance(1, 3) ? s.Int(0, 999999) : s.Int(0, 100) * 1000000;
      current::time::SetNow(us_t(now));
    }
    switch (s.Weighted({6, 2, 3, 2, 2, 2})) {
      case 0: {
        const p42::Config next = Random(s);
        if (s.Describing()) s.Note("at " + std::to_string(now) + " update to " + JSON(next).substr(0, 300));
        c->Update(next);
        files[Stamp(now)] = JSON(now_is);
        now_is = next;
        files["c.json"] = JSON(now_is);
        ++updates;
        Verify("updated");
        break;
      }
      case 1: {
        if (s.Describing()) s.Note("restart at " + std::to_string(now));
        c = nullptr;
        c = std::make_unique<config_t>(fn);
        files[Stamp(now)] = files["c.json"] = JSON(now_is);
        Verify("restarted");
        break;
      }
      case 2: {
        // By hand, and reloaded.
        const p42::Config next = Random(s);
        files["c.json"] = s.Pick({"", " ", "\n"}) + JSON(next) + s.Pick({"", "\n"});
        if (s.Describing()) s.Note("edited to " + pbt::Esc(files["c.json"].substr(0, 300)));
        Spill(fn, files["c.json"]);
        c->Reload();
        now_is = next;
        Verify("edited and reloaded");
        break;
      }
      case 3: {
        // What can not be read.
        const std::string before = files["c.json"];
        const bool gone = s.Chance(1, 3);
        std::string bad = before.substr(0, size_t(s.Draw(before.find_last_of('}'))));
        if (s.Bool()) bad = s.Pick({"", "{}", "null", "[]", "{\"x\":\"1\",\"s\":\"\",\"m\":{}}", "{\"x\":1,\"s\":\"\"}", "x"});
        if (gone) unlink(fn.c_str()); else Spill(fn, bad);
        if (s.Describing()) s.Note(gone ? "removed" : "spoiled: " + pbt::Esc(bad.substr(0, 300)));
        std::string thrown;
        const bool restart = s.Chance(1, 3);
        try {
          if (restart) config_t another(fn); else c->Reload();
        } catch (const current::SelfModifyingConfigReadFileException&) {
          thrown = "read";
        } catch (const current::SelfModifyingConfigParseJSONException&) {
          thrown = "parse";
        }
        s.Eq(std::string(gone ? "read" : "parse"), thrown, "what can not be read");
        s.Eq(JSON(now_is), JSON(c->Config()), "what can not be read");
        s.Eq(gone ? std::string() : bad, Slurp(fn), "what can not be read");
        Spill(fn, before);
        Verify("put back");
        break;
      }
      case 4: {
        // The file of the history can not be written.
        const std::string stamp = dir + "/" + Stamp(now);
        if (files.count(Stamp(now))) break;
        mkdir(stamp.c_str(), 0755);
        const p42::Config next = Random(s);
        if (s.Describing()) s.Note("the history can not be written, as it is updated to " + JSON(next).substr(0, 300));
        bool thrown = false;
        try {
          c->Update(next);
        } catch (const current::SelfModifyingConfigWriteFileException&) {
          thrown = true;
        }
        rmdir(stamp.c_str());
        s.Check(thrown, "the history can not be written");
        Verify("the history can not be written");
        break;
      }
      default: {
        // No space, neither for the new one nor, possibly, for the history.
        p42::Config next = Random(s);
        next.s += std::string(size_t(s.Int(1, 500)), 'y');
        const size_t old_size = JSON(now_is).size(), new_size = JSON(next).size();
        if (new_size < 2) break;
        const size_t limit = size_t(s.Draw(new_size - 1));
        if (s.Describing()) s.Note("space for " + std::to_string(limit) + " characters, as " + std::to_string(old_size) + " become " + std::to_string(new_size));
        bool thrown = false;
        {
          Limit no_more(limit);
          try {
            c->Update(next);
          } catch (const current::SelfModifyingConfigWriteFileException&) {
            thrown = true;
          }
        }
        s.Check(thrown, "no space");
        s.Eq(JSON(now_is), JSON(c->Config()), "no space");
        if (limit >= old_size) files[Stamp(now)] = JSON(now_is);
        auto got = Files(dir);
        if (limit < old_size) {
          // What is left of the record in the history is not judged.
          if (got.count(Stamp(now))) files[Stamp(now)] = got[Stamp(now)];
        }
        s.Check(got == files, "no space", [&] { return "got\n" + Show(got) + "expected\n" + Show(files); });
        s.Label("no space");
      }
    }
    if (s.Chance(1, 4)) {
      c->Reload();
      now_is = ParseJSON<p42::Config>(files["c.json"]);
      Verify("reloaded");
    }
  }
  if (updates >= 2) s.NonTrivial();
}

PBT_PROP(config_killed, o.weight = 1) {
  current::time::ResetToZero();
  const std::string dir = s.Scratch() + "/d";
  mkdir(dir.c_str(), 0755);
  const std::string fn = dir + "/c.json";
  const int64_t now = 1500000000ll * 1000000;
  current::time::SetNow(us_t(now));
  p42::Config first;
  first.s = std::string(size_t(s.Int(0, 6000)), 'a');
  const int64_t length = s.Int(0, 6000);
  Spill(fn, JSON(first));
  const int wait_us = int(s.Int(0, 1500));
  int started[2];
  if (pipe(started)) s.Discard();
  const pid_t pid = fork();
  if (!pid) {
    config_t c(fn);
    if (write(started[1], "x", 1) != 1) _exit(1);
    for (int64_t i = 1;; ++i) {
      p42::Config x;
      x.x = i;
      x.s = std::string(size_t(length + i % 7), char('a' + i % 26));
      c.Update(x, us_t(now + i * 1000000));
    }
  }
  char x;
  const bool ok = read(started[0], &x, 1) == 1;
  usleep(useconds_t(wait_us));
  kill(pid, SIGKILL);
  int status;
  waitpid(pid, &status, 0);
  close(started[0]);
  close(started[1]);
  if (!ok) s.Discard();
  const std::string left = Slurp(fn);
  p42::Config got;
  try {
    got = ParseJSON<p42::Config>(left);
  } catch (const current::Exception&) {
    s.Fail("killed", "what is left is " + std::to_string(left.size()) + " characters: " + pbt::Esc(left.substr(0, 100)));
  }
  p42::Config expected;
  expected.x = got.x;
  expected.s = std::string(size_t(length + got.x % 7), char('a' + got.x % 26));
  s.Eq(JSON(got.x ? expected : first), left, "killed");
  // It starts again.
  current::time::SetNow(us_t(now + 1000000000000ll));
  config_t again(fn);
  s.Eq(left, JSON(again.Config()), "after it was killed");
  if (got.x >= 2) s.NonTrivial();
}

// The tables.
template <typename T>
void Table(pbt::Src& s, const std::function<std::string()>& cell, const std::function<T(const std::string&)>& value) {
  const std::string fn = s.Scratch() + "/t.csv";
  const size_t columns = 1 + s.Len(4), rows = s.Len(5);
  std::vector<std::string> header;
  for (size_t i = 0; i < columns; ++i) header.push_back(s.From("abc \"_", 3) + "z");
  std::vector<std::vector<std::string>> cells(rows);
  bool good = true;
  for (auto& r : cells) for (size_t i = 0; i < columns; ++i) r.push_back(cell());
  if (rows && s.Chance(1, 3)) {
    auto& r = cells[size_t(s.Draw(rows - 1))];
    switch (s.Int(0, 3)) {
      case 0: r.push_back(cell()); break;
      case 1: r.pop_back(); break;
      case 2: r[size_t(s.Draw(columns - 1))] = ""; break;
      // An empty cell and an extra one: no other cell may take the place of the empty one.
      default: r.insert(r.begin() + long(s.Draw(columns - 1)), ""); 
    }
    good = false;
    s.Label("bad");
  }
  std::string text;
  const std::string eol = s.Pick({"\n", "\r\n"});
  auto Row = [&](const std::vector<std::string>& r) {
    for (size_t i = 0; i < r.size(); ++i) text += (i ? "," : "") + r[i];
    text += eol;
  };
  Row(header);
  for (const auto& r : cells) Row(r);
  if (rows && !cells.back().empty() && !cells.back().back().empty() && s.Chance(1, 3)) text.resize(text.size() - eol.size());
  Spill(fn, text);
  if (s.Describing()) s.Note(pbt::Esc(text));
  bool thrown = false;
  current::CSV<T> csv;
  try {
    csv = current::CSV<T>::ReadFile(fn);
  } catch (const current::CSVFileFormatException&) {
    thrown = true;
  }
  s.Eq(!good, thrown, "refused if the rows do not match the header");
  if (good) {
    s.Check(csv.header == header, "header");
    s.Eq(rows, csv.data.size(), "rows");
    for (size_t i = 0; i < rows; ++i) {
      s.Eq(columns, csv.data[i].size(), "columns");
      for (size_t j = 0; j < columns; ++j) s.Check(csv.data[i][j] == value(cells[i][j]), "cell", [&] { return cells[i][j]; });
    }
  }
  if (rows >= 2 && columns >= 2) s.NonTrivial();
}

PBT_PROP(csv_of_numbers, o.weight = 2) {
  Table<double>(
      s,
      [&] {
        char r[64];
        const double x = s.Chance(1, 4) ? double(s.Int(-1000000, 1000000)) : double(s.Int(-1000000000, 1000000000)) * std::pow(10.0, double(s.Int(-20, 20)));
        snprintf(r, sizeof(r), s.Bool() ? "%.17g" : "%.3f", x);
        return s.Pick({"", "", " ", "\t"}) + std::string(r) + s.Pick({"", "", " "});
      },
      [](const std::string& t) { return strtod(t.c_str(), nullptr); });
}
PBT_PROP(csv_of_strings, o.weight = 2) {
  Table<std::string>(
      s, [&] { return s.From("abc \"\xd0\xb0;\t'", 4) + "x"; }, [](const std::string& t) { return t; });
}

// The blobs.
template <typename T>
void Blob(pbt::Src& s, const std::function<T()>& one) {
  const std::string fn = s.Scratch() + "/b";
  std::vector<T> v;
  for (size_t i = 0, n = s.Len(20); i < n; ++i) v.push_back(one());
  auto Read = [&](std::vector<std::string>& got, auto type) {
    using type_t = decltype(type);
    try {
      current::ProcessBlob<type_t>(fn, [&](const type_t* p, size_t n) {
        for (size_t i = 0; i < n; ++i) got.push_back(std::string(reinterpret_cast<const char*>(p + i), sizeof(type_t)));
      });
      return true;
    } catch (const current::Exception&) {
      return false;
    }
  };
  std::vector<std::string> expected, got;
  for (const auto& x : v) expected.push_back(std::string(reinterpret_cast<const char*>(&x), sizeof(x)));
  if (s.Chance(1, 8)) {
    bool thrown = false;
    {
      Limit no_more(size_t(s.Draw(8 + v.size() * sizeof(T) - 1)));
      try {
        current::WriteBlob(v, fn);
      } catch (const current::Exception&) {
        thrown = true;
      }
    }
    s.Check(thrown, "a failure to write is reported");
    return;
  }
  current::WriteBlob(v, fn);
  s.Check(Read(got, T()) && got == expected, "blob");
  std::vector<std::string> other;
  s.Check(!Read(other, uint16_t()) && other.empty(), "another type");
  std::string text = Slurp(fn);
  const size_t length = size_t(s.Draw(text.size() + 20));
  if (s.Describing()) s.Note(std::to_string(v.size()) + " elements, " + std::to_string(text.size()) + " bytes resized to " + std::to_string(length));
  text.resize(length);
  Spill(fn, text);
  got.clear();
  if (length < 8 || (length - 8) % sizeof(T)) {
    s.Check(!Read(got, T()), "a wrong size");
  } else {
    s.Check(Read(got, T()), "a right size");
    expected.resize((length - 8) / sizeof(T), std::string(sizeof(T), '\0'));
    s.Check(got == expected, "a right size");
  }
  if (v.size() >= 2) s.NonTrivial();
}
PBT_PROP(blob_of_numbers, o.weight = 1) { Blob<int32_t>(s, [&] { return int32_t(s.Int(-1000000, 1000000)); }); }
PBT_PROP(blob_of_structs, o.weight = 1) {
  Blob<p42::Pod>(s, [&] {
    p42::Pod p;
    memset(static_cast<void*>(&p), 0, sizeof(p));
    p.a = int32_t(s.Int(-9, 9));
    p.b = double(s.Int(-9, 9)) / 4;
    return p;
  });
}

// The nginx directives: an independent parser of what is printed gives the tree back.
struct Node {
  std::string name, parameters;
  bool block = false;
  std::vector<Node> inner;
  bool operator==(const Node& r) const { return name == r.name && parameters == r.parameters && block == r.block && inner == r.inner; }
};
std::string Dump(const Node& n) {
  std::string r = n.name + "<" + n.parameters + ">";
  if (n.block) {
    r += "{";
    for (const auto& x : n.inner) r += Dump(x) + " ";
    r += "}";
  }
  return r;
}
// To the end, or to the closing brace.
bool ParseNginx(const std::string& t, size_t& p, std::vector<Node>& out, bool top) {
  while (true) {
    while (p < t.size() && isspace(t[p])) ++p;
    if (p == t.size()) return top;
    if (t[p] == '}') {
      ++p;
      return !top;
    }
    std::string head;
    while (p < t.size() && t[p] != ';' && t[p] != '{' && t[p] != '}') head += t[p++];
    if (p == t.size() || t[p] == '}') return false;
    Node n;
    n.block = t[p++] == '{';
    while (!head.empty() && isspace(head.back())) head.pop_back();
    const size_t space = head.find(' ');
    n.name = head.substr(0, space);
    if (space != std::string::npos) n.parameters = head.substr(space + 1);
    if (n.block && !ParseNginx(t, p, n.inner, false)) return false;
    out.push_back(n);
  }
}

using namespace current::nginx::config;

SimpleDirective RandomSimple(pbt::Src& s) { return SimpleDirective(s.From("abc_", 4) + "z", s.Pick({"", "on", "X-Real-IP $remote_addr", "/a b", "8080"})); }
void ModelOf(const SimpleDirective& d, std::vector<Node>& out) {
  Node n;
  n.name = d.name;
  n.parameters = d.parameters;
  out.push_back(n);
}

template <typename B>
void Fill(pbt::Src& s, B& block, Node& model, int depth) {
  const size_t n = s.Len(3);
  for (size_t i = 0; i < n; ++i) {
    if (!depth || s.Bool()) {
      const auto d = RandomSimple(s);
      block.Add(d);
      ModelOf(d, model.inner);
    } else if (s.Bool()) {
      const std::string name = s.From("abc", 3) + "b", parameters = s.Pick({"", "p", "~ \\.php$"});
      auto& inner = block.Create(BlockDirective(name, parameters));
      Node m;
      m.name = name;
      m.parameters = parameters;
      m.block = true;
      Fill(s, inner, m, depth - 1);
      model.inner.push_back(m);
    } else {
      BlockDirective inner(s.From("abc", 3) + "c");
      Node m;
      m.name = inner.name;
      m.block = true;
      Fill(s, inner, m, depth - 1);
      block.Add(inner);
      model.inner.push_back(m);
    }
  }
}

PBT_PROP(nginx, o.weight = 2) {
  FullConfig full;
  Node model;
  model.block = true;
  for (size_t i = 0, n = s.Len(2); i < n; ++i) {
    const auto d = RandomSimple(s);
    full.Add(d);
    ModelOf(d, model.inner);
  }
  if (s.Bool()) {
    BlockDirective b("events");
    Node m;
    m.name = "events";
    m.block = true;
    Fill(s, b, m, 2);
    full.Add(b);
    model.inner.push_back(m);
  }
  Node http;
  http.name = "http";
  http.block = true;
  std::map<int, int> ports;
  bool deep = false;
  for (size_t i = 0, n = s.Len(4); i < n; ++i) {
    if (s.Chance(1, 3)) {
      const auto d = RandomSimple(s);
      full.http.Add(d);
      ModelOf(d, http.inner);
      continue;
    }
    const uint16_t port = uint16_t(s.Int(1, 5));
    bool thrown = false;
    try {
      auto& server = full.http.CreateServer(port);
      Node m, listen;
      m.name = "server";
      m.block = true;
      listen.name = "listen";
      listen.parameters = std::to_string(port);
      m.inner.push_back(listen);
      for (size_t j = 0, k = s.Len(3); j < k; ++j) {
        Node l;
        l.name = "location";
        l.block = true;
        l.parameters = "/" + s.From("abc", 3);
        if (s.Bool()) {
          auto& location = server.CreateLocation(l.parameters);
          Fill(s, location, l, 1);
        } else {
          const std::string to = "http://localhost:" + std::to_string(s.Int(1, 9));
          server.CreateProxyPassLocation(l.parameters, to);
          for (const auto& x : std::vector<std::pair<const char*, std::string>>{{"proxy_pass", to}, {"proxy_set_header", "X-Real-IP $remote_addr"}, {"proxy_set_header", "X-Forwarded-For $proxy_add_x_forwarded_for"}, {"proxy_pass_request_headers", "on"}}) {
            ModelOf(SimpleDirective(x.first, x.second), l.inner);
          }
        }
        m.inner.push_back(l);
        deep = true;
      }
      http.inner.push_back(m);
    } catch (const current::nginx::PortAlreadyUsedException&) {
      thrown = true;
    }
    s.Eq(ports[port]++ > 0, thrown, "the same port twice");
  }
  model.inner.push_back(http);
  const size_t indent = size_t(s.Int(0, 2));
  const std::string text = ConfigPrinter::AsString(full, indent);
  if (s.Describing()) s.Note(text);
  Node got;
  got.block = true;
  size_t p = 0;
  s.Check(ParseNginx(text, p, got.inner, true), "well-formed", [&] { return text; });
  s.Check(got == model, "tree", [&] { return text + "\n" + Dump(got) + "\n" + Dump(model); });
  // Line by line, each is indented by its depth.
  int depth = int(indent);
  std::istringstream lines(text);
  std::string line;
  while (std::getline(lines, line)) {
    const size_t spaces = line.find_first_not_of(' ');
    if (line[spaces] == '}') --depth;
    s.Eq(size_t(depth) * 2, spaces, "indentation");
    if (line.back() == '{') ++depth;
  }
  if (deep) s.NonTrivial();
}

}  // namespace
