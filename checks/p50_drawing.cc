// P50: graphs, plots, progress lines and the output of commands are what they were given.
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "bricks/dot/graphviz.h"
#include "bricks/graph/gnuplot.h"
#include "bricks/system/syscalls.h"
#include "blocks/xterm/progress.h"
#include "blocks/xterm/vt100.h"

PBT_CHECK("P50", "exploration",
          "A case is a random graph whose DOT is parsed back, a random set of plots whose gnuplot input is parsed back, a history "
          "of updates of one or several progress lines, from several threads, played on a terminal of our own, or a random "
          "output of a command read line by line. Non-trivial: a graph with an edge or a group, two plots, three updates, or "
          "three lines.");

namespace {

// ---- Graphs.

using namespace current::graphviz;

std::string Text(pbt::Src& s, size_t max) { return s.Weighted({3, 1}) ? s.Utf8(max) : s.From("ab \"\\<>{}|;=[]-n\n'", max); }

struct Token {
  char kind;  // 'i' an identifier, 'q' a quoted string, 'h' HTML, or the character itself, '>' for an arrow, '-' for a line, 0 the end.
  std::string text;
};

struct DOT {
  const std::string& t;
  size_t p = 0;
  Token now;
  explicit DOT(const std::string& t) : t(t) { Next(); }
  void Next() {
    while (p < t.size() && (t[p] == ' ' || t[p] == '\n')) ++p;
    now = Token();
    if (p == t.size()) {
      now.kind = 0;
      return;
    }
    const char c = t[p];
    if (c == '"') {
      now.kind = 'q';
      for (++p;; ++p) {
        if (p >= t.size()) throw std::string("unterminated string");
        if (t[p] == '"') break;
        if (t[p] == '\\' && p + 1 < t.size()) ++p;
        now.text += t[p];
      }
      ++p;
    } else if (c == '<') {
      now.kind = 'h';
      int depth = 1;
      for (++p;; ++p) {
        if (p >= t.size()) throw std::string("unterminated HTML");
        if (t[p] == '<') ++depth;
        if (t[p] == '>' && !--depth) break;
        now.text += t[p];
      }
      ++p;
    } else if (c == '-') {
      now.kind = p + 1 < t.size() && t[p + 1] == '>' ? '>' : p + 1 < t.size() && t[p + 1] == '-' ? '-' : '?';
      p += 2;
    } else if (isalnum(static_cast<unsigned char>(c)) || c == '_') {
      now.kind = 'i';
      while (p < t.size() && (isalnum(static_cast<unsigned char>(t[p])) || t[p] == '_')) now.text += t[p++];
    } else {
      now.kind = c;
      ++p;
    }
  }
  std::string Take(char kind) {
    if (now.kind != kind) throw std::string("`") + kind + "` expected before " + t.substr(p, 40);
    std::string r = now.text;
    Next();
    return r;
  }
  bool Maybe(char kind) {
    if (now.kind != kind) return false;
    Next();
    return true;
  }
};

// A graph, as text, in a form of our own.
struct Picture {
  std::string head;
  std::map<std::string, std::string> params;
  std::vector<std::pair<std::string, std::map<std::string, std::string>>> nodes;
  std::vector<std::string> groups;
  std::vector<std::string> edges;
  std::string Str() const {
    std::string r = head + "\n";
    for (const auto& x : params) r += x.first + "=" + pbt::Esc(x.second) + "\n";
    for (const auto& n : nodes) {
      r += n.first + ":";
      for (const auto& x : n.second) r += " " + x.first + "=" + pbt::Esc(x.second);
      r += "\n";
    }
    for (const auto& x : groups) r += x + "\n";
    for (const auto& x : edges) r += x + "\n";
    return r;
  }
};

std::string Group_(const std::vector<std::string>& nodes, const std::map<std::string, std::string>& params, const std::map<std::string, std::string>& graph) {
  std::string r = "group";
  for (const auto& n : nodes) r += " " + n;
  for (const auto& x : params) r += " " + x.first + "=" + pbt::Esc(x.second);
  for (const auto& x : graph) r += " graph." + x.first + "=" + pbt::Esc(x.second);
  return r;
}

Picture Parse(const std::string& text) {
  DOT d(text);
  Picture r;
  r.head = d.Take('i');
  if (d.now.kind == 'q') r.head += " " + pbt::Esc(d.Take('q'));
  d.Take('{');
  while (!d.Maybe('}')) {
    const std::string id = d.Take('i');
    if (id == "subgraph") {
      const std::string name = d.Take('i');
      if (name != "cluster_" + std::to_string(r.groups.size() + 1)) throw "name of the group: " + name;
      d.Take('{');
      std::vector<std::string> nodes;
      std::map<std::string, std::string> params, graph;
      while (!d.Maybe('}')) {
        const std::string x = d.Take('i');
        if (d.Maybe('=')) {
          params[x] = d.Take('q');
          d.Take(';');
        } else if (d.Maybe('[')) {
          if (x != "graph") throw "unexpected: " + x;
          while (!d.Maybe(']')) {
            const std::string k = d.Take('i');
            d.Take('=');
            graph[k] = d.Take('q');
          }
          d.Take(';');
        } else {
          d.Take(';');
          nodes.push_back(x);
        }
      }
      r.groups.push_back(Group_(nodes, params, graph));
    } else if (d.Maybe('=')) {
      if (!r.nodes.empty() || !r.params.emplace(id, d.Take('q')).second) throw "repeated or late: " + id;
      d.Take(';');
    } else if (d.Maybe('[')) {
      std::map<std::string, std::string> p;
      while (!d.Maybe(']')) {
        std::string k = d.Take('i');
        d.Take('=');
        const bool html = d.now.kind == 'h';
        const std::string v = d.Take(html ? 'h' : 'q');
        if (html) k += "<>";
        if (!p.emplace(k, v).second) throw "repeated: " + k;
      }
      d.Take(';');
      r.nodes.emplace_back(id, p);
    } else {
      const char op = d.now.kind;
      if (op != '>' && op != '-') throw "an edge expected after " + id;
      d.Next();
      r.edges.push_back(id + op + d.Take('i'));
      d.Take(';');
    }
  }
  if (d.now.kind) throw std::string("more than the graph");
  return r;
}

struct ModelNode {
  std::string label;
  std::map<std::string, std::pair<bool, std::string>> params;  // Whether it is there.
  bool html = false;
};

template <GraphDirected D>
void CheckGraph(pbt::Src& s, const std::vector<Node>& nodes, const std::vector<ModelNode>& model) {
  GenericGraph<D> g;
  Picture expected;
  expected.head = D == GraphDirected::Directed ? "digraph" : "graph";
  if (s.Bool()) {
    const std::string title = Text(s, 8);
    g.Title(title);
    expected.head += " " + pbt::Esc(title);
  }
  if (s.Chance(1, 4)) {
    g.RankDirLR();
    expected.params["rankdir"] = "LR";
  }
  for (size_t i = s.Size(0, 3); i; --i) {
    const std::string k = s.Pick({"a", "bgcolor", "rankdir", "size"});
    if (s.Chance(1, 4)) {
      g[k] = nullptr;
      expected.params.erase(k);
    } else {
      const std::string v = Text(s, 6);
      g[k] = v;
      expected.params[k] = v;
    }
  }
  // Some of the nodes, in some order, are added.
  std::map<size_t, std::string> names;
  std::vector<size_t> order;
  for (size_t i = 0; i < nodes.size(); ++i) {
    if (!s.Chance(1, 8)) order.push_back(i);
  }
  for (size_t i = 1; i < order.size(); ++i) std::swap(order[i], order[s.Draw(i)]);
  const auto Name = [&](size_t i) { return names.count(i) ? names[i] : std::string("node0"); };
  struct Later {
    int kind;
    size_t a, b;
  };
  for (size_t i : order) names[i] = "node" + std::to_string(names.size() + 1);
  size_t added = 0;
  const auto AddNode = [&] {
    const size_t i = order[added++];
    if (s.Bool()) g += nodes[i]; else g.Add(nodes[i]);
    std::map<std::string, std::string> p;
    p[model[i].html ? "label<>" : "label"] = model[i].label;
    for (const auto& x : model[i].params) {
      if (x.second.first) p[x.first] = x.second.second;
    }
    expected.nodes.emplace_back(names[i], p);
  };
  size_t decorations = nodes.empty() ? 0 : s.Len(10), edges = 0;
  while (added < order.size() || decorations) {
    if (added < order.size() && (!decorations || s.Chance(2, 3))) {
      AddNode();
      continue;
    }
    --decorations;
    if (!s.Chance(1, 4)) {
      const size_t a = s.Size(0, nodes.size() - 1), b = s.Size(0, nodes.size() - 1);
      if (s.Bool()) g += Edge(nodes[a], nodes[b]); else g.Add(Edge(nodes[a], nodes[b]));
      expected.edges.push_back(Name(a) + (D == GraphDirected::Directed ? '>' : '-') + Name(b));
      ++edges;
    } else {
      Group group;
      std::vector<std::string> members;
      std::map<std::string, std::string> params, graph;
      for (size_t i = s.Size(0, 4); i; --i) {
        const size_t a = s.Size(0, nodes.size() - 1);
        if (s.Bool()) group += nodes[a]; else group.Add(nodes[a]);
        members.push_back(Name(a));
      }
      for (size_t i = s.Size(0, 3); i; --i) {
        const std::string v = Text(s, 5);
        switch (s.Size(0, 6)) {
          case 0: group.Label(v); params["label"] = v; break;
          case 1: group.LabelLoc(v); params["labelloc"] = v; break;
          case 2: group.FontName(v); params["fontname"] = v; break;
          case 3: group.FontSize(v); params["fontsize"] = v; break;
          case 4: group.GraphStyle(v); graph["style"] = v; break;
          case 5: group.Color(v); graph["color"] = v; break;
          case 6: group.FillColor(v); graph["fillcolor"] = v; break;
        }
      }
      if (s.Bool()) g += group; else g.Add(group);
      expected.groups.push_back(Group_(members, params, graph));
      ++edges;
    }
  }
  const std::string dot = g.AsDOT();
  if (s.Describing()) s.Note(dot);
  std::string actual;
  try {
    actual = Parse(dot).Str();
  } catch (const std::string& e) {
    s.Fail("not a graph", e + "\n" + dot);
  }
  s.Check(actual == expected.Str(), "graph", [&] { return dot + "\nwhich is\n" + actual + "\nexpected\n" + expected.Str(); });
  s.Check(g.AsDOT() == dot, "the same graph again");
  if (edges) s.NonTrivial(pbt::Hash(dot));
}

PBT_PROP(graphs, o.weight = 3) {
  std::vector<Node> nodes;
  std::vector<ModelNode> model;
  const size_t n = s.Len(12);
  for (size_t i = 0; i < n; ++i) {
    ModelNode m;
    m.html = s.Chance(1, 5);
    m.label = m.html ? "<B>" + s.From("abc \"\\{", 5) + "</B>" : Text(s, 8);
    Node node(m.label);
    if (m.html) node.BodyAsHTML();
    for (size_t k = s.Size(0, 3); k; --k) {
      const std::string key = s.Pick({"shape", "URL", "fontcolor", "style"}), v = Text(s, 6);
      if (s.Chance(1, 5)) {
        node.Set(key, nullptr);
        m.params[key].first = false;
      } else {
        if (key == "shape" && s.Bool()) node.Shape(v); else if (s.Bool()) node.Set(key, v); else node[key] = v;
        m.params[key] = {true, v};
      }
    }
    nodes.push_back(node);
    model.push_back(m);
  }
  // The same nodes can be drawn more than once.
  for (size_t i = 1 + s.Chance(1, 3); i; --i) {
    if (s.Bool()) CheckGraph<GraphDirected::Directed>(s, nodes, model); else CheckGraph<GraphDirected::Undirected>(s, nodes, model);
  }
}

// ---- Plots.

PBT_PROP(plots, o.weight = 2) {
  using namespace current::gnuplot;
  GNUPlot g;
  g.OutputFormat("gnuplot");
  std::string size = "800,800";
  std::map<std::string, std::string> params;
  const auto Q = [](const std::string& text) {
    std::string r = "\"";
    for (char c : text) {
      if (c == '"') r += '\\';
      r += c;
    }
    return r + "\"";
  };
  const auto T = [&] { return s.From("ab \"c'#,;", 8); };
  for (size_t i = s.Size(0, 6); i; --i) {
    const std::string t = T();
    const int a = int(s.Int(-1000, 1000)), b = int(s.Int(-1000, 1000));
    const auto Range = [&](double x, double y) {
      char buffer[200];
      snprintf(buffer, sizeof(buffer), "[%+lf:%+lf]", x, y);
      return std::string(buffer);
    };
    switch (s.Size(0, 11)) {
      case 0: g.Title(t); params["title"] = "set title " + Q(t); break;
      case 1: g.NoTitle(); params["title"] = "unset title"; break;
      case 2: g.XLabel(t); params["xlabel"] = "set xlabel " + Q(t); break;
      case 3: g.YLabel(t); params["ylabel"] = "set ylabel " + Q(t); break;
      case 4: {
        const std::string grid = s.Pick({"back", "front ls 1", "x"});
        g.Grid(grid);
        params["grid"] = "set grid " + grid;
        break;
      }
      case 5: g.NoKey(); params["key"] = "unset key"; break;
      case 6: g.KeyTitle(t); params["key"] = "set key title " + Q(t); break;
      case 7: g.NoTics(); params["tics"] = "unset tics"; break;
      case 8: g.NoBorder(); params["border"] = "unset border"; break;
      case 9: g.XRange(a / 8.0, b / 8.0); params["xrange"] = "set xrange " + Range(a / 8.0, b / 8.0); break;
      case 10: g.YRange(a / 8.0, b / 8.0); params["yrange"] = "set yrange " + Range(a / 8.0, b / 8.0); break;
      case 11: {
        const size_t x = s.Size(1, 5000), y = s.Bool() ? s.Size(1, 5000) : 0;
        if (y) g.ImageSize(x, y); else g.ImageSize(x);
        size = std::to_string(x) + "," + std::to_string(y ? y : x);
        break;
      }
    }
  }
  std::string plot = "plot ", data;
  const size_t n = s.Size(1, 4);
  size_t points = 0;
  for (size_t i = 0; i < n; ++i) {
    struct Point {
      int x, y;
      std::string label;
    };
    std::vector<Point> p;
    for (size_t k = s.Len(12); k; --k) p.push_back({int(s.Int(-999, 999)), int(s.Int(-999, 999)), s.Bool() ? s.FromN("abc", 1, 4) : ""});
    const auto f = [p](Plotter& plotter) {
      for (const auto& q : p) {
        if (q.label.empty()) plotter(q.x, q.y / 4.0); else plotter(q.x, q.y / 4.0, q.label);
      }
    };
    points += p.size();
    plot += i ? ", '-' " : "'-' ";
    if (s.Chance(1, 4)) {
      g.Plot(f);
      plot += " t 'Graph' with lines lw 5";
    } else {
      WithMeta meta(f);
      std::string type = "lines", extra;
      for (size_t k = s.Size(0, 4); k; --k) {
        switch (s.Size(0, 5)) {
          case 0: { const auto t = T(); meta.Name(t); extra += " t " + Q(t); break; }
          case 1: { const auto c = s.Pick({"rgb 'red'", "3"}); meta.Color(c); extra += " lc " + c; break; }
          case 2: {
            const double w = double(s.Size(1, 40)) / 4;
            meta.LineWidth(w);
            type = "lines";
            char b[100];
            snprintf(b, sizeof(b), " lw %lf ", w);
            extra += b;
            break;
          }
          case 3: meta.AsPoints(); type = "points"; break;
          case 4: meta.AsLabels(); type = "labels"; break;
          case 5: { const auto e = s.Pick({"pt 7", "ps 2"}); meta.Extra(e); extra += " " + e; break; }
        }
      }
      g.Plot(meta);
      plot += "with " + type + extra;
    }
    for (const auto& q : p) {
      std::ostringstream os;
      os << q.x << ' ' << q.y / 4.0;
      data += os.str() + (q.label.empty() ? "" : " " + q.label) + "\n";
    }
    data += "end\n";
  }
  std::string expected = "set term gnuplot size " + size + "\n";
  for (const auto& x : params) expected += x.second + "\n";
  expected += plot + "\n" + data;
  const std::string actual = g;
  s.Check(actual == expected, "plot", [&] { return actual + "\nexpected\n" + expected; });
  if (n > 1 && points) s.NonTrivial(pbt::Hash(actual));
}

// ---- Progress lines.

struct Terminal {
  std::vector<std::vector<std::string>> rows{1};  // Of characters.
  size_t row = 0, col = 0;
  std::string bad;
  void Play(const std::string& t) {
    for (size_t i = 0; i < t.size();) {
      const unsigned char c = static_cast<unsigned char>(t[i]);
      if (c == '\n') {
        if (++row == rows.size()) rows.emplace_back();
        col = 0;
        ++i;
      } else if (c == '\b') {
        if (!col) bad = "a step back from the beginning of the line"; else --col;
        ++i;
      } else if (c == 0x1b) {
        size_t j = i + 2;
        int n = 0;
        if (i + 1 >= t.size() || t[i + 1] != '[') bad = "an escape sequence";
        const size_t digits = j;
        while (j < t.size() && isdigit(static_cast<unsigned char>(t[j]))) n = n * 10 + (t[j++] - '0');
        if (j >= t.size() || j == digits) {
          bad = "an escape sequence";
          return;
        }
        if (t[j] == 'A') {
          // Terminals move by at least one.
          if (!n) n = 1;
          if (size_t(n) > row) bad = "above the first line"; else row -= size_t(n);
        } else if (t[j] == 'B') {
          if (!n) n = 1;
          if (row + size_t(n) >= rows.size()) bad = "below the last line"; else row += size_t(n);
        } else if (t[j] != 'm') {
          bad = "an unknown escape sequence";
        }
        i = j + 1;
      } else {
        size_t n = 1;
        while (i + n < t.size() && (static_cast<unsigned char>(t[i + n]) & 0xc0) == 0x80) ++n;
        auto& r = rows[row];
        if (r.size() <= col) r.resize(col + 1, " ");
        r[col++] = t.substr(i, n);
        i += n;
      }
    }
  }
  std::string Row(size_t i) const {
    std::string r;
    if (i < rows.size()) {
      for (const auto& c : rows[i]) r += c;
    }
    while (!r.empty() && r.back() == ' ') r.pop_back();
    return r;
  }
};

std::string Trim(std::string r) {
  while (!r.empty() && r.back() == ' ') r.pop_back();
  return r;
}

struct Update {
  std::vector<std::pair<int, std::string>> pieces;  // 0 the text, 1 an attribute, 2 a color, 3 a background, 4 a number.
  std::string Text() const {
    std::string r;
    for (const auto& p : pieces) r += p.second;
    return r;
  }
};

Update GenUpdate(pbt::Src& s) {
  Update u;
  const size_t n = s.Size(1, 5);
  for (size_t i = 0; i < n; ++i) {
    const int kind = int(s.Weighted({5, 1, 1, 1, 1}));
    if (kind == 0) {
      u.pieces.emplace_back(0, s.Chance(1, 4) ? s.Pick({"\xd0\xbf\xd1\x80", "\xe2\x80\xa6", "\xf0\x9f\x98\x80", "x\xc3\xa9"}) : s.From("abcdef .%[]", s.Chance(1, 6) ? 40 : 8));
    } else {
      u.pieces.emplace_back(kind, kind == 4 ? std::to_string(s.Int(-20, 2000)) : "");
    }
  }
  return u;
}

void Apply(current::ProgressLine& line, const Update& u) {
  using namespace current::vt100;
  const auto Give = [](auto&& to, const std::pair<int, std::string>& p) -> decltype(auto) {
    switch (p.first) {
      case 1: return to << bold;
      case 2: return to << red;
      case 3: return to << background(blue);
      case 4: return to << atoi(p.second.c_str());
      default: return to << p.second;
    }
  };
  auto status = Give(line, u.pieces[0]);
  for (size_t i = 1; i < u.pieces.size(); ++i) Give(status, u.pieces[i]);
}

PBT_PROP(progress, o.weight = 2) {
  std::ostringstream os;
  const std::string prefix = s.From("abc: ", 4);
  os << prefix;
  size_t played = 0;
  Terminal t;
  const auto Play = [&] {
    const std::string all = os.str();
    t.Play(all.substr(played));
    played = all.size();
  };
  const size_t n = s.Len(8);
  {
    current::ProgressLine line(os);
    s.Eq(std::string(), line.GetUndecoratedString(), "nothing yet");
    for (size_t i = 0; i < n; ++i) {
      const Update u = GenUpdate(s);
      Apply(line, u);
      if (s.Describing()) s.Note(pbt::Esc(u.Text()));
      Play();
      s.Eq(u.Text(), line.GetUndecoratedString(), "undecorated");
      s.Eq(std::string(), t.bad, "terminal");
      s.Check(t.Row(0) == Trim(prefix + u.Text()) && t.row == 0, "line", [&] { return pbt::Esc(t.Row(0)) + " instead of " + pbt::Esc(prefix + u.Text()); });
    }
  }
  Play();
  s.Check(t.Row(0) == Trim(prefix) && t.col == prefix.size(), "cleared", [&] { return pbt::Esc(t.Row(0)) + " at " + std::to_string(t.col); });
  if (n >= 3) s.NonTrivial(pbt::Hash(os.str()));
}

PBT_PROP(multiline_progress, o.weight = 2; o.schedule = true) {
  std::ostringstream os;
  current::MultilineProgress multi;
  std::vector<std::unique_ptr<current::ProgressLine>> lines;
  std::vector<std::string> expected;
  size_t played = 0, updates = 0;
  Terminal t;
  const auto Look = [&] {
    const std::string all = os.str();
    t.Play(all.substr(played));
    played = all.size();
    s.Eq(std::string(), t.bad, "terminal");
    for (size_t i = 0; i < lines.size(); ++i) {
      s.Check(t.Row(i) == Trim(expected[i]), "lines", [&] { return "line " + std::to_string(i) + " of " + std::to_string(lines.size()) + ": " + pbt::Esc(t.Row(i)) + " instead of " + pbt::Esc(expected[i]); });
      s.Eq(expected[i], lines[i]->GetUndecoratedString(), "undecorated");
    }
    s.Check(t.row == lines.size() && t.col == 0, "the caret", [&] { return std::to_string(t.row) + ", " + std::to_string(t.col); });
  };
  const size_t n = s.Len(12);
  for (size_t i = 0; i < n; ++i) {
    if (lines.empty() || (lines.size() < 5 && s.Chance(1, 4))) {
      lines.push_back(multi.UniqueProgressLine(os));
      expected.emplace_back();
    } else if (lines.size() > 1 && s.Chance(1, 4)) {
      // At once, each thread with a line of its own.
      std::vector<std::vector<Update>> us(lines.size());
      std::vector<std::thread> threads;
      for (size_t k = 0; k < lines.size(); ++k) {
        for (size_t j = s.Size(0, 4); j; --j) us[k].push_back(GenUpdate(s));
        if (!us[k].empty()) expected[k] = us[k].back().Text();
        updates += us[k].size();
      }
      for (size_t k = 0; k < lines.size(); ++k) {
        threads.emplace_back([&, k] {
          for (const auto& u : us[k]) Apply(*lines[k], u);
        });
      }
      for (auto& x : threads) x.join();
    } else {
      const size_t k = s.Size(0, lines.size() - 1);
      const Update u = GenUpdate(s);
      Apply(*lines[k], u);
      expected[k] = u.Text();
      ++updates;
    }
    Look();
  }
  // The lines stay.
  const auto final_lines = expected.size();
  lines.clear();
  const std::string all = os.str();
  t.Play(all.substr(played));
  for (size_t i = 0; i < final_lines; ++i) s.Eq(Trim(expected[i]), t.Row(i), "the lines stay");
  if (updates >= 3) s.NonTrivial(pbt::Hash(all));
}

// ---- The output of commands.

PBT_PROP(commands, o.weight = 1) {
  using namespace current::bricks::system;
  const std::string file = s.Scratch() + "/out";
  const size_t longest = s.Bool() ? s.Size(2, 20) : 16 * 1024;
  std::string text;
  for (size_t i = s.Len(10); i; --i) text += s.From("ab c\t\\\"%", 30) + (i > 1 || s.Bool() ? "\n" : "");
  {
    FILE* f = fopen(file.c_str(), "w");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
  }
  std::vector<std::string> expected, actual;
  {
    std::string line;
    for (char c : text) {
      if (c == '\n') {
        expected.push_back(line);
        line.clear();
      } else {
        line += c;
        if (line.size() + 1 == longest) {
          expected.push_back(line);
          line.clear();
        }
      }
    }
    if (!line.empty()) expected.push_back(line);
  }
  {
    SystemCallReadPipe pipe("cat '" + file + "'", longest);
    s.Check(bool(pipe), "opened");
    while (true) {
      const std::string line = pipe.ReadLine();
      if (!pipe) {
        s.Eq(std::string(), line, "past the end");
        break;
      }
      actual.push_back(line);
      s.Check(actual.size() <= text.size() + 1, "endless");
    }
    s.Check(pipe.ReadLine().empty() && !pipe, "past the end");
  }
  s.Check(actual == expected, "lines", [&] {
    std::string r = pbt::Esc(text) + " by " + std::to_string(longest) + "\n";
    for (const auto& x : actual) r += pbt::Esc(x) + "\n";
    r += "expected\n";
    for (const auto& x : expected) r += pbt::Esc(x) + "\n";
    return r;
  });
  const int code = int(s.Size(0, 120));
  const int status = SystemCall("exit " + std::to_string(code));
  s.Check(WIFEXITED(status) && WEXITSTATUS(status) == code, "exit code", [&] { return std::to_string(status); });
  if (expected.size() >= 3) s.NonTrivial(pbt::Hash(text));
}

}  // namespace
