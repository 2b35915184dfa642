// P35: an inferred schema describes every record it was inferred from.
#include <fstream>
#include <sstream>

#include "p35_records.h"

#include "port.h"
#include "utils/json_schema/infer.h"

PBT_CHECK("P35", "exploration",
          "A case is a file of up to ten JSON records drawn around a common shape (nested objects and arrays, nulls, fields "
          "which are missing, numbers of all ranges, names which collide once joined), some of them spoiled by something of "
          "another kind or a name which is not an identifier. Non-trivial: at least two records and two types in the schema, "
          "and something optional or refused.");

namespace {

using namespace p35;
namespace utils = current::utils;

struct Result {
  bool refused = false;
  std::string text;
};

template <typename F>
Result Try(F&& f) {
  Result r;
  try {
    r.text = f();
  } catch (const utils::InferSchemaException&) {
    r.refused = true;
  } catch (const current::UninitializedVariantException&) {
    r.refused = true;  // No records at all.
  }
  return r;
}

std::string Save(pbt::Src& s, const std::string& name, const std::string& text) {
  const std::string fn = s.Scratch() + "/" + name;
  std::ofstream(fn) << text;
  return fn;
}

std::string Infer(const std::string& fn, const std::string& top) {
  return utils::JSONSchemaAsCurrentStructs(fn, utils::DoNotTrackPath(), top);
}

T ReadSchema(pbt::Src& s, const std::string& text, const std::string& top) {
  const Source src(text);
  s.Check(src.error.empty(), "not-source-code", [&] { return src.error + "\n" + text; });
  s.Eq(top, src.top_name, "top-name");
  return src.top;
}

struct Expected {
  bool refused = false;
  T type;
  Reference ref;
};

Expected Reason(std::vector<J> records) {
  Expected e;
  for (J& v : records) DropRepeated(v);
  try {
    e.type = e.ref.Infer(records, "Schema");
    if (!e.type) e.refused = true;
  } catch (const Refused&) {
    e.refused = true;
  }
  return e;
}

size_t Types(const T& t) {
  size_t n = 1;
  if (t->element) n += Types(t->element);
  for (const auto& f : t->fields) n += Types(f.second);
  return n;
}
bool AnyOptional(const T& t) {
  if (t->optional || (t->element && AnyOptional(t->element))) return true;
  for (const auto& f : t->fields) {
    if (AnyOptional(f.second)) return true;
  }
  return false;
}

void Describe(pbt::Src& s, const std::vector<J>& records) {
  std::string r;
  for (const J& v : records) r += mj::Print(v) + "\n";
  s.Note("records:\n" + r);
}

}  // namespace

PBT_PROP(inference, o.weight = 6) {
  Generator g(s, false);
  const auto records = g.Records();
  if (s.Describing()) Describe(s, records);
  const std::string top = s.OneOf(std::vector<std::string>{"Schema", "Schema", "A", "T_"});
  const auto e = Reason(records);
  const std::string fn = Save(s, "a", Lines(s, records));
  const Result r = Try([&] { return Infer(fn, top); });
  if (e.refused) {
    s.Label("refused");
    s.Check(r.refused, "accepted", [&] { return r.text; });
  } else {
    s.Check(!r.refused, "refused");
    const T t = ReadSchema(s, r.text, top);
    for (const J& v : records) {
      const std::string why = Accepts(t, v, "");
      s.Check(why.empty(), "record-not-accepted", [&] { return why + "\n" + r.text; });
    }
    s.Eq(e.type->Show(), t->Show(), "type");
    if (records.size() > 1 && Types(t) > 2 && AnyOptional(t)) s.NonTrivial(pbt::Hash(r.text));
  }
  if (e.refused && records.size() > 1) s.NonTrivial(pbt::Hash(mj::Print(records[0])));
  // In any other order.
  std::vector<J> shuffled = records;
  for (size_t i = shuffled.size(); i > 1; --i) std::swap(shuffled[i - 1], shuffled[s.Draw(i - 1)]);
  const Result r2 = Try([&] { return Infer(Save(s, "b", Lines(s, shuffled)), top); });
  s.Eq(r.refused, r2.refused, "refused-in-another-order");
  if (!r.refused) s.Eq(e.type->Show(), ReadSchema(s, r2.text, top)->Show(), "type-in-another-order");
  // The same record again changes nothing.
  if (!r.refused) {
    std::vector<J> again = records;
    again.push_back(records[s.Draw(records.size() - 1)]);
    s.Eq(r.text, Infer(Save(s, "c", Lines(s, again)), top), "record-again");
  }
}

PBT_PROP(ignored_paths, o.weight = 3) {
  Generator g(s, false);
  auto records = g.Records();
  // The paths of the members to ignore.
  std::vector<std::string> all;
  struct Walk {
    static void Paths(const J& v, const std::string& path, std::vector<std::string>& all) {
      for (size_t i = 0; i < v.a.size(); ++i) Paths(v.a[i], path + "[" + std::to_string(i) + "]", all);
      for (const auto& f : v.o) {
        const std::string p = path + "." + f.first;
        all.push_back(p);
        Paths(f.second, p, all);
      }
    }
    static void Remove(J& v, const std::string& path, const std::set<std::string>& what) {
      for (size_t i = 0; i < v.a.size(); ++i) Remove(v.a[i], path + "[" + std::to_string(i) + "]", what);
      std::vector<std::pair<std::string, J>> o;
      for (auto& f : v.o) {
        const std::string p = path + "." + f.first;
        if (what.count(p)) continue;
        o.push_back(std::move(f));
        Remove(o.back().second, p, what);
      }
      v.o = std::move(o);
    }
  };
  for (const J& v : records) Walk::Paths(v, "", all);
  std::vector<std::string> usable;
  for (const auto& p : all) {
    if (p.find_first_of(":;, \t\n") == std::string::npos && p.back() != '.') usable.push_back(p);
  }
  std::set<std::string> what;
  if (!usable.empty()) {
    for (size_t i = s.Size(1, 3); i; --i) what.insert(s.OneOf(usable));
  }
  if (s.Chance(1, 3)) what.insert(".nothing_like_that");
  std::string list;
  for (const auto& p : what) {
    if (!list.empty()) list += s.Pick({",", ";", ":", " ", "\t", "\n", ", "});
    list += p;
  }
  if (s.Describing()) {
    Describe(s, records);
    s.Note("ignoring " + pbt::Esc(list));
  }
  const utils::TrackPathIgnoreList ignore(list);
  const std::string fn = Save(s, "a", Lines(s, records));
  const Result r = Try([&] { return utils::JSONSchemaAsCurrentStructs(fn, utils::TrackPath(ignore)); });
  const Result all_tracked = Try([&] { return utils::JSONSchemaAsCurrentStructs(fn, utils::TrackPath()); });
  const Result not_tracked = Try([&] { return Infer(fn, "Schema"); });
  s.Eq(not_tracked.refused, all_tracked.refused, "tracking-refused");
  s.Eq(not_tracked.text, all_tracked.text, "tracking");
  for (J& v : records) Walk::Remove(v, "", what);
  const auto e = Reason(records);
  s.Eq(e.refused, r.refused, "refused");
  if (!r.refused) s.Eq(e.type->Show(), ReadSchema(s, r.text, "Schema")->Show(), "type");
  if (!r.refused && !what.empty() && r.text != not_tracked.text) s.NonTrivial(pbt::Hash(r.text + list));
}

PBT_PROP(report, o.weight = 3) {
  Generator g(s, false);
  const auto records = g.Records();
  if (s.Describing()) Describe(s, records);
  const auto e = Reason(records);
  const std::string fn = Save(s, "a", Lines(s, records));
  const size_t examples = s.Size(1, 20);
  const Result r = Try([&] { return utils::DescribeSchema(fn, utils::DoNotTrackPath(), examples); });
  const bool nothing_but_nulls = e.refused && e.ref.stats.count("Schema");
  if (e.refused && !nothing_but_nulls) {
    s.Check(r.refused, "accepted", [&] { return r.text; });
    return;
  }
  s.Check(!r.refused, "refused");
  std::istringstream is(r.text);
  std::string line;
  std::getline(is, line);
  s.Eq(std::string("Field\tType\tSet\tUnset/Null\tValues\tDetails"), line, "header");
  std::set<std::string> seen;
  while (std::getline(is, line)) {
    std::vector<std::string> c(1);
    for (const char ch : line) {
      if (ch == '\t') {
        c.emplace_back();
      } else {
        c.back() += ch;
      }
    }
    s.Check(c.size() >= 3, "columns", [&] { return line; });
    s.Check(seen.insert(c[0]).second, "path-again", [&] { return line; });
    const auto cit = e.ref.stats.find(c[0]);
    s.Check(cit != e.ref.stats.end(), "no-such-path", [&] { return line; });
    const Stats& st = cit->second;
    if (!st.set) {
      s.Eq(std::string("Null"), c[1], "kind");
      if (!st.missing) s.Eq(std::to_string(st.nulls), c[2], "nulls");
      continue;
    }
    s.Eq(st.kind, c[1], "kind");
    s.Check(c.size() >= 4, "columns", [&] { return line; });
    s.Eq(std::to_string(st.set), c[2], "set");
    if (!st.missing) {
      s.Eq(std::to_string(st.nulls), c[3], "unset");
    } else {
      s.Check(atoll(c[3].c_str()) > (long long)st.nulls && atoll(c[3].c_str()) <= (long long)(st.nulls + st.missing), "unset-or-missing", [&] { return line; });
    }
    if (st.kind == "Bool") s.Eq(std::to_string(st.no) + " false, " + std::to_string(st.yes) + " true", c.at(4), "bools");
    if (st.kind == "Object") {
      s.Eq(st.fields == 0 ? std::string("empty object") : st.fields == 1 ? std::string("1 field") : std::to_string(st.fields) + " fields", c.at(4), "fields");
    }
    if (st.kind == "String") {
      const std::string values = c.at(4);
      const std::string start = st.strings.size() == 1 ? "1 distinct value" : std::to_string(st.strings.size()) + " distinct values";
      s.Check(values.compare(0, start.size(), start) == 0, "distinct", [&] { return line; });
      // The examples, the most common ones first.
      std::string rest = values.substr(start.size());
      size_t n = 0, previous = size_t(-1);
      std::set<std::string> distinct;
      while (!rest.empty()) {
        s.Check(rest.compare(0, 2, ", ") == 0, "examples", [&] { return line; });
        mj::Parser p(rest);
        p.p = 2;
        std::string v;
        s.Check(p.String(v) && p.p < rest.size() && rest[p.p] == ':', "examples", [&] { return line; });
        size_t q = p.p + 1, count = 0;
        while (q < rest.size() && isdigit(static_cast<unsigned char>(rest[q]))) count = count * 10 + size_t(rest[q++] - '0');
        const auto it = st.strings.find(v);
        s.Check(it != st.strings.end() && it->second == count && count <= previous && distinct.insert(v).second, "example", [&] { return line; });
        previous = count;
        ++n;
        rest = rest.substr(q);
      }
      s.Eq(std::min(examples, st.strings.size()), n, "number-of-examples");
      if (previous != size_t(-1)) {
        for (const auto& x : st.strings) s.Check(distinct.count(x.first) || x.second <= previous, "not-the-most-common", [&] { return line; });
      }
    }
    if (st.kind == "Integer" || st.kind == "Double") {
      const double mean = double(st.sum / st.set);
      s.Check(c.at(4).compare(0, 5, "Mean ") == 0, "mean", [&] { return line; });
      if (st.sum_abs < 1e18) s.Check(std::fabs(atof(c[4].c_str() + 5) - mean) <= 1e-5 * std::fabs(mean) + 1e-12 * double(st.sum_abs) + 1e-9, "mean", [&] { return line; });
    }
  }
  for (const auto& x : e.ref.stats) s.Check(seen.count(x.first), "path-missing", [&] { return x.first + "\n" + r.text; });
  if (seen.size() > 3 && records.size() > 1) s.NonTrivial(pbt::Hash(r.text));
}

PBT_PROP(not_json, o.weight = 1) {
  Generator g(s, false);
  const auto records = g.Records();
  std::string text = Lines(s, records);
  for (size_t i = s.Size(1, 3); i && !text.empty(); --i) {
    const size_t p = s.Draw(text.size() - 1);
    switch (s.Draw(2)) {
      case 0: text.erase(p, 1); break;
      case 1: text.insert(p, 1, "{}[]\",:0an\n"[s.Draw(10)]); break;
      default: text[p] = char(32 + s.Draw(94)); break;
    }
  }
  s.Note(text);
  // Each line is a value, or the file is refused.
  bool good = true;
  std::vector<J> lines;
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    mj::Parser p(line);
    J v;
    good = good && p.Value(v, 0);
    p.Ws();
    good = good && p.p == line.size();
    struct Huge {
      static bool In(const J& v) {
        if (v.kind == J::Num && std::isinf(strtod(v.s.c_str(), nullptr))) return true;
        for (const J& e : v.a) if (In(e)) return true;
        for (const auto& f : v.o) if (In(f.second)) return true;
        return false;
      }
    };
    if (p.odd_escape || Huge::In(v)) s.Discard();  // Not to be judged here.
    lines.push_back(v);
  }
  const Result r = Try([&] { return Infer(Save(s, "a", text), "Schema"); });
  if (!good) {
    s.Check(r.refused, "accepted", [&] { return r.text; });
    s.NonTrivial(pbt::Hash(text));
  } else {
    const auto e = Reason(lines);
    s.Eq(e.refused, r.refused, "refused");
    if (!r.refused) s.Eq(e.type->Show(), ReadSchema(s, r.text, "Schema")->Show(), "type");
  }
}

PBT_PROBE(missing_counts, "the report counts each object a field is missing from") {
  const std::string fn = Save(s, "a", "{\"a\":1}\n{\"a\":2}\n{\"a\":3}\n{\"b\":1}\n");
  const std::string text = utils::DescribeSchema(fn);
  s.Check(text.find("Schema.b\tInteger\t1\t3\t") != std::string::npos, "unset", [&] { return text; });
}
