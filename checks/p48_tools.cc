// P48: the command line tools compute what their descriptions say.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.h"
#include "minijson.h"

#include "typesystem/serialization/json.h"
#include "bricks/dflags/dflags.h"
#include "bricks/file/file.h"
#include "bricks/strings/printf.h"
#include "bricks/strings/split.h"
#include "bricks/strings/join.h"
#include "compact_tsv/compact_tsv.h"
#include "utils/operational_transformation/ot.h"

PBT_CHECK("P48", "exploration",
          "A case is an input and a set of flags for one of the tools: a table for tsv2json (columns of integers, of numbers, of "
          "texts, with missing values and short rows), a table to pack and to unpack by each of the tools, or a log of edits for "
          "the converter and for the history of an operational transformation. Each tool is run in a process of its own, and its "
          "output is compared with that of a reference. Non-trivial: a table of at least two rows and two columns, or a log of "
          "at least two edits.");

namespace {

struct Outcome {
  bool crashed = false;
  int code = 0;
  std::string out, err;
};

std::string Slurp(const std::string& f) {
  std::ifstream is(f, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
}
void Dump(const std::string& f, const std::string& text) { std::ofstream(f, std::ios::binary) << text; }

Outcome Run(pbt::Src& s, const std::string& input, const std::string& tool, std::vector<std::string> args = {}) {
  const std::string base = s.Scratch() + "/";
  Dump(base + "in", input);
  const pid_t pid = fork();
  if (!pid) {
    const int i = open((base + "in").c_str(), O_RDONLY), o = open((base + "out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644),
              e = open((base + "err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(i, 0);
    dup2(o, 1);
    dup2(e, 2);
    const std::string program = TOOLS "/" + tool;
    std::vector<char*> argv{const_cast<char*>(program.c_str())};
    for (auto& x : args) argv.push_back(const_cast<char*>(x.c_str()));
    argv.push_back(nullptr);
    execv(program.c_str(), argv.data());
    _exit(111);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  Outcome r;
  r.out = Slurp(base + "out");
  r.err = Slurp(base + "err");
  r.code = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
  r.crashed = !WIFEXITED(status) || r.err.find("Sanitizer") != std::string::npos;
  if (r.crashed) s.Fail("tool_crashed", r.err.substr(0, 600));
  return r;
}

// ---- tsv2json.

std::string Cell(pbt::Src& s, int kind) {
  switch (kind) {
    case 0: return s.Pick({"0", "1", "-1", "42", "-17", "9223372036854775807", "-9223372036854775808", "123456789012", "5", "7", "100"});
    case 1: return s.Pick({"0.5", "-1.25", "1e3", "2.5E-3", "3", "-4", "1e20", "0.0", "12345.678", "9223372036854775808", "-2e-5"});
    case 2: return s.Pick({"a", "foo bar", "x\"y", "back\\slash", "1a", "-", "+5", "0x10", "1.", ".5", "007", "nul", "true", "NaN", "\xd0\x9f", "\x01", "{}", "[1]", "1 2", "1_000"});
    default: return s.Pick({"null", "NA", "N/A", ""});
  }
}

bool IsJSONNumber(const std::string& x, bool* integer) {
  size_t i = 0;
  const auto digits = [&]() {
    const size_t b = i;
    while (i < x.size() && isdigit(static_cast<unsigned char>(x[i]))) ++i;
    return i - b;
  };
  *integer = true;
  if (i < x.size() && x[i] == '-') ++i;
  const size_t b = i, n = digits();
  if (!n || (n > 1 && x[b] == '0')) return false;
  if (i < x.size() && x[i] == '.') {
    *integer = false;
    ++i;
    if (!digits()) return false;
  }
  if (i < x.size() && (x[i] == 'e' || x[i] == 'E')) {
    *integer = false;
    ++i;
    if (i < x.size() && (x[i] == '-' || x[i] == '+')) ++i;
    if (!digits()) return false;
  }
  return i == x.size();
}

bool FitsInt64(const std::string& x) {
  errno = 0;
  strtoll(x.c_str(), nullptr, 10);
  return errno == 0;
}

std::string Column(size_t i) {
  std::string r;
  for (++i; i; i = (i - 1) / 26) r = char('A' + (i - 1) % 26) + r;
  return r;
}

std::string Identifier(const std::string& x) {
  if (x.empty()) return "_";
  std::string r;
  for (const unsigned char c : x) {
    if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) {
      r += char(c);
    } else {
      char b[8];
      snprintf(b, sizeof(b), "x%02X", c);
      r += b;
    }
  }
  return isdigit(static_cast<unsigned char>(r[0])) ? "_" + r : r;
}

PBT_PROP(tsv2json, o.weight = 6) {
  const bool header = s.Bool();
  const bool dense = s.Chance(2, 3);
  const std::string separators = s.Pick({"\t", ",", ";", ",;"});
  const bool other_na = s.Chance(1, 4);
  const std::string na = other_na ? s.Pick({"null,foo bar", "-", "0,a", "NaN,1"}) : "null:NA:N/A:";
  const std::string na_separators = other_na ? "," : ":";
  std::set<std::string> na_values;
  {
    std::string t;
    for (const char c : na + na_separators) {
      if (na_separators.find(c) != std::string::npos) {
        na_values.insert(t);
        t.clear();
      } else {
        t += c;
      }
    }
  }
  const size_t columns = s.Chance(1, 12) ? s.Size(20, 80) : s.Size(1, 5);
  const size_t rows = s.Len(7);
  std::vector<int> kinds(columns);
  for (auto& k : kinds) k = int(s.Draw(2));
  const auto clean = [&](std::string x) {
    for (auto& c : x) {
      if (separators.find(c) != std::string::npos || c == '\n') c = '.';
    }
    return x;
  };
  std::vector<std::vector<std::string>> table;
  std::vector<std::string> names;
  if (header) {
    for (size_t j = 0; j < columns; ++j) names.push_back(clean(s.Pick({"a", "b", "some name", "X", "X", "1st", "_", "", "\xc3\xa9", "x-y", "z9"})));
    if (columns == 1 && names[0].empty()) names[0] = "a";
  }
  bool ragged = false;
  for (size_t i = 0; i < rows; ++i) {
    size_t n = columns;
    if (s.Chance(1, dense ? 20 : 4)) n = s.Size(1, columns + 1);
    if (n != columns) ragged = true;
    std::vector<std::string> row;
    for (size_t j = 0; j < n; ++j) {
      int k = j < columns ? kinds[j] : 0;
      if (s.Chance(1, 6)) k = 3;
      else if (s.Chance(1, 12)) k = int(s.Draw(2));
      row.push_back(clean(Cell(s, k)));
    }
    if (row.size() == 1 && row[0].empty()) row[0] = "null";  // An empty line is no row.
    table.push_back(row);
  }
  std::string input;
  const auto line = [&](const std::vector<std::string>& r) {
    for (size_t j = 0; j < r.size(); ++j) input += (j ? std::string(1, separators[s.Draw(separators.size() - 1)]) : std::string()) + r[j];
    input += '\n';
  };
  if (header) line(names);
  for (const auto& r : table) {
    if (s.Chance(1, 15)) input += '\n';
    line(r);
  }
  s.Note("flags: header=" + std::to_string(header) + " dense=" + std::to_string(dense) + " na=" + pbt::Esc(na) + "\n" + pbt::Esc(input));

  // The reference.
  bool refused = false;
  size_t total = header ? columns : 0;
  for (const auto& r : table) {
    if (dense && total && r.size() != total) refused = true;
    total = std::max(total, r.size());
  }
  std::vector<std::string> keys;
  std::map<std::string, size_t> seen;
  for (const auto& n : names) {
    std::string k = Identifier(n);
    const size_t c = ++seen[k];
    keys.push_back(c > 1 ? k + std::to_string(c) : k);
  }
  while (keys.size() < total) keys.push_back(Column(keys.size()));
  std::vector<int> type(total, 0);  // 0: integers, 1: numbers, 2: texts.
  for (const auto& r : table) {
    for (size_t j = 0; j < r.size(); ++j) {
      if (na_values.count(r[j])) continue;
      bool integer;
      if (!IsJSONNumber(r[j], &integer)) type[j] = 2;
      else if (!integer || !FitsInt64(r[j])) type[j] = std::max(type[j], 1);
    }
  }
  mj::J expected = mj::J::A();
  for (const auto& r : table) {
    mj::J row = mj::J::O();
    for (size_t j = 0; j < r.size(); ++j) {
      mj::J v;
      if (!na_values.count(r[j])) v = type[j] == 2 ? mj::J::S(r[j]) : mj::J::Number(r[j]);
      row.o.emplace_back(keys[j], v);
    }
    expected.a.push_back(row);
  }

  std::vector<std::string> args;
  if (header) args.push_back("--header");
  if (separators != "\t") args.push_back("--separator=" + separators);
  if (!dense) args.push_back("--require_dense=false");
  if (other_na) {
    args.push_back("--na=" + na);
    args.push_back("--na_separators=" + na_separators);
  }
  const Outcome r = Run(s, input, "tsv2json", args);
  if (rows >= 2 && columns >= 2) s.NonTrivial();
  s.LabelIf(refused, "refused");
  s.LabelIf(ragged && !refused, "short rows");
  if (refused) {
    s.Check(r.code != 0, "ragged_table_accepted", [&] { return r.out; });
    return;
  }
  s.Check(r.code == 0, "table_refused", [&] { return r.err; });
  mj::J actual;
  s.Check(mj::Parse(r.out, actual), "not_json", [&] { return r.out; });
  s.Check(expected == actual, "wrong_json", [&] { return "expected: " + mj::Print(expected) + "\nactual:   " + r.out; });
  // The columns of integers are written as integers.
  for (const auto& row : actual.a) {
    for (size_t j = 0; j < row.o.size(); ++j) {
      if (row.o[j].second.kind == mj::J::Num) s.Check(row.o[j].second.IsInteger() == (type[j] == 0), "kind_of_number", [&] { return r.out; });
    }
  }
}

// ---- Compact TSV.

PBT_PROP(compact_tsv, o.weight = 2) {
  const size_t columns = s.Size(1, 6), rows = s.Size(1, 1 + s.Len(12));
  std::vector<std::vector<std::string>> table(rows, std::vector<std::string>(columns));
  std::string text;
  for (auto& r : table) {
    for (size_t j = 0; j < columns; ++j) {
      r[j] = s.Chance(1, 4) ? s.Bytes(6) : s.Pick({"a", "b", "", "same", "x y"});
      for (auto& c : r[j]) {
        if (c == '\n' || c == '\t') c = ' ';
      }
      if (columns == 1 && r[j].empty()) r[j] = "-";
      text += (j ? "\t" : "") + r[j];
    }
    text += '\n';
  }
  s.Note(pbt::Esc(text));
  if (rows >= 2 && columns >= 2) s.NonTrivial();
  const Outcome packed = Run(s, text, "pack");
  s.Check(packed.code == 0, "pack_failed", [&] { return packed.err; });
  const std::string file = s.Scratch() + "/packed";
  Dump(file, packed.out);
  const Outcome a = Run(s, "", "unpack", {"--input=" + file});
  s.Check(a.code == 0 && a.out == text, "unpacked_differs", [&] { return pbt::Esc(a.out) + "\nexpected: " + pbt::Esc(text) + a.err; });
  const Outcome b = Run(s, "", "unpack_fast", {"--input=" + file});
  s.Check(b.code == 0 && b.out == text, "fast_unpacked_differs", [&] { return pbt::Esc(b.out) + "\nexpected: " + pbt::Esc(text) + b.err; });
  const Outcome c = Run(s, "", "unpack_peek", {"--input=" + file});
  s.Check(c.code == 0 && c.err == std::to_string(rows) + "\n", "rows_miscounted", [&] { return c.err; });
}

// ---- Operational transformation.

PBT_PROP(ot, o.weight = 3) {
  const size_t edits = s.Size(1, 1 + s.Len(8));
  std::vector<std::string> text;  // Characters.
  std::string log = "{";
  std::vector<std::pair<uint64_t, std::string>> snapshots;
  uint64_t t = 1480000000000ull + s.Draw(1000000000);
  for (size_t i = 0; i < edits; ++i) {
    t += s.Draw(4) ? s.Draw(7000) : s.Draw(600000);
    log += (i ? ",\"" : "\"") + std::to_string(i) + "\":{\"t\":" + std::to_string(t) + ",\"o\":[";
    size_t caret = 0;
    const size_t ops = s.Size(1, 3);
    for (size_t k = 0; k < ops; ++k) {
      if (k) log += ',';
      const size_t left = text.size() - caret;
      switch (left ? s.Draw(2) : 0) {
        case 0: {
          log += '"';
          const size_t n = s.Size(1, 3);
          for (size_t q = 0; q < n; ++q) {
            const std::string c = s.Pick({"a", "b", "Z", " ", "\n", "\xd0\x9f", "\xe4\xb8\xad", "\xf0\x9f\x98\x80"});
            log += c == "\n" ? "\\n" : c;
            text.insert(text.begin() + caret++, c);
          }
          log += '"';
          break;
        }
        case 1: {
          const size_t n = s.Size(1, left);
          caret += n;
          log += std::to_string(n);
          break;
        }
        default: {
          const size_t n = s.Size(1, left);
          text.erase(text.begin() + caret, text.begin() + caret + n);
          log += "-" + std::to_string(n);
        }
      }
    }
    log += "]}";
    std::string all;
    for (const auto& c : text) all += c;
    snapshots.emplace_back(t, all);
  }
  log += "}";
  const std::string file = s.Scratch() + "/log";
  Dump(file, log);
  s.Note(log);
  if (edits >= 2) s.NonTrivial();
  // The converter: into a file, or into the standard output.
  const bool to_file = s.Bool();
  const std::string output = s.Scratch() + "/text";
  const Outcome a = Run(s, "", "convert", {"--input=" + file, "--output=" + (to_file ? output : std::string())});
  s.Check(a.code == 0, "convert_failed", [&] { return a.err; });
  s.Eq(pbt::Esc(snapshots.back().second), pbt::Esc(to_file ? Slurp(output) : a.out), "converted_text");
  // The history.
  const int64_t at = s.Chance(1, 2) ? s.Int(1, 20) * 15000 : 0;  // Milliseconds; exact as minutes.
  const int64_t interval = s.Chance(1, 2) ? 5000 : s.Int(1, 40) * 500;
  std::vector<std::string> args{"--input=" + file};
  if (at) args.push_back("--at_m=" + std::to_string(at / 60000.0));
  if (interval != 5000) args.push_back("--interval_s=" + std::to_string(interval / 1000.0));
  const Outcome b = Run(s, "", "history", args);
  s.Check(b.code == 0, "history_failed", [&] { return b.err; });
  const uint64_t t0 = snapshots[0].first;
  const auto block = [](const std::string& x) { return "```\n" + x + (x.empty() || x.back() != '\n' ? "\n" : "") + "```\n"; };
  const auto human = [](uint64_t ms) { return current::strings::TimeIntervalAsHumanReadableString(std::chrono::microseconds(ms * 1000)); };
  std::string expected;
  bool early = false;
  uint64_t marker = 0;
  for (const auto& x : snapshots) {
    if (at) {
      if (int64_t(x.first - t0) >= at) {
        expected += "### " + human(x.first - t0) + " into the code\n" + block(x.second);
        early = true;
        break;
      }
    } else if (int64_t(x.first - marker) >= interval) {
      marker = x.first;
      expected += "### " + human(x.first - t0) + " into the code\n" + block(x.second);
    }
  }
  if (!early) expected += "### Result after the total of " + human(t - t0) + " of coding\n" + block(snapshots.back().second);
  // Past the title with the absolute time.
  size_t p = b.out.find('\n');
  s.Check(b.out.compare(0, 8, "### Pad\n") == 0, "no_title", [&] { return b.out; });
  p = b.out.find('\n', p + 1);
  s.Eq(pbt::Esc(expected), pbt::Esc(b.out.substr(p + 1)), "history");
  s.LabelIf(early, "at a moment");
}

}  // namespace
