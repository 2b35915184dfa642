// P32: the compact tabular encoding restores every row.
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "pbt.h"

// The limits are guarded by assertions, make them observable.
struct AssertionFailed : std::runtime_error {
  using std::runtime_error::runtime_error;
};
#define CURRENT_ASSERT(expr) ((expr) ? static_cast<void>(0) : throw AssertionFailed(#expr))

#include "port.h"
#include "bricks/strings/chunk.h"
#include "compact_tsv/compact_tsv.h"

PBT_CHECK("P32", "exploration",
          "A case is a table of one to 254 columns with up to forty rows, cells of arbitrary bytes from a pool with many "
          "repetitions, empty and of up to 65535 bytes, packed and unpacked in each of the four forms a row can be taken in; "
          "or a row beyond the limits. Non-trivial: at least two rows and two different cells.");

namespace {

using Row = std::vector<std::string>;

std::string Cell(pbt::Src& s) {
  switch (s.Weighted({6, 3, 2, 1, 1})) {
    case 0:
      return s.Ascii(8);
    case 1:
      return s.Bytes(12);
    case 2:
      return std::string(s.Size(0, 3), '\0');
    case 3:
      return std::string(s.Size(200, 300), char(s.Draw(255)));
    default:
      return std::string(s.OneOf(std::vector<size_t>{65535, 65534, 32768, 4096}), char('a' + s.Draw(3))) ;
  }
}

struct Table {
  size_t dim;
  std::vector<Row> rows;
};

Table Generate(pbt::Src& s) {
  Table t;
  t.dim = s.Weighted({8, 1, 1}) ? s.OneOf(std::vector<size_t>{254, 253, 128, 127, 129, 200}) : s.Size(1, 6);
  std::vector<std::string> pool;
  for (size_t i = s.Size(1, 8); i; --i) pool.push_back(Cell(s));
  const size_t n = s.Len(t.dim > 10 ? 6 : 40);
  // Wide rows are made of few choices: the cells which differ from the previous row.
  Row row(t.dim);
  for (size_t i = 0; i < n; ++i) {
    if (t.dim <= 6) {
      for (auto& c : row) c = pool[s.Draw(pool.size() - 1)];
    } else {
      if (i == 0) {
        for (size_t k = 0; k < t.dim; ++k) row[k] = pool[k % pool.size()];
      }
      for (size_t k = s.Draw(8); k; --k) row[s.Draw(t.dim - 1)] = pool[s.Draw(pool.size() - 1)];
    }
    if (s.Describing()) {
      std::string d;
      for (size_t k = 0; k < row.size() && k < 6; ++k) d += " " + (row[k].size() < 30 ? pbt::Esc(row[k]) : std::to_string(row[k].size()) + " bytes");
      s.Note("row of " + std::to_string(t.dim) + ":" + d);
    }
    t.rows.push_back(row);
  }
  return t;
}

void Same(pbt::Src& s, const std::vector<Row>& expected, const std::vector<Row>& actual, size_t total, const char* tag) {
  s.Eq(expected.size(), total, "the number of rows returned");
  s.Eq(expected.size(), actual.size(), "the number of rows unpacked");
  for (size_t i = 0; i < expected.size(); ++i) {
    if (expected[i] != actual[i]) {
      std::string what = "row " + std::to_string(i);
      for (size_t k = 0; k < expected[i].size() && k < actual[i].size(); ++k) {
        if (expected[i][k] != actual[i][k]) {
          what += ", cell " + std::to_string(k) + ": expected " + pbt::Esc(expected[i][k].substr(0, 60)) + ", actual " +
                  pbt::Esc(actual[i][k].substr(0, 60));
          break;
        }
      }
      s.Fail(tag, what);
    }
  }
}

}  // namespace

PBT_PROP(round_trip, o.weight = 6) {
  const Table t = Generate(s);
  const bool declared = s.Bool();
  CompactTSV tsv(declared ? t.dim : 0);
  for (const auto& r : t.rows) tsv(r);
  tsv.Finalize();
  // Exactly as many bytes as needed: no reading past the end goes unnoticed.
  const std::vector<uint8_t> packed(tsv.GetPackedString().begin(), tsv.GetPackedString().end());
  std::vector<Row> got;
  size_t total;
  if (!packed.empty()) {
    total = CompactTSV::Unpack([&](const std::vector<std::string>& row) { got.push_back(row); }, packed);
    Same(s, t.rows, got, total, "the rows as strings");

    got.clear();
    total = CompactTSV::Unpack(
        [&](const std::vector<std::pair<const char*, size_t>>& row) {
          Row r;
          for (const auto& c : row) {
            r.emplace_back(c.first, c.second);
            if (c.first[c.second] != '\0') s.Fail("a cell is not followed by a zero byte", "");
          }
          got.push_back(r);
        },
        packed.data(), packed.size());
    Same(s, t.rows, got, total, "the rows as pointers with lengths");

    got.clear();
    total = CompactTSV::Unpack(
        [&](const std::vector<const char*>& row) {
          Row r;
          for (const auto& c : row) r.emplace_back(c);
          got.push_back(r);
        },
        packed);
    std::vector<Row> cut = t.rows;
    for (auto& r : cut) {
      for (auto& c : r) c = c.c_str();
    }
    Same(s, cut, got, total, "the rows as pointers");

    got.clear();
    total = CompactTSV::Unpack(
        [&](const std::vector<current::strings::UniqueChunk>& row) {
          Row r;
          for (const auto& c : row) r.emplace_back(c.c_str(), c.length());
          got.push_back(r);
        },
        tsv.GetPackedString());
    Same(s, t.rows, got, total, "the rows as chunks");
  } else {
    s.Eq(size_t(0), t.rows.size(), "the rows packed into nothing");
    total = CompactTSV::Unpack([&](const std::vector<std::string>& row) { got.push_back(row); }, tsv.GetPackedString());
    s.Eq(size_t(0), total, "the rows from nothing");
  }
  // It is compact: each distinct string is only stored once, each cell which did not change is not mentioned.
  std::set<std::string> distinct;
  size_t at_most = 0;
  for (size_t i = 0; i < t.rows.size(); ++i) {
    for (size_t k = 0; k < t.dim; ++k) {
      if (distinct.insert(t.rows[i][k]).second) at_most += 1 + 2 + t.rows[i][k].size() + 1;
      if (i == 0 || t.rows[i][k] != t.rows[i - 1][k]) at_most += 1 + 4;
    }
    ++at_most;
  }
  s.Check(packed.size() <= at_most, "the packed table is not compact");
  s.LabelIf(t.dim > 100, "wide");
  s.LabelIf(distinct.count(""), "empty cells");
  if (t.rows.size() >= 2 && distinct.size() >= 2) s.NonTrivial();
}

PBT_PROP(limits) {
  const auto refused = [&](auto f) {
    try {
      f();
      return false;
    } catch (const AssertionFailed&) {
      return true;
    }
  };
  const size_t dim = s.Size(250, 260);
  CompactTSV wide;
  s.Eq(dim > 254, refused([&] { wide(Row(dim, "x")); }), "a row too wide is refused, and no other");
  s.Eq(dim > 254, refused([&] { CompactTSV declared(dim); }), "a table declared too wide is refused, and no other");
  const size_t length = s.Size(65530, 65545);
  CompactTSV longer;
  s.Eq(length > 65535, refused([&] { longer(Row{"x", std::string(length, 'y')}); }), "a cell too long is refused, and no other");
  CompactTSV ragged;
  const size_t first = s.Size(1, 5);
  const size_t second = s.Size(1, 5);
  ragged(Row(first, "a"));
  s.Eq(first != second, refused([&] { ragged(Row(second, "b")); }), "a row of another width is refused, and no other");
  CompactTSV empty;
  s.Check(refused([&] { empty(Row()); }), "an empty row is refused");
  CompactTSV early;
  early(Row{"a"});
  s.Check(refused([&] { early.GetPackedString(); }), "an unfinished table is not given away");
  early.Finalize();
  s.Check(refused([&] { early(Row{"b"}); }), "a row past the end is refused");
  s.NonTrivial();
}
