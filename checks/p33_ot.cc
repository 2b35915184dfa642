// P33: replaying an operational-transformation log gives the edited text.
#include <deque>
#include <stdexcept>
#include <string>
#include <vector>

#include "pbt.h"

#include "utils/operational_transformation/ot.h"

PBT_CHECK("P33", "exploration",
          "A case is a history of up to twelve edits of a document with text of one to four bytes per character, each of them a "
          "list of insertions, skips and deletions anywhere in the document, stopped early or not; or such a history with "
          "one thing broken, and arbitrary JSON. Non-trivial: at least two edits with a deletion among them, or a history "
          "which is broken.");

namespace {

using current::utils::ot::AsUTF8String;
using current::utils::ot::OT;
using current::utils::ot::OTParseException;

// Characters: each a separate UTF-8 string.
std::vector<std::string> Text(pbt::Src& s, size_t max) {
  std::vector<std::string> r(s.Size(1, 1 + s.Len(max)));
  for (auto& c : r) {
    c = s.Pick({"a", "b", "Z", " ", "\n", "\"", "\\", "\t", "0", "/", "\x7f", "\xc3\xa9", "\xd0\x9f", "\xdf\xbf", "\xe2\x82\xac", "\xe4\xb8\xad",
                "\xef\xbf\xbd", "\xed\x9f\xbf", "\xf0\x9f\x98\x80", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xe0\xa0\x80", "\x01"});
  }
  return r;
}

std::string Join(const std::vector<std::string>& v) {
  std::string r;
  for (const auto& c : v) r += c;
  return r;
}

std::string Quote(pbt::Src& s, const std::vector<std::string>& v) {
  std::string r = "\"";
  for (const auto& c : v) {
    const unsigned char u = static_cast<unsigned char>(c[0]);
    if (c == "\"" || c == "\\") {
      r += "\\" + c;
    } else if (u < 0x20) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\u%04x", u);
      r += buf;
    } else if (c == "\xf0\x9f\x98\x80" && s.Bool()) {
      r += "\\ud83d\\ude00";
    } else if (c == "\xd0\x9f" && s.Bool()) {
      r += "\\u041f";
    } else {
      r += c;
    }
  }
  return r + "\"";
}

struct Edit {
  uint64_t t;
  std::vector<std::string> ops;  // As JSON.
};

struct History {
  std::vector<Edit> edits;
  std::vector<std::string> snapshots;  // The text after each of the edits.
  size_t deleted = 0;
};

std::string Render(const History& h) {
  std::string r = "{";
  for (size_t i = 0; i < h.edits.size(); ++i) {
    if (i) r += ",";
    r += "\"A" + std::to_string(i) + "\":{\"o\":[";
    for (size_t k = 0; k < h.edits[i].ops.size(); ++k) r += (k ? "," : "") + h.edits[i].ops[k];
    r += "],\"t\":" + std::to_string(h.edits[i].t) + "}";
  }
  return r + "}";
}

History Generate(pbt::Src& s, size_t max_edits) {
  History h;
  std::vector<std::string> doc;
  uint64_t t = 1478829463041ull;
  for (size_t n = s.Len(max_edits); n; --n) {
    Edit e;
    t += s.Draw(5000);
    e.t = t;
    std::vector<std::string> next;
    size_t at = 0;  // In `doc`.
    for (size_t k = s.Len(6); k; --k) {
      switch (s.Weighted({3, 3, 2})) {
        case 0: {
          const auto text = s.Chance(1, 10) ? std::vector<std::string>() : Text(s, 10);
          e.ops.push_back(Quote(s, text));
          next.insert(next.end(), text.begin(), text.end());
          break;
        }
        case 1: {
          if (at == doc.size()) break;
          const size_t skip = s.Chance(1, 3) ? doc.size() - at : s.Size(1, doc.size() - at);
          e.ops.push_back(std::to_string(skip));
          next.insert(next.end(), doc.begin() + at, doc.begin() + at + skip);
          at += skip;
          break;
        }
        default: {
          const size_t cut = s.Chance(1, 5) ? 0 : s.Chance(1, 4) ? doc.size() - at : s.Size(0, std::min<size_t>(doc.size() - at, 4));
          e.ops.push_back(cut ? "-" + std::to_string(cut) : "0");
          at += cut;
          h.deleted += cut;
          break;
        }
      }
    }
    // What is not mentioned stays.
    next.insert(next.end(), doc.begin() + at, doc.end());
    doc = next;
    h.edits.push_back(e);
    h.snapshots.push_back(Join(doc));
  }
  return h;
}

struct Recorder {
  size_t stop_after;
  std::vector<std::string>& snapshots;
  std::vector<int64_t>& times;
  bool ProcessSnapshot(std::chrono::microseconds t, const std::deque<wchar_t>& rope) {
    times.push_back(t.count());
    snapshots.push_back(AsUTF8String(rope));
    return snapshots.size() < stop_after;
  }
  std::string GenerateOutput(const std::deque<wchar_t>& rope, bool early) { return (early ? "early:" : "done:") + AsUTF8String(rope); }
};

}  // namespace

PBT_PROP(replay, o.weight = 4) {
  const History h = Generate(s, 12);
  const std::string json = Render(h);
  if (s.Describing()) s.Note(json);
  const std::string expected = h.snapshots.empty() ? "" : h.snapshots.back();
  s.Eq(expected, OT(json), "the text");
  std::vector<std::string> snapshots;
  std::vector<int64_t> times;
  const size_t stop = s.Bool() ? 1000 : s.Size(1, 13);
  const std::string output = OT(json, Recorder{stop, snapshots, times});
  const size_t n = std::min(stop, h.edits.size());
  s.Eq(n, snapshots.size(), "the number of snapshots");
  for (size_t i = 0; i < n; ++i) {
    s.Eq(h.snapshots[i], snapshots[i], "a snapshot");
    s.Eq(int64_t(h.edits[i].t * 1000), times[i], "the time of a snapshot");
  }
  s.Eq(stop <= h.edits.size() ? "early:" + h.snapshots[stop - 1] : "done:" + expected, output, "the output");
  s.LabelIf(stop <= h.edits.size(), "stopped early");
  if (h.edits.size() >= 2 && h.deleted) s.NonTrivial();
}

PBT_PROP(broken, o.weight = 3) {
  History h = Generate(s, 6);
  const uint64_t t = 1;
  const size_t length = [&] {
    size_t n = 0;
    if (!h.snapshots.empty()) {
      for (unsigned char c : h.snapshots.back()) n += (c & 0xc0) != 0x80;
    }
    return n;
  }();
  std::string json;
  const auto with_op = [&](const std::string& op) {
    h.edits.push_back(Edit{t, {op}});
    return Render(h);
  };
  const auto with_edit = [&](const std::string& edit) {
    std::string r = Render(h);
    r.resize(r.size() - 1);
    return r + (h.edits.empty() ? "" : ",") + "\"X\":" + edit + "}";
  };
  switch (s.Draw(7)) {
    case 0:
      json = with_op(std::to_string(length + s.Size(1, 5)));
      break;
    case 1:
      json = with_op("-" + std::to_string(length + s.Size(1, 5)));
      break;
    case 2:
      json = with_op(s.Pick({"2147483647", "-2147483648", "-2147483647", "2147483648", "-2147483649", "1e20", "1.5", "-0.5", "18446744073709551615"}));
      break;
    case 3:
      json = with_op(s.Pick({"null", "true", "[]", "{}", "[1]", "{\"a\":1}"}));
      break;
    case 4:
      json = with_edit(s.Pick({"null", "5", "[]", "\"s\"", "{}", "{\"t\":1}", "{\"o\":[]}", "{\"t\":\"1\",\"o\":[]}", "{\"t\":-1,\"o\":[]}", "{\"t\":1.5,\"o\":[]}",
                               "{\"t\":1,\"o\":{}}", "{\"t\":1,\"o\":\"a\"}", "{\"t\":1,\"o\":null}", "{\"t\":null,\"o\":[]}", "{\"T\":1,\"O\":[]}"}));
      break;
    case 5:
      json = s.Pick({"", "[]", "null", "5", "\"a\"", "[{}]", "true", " ", "{", "}"});
      break;
    case 6: {
      const std::string whole = Render(h);
      json = whole.substr(0, s.Draw(whole.size() - 1));
      break;
    }
    default: {
      // Skip almost to the end, then beyond it.
      h.edits.push_back(Edit{t, {}});
      if (length) h.edits.back().ops.push_back(std::to_string(length));
      h.edits.back().ops.push_back("\"xyz\"");
      h.edits.back().ops.push_back(s.Pick({"1", "-1", "100", "-100"}));
      json = Render(h);
      break;
    }
  }
  if (s.Describing()) s.Note(json);
  try {
    const std::string result = OT(json);
    s.Fail("a broken history is accepted", pbt::Esc(result));
  } catch (const OTParseException&) {
  }
  s.NonTrivial();
}

PBT_PROP(arbitrary, o.weight = 2) {
  std::string json = Render(Generate(s, 3));
  for (size_t k = s.Size(1, 4); k; --k) {
    const size_t at = s.Draw(json.size());
    switch (s.Draw(2)) {
      case 0:
        if (at < json.size()) json[at] = s.From("{}[]\":,0123456789-.eEot \\u", 1).append(1, '"')[0];
        break;
      case 1:
        json.insert(at, s.Pick({"-", "9", "\"", ",", "{", "}", "null", "[", "]", "\\u0000", "\\ud800", "1e5"}));
        break;
      default:
        if (at < json.size()) json.erase(at, s.Size(1, 5));
        break;
    }
    if (json.empty()) break;
  }
  if (s.Describing()) s.Note(pbt::Esc(json));
  // It either is a history, or is refused as not being one.
  try {
    OT(json);
  } catch (const OTParseException&) {
    s.NonTrivial();
  } catch (const std::range_error&) {
    // The text inserted is not UTF-8.
    s.NonTrivial();
  }
}
