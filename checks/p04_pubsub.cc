// P04: the HTTP view of a stream.
#define CURRENT_MOCK_TIME
#include <set>

#include "pbt.h"
#include "httpc.h"

#include "stream/stream.h"

PBT_CHECK("P04", "exploration",
          "A case is a random log (entries and head updates) plus a random combination of query parameters, read over "
          "loopback HTTP and compared, byte for byte, to a reference selection; either over the log as it is, or followed "
          "while further entries and head updates are published until a limit is met, the subscription is terminated or "
          "the stream goes away. Non-trivial: at least two parameters on a log of three or more entries, or a followed "
          "subscription which got at least one entry published after it was opened.");

namespace {

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(s, std::string, "");
  CURRENT_FIELD(n, int64_t, 0);
};
CURRENT_STRUCT(Other) {
  CURRENT_FIELD(v, (std::vector<int32_t>));
};
CURRENT_VARIANT(Either, Rec, Other);

using us_t = std::chrono::microseconds;
using stream_t = current::stream::Stream<Either, current::persistence::File>;
using memory_stream_t = current::stream::Stream<Either, current::persistence::Memory>;

int Port() {
  static int port = [] {
    auto reserved = current::net::ReserveLocalPort();
    const int p = reserved;
    auto& server = HTTP(std::move(reserved));
    static_cast<void>(server);
    return p;
  }();
  return port;
}

Either GenEntry(pbt::Src& s) {
  if (s.Chance(1, 3)) {
    Other o;
    const size_t n = s.Len(3);
    for (size_t i = 0; i < n; ++i) o.v.push_back(int32_t(s.Int(-9, 9)));
    return Either(o);
  }
  Rec r;
  r.s = s.Chance(1, 12) ? std::string(size_t(s.Int(3000, 9000)), 'x') : s.Utf8(12);
  r.n = s.Int(0, 1000);
  return Either(r);
}

struct Entry {
  int64_t us;
  Either e;
};

struct Params {
  bool has_i = false, has_tail = false, has_n = false, has_since = false, has_recent = false, has_period = false, has_bytes = false;
  uint64_t i = 0, tail = 0, n = 0, bytes = 0;
  int64_t since = 0, recent = 0, period = 0;
  bool nowait = false, entries_only = false, array = false, checked = false;
  int json = 0;  // 0: none, 1: minimalistic, 2: js, 3: fs.
  std::string Query(pbt::Src& s) const {
    std::vector<std::string> q;
    if (has_i) q.push_back("i=" + std::to_string(i));
    if (has_tail) q.push_back(tail || s.Bool() ? "tail=" + std::to_string(tail) : "tail");
    if (has_n) q.push_back("n=" + std::to_string(n));
    if (has_since) q.push_back("since=" + std::to_string(since));
    if (has_recent) q.push_back("recent=" + std::to_string(recent));
    if (has_period) q.push_back("period=" + std::to_string(period));
    if (has_bytes) q.push_back("stop_after_bytes=" + std::to_string(bytes));
    if (nowait) q.push_back("nowait");
    if (entries_only) q.push_back("entries_only");
    if (array) q.push_back("array");
    if (checked) q.push_back("checked");
    if (json) q.push_back(json == 1 ? "json=minimalistic" : json == 2 ? "json=js" : "json=fs");
    // The order of parameters does not matter.
    for (size_t k = q.size(); k > 1; --k) std::swap(q[k - 1], q[k - 1 - s.Draw(k - 1)]);
    std::string r;
    for (const auto& x : q) r += (r.empty() ? "?" : "&") + x;
    return r;
  }
  int Count() const { return has_i + has_tail + has_n + has_since + has_recent + has_period + has_bytes + entries_only + array + checked; }
};

std::string EntryLine(const Params& p, uint64_t index, const Entry& e) {
  const idxts_t idxts(index, us_t(e.us));
  const bool bare = p.entries_only || p.array;
  // The entries are only parsed and serialised again if asked to.
  if (!p.checked || p.json == 0) {
    return (bare ? "" : "{\"index\":" + std::to_string(index) + ",\"us\":" + std::to_string(e.us) + "}\t") + JSON(e.e) + '\n';
  } else if (p.json == 1) {
    return (bare ? "" : JSON<JSONFormat::Minimalistic>(idxts) + '\t') + JSON<JSONFormat::Minimalistic>(e.e) + '\n';
  } else if (p.json == 2) {
    return (bare ? "" : JSON<JSONFormat::JavaScript>(idxts) + '\t') + JSON<JSONFormat::JavaScript>(e.e) + '\n';
  } else {
    return (bare ? "" : JSON<JSONFormat::NewtonsoftFSharp>(idxts) + '\t') + JSON<JSONFormat::NewtonsoftFSharp>(e.e) + '\n';
  }
}

// The reference selection: which entries of `log`, of which `size_at_request` were there at the time of the request,
// are to be returned. `closed` tells whether a limit on the right end has been met.
std::vector<uint64_t> Select(const Params& p, const std::vector<Entry>& log, size_t size_at_request, int64_t request_us, bool& closed) {
  std::vector<uint64_t> r;
  closed = false;
  uint64_t begin = p.has_i ? p.i : 0;
  if (p.has_tail) {
    if (!p.tail) {
      begin = std::max<uint64_t>(begin, size_at_request);
    } else if (p.tail < size_at_request) {
      begin = std::max<uint64_t>(begin, size_at_request - p.tail);
    }
  }
  int64_t from = 0;
  if (p.has_recent) {
    from = request_us - p.recent;
  } else if (p.has_since) {
    from = p.since;
  }
  uint64_t bytes = 0;
  for (uint64_t k = begin; k < log.size(); ++k) {
    if (log[k].us < from) continue;
    if (p.has_period && p.period && !r.empty() && log[k].us > log[r[0]].us + p.period) {
      closed = true;
      break;
    }
    r.push_back(k);
    bytes += EntryLine(p, k, log[k]).size();
    if ((p.has_n && p.n && r.size() == p.n) || (p.has_bytes && p.bytes && bytes >= p.bytes)) {
      closed = true;
      break;
    }
  }
  return r;
}

std::string Body(const Params& p, const std::vector<Entry>& log, const std::vector<uint64_t>& which) {
  std::string r;
  if (p.array) {
    if (which.empty()) return "[]\n";
    for (size_t k = 0; k < which.size(); ++k) r += (k ? ",\n" : "[\n") + EntryLine(p, which[k], log[which[k]]);
    return r + "]\n";
  }
  for (uint64_t k : which) r += EntryLine(p, k, log[k]);
  return r;
}

struct World {
  std::vector<Entry> log;
  int64_t head = -1;
  std::set<int64_t> heads;  // Each head the stream has been told of other than by an entry.
};

Params GenParams(pbt::Src& s, const World& w, int64_t now) {
  Params p;
  const size_t n = w.log.size();
  if (s.Chance(2, 5)) {
    p.has_i = true;
    p.i = s.Draw(n + 2);
  }
  if (s.Chance(1, 3)) {
    p.has_tail = true;
    p.tail = s.Draw(n + 3);
  }
  if (s.Chance(1, 3)) {
    p.has_n = true;
    p.n = s.Chance(1, 8) ? 0 : 1 + s.Draw(n + 1);
  }
  auto T = [&]() -> int64_t { return n ? std::max<int64_t>(1, w.log[s.Draw(n - 1)].us + s.Int(-500, 500)) : s.Int(1, 3000); };
  switch (s.Weighted({5, 2, 2})) {
    case 1:
      p.has_since = true;
      p.since = s.Chance(1, 6) ? w.head + (s.Bool() ? 0 : s.Int(0, 1000)) : s.Chance(1, 3) && n ? w.log[s.Draw(n - 1)].us : T();
      p.since = std::max<int64_t>(p.since, 1);
      break;
    case 2:
      // Entries are a thousand or more microseconds apart, so aim in between them: the clock ticks as it is looked at.
      p.has_recent = true;
      p.recent = n ? std::max<int64_t>(1, now - w.log[s.Draw(n - 1)].us + (s.Bool() ? 400 : -400)) : s.Int(1, 3000);
      break;
  }
  if (s.Chance(1, 4)) {
    p.has_period = true;
    p.period = n >= 2 && s.Bool() ? std::abs(w.log[s.Draw(n - 1)].us - w.log[s.Draw(n - 1)].us) + s.Int(-1, 1) : s.Int(1, 20000);
    p.period = std::max<int64_t>(1, p.period);
  }
  if (s.Chance(1, 5)) {
    p.has_bytes = true;
    p.bytes = s.Chance(1, 4) ? s.Draw(20000) : s.Draw(300);
  }
  p.entries_only = s.Chance(1, 5);
  p.array = s.Chance(1, 4);
  p.checked = s.Chance(1, 3);
  if (s.Chance(1, 4)) p.json = int(1 + s.Draw(2));
  return p;
}

template <typename STREAM>
void Fill(pbt::Src& s, STREAM& stream, World& w, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    const int64_t us = std::max<int64_t>(w.head, 0) + 1000 * (1 + s.Int(0, 3));
    if (s.Chance(1, 6)) {
      stream->Publisher()->UpdateHead(us_t(us));
      w.heads.insert(us);
    } else {
      const Either e = GenEntry(s);
      stream->Publisher()->Publish(e, us_t(us));
      w.log.push_back({us, e});
    }
    w.head = us;
  }
}

const char* Brief(const std::string&) { return ""; }

template <typename MAKE>
void Snapshot(pbt::Src& s, MAKE&& make) {
  current::time::ResetToZero();
  auto stream = make();
  const auto scope = HTTP(Port()).Register("/log", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, *stream);
  World w;
  Fill(s, stream, w, s.Len(14));
  const size_t requests = 1 + s.Draw(3);
  int64_t now = std::max<int64_t>(w.head, 0) + 10;
  bool interesting = false;
  for (size_t q = 0; q < requests; ++q) {
    now += 100;
    current::time::SetNow(us_t(now), us_t(now + 100));
    Params p = GenParams(s, w, now);
    bool closed;
    const auto which = Select(p, w.log, w.log.size(), now, closed);
    // Without `nowait`, only ask for what is complete already.
    p.nowait = !closed || s.Chance(1, 3);
    const std::string query = p.Query(s);
    if (s.Describing()) {
      s.Note("log of " + std::to_string(w.log.size()) + ", head " + std::to_string(w.head) + ", GET " + query);
    }
    const auto r = httpc::Request(Port(), "GET", "/log" + query);
    auto Ctx = [&] {
      std::string text = "GET " + query + " at " + std::to_string(now) + "\n";
      for (size_t k = 0; k < w.log.size(); ++k) text += std::to_string(k) + "@" + std::to_string(w.log[k].us) + " " + JSON(w.log[k].e).substr(0, 60) + "\n";
      return text + "-> " + r.status_line + (r.complete ? "" : " (incomplete)") + "\n" + r.body.substr(0, 1500) + "\nexpected\n" + Body(p, w.log, which).substr(0, 1500);
    };
    s.Check(r.complete && !r.malformed, "incomplete-reply", Ctx);
    if (r.code == 204) {
      // Nothing to return, and asked not to wait.
      s.Check(p.nowait && which.empty() && r.body.empty(), "no-content", Ctx);
    } else {
      s.Check(r.code == 200, "status", Ctx);
      s.Check(r.body == Body(p, w.log, which), "body", Ctx);
      s.Check(r.Header("X-Current-Stream-Size") == std::to_string(w.log.size()), "size-header", Ctx);
      s.Check(!r.Header("X-Current-Stream-Subscription-Id").empty(), "id-header", Ctx);
    }
    s.LabelIf(which.empty(), "empty selection");
    s.LabelIf(p.array, "array");
    s.LabelIf(p.checked, "checked");
    s.LabelIf(!p.nowait, "self-limiting");
    if (p.Count() >= 2 && w.log.size() >= 3) interesting = true;
  }
  if (interesting) s.NonTrivial();
}

template <typename MAKE>
void Follow(pbt::Src& s, MAKE&& make) {
  current::time::ResetToZero();
  auto stream = std::make_unique<decltype(make())>(make());
  auto scope = std::make_unique<HTTPRoutesScope>(HTTP(Port()).Register("/log", *(*stream)));
  World w;
  Fill(s, *stream, w, s.Len(8));
  const int64_t now = std::max<int64_t>(w.head, 0) + 50;
  current::time::SetNow(us_t(now), us_t(now + 100));
  Params p = GenParams(s, w, now);
  p.nowait = false;
  if (p.has_tail && !p.tail) p.has_i = false;
  if (p.has_period) {
    // The band starts at the first record or, as documented, at an earlier head seen while waiting for it. Which head
    // a waiting subscriber sees is up to the schedule, so that only bands which start right away are asked for.
    bool unused;
    Params q = p;
    q.has_period = false;
    if (Select(q, w.log, w.log.size(), now, unused).empty()) p = q;
  }
  const size_t at_request = w.log.size();
  const std::string query = p.Query(s);
  if (s.Describing()) s.Note("log of " + std::to_string(w.log.size()) + ", head " + std::to_string(w.head) + ", follow " + query);
  httpc::Conn c(Port());
  s.Check(c.Send("GET /log" + query + " HTTP/1.1\r\n\r\n"), "send");
  auto r = c.ReadUntil([](const httpc::Reply& r) { return r.headers_done; });
  s.Check(r.headers_done && r.code == 200, "follow-headers", [&] { return c.raw; });
  const std::string id = r.Header("X-Current-Stream-Subscription-Id");
  s.Check(!id.empty(), "follow-id");
  const size_t more = s.Chance(1, 8) ? 0 : s.Len(8);
  const bool with_heads = s.Bool();
  for (size_t k = 0; k < more; ++k) {
    int64_t us = std::max(std::max<int64_t>(w.head, 0), now) + 1000 * (1 + s.Int(0, 3));
    if (p.has_since && !p.has_recent && p.since > std::max(w.head, now) && s.Chance(1, 3)) us = p.since;  // This very moment.
    if (with_heads && !p.has_period && s.Chance(1, 3)) {
      (*stream)->Publisher()->UpdateHead(us_t(us));
      w.heads.insert(us);
    } else {
      const Either e = GenEntry(s);
      (*stream)->Publisher()->Publish(e, us_t(us));
      w.log.push_back({us, e});
    }
    w.head = us;
    if (s.Chance(1, 3)) c.Pump(5);
  }
  bool closed;
  const auto which = Select(p, w.log, at_request, now, closed);
  bool closed_by_head = false;
  if (!closed && p.has_period && !which.empty() && w.head > w.log[which[0]].us + p.period) {
    // The head was past the band already.
    closed = closed_by_head = true;
  } else if (!closed && p.has_period && !which.empty() && s.Bool()) {
    // The head alone may close the band.
    w.head = std::max(w.head, w.log[which[0]].us + p.period) + 1 + s.Int(0, 100);
    (*stream)->Publisher()->UpdateHead(us_t(w.head));
    w.heads.insert(w.head);
    closed = closed_by_head = true;
  }
  auto Lines = [&](const std::string& body, std::vector<std::string>& entries, std::vector<int64_t>& told) {
    size_t b = 0;
    while (b < body.size()) {
      const size_t e = body.find('\n', b);
      if (e == std::string::npos) break;
      const std::string line = body.substr(b, e - b + 1);
      if (!p.entries_only && !p.array && line.compare(0, 6, "{\"us\":") == 0) {
        told.push_back(atoll(line.c_str() + 6));
      } else {
        entries.push_back(line);
      }
      b = e + 1;
    }
  };
  std::string expected = p.array && which.empty() ? "" : Body(p, w.log, which);
  const bool by_terminate = !closed && s.Chance(2, 3);
  const bool by_stream = !closed && !by_terminate;
  // The head the subscriber is to be told of, once there are no more entries for it to wait for.
  const int64_t from = p.has_recent ? now - p.recent : p.has_since ? p.since : 0;
  uint64_t begin = p.has_i ? p.i : 0;
  if (p.has_tail) begin = std::max<uint64_t>(begin, at_request - std::min<uint64_t>(p.tail, at_request));
  while (from && begin < at_request && w.log[begin].us < from) ++begin;
  // The head alone does not wake up the one who has not been given an entry to look at yet,
  // although the head at the moment of subscribing is told.
  const bool head_is_news = !closed && !p.array && !p.entries_only && w.heads.count(w.head) &&
                            (begin < w.log.size() || (!more && begin == w.log.size())) &&
                            (p.has_recent ? w.head > from + 30 : w.head >= from);
  if (s.Describing()) s.Note(std::to_string(more) + " more operations, then " + (closed_by_head ? "the head passes the period" : closed ? "a limit is met" : by_terminate ? "terminate" : "the stream goes away"));
  const std::string terminated = "{\"error\":\"The subscriber has terminated.\"}\n";
  if (!closed) {
    // Everything there is arrives, and the connection stays open.
    std::string so_far = expected;
    if (p.array && !so_far.empty()) so_far.resize(so_far.size() - 2);  // Without the closing bracket.
    r = c.ReadUntil([&](const httpc::Reply& r) {
      std::vector<std::string> e;
      std::vector<int64_t> h;
      Lines(r.body, e, h);
      size_t n = 0;
      for (const auto& x : e) n += x.size();
      return n >= so_far.size() && (!head_is_news || (!h.empty() && h.back() == w.head));
    });
    if (head_is_news) {
      std::vector<std::string> e;
      std::vector<int64_t> h;
      Lines(r.body, e, h);
      s.Check(!h.empty() && h.back() == w.head, "follow-head", [&] { return "GET " + query + ", the head " + std::to_string(w.head) + " is not told\n" + c.raw; });
    }
    s.Check(!r.complete && !r.malformed && !r.eof, "closed-early", [&] { return c.raw; });
    std::thread destroyer;
    if (by_terminate) {
      const auto t = httpc::Request(Port(), "GET", "/log?terminate=" + id);
      s.Check(t.complete && t.code == 200, "terminate", [&] { return t.status_line; });
      expected = so_far + (p.array && !so_far.empty() ? ",\n" + terminated + "]\n" : terminated);
    } else if (by_stream) {
      scope = nullptr;
      stream = nullptr;
      expected = so_far;
    }
  }
  r = c.ReadReply();
  std::vector<std::string> entries;
  std::vector<int64_t> told;
  Lines(r.body, entries, told);
  std::string joined;
  for (const auto& x : entries) joined += x;
  auto Ctx = [&] {
    std::string text = "GET " + query + " at " + std::to_string(now) + " with " + std::to_string(at_request) + " entries, closed=" + std::to_string(closed) + "\n";
    for (size_t k = 0; k < w.log.size(); ++k) text += std::to_string(k) + "@" + std::to_string(w.log[k].us) + " " + JSON(w.log[k].e).substr(0, 60) + "\n";
    return text + "-> " + r.status_line + (r.complete ? "" : " (incomplete)") + "\n" + joined.substr(0, 1500) + "\nexpected\n" + expected.substr(0, 1500);
  };
  s.Check(!r.malformed, "follow-malformed", Ctx);
  s.Check(r.complete, "follow-does-not-end", Ctx);
  if (by_stream) {
    s.Check(joined.compare(0, expected.size(), expected) == 0, "follow-body", Ctx);
    const std::string rest = joined.substr(expected.size());
    s.Check(rest.empty() || rest.find(terminated) != std::string::npos || (p.array && (rest == "]\n" || rest == "[]\n")), "follow-end", Ctx);
  } else {
    s.Check(joined == expected, "follow-body", Ctx);
  }
  for (size_t k = 0; k < told.size(); ++k) {
    s.Check(!k || told[k] > told[k - 1], "follow-heads-order", Ctx);
    bool known = w.heads.count(told[k]) != 0;
    for (const auto& e : w.log) known = known || e.us == told[k];
    s.Check(known && told[k] >= from, "follow-head-unheard-of", [&] { return std::to_string(told[k]) + "\n" + Ctx(); });
  }
  if (!p.array && !p.entries_only) {
    // What has been told of the head is in order with the entries.
    int64_t last_us = -1;
    size_t b = 0, k = 0;
    while (b < r.body.size()) {
      const size_t e = r.body.find('\n', b);
      if (e == std::string::npos) break;
      int64_t us = last_us + 1;
      if (r.body.compare(b, 6, "{\"us\":") == 0) {
        us = atoll(r.body.c_str() + b + 6);
      } else if (k < which.size()) {
        us = w.log[which[k++]].us;
      }
      s.Check(us > last_us, "follow-order", [&] { return r.body.substr(0, 1500) + "\n" + Ctx(); });
      last_us = us;
      b = e + 1;
    }
  }
  s.LabelIf(head_is_news, "told of the head");
  if (stream && by_terminate) {
    // Terminating what does not exist is "not found", and nothing breaks.
    s.Check(httpc::Request(Port(), "GET", "/log?terminate=nosuchid").code == 404, "terminate-unknown");
  }
  size_t after = 0;
  for (uint64_t k : which) after += k >= at_request;
  s.LabelIf(closed_by_head, "closed by head");
  s.LabelIf(closed && !closed_by_head, "closed by a limit");
  s.LabelIf(by_terminate, "terminated");
  s.LabelIf(by_stream, "stream destroyed");
  if (after) s.NonTrivial();
}

}  // namespace

PBT_PROP(snapshot_file, o.weight = 4; o.hang_is_violation = true; o.hang_s = 60) {
  const std::string fn = s.Scratch() + "/log";
  Snapshot(s, [&] { return stream_t::CreateStream(fn); });
}
PBT_PROP(snapshot_memory, o.weight = 4; o.hang_is_violation = true; o.hang_s = 60) {
  Snapshot(s, [&] { return memory_stream_t::CreateStream(); });
}
PBT_PROP(follow_file, o.weight = 4; o.schedule = true; o.hang_is_violation = true; o.hang_s = 60) {
  const std::string fn = s.Scratch() + "/log";
  Follow(s, [&] { return stream_t::CreateStream(fn); });
}
PBT_PROP(follow_memory, o.weight = 4; o.schedule = true; o.hang_is_violation = true; o.hang_s = 60) {
  Follow(s, [&] { return memory_stream_t::CreateStream(); });
}

// Sizes, schemas, other methods, malformed parameters.
PBT_PROP(special, o.weight = 2; o.hang_is_violation = true; o.hang_s = 60) {
  current::time::ResetToZero();
  auto stream = memory_stream_t::CreateStream();
  const auto scope = HTTP(Port()).Register("/log", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, *stream);
  World w;
  Fill(s, stream, w, s.Len(6));
  const int64_t now = std::max<int64_t>(w.head, 0) + 50;
  current::time::SetNow(us_t(now), us_t(now + 100));
  const std::string size = std::to_string(w.log.size());
  switch (s.Draw(5)) {
    case 0: {
      const auto r = httpc::Request(Port(), "GET", "/log?sizeonly" + s.Pick({"", "&i=1", "&nowait", "&tail=3", "&array"}));
      s.Check(r.complete && r.code == 200 && r.body == size + "\n" && r.Header("X-Current-Stream-Size") == size, "sizeonly", [&] { return r.status_line + "\n" + r.body; });
      s.NonTrivial(1);
      break;
    }
    case 1: {
      const auto r = httpc::Request(Port(), "HEAD", "/log" + s.Pick({"", "?i=1", "?nowait"}));
      s.Check(r.complete && r.code == 200 && r.rest.empty() && r.Header("X-Current-Stream-Size") == size, "head", [&] { return r.status_line + "\n" + r.rest; });
      s.NonTrivial(2);
      break;
    }
    case 2: {
      const std::string format = s.Pick({"", "simple", "h", "fs", "ts", "md", "json", "jsfields", "nosuchformat", "internal"});
      const int how = int(s.Draw(2));
      if (how && format.empty()) break;
      const auto r = httpc::Request(Port(), "GET", how == 0 ? "/log?schema=" + format : how == 1 ? "/log/schema." + format : "/log/" + format);
      const auto schema = memory_stream_t::StaticConstructSchemaAsObject(current::ss::StreamNamespaceName("StreamSchema", "TopLevelTransaction"));
      auto Ctx = [&] { return format + "\n" + r.status_line + "\n" + r.body; };
      if (format.empty()) {
        s.Check(r.complete && r.code == 200 && r.body == JSON<JSONFormat::Minimalistic>(schema) + (r.body.empty() || r.body.back() != '\n' ? "" : "\n"), "schema", Ctx);
      } else if (format == "simple") {
        s.Check(r.complete && r.code == 200, "schema-simple", Ctx);
        const auto x = ParseJSON<current::stream::SubscribableStreamSchema>(r.body);
        s.Check(x.type_id == schema.type_id && x.entry_name == "TopLevelTransaction" && x.namespace_name == "StreamSchema", "schema-simple", Ctx);
      } else if (schema.language.count(format)) {
        s.Check(r.complete && r.code == 200 && r.body == schema.language.at(format), "schema-language", Ctx);
      } else {
        s.Check(r.complete && r.code == 404 && r.body.find(format) != std::string::npos, "schema-unknown", Ctx);
      }
      s.NonTrivial(pbt::Hash(format));
      break;
    }
    case 3: {
      const std::string method = s.Pick({"POST", "PUT", "PATCH", "DELETE"});
      const auto r = httpc::Request(Port(), method, "/log" + s.Pick({"", "?nowait", "?sizeonly"}), "", "", true);
      s.Check(r.complete && r.code == 405, "method", [&] { return method + " " + r.status_line; });
      s.NonTrivial(pbt::Hash(method));
      break;
    }
    case 4: {
      const auto r = httpc::Request(Port(), "GET", "/log?nowait&json=" + s.Pick({"x", "", "JS", "Minimalistic"}));
      s.Check(r.complete && r.code == 404, "json-parameter", [&] { return r.status_line; });
      break;
    }
    default: {
      // Malformed values: some reply comes, and the server is alive and well afterwards.
      const std::string name = s.Pick({"i", "tail", "n", "since", "recent", "period", "stop_after_bytes", "terminate", "schema", "x"});
      std::string value = s.Pick({"", "-1", "abc", "1e9", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0x10", "%00", "%", "%zz", "1%201", "-9223372036854775808", "9223372036854775807"});
      const std::string query = "?nowait&" + name + "=" + value;
      if (s.Describing()) s.Note(query);
      const auto r = httpc::Request(Port(), "GET", "/log" + query);
      s.Check(r.complete && !r.malformed && r.code >= 200 && r.code < 600, "malformed-parameter", [&] { return query + "\n" + r.status_line + "\n" + r.body; });
      s.NonTrivial(pbt::Hash(query));
    }
  }
  // And the log reads as before.
  const auto r = httpc::Request(Port(), "GET", "/log?nowait");
  Params p;
  std::vector<uint64_t> all;
  for (size_t i = 0; i < w.log.size(); ++i) all.push_back(i);
  s.Check(r.complete && r.code == (all.empty() ? 204 : 200) && r.body == Body(p, w.log, all), "afterwards", [&] { return r.status_line + "\n" + r.body; });
}
