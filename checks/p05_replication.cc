// P05: a remote replica converges to exactly the leader's log.
#define CURRENT_MOCK_TIME
#include <atomic>
#include <set>
#include <thread>

#include "pbt.h"
#include "httpc.h"

#include "stream/replicator.h"
#include "stream/stream.h"

PBT_CHECK("P05", "exploration",
          "A case is either a random log rendered as a feed, possibly damaged at one point, cut into random chunks and "
          "passed to a follower (in memory or on disk, checked or not), which is then resumed with the rest of the feed; "
          "or a whole replication over loopback HTTP, through a proxy which re-segments and cuts the connections at random "
          "byte counts, while the leader keeps publishing. Non-trivial: the feed had at least three entries and was cut "
          "inside a line, or the replication went through at least one cut connection and at least three entries.");

namespace {

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(s, std::string, "");
  CURRENT_FIELD(n, int64_t, 0);
};
CURRENT_STRUCT(Other) {
  CURRENT_FIELD(v, (std::vector<int32_t>));
};
CURRENT_VARIANT(Either, Rec, Other);

using us_t = std::chrono::microseconds;
using file_stream_t = current::stream::Stream<Either, current::persistence::File>;
using memory_stream_t = current::stream::Stream<Either, current::persistence::Memory>;
using remote_t = current::stream::SubscribableRemoteStream<Either>;
using current::stream::ReplicationMode;
using current::stream::SubscriptionMode;

int Port() {
  static int port = [] {
    auto reserved = current::net::ReserveLocalPort();
    const int p = reserved;
    auto& server = HTTP(std::move(reserved));
    static_cast<void>(server);
    return p;
  }();
  return port;
}

Either GenEntry(pbt::Src& s) {
  if (s.Chance(1, 3)) {
    Other o;
    const size_t n = s.Len(3);
    for (size_t i = 0; i < n; ++i) o.v.push_back(int32_t(s.Int(-9, 9)));
    return Either(o);
  }
  Rec r;
  r.s = s.Chance(1, 15) ? std::string(size_t(s.Int(3000, 9000)), 'x') : s.Chance(1, 4) ? s.Pick({"\t", "\n", "\r\n", "a\tb", "\\", "\"", "}\t{"}) : s.Utf8(10);
  r.n = s.Int(0, 1000);
  return Either(r);
}

struct Line {
  bool entry;
  int64_t us;
  std::string json;
  std::string Text(uint64_t index) const {
    return entry ? "{\"index\":" + std::to_string(index) + ",\"us\":" + std::to_string(us) + "}\t" + json : "{\"us\":" + std::to_string(us) + "}";
  }
};

template <typename STREAM>
std::vector<std::string> RawLines(const STREAM& stream) {
  std::vector<std::string> r;
  for (const auto& l : stream->Data()->IterateUnsafe()) r.push_back(l);
  return r;
}

std::string Show(const std::vector<std::string>& v) {
  std::string r;
  for (const auto& l : v) r += "  " + pbt::Esc(l.substr(0, 100)) + "\n";
  return r;
}

std::vector<std::string> Chunks(pbt::Src& s, const std::string& feed, bool& inside) {
  std::vector<std::string> r;
  std::vector<size_t> cuts;
  switch (s.Weighted({2, 1, 5, 3})) {
    case 0:
      break;
    case 1:
      if (feed.size() < 3000) {
        for (size_t i = 1; i < feed.size(); ++i) cuts.push_back(i);
      }
      break;
    case 2: {
      const size_t n = s.Len(12);
      for (size_t i = 0; i < n && feed.size() > 1; ++i) cuts.push_back(1 + s.Draw(feed.size() - 2));
      break;
    }
    default: {
      // Around the ends of the lines.
      for (size_t i = 0; i < feed.size(); ++i) {
        if (feed[i] == '\n' && s.Bool()) cuts.push_back(i + s.Draw(2));
        if (feed[i] == '\n' && s.Chance(1, 4)) cuts.push_back(i + s.Draw(2));
      }
    }
  }
  std::sort(cuts.begin(), cuts.end());
  size_t at = 0;
  for (size_t c : cuts) {
    if (c <= at || c >= feed.size()) continue;
    r.push_back(feed.substr(at, c - at));
    if (feed[c - 1] != '\n' && feed[c - 1] != '\r') inside = true;
    at = c;
  }
  r.push_back(feed.substr(at));
  return r;
}

enum { kNone, kCut, kDrop, kDuplicate, kSwap, kIndex, kTruncateLine, kGarbage, kBackInTime, kExtraColumn, kNoTab, kGarbageTab };

template <ReplicationMode RM, typename STREAM>
void Feed(pbt::Src& s, STREAM& follower) {
  constexpr bool checked = RM == ReplicationMode::Checked;
  constexpr bool file = std::is_same<std::decay_t<decltype(**follower)>, file_stream_t>::value;
  // The leader's log.
  std::vector<Line> lines;
  const size_t n = s.Len(10);
  int64_t us = 0;
  for (size_t i = 0; i < n; ++i) {
    us += 1 + s.Int(0, 1000);
    if (s.Chance(1, 4)) {
      lines.push_back({false, us, ""});
    } else {
      lines.push_back({true, us, JSON(GenEntry(s))});
    }
  }
  std::vector<std::string> all;
  std::vector<int64_t> all_us;
  std::vector<std::string> text;
  for (const auto& l : lines) {
    text.push_back(l.Text(all.size()));
    if (l.entry) {
      all.push_back(text.back());
      all_us.push_back(l.us);
    }
  }
  // The follower already has some of it.
  size_t at = n ? s.Draw(n) : 0;
  if (s.Bool()) at = 0;
  size_t have = 0;
  int64_t head = -1;
  {
    for (size_t i = 0; i < at; ++i) {
      head = lines[i].us;
      if (lines[i].entry) {
        (*follower)->Publisher()->PublishUnsafe(text[i]);
        ++have;
      } else {
        (*follower)->Publisher()->UpdateHead(us_t(head));
      }
    }
  }
  auto owned_remote = current::MakeOwned<remote_t::RemoteStream>("http://localhost:1/x", "E", "N");
  using replicator_t = current::stream::StreamReplicator<std::decay_t<decltype(**follower)>>;
  bool damaged = false;
  bool inside = false;
  bool by_entries = false;
  size_t sessions = 0;
  while (true) {
    ++sessions;
    const size_t at_start = at;
    // What is sent in this session, as lines; `good` of the remaining entries are to be accepted from it.
    std::vector<std::string> feed_lines(text.begin() + at, text.end());
    std::vector<size_t> entry_lines;
    for (size_t i = at; i < n; ++i) {
      if (lines[i].entry) entry_lines.push_back(i - at);
    }
    int damage = sessions > 3 || feed_lines.empty() ? kNone : int(s.Weighted({3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}));
    size_t accepted_lines = feed_lines.size();  // Of `feed_lines` as they were before the damage.
    std::string feed;
    const size_t k = entry_lines.empty() ? 0 : s.Draw(entry_lines.size() - 1);
    const size_t line = entry_lines.empty() ? 0 : entry_lines[k];
    if (entry_lines.empty() && damage != kCut && damage != kGarbage) damage = kNone;
    switch (damage) {
      case kDrop:
        accepted_lines = line;
        if (line + 1 == feed_lines.size() || k + 1 == entry_lines.size()) {
          // Nothing after it tells that it is missing.
          damage = kNone;
          accepted_lines = feed_lines.size();
          break;
        }
        // The heads up to the next entry are fine, but put the entry which has been dropped in the past; end there.
        feed_lines.erase(feed_lines.begin() + line, feed_lines.begin() + entry_lines[k + 1]);
        break;
      case kDuplicate:
        accepted_lines = line + 1;
        feed_lines.insert(feed_lines.begin() + line, feed_lines[line]);
        break;
      case kSwap:
        if (k + 1 < entry_lines.size()) {
          accepted_lines = line;
          std::swap(feed_lines[line], feed_lines[entry_lines[k + 1]]);
        } else {
          damage = kNone;
        }
        break;
      case kIndex: {
        accepted_lines = line;
        const size_t p = feed_lines[line].find(',');
        const uint64_t index = strtoull(feed_lines[line].c_str() + 9, nullptr, 10);
        uint64_t wrong = s.Bool() ? index + 1 + s.Draw(3) : index ? s.Draw(index - 1) : 1;
        feed_lines[line] = "{\"index\":" + std::to_string(wrong) + feed_lines[line].substr(p);
        break;
      }
      case kTruncateLine: {
        const size_t tab = feed_lines[line].find('\t');
        if (!checked && file) {
          // The entry itself is not looked at.
          damage = kNone;
        } else {
          accepted_lines = line;
          feed_lines[line] = feed_lines[line].substr(0, s.Chance(1, 4) ? 1 + s.Draw(tab - 2) : tab + (checked ? 0 : 1) + s.Draw(feed_lines[line].size() - tab - 2));
        }
        break;
      }
      case kGarbage: {
        const size_t where = s.Draw(feed_lines.size());
        accepted_lines = where;
        feed_lines.insert(feed_lines.begin() + where, s.Pick({"garbage", "{}", "{", "null", "[]", "0", "\"x\"", "{\"us\":\"x\"}", "{\"index\":0}", "{\"error\":\"The subscriber has terminated.\"}", "<html>"}));
        break;
      }
      case kGarbageTab:
        accepted_lines = line;
        feed_lines.insert(feed_lines.begin() + line, s.Pick({"garbage\tgarbage", "\t", "\tx", "{}\t{}", "{\"us\":1}\t{}", "x\t{\"Rec\":{\"s\":\"\",\"n\":0}}"}));
        break;
      case kBackInTime: {
        accepted_lines = line;
        const size_t p = feed_lines[line].find(",\"us\":");
        const size_t q = feed_lines[line].find('}');
        const int64_t before = at + line ? lines[at + line - 1].us : -1;
        if (before < 0) {
          damage = kNone;
          accepted_lines = feed_lines.size();
          break;
        }
        feed_lines[line] = feed_lines[line].substr(0, p + 6) + std::to_string(before - s.Int(0, before)) + feed_lines[line].substr(q);
        break;
      }
      case kExtraColumn:
        if (!checked && file) {
          damage = kNone;
        } else {
          accepted_lines = line;
          feed_lines[line] += "\t" + s.Pick({"x", "{}", "0"});
        }
        break;
      case kNoTab: {
        accepted_lines = line;
        const size_t tab = feed_lines[line].find('\t');
        feed_lines[line].erase(tab, 1);
        break;
      }
      default:
        break;
    }
    const bool crlf = s.Chance(1, 8);
    std::vector<size_t> line_ends;
    for (size_t i = 0; i < feed_lines.size(); ++i) {
      feed += feed_lines[i];
      line_ends.push_back(feed.size());
      feed += crlf ? "\r\n" : "\n";
      if (s.Chance(1, 20)) feed += "\n";
    }
    if (damage == kCut) {
      const size_t cut = s.Draw(feed.size() - 1);
      feed = feed.substr(0, cut);
      accepted_lines = 0;
      while (accepted_lines < line_ends.size() && line_ends[accepted_lines] < cut) ++accepted_lines;
    }
    if (s.Describing()) {
      s.Note("follower has " + std::to_string(have) + ", feed (damage " + std::to_string(damage) + ", expected to accept " + std::to_string(accepted_lines) + " lines): " + pbt::Esc(feed.substr(0, 800)));
    }
    const auto chunks = Chunks(s, feed, inside);
    if (s.Describing()) {
      std::string sizes;
      for (const auto& c : chunks) sizes += " " + std::to_string(c.size());
      s.Note("chunks of" + sizes);
    }
    bool thrown = false;
    std::string what;
    {
      replicator_t replicator(*follower);
      const us_t from(s.Bool() ? head + 1 : 0);
      using subscriber_t = remote_t::RemoteStreamSubscriber<replicator_t, Either, RM>;
      subscriber_t subscriber(owned_remote, replicator, have, from);
      try {
        for (const auto& c : chunks) subscriber.PassChunkToSubscriber(c);
      } catch (const current::Exception& e) {
        thrown = true;
        what = e.DetailedDescription();
      }
    }
    (*follower)->BecomeMasterStream();
    for (size_t i = at; i < at + accepted_lines; ++i) {
      head = lines[i].us;
      if (lines[i].entry) ++have;
    }
    at += accepted_lines;
    const auto got = RawLines(*follower);
    const std::vector<std::string> expected(all.begin(), all.begin() + have);
    auto Ctx = [&] { return (thrown ? "exception: " + what : std::string("no exception")) + "\nthe follower has\n" + Show(got) + "expected\n" + Show(expected); };
    s.Check(got == expected, damage == kNone ? "replica" : "replica-of-damaged-feed", Ctx);
    if (damage == kNone || damage == kCut) {
      s.Check(!thrown, "undamaged-refused", Ctx);
    } else {
      s.Check(thrown, "damage-not-reported", Ctx);
    }
    s.Eq(have ? int64_t(all_us[have - 1]) : -1, have ? int64_t(us_t(Value((*follower)->Data()->LastPublishedIndexAndTimestamp()).us).count()) : -1, "timestamp");
    s.Eq(head, (*follower)->Data()->CurrentHead().count(), "head");
    // Parsed, too.
    size_t i = 0;
    for (const auto& e : (*follower)->Data()->Iterate()) {
      s.Check(JSON(e.entry) == all[i].substr(all[i].find('\t') + 1) && int64_t(us_t(e.idx_ts.us).count()) == all_us[i] && e.idx_ts.index == i, "parsed", Ctx);
      ++i;
    }
    s.Eq(have, i, "count");
    if (damage != kNone) {
      damaged = true;
      s.LabelIf(damage > 0, "damaged");
    }
    if (at - at_start >= 3) by_entries = true;
    if (at == n && (damage == kNone)) break;
    if (at == n) continue;
  }
  s.LabelIf(sessions > 1, "resumed");
  if ((inside || damaged) && n >= 3 && (by_entries || damaged)) s.NonTrivial();
}

// ---- Whole replications, via a proxy.

class Proxy {
 public:
  // With `rechunk`, the proxy is an HTTP one: the body is passed in chunks other than those of the leader.
  Proxy(int upstream, std::vector<int64_t> cuts, std::vector<size_t> segments, bool rechunk) : upstream_(upstream), cuts_(std::move(cuts)), segments_(std::move(segments)), rechunk_(rechunk) {
    // One listening socket per process, so as not to run out of ports.
    static const int listening = [] {
      for (int i = 0; i < 100; ++i) {
        const int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        sockaddr_in a;
        memset(&a, 0, sizeof(a));
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (!bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) && !listen(fd, 64)) return fd;
        close(fd);
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
      }
      return -1;
    }();
    listen_ = listening;
    sockaddr_in a;
    socklen_t l = sizeof(a);
    getsockname(listen_, reinterpret_cast<sockaddr*>(&a), &l);
    port_ = ntohs(a.sin_port);
    thread_ = std::thread([this] { Accept(); });
  }
  ~Proxy() {
    stop_ = true;
    thread_.join();
    for (auto& t : threads_) t.join();
  }
  int port() const { return port_; }
  void NoMoreCuts() { no_more_cuts_ = true; }
  size_t cut() const { return cut_; }

 private:
  void Accept() {
    while (!stop_) {
      pollfd p = {listen_, POLLIN, 0};
      poll(&p, 1, 5);
      const int fd = accept4(listen_, nullptr, nullptr, SOCK_CLOEXEC);
      if (fd < 0) continue;
      threads_.emplace_back([this, fd] { Serve(fd); });
    }
  }
  static bool SendAll(int fd, const char* p, size_t n) {
    while (n) {
      const ssize_t r = send(fd, p, n, MSG_NOSIGNAL);
      if (r <= 0) return false;
      p += r;
      n -= size_t(r);
    }
    return true;
  }
  struct Rechunker {
    std::string in;
    bool headers = true, raw = false;
    // Returns what is to be sent.
    template <typename NEXT>
    std::string Pass(const char* p, size_t n, NEXT&& next) {
      if (raw) return std::string(p, n);
      in.append(p, n);
      std::string out;
      if (headers) {
        const size_t e = in.find("\r\n\r\n");
        if (e == std::string::npos) return "";
        out = in.substr(0, e + 4);
        in = in.substr(e + 4);
        headers = false;
        std::string lower = out;
        for (auto& c : lower) c = char(tolower(c));
        if (lower.find("transfer-encoding: chunked") == std::string::npos) {
          raw = true;
          return out + in;
        }
      }
      std::string data;
      bool end = false;
      while (!end) {
        const size_t e = in.find("\r\n");
        if (e == std::string::npos) break;
        const size_t length = strtoull(in.c_str(), nullptr, 16);
        if (in.size() < e + 2 + length + 2) break;
        data += in.substr(e + 2, length);
        in = in.substr(e + 2 + length + 2);
        if (!length) end = true;
      }
      while (!data.empty()) {
        const size_t k = std::min<size_t>(next(), data.size());
        char hex[24];
        snprintf(hex, sizeof(hex), "%zx\r\n", k);
        out += hex + data.substr(0, k) + "\r\n";
        data = data.substr(k);
      }
      if (end) {
        raw = true;
        out += "0\r\n\r\n";
      }
      return out;
    }
  };
  void Serve(int fd) {
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    const int up = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_port = htons(uint16_t(upstream_));
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bool ok = !connect(up, reinterpret_cast<sockaddr*>(&a), sizeof(a));
    int64_t budget = -1;
    bool first = true;
    size_t segment = 0;
    char buffer[16384];
    Rechunker rechunker;
    rechunker.raw = !rechunk_;
    while (ok && !stop_) {
      pollfd p[2] = {{fd, POLLIN, 0}, {up, POLLIN, 0}};
      poll(p, 2, 20);
      if (p[0].revents) {
        const ssize_t n = recv(fd, buffer, sizeof(buffer), 0);
        if (n <= 0) break;
        if (first) {
          first = false;
          if (std::string(buffer, size_t(n)).find("terminate=") == std::string::npos && !no_more_cuts_) {
            const size_t c = next_++;
            if (c < cuts_.size()) budget = cuts_[c];
          }
        }
        ok = SendAll(up, buffer, size_t(n));
      }
      if (ok && p[1].revents) {
        const ssize_t received = recv(up, buffer, sizeof(buffer), 0);
        if (received <= 0) break;
        const std::string out = rechunker.Pass(buffer, size_t(received), [&] { return segments_[segment++ % segments_.size()]; });
        const size_t n = out.size();
        size_t pos = 0;
        while (ok && pos < n) {
          size_t piece = std::min<size_t>(segments_[segment++ % segments_.size()], n - pos);
          if (budget >= 0 && !no_more_cuts_) piece = std::min<size_t>(piece, size_t(budget));
          if (piece && !SendAll(fd, out.data() + pos, piece)) {
            ok = false;
            break;
          }
          pos += piece;
          if (budget >= 0 && !no_more_cuts_) {
            budget -= int64_t(piece);
            if (budget <= 0) {
              ++cut_;
              ok = false;
              break;
            }
          }
        }
      }
    }
    shutdown(fd, SHUT_RDWR);
    close(fd);
    shutdown(up, SHUT_RDWR);
    close(up);
  }
  int upstream_, listen_, port_;
  std::vector<int64_t> cuts_;
  std::vector<size_t> segments_;
  const bool rechunk_;
  std::atomic_size_t next_{0}, cut_{0};
  std::atomic_bool stop_{false}, no_more_cuts_{false};
  std::thread thread_;
  std::vector<std::thread> threads_;
};

struct CollectorImpl {
  using EntryResponse = current::ss::EntryResponse;
  using TerminationResponse = current::ss::TerminationResponse;
  std::mutex m;
  std::vector<std::string> lines;
  std::vector<uint64_t> indexes;
  size_t done_after = size_t(-1);
  size_t after_done = 0;
  bool done = false;
  EntryResponse Add(const std::string& line, uint64_t index) {
    std::lock_guard<std::mutex> lock(m);
    if (done) ++after_done;
    lines.push_back(line);
    indexes.push_back(index);
    done = lines.size() >= done_after;
    return done ? EntryResponse::Done : EntryResponse::More;
  }
  EntryResponse operator()(const Either& e, idxts_t current, idxts_t) { return Add(JSON(current) + '\t' + JSON(e), current.index); }
  EntryResponse operator()(const std::string& raw, uint64_t index, idxts_t) { return Add(raw, index); }
  EntryResponse operator()(us_t) {
    std::lock_guard<std::mutex> lock(m);
    if (done) ++after_done;
    return EntryResponse::More;
  }
  EntryResponse EntryResponseIfNoMorePassTypeFilter() const { return EntryResponse::More; }
  TerminationResponse Terminate() const { return TerminationResponse::Terminate; }
  size_t Size() {
    std::lock_guard<std::mutex> lock(m);
    return lines.size();
  }
};
using collector_t = current::ss::StreamSubscriber<CollectorImpl, Either>;

bool WaitFor(const std::function<bool()>& f, int ms = 8000) {
  const auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while (!f()) {
    if (std::chrono::steady_clock::now() > until) return false;
    std::this_thread::sleep_for(us_t(200));
  }
  return true;
}

template <typename LEADER, typename FOLLOWER>
void Replicate(pbt::Src& s, LEADER&& leader, FOLLOWER&& follower) {
  current::time::ResetToZero();
  auto& L = *leader;
  int64_t us = 0;
  auto PublishOne = [&](Either e, bool head_only, int64_t gap) {
    us += 1 + gap;
    if (head_only) {
      L->Publisher()->UpdateHead(us_t(us));
    } else {
      L->Publisher()->Publish(std::move(e), us_t(us));
    }
  };
  const size_t before = s.Len(12);
  for (size_t i = 0; i < before; ++i) PublishOne(GenEntry(s), s.Chance(1, 5), s.Int(0, 100));
  const auto scope = std::make_unique<HTTPRoutesScope>(HTTP(Port()).Register("/leader", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, *L));
  const uint64_t leader_size = L->Data()->Size();
  const uint64_t start = s.Bool() ? 0 : s.Draw(leader_size);
  const bool checked = s.Bool();
  const auto mode = s.Bool() ? SubscriptionMode::Checked : SubscriptionMode::Unchecked;
  const bool replicate = s.Chance(3, 4);
  // A cut within the headers, or within the schema, or within the feed, or no cut.
  std::vector<int64_t> cuts;
  const size_t n_cuts = s.Len(5);
  for (size_t i = 0; i < n_cuts; ++i) {
    cuts.push_back(s.Bool() ? -1 : s.Int(0, 400));
    cuts.push_back(s.Chance(1, 5) ? s.Int(0, 100) : s.Int(200, 900));
  }
  std::vector<size_t> segments;
  const size_t n_segments = 1 + s.Len(4);
  for (size_t i = 0; i < n_segments; ++i) segments.push_back(s.Bool() ? 16384 : 20 + size_t(s.Draw(300)));
  const size_t more = s.Len(10);
  std::vector<Either> later;
  std::vector<uint8_t> head_only, pause;
  std::vector<int64_t> gap;
  for (size_t i = 0; i < more; ++i) {
    later.push_back(GenEntry(s));
    head_only.push_back(s.Chance(1, 5));
    gap.push_back(s.Int(0, 100));
    pause.push_back(uint8_t(s.Draw(3)));
  }
  if (s.Describing()) {
    std::string c;
    for (auto x : cuts) c += " " + std::to_string(x);
    s.Note(std::to_string(before) + " published, follow from " + std::to_string(start) + (checked ? ", checked" : ", unchecked") + (mode == SubscriptionMode::Checked ? ", checked on the server" : "") + ", cuts after" + c + ", then " + std::to_string(more) + " more");
  }
  const bool rechunk = s.Bool();
  s.LabelIf(rechunk, "rechunked");
  Proxy proxy(Port(), cuts, segments, rechunk);
  auto Lead = [&] {
    for (size_t i = 0; i < more; ++i) {
      if (pause[i] == 1) std::this_thread::yield();
      if (pause[i] >= 2) std::this_thread::sleep_for(us_t(pause[i] * 200));
      PublishOne(std::move(later[i]), head_only[i], gap[i]);
    }
  };
  // The first check of the schema is not retried.
  std::unique_ptr<remote_t> remote;
  for (int i = 0; !remote && i < 20; ++i) {
    try {
      remote = std::make_unique<remote_t>("http://localhost:" + std::to_string(proxy.port()) + "/leader");
    } catch (const current::Exception&) {
    }
  }
  s.Check(remote != nullptr, "cannot-connect");
  auto Converged = [&](const std::vector<std::string>& got, const std::vector<std::string>& expected) {
    s.Check(got == expected, "replica", [&] { return "the follower has\n" + Show(got) + "expected\n" + Show(expected); });
  };
  if (replicate) {
    using replicator_t = current::stream::StreamReplicator<std::decay_t<decltype(**follower)>>;
    auto& F = *follower;
    {
      size_t i = 0;
      for (const auto& l : L->Data()->IterateUnsafe()) {
        if (i++ >= start) break;
        F->Publisher()->PublishUnsafe(l);
      }
    }
    const us_t from = s.Bool() ? F->Data()->CurrentHead() + us_t(1) : us_t(0);
    {
      replicator_t replicator(F);
      {
        std::atomic_int done{0};
        auto scope = checked ? static_cast<current::stream::SubscriberScope>(remote->Subscribe(replicator, start, from, mode, [&] { ++done; }))
                             : static_cast<current::stream::SubscriberScope>(remote->SubscribeUnchecked(replicator, start, from, mode, [&] { ++done; }));
        Lead();
        const bool converged = WaitFor([&] { return F->Data()->Size() == L->Data()->Size(); });
        proxy.NoMoreCuts();
        s.Check(converged, "does-not-converge", [&] { return "follower " + std::to_string(F->Data()->Size()) + " of " + std::to_string(L->Data()->Size()) + "\n" + Show(RawLines(F)) + "of\n" + Show(RawLines(L)); });
        scope = nullptr;
        s.Eq(1, done.load(), "done-callback");
      }
    }
    F->BecomeMasterStream();
    Converged(RawLines(F), RawLines(L));
    s.Check(F->Data()->CurrentHead() <= L->Data()->CurrentHead(), "head-ahead");
  } else {
    collector_t collector;
    if (s.Chance(1, 3)) collector.done_after = 1 + s.Draw(6);
    std::atomic_int done{0};
    auto subscription = checked ? static_cast<current::stream::SubscriberScope>(remote->Subscribe(collector, start, us_t(0), mode, [&] { ++done; }))
                                : static_cast<current::stream::SubscriberScope>(remote->SubscribeUnchecked(collector, start, us_t(0), mode, [&] { ++done; }));
    Lead();
    auto expected = RawLines(L);
    expected.erase(expected.begin(), expected.begin() + start);
    if (expected.size() > collector.done_after) expected.resize(collector.done_after);
    const bool all_delivered = WaitFor([&] { return collector.Size() >= expected.size(); });
    proxy.NoMoreCuts();
    s.Check(all_delivered, "not-delivered");
    if (collector.done) s.Check(WaitFor([&] { return done.load() == 1; }), "done-callback");
    subscription = nullptr;
    s.Eq(1, done.load(), "done-callback");
    s.Eq(0u, collector.after_done, "called-after-done");
    Converged(collector.lines, expected);
    for (size_t i = 0; i < collector.indexes.size(); ++i) s.Eq(start + i, collector.indexes[i], "index");
    s.LabelIf(collector.done, "collector is done");
  }
  s.Eq(uint64_t(L->Data()->Size()), remote->GetNumberOfEntries(), "the number of entries of the remote stream");
  s.LabelIf(proxy.cut() > 0, "connections were cut");
  s.LabelIf(proxy.cut() > 2, "3+ connections were cut");
  if (proxy.cut() && L->Data()->Size() >= 3) s.NonTrivial();
}

}  // namespace

PBT_PROP(feed_checked_memory, o.weight = 3) {
  current::time::ResetToZero();
  auto follower = std::make_unique<current::Owned<memory_stream_t>>(memory_stream_t::CreateStream());
  Feed<ReplicationMode::Checked>(s, follower);
}

PBT_PROP(feed_checked_file, o.weight = 3) {
  current::time::ResetToZero();
  auto follower = std::make_unique<current::Owned<file_stream_t>>(file_stream_t::CreateStream(s.Scratch() + "/f"));
  Feed<ReplicationMode::Checked>(s, follower);
}

PBT_PROP(feed_unchecked_memory, o.weight = 2) {
  current::time::ResetToZero();
  auto follower = std::make_unique<current::Owned<memory_stream_t>>(memory_stream_t::CreateStream());
  Feed<ReplicationMode::Unchecked>(s, follower);
}

PBT_PROP(feed_unchecked_file, o.weight = 3) {
  current::time::ResetToZero();
  auto follower = std::make_unique<current::Owned<file_stream_t>>(file_stream_t::CreateStream(s.Scratch() + "/f"));
  Feed<ReplicationMode::Unchecked>(s, follower);
}

PBT_PROP(replicate_file, o.weight = 3; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  auto leader = file_stream_t::CreateStream(s.Scratch() + "/l");
  auto follower = file_stream_t::CreateStream(s.Scratch() + "/f");
  Replicate(s, &leader, &follower);
}

PBT_PROP(replicate_memory, o.weight = 2; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  auto leader = memory_stream_t::CreateStream();
  auto follower = memory_stream_t::CreateStream();
  Replicate(s, &leader, &follower);
}
