// P06: a stream has one writer, and handing it over loses nothing.
#define CURRENT_MOCK_TIME
#include <atomic>
#include <map>
#include <thread>

#include "pbt.h"
#include "httpc.h"

#include "stream/replicator.h"
#include "stream/stream.h"

PBT_CHECK("P06", "exploration",
          "A case is a random history of publishing, borrowing, copying, moving and returning publishers and of becoming a "
          "master or a follower, against a model of who may publish; or a random history of three streams which follow one "
          "another and flip the mastership over loopback HTTP; or a flip request of random parameters against a model of "
          "the restrictions; or a random schedule of borrowers of an owned object as its owner goes away. Non-trivial: at "
          "least two hand-overs with entries published before and after, or at least two borrowers.");

namespace {

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(s, std::string, "");
  CURRENT_DEFAULT_CONSTRUCTOR(Rec) {}
  CURRENT_CONSTRUCTOR(Rec)(const std::string& s) : s(s) {}
};

using us_t = std::chrono::microseconds;
using file_stream_t = current::stream::Stream<Rec, current::persistence::File>;
using memory_stream_t = current::stream::Stream<Rec, current::persistence::Memory>;
using current::stream::PublisherNotAvailableException;

struct Item {
  int64_t us;
  std::string s;
  bool operator==(const Item& o) const { return us == o.us && s == o.s; }
};

template <typename STREAM>
std::vector<Item> Log(const STREAM& stream) {
  std::vector<Item> r;
  for (const auto& e : stream->Data()->Iterate()) r.push_back(Item{us_t(e.idx_ts.us).count(), e.entry.s});
  return r;
}

std::string Show(const std::vector<Item>& v) {
  std::string r;
  for (const auto& i : v) r += " " + std::to_string(i.us) + ":" + pbt::Esc(i.s.substr(0, 20));
  return "[" + r + " ]";
}

// ---- Single-threaded histories of the publisher of one stream.

template <typename STREAM_OWNER>
void History(pbt::Src& s, STREAM_OWNER&& stream) {
  current::time::ResetToZero();
  using stream_t = std::decay_t<decltype(**stream)>;
  using publisher_t = typename stream_t::publisher_t;
  using borrowed_t = current::Borrowed<publisher_t>;
  auto& S = *stream;
  bool master = true;
  // Every borrower holds either the publisher of the stream as a master, or the one given away; all of one generation.
  std::vector<std::unique_ptr<borrowed_t>> held;
  // A borrower which gives the publisher up when asked to.
  struct Graceful {
    int* calls;
    current::BorrowedWithCallback<publisher_t> p;
    Graceful(borrowed_t b, int* calls) : calls(calls), p(std::move(b), [this] { ++*this->calls; p = nullptr; }) {}
  };
  std::vector<std::unique_ptr<Graceful>> graceful;
  int graceful_calls = 0;
  std::vector<Item> log;
  int64_t us = 0;
  size_t handovers = 0;
  bool published_after = false;
  const size_t n = 3 + s.Draw(30);
  auto Note = [&](const std::string& t) {
    if (s.Describing()) s.Note(t);
  };
  auto Publish = [&](auto&& p, const std::string& who) {
    Item i{us + 1 + s.Int(0, 50), s.Utf8(6)};
    const int mode = int(s.Weighted({6, 1, 1}));
    if (mode == 1 && us > 0) {
      // Not after the last one.
      i.us = us - s.Int(0, us - 1);
      Note("publish with a wrong timestamp via " + who);
      bool thrown = false;
      try {
        p->Publish(Rec(i.s), us_t(i.us));
      } catch (const current::ss::InconsistentTimestampException&) {
        thrown = true;
      }
      s.Check(thrown, "inconsistent-timestamp-accepted");
    } else if (mode == 2) {
      us = i.us;
      Note("update the head to " + std::to_string(us) + " via " + who);
      p->UpdateHead(us_t(us));
    } else {
      Note("publish " + std::to_string(i.us) + " via " + who);
      us = i.us;
      const auto r = p->Publish(Rec(i.s), us_t(us));
      s.Eq(log.size(), r.index, "publish-index");
      s.Eq(us, us_t(r.us).count(), "publish-timestamp");
      log.push_back(i);
      if (handovers) published_after = true;
    }
  };
  for (size_t step = 0; step < n; ++step) {
    switch (s.Weighted({4, 4, 3, 2, 2, 2, 2, 3, 3, 1, 1})) {
      case 0: {
        // Via the stream.
        if (master) {
          Publish(S->Publisher(), "the stream");
        } else {
          Note("publish via the stream, which is a follower");
          bool thrown = false;
          try {
            S->Publisher()->Publish(Rec("no"), us_t(us + 1));
          } catch (const PublisherNotAvailableException&) {
            thrown = true;
          }
          s.Check(thrown, "publisher-available");
        }
        break;
      }
      case 1:
        if (!held.empty()) {
          const size_t k = s.Draw(held.size() - 1);
          if (*held[k]) Publish(*held[k], "borrower " + std::to_string(k));
        }
        break;
      case 2: {
        // Borrow.
        Note("borrow");
        bool thrown = false;
        try {
          auto p = S->BorrowPublisher();
          if (s.Bool()) {
            held.push_back(std::make_unique<borrowed_t>(std::move(p)));
          } else {
            graceful.push_back(std::make_unique<Graceful>(std::move(p), &graceful_calls));
          }
        } catch (const PublisherNotAvailableException&) {
          thrown = true;
        }
        s.Eq(!master, thrown, "borrow");
        break;
      }
      case 3:
        if (!held.empty()) {
          const size_t k = s.Draw(held.size() - 1);
          if (*held[k]) {
            Note("copy borrower " + std::to_string(k));
            held.push_back(std::make_unique<borrowed_t>(*held[k]));
          }
        }
        break;
      case 4:
        if (!held.empty()) {
          const size_t k = s.Draw(held.size() - 1);
          if (*held[k]) {
            Note("move borrower " + std::to_string(k));
            held.push_back(std::make_unique<borrowed_t>(std::move(*held[k])));
            s.Check(!*held[k], "moved-from-is-valid");
          }
        }
        break;
      case 5:
        if (held.size() >= 2) {
          const size_t k = s.Draw(held.size() - 1), m = s.Draw(held.size() - 1);
          if (*held[k]) {
            Note("move-assign borrower " + std::to_string(k) + " to borrower " + std::to_string(m));
            *held[m] = std::move(*held[k]);
            s.Check(!!*held[m], "assigned-is-invalid");
          }
        }
        break;
      case 6:
        if (!held.empty()) {
          const size_t k = s.Draw(held.size() - 1);
          Note("return borrower " + std::to_string(k));
          if (s.Bool()) {
            *held[k] = nullptr;
            s.Check(!*held[k], "returned-is-valid");
          }
          held.erase(held.begin() + k);
        }
        break;
      case 7:
      case 8: {
        // A hand-over: whoever has the publisher and does not return it when asked to has to do it first.
        held.clear();
        const int calls_before = graceful_calls;
        size_t to_ask = 0;
        for (const auto& g : graceful) to_ask += !!g->p;
        if (s.Bool()) {
          Note("become a following stream");
          auto p = S->BecomeFollowingStream();
          s.Check(!!p, "given-publisher-is-invalid");
          if (s.Chance(3, 4)) held.push_back(std::make_unique<borrowed_t>(std::move(p)));
          master = false;
        } else {
          Note("become a master stream");
          S->BecomeMasterStream();
          master = true;
        }
        s.Eq(int(to_ask), graceful_calls - calls_before, "asked-to-return");
        for (const auto& g : graceful) s.Check(!g->p, "publisher-kept");
        graceful.clear();
        if (!log.empty()) ++handovers;
        break;
      }
      case 9:
        if (!graceful.empty()) graceful.pop_back();
        break;
      default: {
        // A raw line.
        if (!held.empty() && *held[0]) {
          const int64_t t = us + 1;
          (*held[0])->PublishUnsafe("{\"index\":" + std::to_string(log.size()) + ",\"us\":" + std::to_string(t) + "}\t{\"s\":\"raw\"}");
          us = t;
          log.push_back(Item{t, "raw"});
        }
      }
    }
    s.Eq(master, S->IsMasterStream(), "is-master");
    size_t valid = 0;
    for (const auto& h : held) valid += !!*h;
    for (const auto& g : graceful) valid += !!g->p;
    // One more is kept by the stream if it is the master.
    if (master) {
      s.Eq(valid + 1, S->Publisher().NumberOfActiveBorrowers(), "borrowers");
    } else {
      for (const auto& h : held) {
        if (*h) {
          s.Eq(valid, h->NumberOfActiveBorrowers(), "borrowers");
          break;
        }
      }
    }
  }
  const auto got = Log(S);
  s.Check(got == log, "log", [&] { return "the log is " + Show(got) + ", published " + Show(log); });
  s.Eq(log.size() || us ? (us ? us : -1) : -1, S->Data()->CurrentHead().count(), "head");
  held.clear();
  graceful.clear();
  // `stream` is to be destructed promptly; the engine looks after hangs.
  s.LabelIf(handovers >= 2, "2+ hand-overs");
  s.LabelIf(graceful_calls > 0, "asked to return");
  if (handovers >= 2 && published_after) s.NonTrivial();
}

// ---- Flips of the mastership among three streams.

constexpr size_t N = 3;

int Port(size_t k) {
  static std::vector<int> ports = [] {
    std::vector<int> r;
    for (size_t i = 0; i < N; ++i) {
      auto reserved = current::net::ReserveLocalPort();
      r.push_back(reserved);
      auto& server = HTTP(std::move(reserved));
      static_cast<void>(server);
    }
    return r;
  }();
  return ports[k];
}

std::string URL(size_t k) { return "http://localhost:" + std::to_string(Port(k)) + "/n"; }

// The requests to a port are handled one by one: once this one is replied to, the previous handler has returned.
void Fence(int port) { httpc::Request(port, "GET", "/nothing/is/here"); }

bool WaitFor(const std::function<bool()>& f, int ms = 8000) {
  const auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while (!f()) {
    if (std::chrono::steady_clock::now() > until) return false;
    std::this_thread::sleep_for(us_t(200));
  }
  return true;
}

template <typename STREAM, current::stream::ReplicationMode RM, typename MAKE>
void Flips(pbt::Src& s, MAKE&& make) {
  int64_t now = 1000000;
  current::time::ResetToZero();
  current::time::SetNow(us_t(now), us_t(now + 1000));
  using replicator_t = current::stream::StreamReplicator<STREAM>;
  using controller_t = current::stream::MasterFlipController<STREAM, replicator_t, RM>;
  struct Node {
    std::unique_ptr<controller_t> c;
    uint64_t key = 0;
    int follows = -1;  // Or -1.
    std::atomic_int started{0}, canceled{0}, finished{0};
  };
  std::vector<Item> ledger;
  int64_t us = 0;
  size_t master = 0;
  size_t late = 0;  // To publish as the flip has started.
  Node node[N];
  auto PublishAt = [&](size_t k) {
    us += 1 + s.Int(0, 20);
    Item i{us, s.Utf8(6)};
    const auto r = (*node[k].c)->Publisher()->Publish(Rec(i.s), us_t(us));
    s.Eq(ledger.size(), r.index, "publish-index");
    ledger.push_back(i);
  };
  auto Expose = [&](size_t k) {
    node[k].key = node[k].c->ExposeViaHTTP(
        uint16_t(Port(k)),
        "/n",
        current::stream::MasterFlipRestrictions(),
        [&node, &ledger, &us, &late, k] {
          ++node[k].started;
          // The stream is still the master here.
          while (late) {
            --late;
            us += 3;
            (*node[k].c)->Publisher()->Publish(Rec("late"), us_t(us));
            ledger.push_back(Item{us, "late"});
          }
        },
        nullptr,
        [&node, k] { ++node[k].canceled; });
  };
  auto Note = [&](const std::string& t) {
    if (s.Describing()) s.Note(t);
  };
  for (size_t k = 0; k < N; ++k) {
    node[k].c = std::make_unique<controller_t>(make(k));
    Expose(k);
  }
  const size_t before = s.Len(5);
  for (size_t i = 0; i < before; ++i) PublishAt(0);
  auto Chain = [&](size_t k) {
    std::vector<size_t> r;
    int at = node[k].follows;
    while (at >= 0) {
      r.push_back(size_t(at));
      at = node[size_t(at)].follows;
    }
    return r;
  };
  std::vector<bool> fresh(N, true);
  fresh[0] = false;
  size_t flips = 0, chain_flips = 0;
  const size_t n = 3 + s.Draw(15);
  auto LeadsToMaster = [&](size_t k) {
    const auto chain = Chain(k);
    return !chain.empty() && chain.back() == master;
  };
  for (size_t step = 0; step < n; ++step) {
    switch (s.Weighted({5, 2, 5, 5, 1, 1})) {
      case 0: {
        const size_t more = 1 + s.Draw(3);
        Note("publish " + std::to_string(more) + " at " + std::to_string(master));
        for (size_t i = 0; i < more; ++i) PublishAt(master);
        break;
      }
      case 1:
        us += 1 + s.Int(0, 20);
        Note("update the head at " + std::to_string(master));
        (*node[master].c)->Publisher()->UpdateHead(us_t(us));
        break;
      case 2: {
        // Follow.
        size_t k = s.Draw(N - 1), m = s.Draw(N - 1);
        if (k == master || node[k].follows >= 0) k = (k + 1) % N;
        if (k == master || node[k].follows >= 0) k = (k + 1) % N;
        if (k == m || (m != master && !LeadsToMaster(m))) m = master;
        if (k == m || k == master || node[k].follows >= 0) break;
        const auto chain = Chain(m);
        // Only follow what leads to the master.
        if (m != master && (chain.empty() || chain.back() != master)) break;
        const auto mode = s.Bool() ? current::stream::SubscriptionMode::Checked : current::stream::SubscriptionMode::Unchecked;
        Note(std::to_string(k) + " follows " + std::to_string(m));
        node[k].c->FollowRemoteStream(URL(m), mode);
        node[k].follows = int(m);
        fresh[k] = false;
        bool thrown = false;
        try {
          node[k].c->FollowRemoteStream(URL(m));
        } catch (const current::stream::StreamIsAlreadyFollowingException&) {
          thrown = true;
        }
        s.Check(thrown, "follows-twice");
        break;
      }
      case 3: {
        // Flip.
        size_t k = s.Draw(N - 1);
        if (!LeadsToMaster(k) && !s.Chance(1, 5)) {
          for (size_t i = 0; i < N && !LeadsToMaster(k); ++i) k = (k + 1) % N;
        }
        const bool wrong_key = s.Chance(1, 6);
        const auto chain = Chain(k);
        const uint64_t key = node[master].key + (wrong_key ? 1 : 0);
        bool already_master = false, follows_none = false, refused = false;
        late = s.Chance(1, 4) ? 1 + s.Draw(1) : 0;
        const size_t late_before = late;
        const size_t ledger_before = ledger.size();
        Note(std::to_string(k) + " flips to master" + (wrong_key ? ", with a wrong key" : "") + (late ? ", with late entries" : ""));
        // A middleman which is behind those it serves refuses; it may be for as long as no new entry comes.
        bool behind = false;
        auto Tail = [&](size_t k) { return std::make_pair((*node[k].c)->Data()->CurrentHead().count(), (*node[k].c)->Data()->Size()); };
        auto tail = Tail(k);
        for (size_t c : chain) {
          const auto next = Tail(c);
          if (next.first < tail.first || next.second < tail.second) behind = true;
          tail = next;
        }
        try {
          node[k].c->FlipToMaster(key);
        } catch (const current::stream::StreamIsAlreadyMasterException&) {
          already_master = true;
        } catch (const current::stream::StreamDoesNotFollowAnyoneException&) {
          follows_none = true;
        } catch (const current::stream::RemoteStreamRefusedFlipRequestException&) {
          refused = true;
        }
        for (size_t f = 0; f < N; ++f) Fence(Port(f));
        late = 0;
        if (k == master || fresh[k]) {
          s.Check(already_master, "flip-of-the-master");
        } else if (chain.empty()) {
          s.Check(follows_none, "flip-of-not-following");
        } else if (chain.back() != master) {
          // What leads to a stream which has given its mastership away.
          s.Check(refused, "flip-of-a-non-master");
          s.Eq(ledger_before, ledger.size(), "flip-started-by-non-master");
        } else if (wrong_key) {
          s.Check(refused, "wrong-key-accepted");
          s.Eq(ledger_before, ledger.size(), "flip-started-by-a-wrong-key");
          // Further attempts are blocked for a while.
          now += 1000ll * 1000 * 1000 * 100;
          current::time::SetNow(us_t(now), us_t(now + 1000));
        } else if (refused && behind) {
          s.Label("refused by a middleman which is behind");
          s.Eq(ledger_before, ledger.size(), "flip-started by a refused one");
        } else {
          s.Check(!already_master && !follows_none && !refused, "flip-refused", [&] { return std::string(refused ? "refused" : already_master ? "already master" : "follows none"); });
          if (chain.size() == 1) s.Eq(ledger_before + late_before, ledger.size(), "late entries");
          // The stations on the way give it away as well, and follow no one.
          for (size_t c : chain) node[c].follows = -1;
          node[k].follows = -1;
          s.Check(!node[master].c->IsMasterStream(), "two-masters");
          master = k;
          ++flips;
          if (chain.size() > 1) ++chain_flips;
          // All is here at once.
          const auto got = Log(*node[k].c);
          s.Check(got == ledger, "lost-by-the-flip", [&] { return "the new master has " + Show(got) + "\npublished " + Show(ledger); });
          s.Eq(us ? us : -1, (*node[k].c)->Data()->CurrentHead().count(), "head-of-the-new-master");
        }
        break;
      }
      case 4: {
        const size_t k = s.Draw(N - 1);
        if (k == master || fresh[k]) break;
        Note("publish at " + std::to_string(k) + ", which is not the master");
        bool thrown = false;
        try {
          (*node[k].c)->Publisher()->Publish(Rec("no"), us_t(us + 1000));
        } catch (const PublisherNotAvailableException&) {
          thrown = true;
        }
        s.Check(thrown, "two-writers");
        break;
      }
      default: {
        const size_t k = s.Draw(N - 1);
        bool thrown = false;
        try {
          Expose(k);
        } catch (const current::stream::StreamIsAlreadyExposedException&) {
          thrown = true;
        }
        s.Check(thrown, "exposed-twice");
      }
    }
    for (size_t k = 0; k < N; ++k) s.Eq(k == master || fresh[k], node[k].c->IsMasterStream(), "is-master");
  }
  // Those who follow the master converge; the rest have a prefix.
  for (size_t k = 0; k < N; ++k) {
    const auto chain = Chain(k);
    if (!chain.empty() && chain.back() == master) {
      s.Check(WaitFor([&] { return (*node[k].c)->Data()->Size() == ledger.size(); }), "follower-does-not-converge", [&] { return std::to_string(k) + " has " + Show(Log(*node[k].c)) + ", published " + Show(ledger); });
    }
    const auto got = Log(*node[k].c);
    s.Check(got.size() <= ledger.size() && std::equal(got.begin(), got.end(), ledger.begin()), "diverged", [&] { return std::to_string(k) + " has " + Show(got) + ", published " + Show(ledger); });
  }
  s.Check(Log(*node[master].c) == ledger, "lost-at-the-master");
  // Followers go before those they follow.
  std::vector<size_t> order;
  while (order.size() < N) {
    for (size_t k = 0; k < N; ++k) {
      if (!node[k].c) continue;
      bool followed = false;
      for (size_t m = 0; m < N; ++m) followed |= node[m].c && node[m].follows == int(k);
      if (!followed) {
        node[k].c = nullptr;
        order.push_back(k);
      }
    }
  }
  s.LabelIf(flips >= 2, "2+ flips");
  s.LabelIf(chain_flips > 0, "a flip via a middleman");
  if (flips >= 2 && ledger.size() >= 3) s.NonTrivial();
}

// ---- A flip request against a model of its restrictions.

template <typename MAKE>
void FlipRequest(pbt::Src& s, MAKE&& make) {
  using stream_t = file_stream_t;
  int64_t now = 5000000;
  current::time::ResetToZero();
  current::time::SetNow(us_t(now));
  current::stream::MasterFlipController<stream_t> c(make());
  std::vector<std::pair<int64_t, std::string>> log;
  int64_t head = -1;
  const size_t n = s.Len(8);
  for (size_t i = 0; i < n; ++i) {
    head = std::max<int64_t>(head, 0) + 10 * (1 + s.Int(0, 9));
    if (s.Chance(1, 4)) {
      c->Publisher()->UpdateHead(us_t(head));
    } else {
      const Rec r(s.Ascii(30));
      c->Publisher()->Publish(r, us_t(head));
      log.emplace_back(head, JSON(r));
    }
  }
  int started = 0, canceled = 0;
  current::stream::MasterFlipRestrictions restrictions;
  const uint64_t max_index = s.Chance(1, 3) ? 1 + s.Draw(n) : 0;
  const int64_t max_head = s.Chance(1, 3) ? 1 + s.Int(0, head + 2) : 0;
  const int64_t max_clock = s.Chance(1, 3) ? 1 + s.Int(0, 100) : 0;
  const uint64_t max_size = s.Chance(1, 3) ? 1 + s.Draw(200) : 0;
  restrictions.SetMaxIndexDifference(max_index).SetMaxHeadDifference(us_t(max_head)).SetMaxClockDifference(us_t(max_clock)).SetMaxDiffSize(max_size);
  const uint64_t key = c.ExposeViaHTTP(uint16_t(Port(0)), "/n", restrictions, [&] { ++started; }, nullptr, [&] { ++canceled; });
  bool master = true;
  int64_t blocked_until = 0, delay = 1000000;
  const size_t requests = 1 + s.Len(5);
  size_t flipped = 0;
  for (size_t q = 0; q < requests; ++q) {
    // A prospective master which has the first `have` entries, and the head in between, or one which is confused.
    const uint64_t have = s.Draw(log.size());
    int64_t their_head = have ? log[have - 1].first : -1;
    const int64_t next = have < log.size() ? log[have].first : head + 1;
    if (s.Chance(1, 3) && next - 1 > their_head) their_head = s.Int(their_head, next - 1);
    uint64_t their_next = have;
    if (s.Chance(1, 6)) their_head = s.Int(-1, head + 20);
    if (s.Chance(1, 6)) their_next = s.Draw(log.size() + 2);
    const bool wrong_key = s.Chance(1, 5);
    const bool checked = s.Bool();
    const int64_t skew = s.Chance(1, 2) ? 0 : s.Int(-120, 120);
    const bool with_clock = s.Chance(5, 6), with_head = s.Chance(11, 12), with_key = s.Chance(11, 12);
    if (s.Chance(1, 3)) {
      now += s.Int(0, 5000000);
      current::time::SetNow(us_t(now));
    }
    std::string query = "?x";
    if (their_next) query += "&i=" + std::to_string(their_next - 1);
    if (with_head) query += "&head=" + std::to_string(their_head);
    if (with_key) query += "&key=" + std::to_string(key + (wrong_key ? 1 : 0));
    if (with_clock) query += "&clock=" + std::to_string(now + skew);
    if (checked) query += "&checked";
    if (s.Describing()) s.Note("a log of " + std::to_string(log.size()) + ", head " + std::to_string(head) + ", GET " + query);
    const int started_before = started, canceled_before = canceled;
    const auto r = httpc::Request(Port(0), "GET", "/n/control/flip_to_master" + query);
    Fence(Port(0));
    int expected;
    std::string body;
    bool blocks = false, starts = false;
    // Of the right next index, as their head tells it.
    uint64_t next_by_head = 0;
    while (next_by_head < log.size() && log[next_by_head].first <= their_head) ++next_by_head;
    if (!with_head || !with_key || their_head > head || (their_next && their_next > log.size()) || (!log.empty() && next_by_head != their_next)) {
      expected = 400;
    } else if (!master) {
      expected = 503;
    } else if (now < blocked_until) {
      expected = 400;
    } else if (max_clock && (!with_clock || std::abs(skew) > max_clock)) {
      expected = 400;
    } else if (wrong_key) {
      expected = 400;
      blocks = true;
    } else {
      starts = true;
      expected = 200;
      for (uint64_t i = their_next; i < log.size(); ++i) {
        body += "{\"index\":" + std::to_string(i) + ",\"us\":" + std::to_string(log[i].first) + "}\t" + log[i].second + "\n";
      }
      if (max_index && their_next && log.size() > their_next + max_index) expected = 400;
      if (max_head && head > their_head + max_head) expected = 400;
      if (max_size && body.size() > max_size) expected = 400;
      if (head > their_head && (log.empty() || head > log.back().first)) body += "{\"us\":" + std::to_string(head) + "}\n";
    }
    if (blocks) {
      blocked_until = now + delay;
      delay *= 2;
    }
    auto Ctx = [&] { return "GET " + query + "\nrestrictions: index " + std::to_string(max_index) + ", head " + std::to_string(max_head) + ", clock " + std::to_string(max_clock) + ", size " + std::to_string(max_size) + "\n-> " + r.status_line + "\n" + r.body + "\nexpected " + std::to_string(expected) + "\n" + body; };
    s.Check(r.complete && r.code == expected, "status", Ctx);
    s.Eq(started_before + (starts ? 1 : 0), started, "started");
    s.Eq(canceled_before + (starts && expected != 200 ? 1 : 0), canceled, "canceled");
    if (expected == 200) {
      s.Check(r.body == body, "diff", Ctx);
      master = false;
      ++flipped;
    }
    s.Eq(master, c.IsMasterStream(), "is-master");
    bool published = true;
    const int64_t t = std::max<int64_t>(head, 0) + 7;
    try {
      c->Publisher()->Publish(Rec("after"), us_t(t));
    } catch (const PublisherNotAvailableException&) {
      published = false;
    }
    s.Eq(master, published, "published");
    if (published) {
      head = t;
      log.emplace_back(t, "{\"s\":\"after\"}");
    }
    s.Eq(log.size(), c->Data()->Size(), "size");
  }
  s.LabelIf(flipped > 0, "flipped");
  if (flipped && log.size() >= 3) s.NonTrivial();
}

// ---- Owners and borrowers in threads.

struct Canary {
  std::atomic_int* alive;
  std::atomic_int* users;
  std::atomic_bool* died_in_use;
  std::string text = "a string long enough to live on the heap, for the sanitizer to see";
  Canary(std::atomic_int* alive, std::atomic_int* users, std::atomic_bool* died) : alive(alive), users(users), died_in_use(died) { ++*alive; }
  ~Canary() {
    if (*users) *died_in_use = true;
    --*alive;
  }
};

void Owners(pbt::Src& s) {
  std::atomic_int alive{0}, users{0}, callbacks{0};
  std::atomic_bool died{false}, saw_invalid{false};
  const size_t threads = 1 + s.Len(5);
  struct Plan {
    int kind;
    unsigned spins;
    std::vector<uint8_t> ops;
  };
  std::vector<Plan> plans(threads);
  for (auto& p : plans) {
    p.kind = int(s.Weighted({3, 2}));
    p.spins = unsigned(s.Draw(200));
    const size_t n = s.Len(10);
    for (size_t i = 0; i < n; ++i) p.ops.push_back(uint8_t(s.Draw(4)));
  }
  const unsigned wait_us = unsigned(s.Chance(1, 3) ? 0 : s.Draw(400));
  const bool move_owner = s.Chance(1, 4);
  if (s.Describing()) s.Note(std::to_string(threads) + " borrowers, the owner goes after " + std::to_string(wait_us) + " us");
  std::vector<std::thread> t;
  size_t with_callbacks = 0;
  {
    auto owned = std::make_unique<current::Owned<Canary>>(current::MakeOwned<Canary>(&alive, &users, &died));
    if (move_owner) owned = std::make_unique<current::Owned<Canary>>(std::move(*owned));
    for (auto& plan : plans) {
      with_callbacks += plan.kind == 1;
      if (plan.kind == 0) {
        ++users;
        t.emplace_back([&, b = current::Borrowed<Canary>(*owned)]() mutable {
          {
            current::Borrowed<Canary> mine(std::move(b));
            // Works for as long as it is not asked to stop, and then some.
            for (uint8_t op : plan.ops) {
              if (op == 0) {
                current::Borrowed<Canary> copy(mine);
                mine = std::move(copy);
              } else if (op == 1) {
                current::Borrowed<Canary> moved(std::move(mine));
                mine = std::move(moved);
              } else if (op == 2) {
                std::this_thread::yield();
              } else if (op == 3) {
                if (mine->text.size() < 10) abort();
              } else {
                current::Borrowed<Canary> copy(mine);
                if (copy->alive->load() != 1) died = true;
              }
            }
            for (unsigned i = 0; i < plan.spins; ++i) {
              if (!mine) saw_invalid = true;
              if ((*mine).text[0] != 'a') abort();
            }
            --users;
          }
        });
      } else {
        // Asked by a callback, and stops on its own as well.
        struct State {
          std::atomic_bool stop{false};
          std::unique_ptr<current::BorrowedWithCallback<Canary>> b;
        };
        auto state = std::make_shared<State>();
        ++users;
        state->b = std::make_unique<current::BorrowedWithCallback<Canary>>(*owned, [state = state.get(), &callbacks] {
          ++callbacks;
          state->stop = true;
        });
        t.emplace_back([&, state]() {
          while (!state->stop) {
            if ((*state->b)->text[0] != 'a') abort();
            std::this_thread::yield();
          }
          for (unsigned i = 0; i < plan.spins; ++i) {
            if ((*state->b)->text[0] != 'a') abort();
          }
          --users;
          state->b = nullptr;
        });
      }
    }
    if (wait_us) std::this_thread::sleep_for(us_t(wait_us));
    owned = nullptr;
    s.Eq(0, alive.load(), "not-destructed");
    s.Check(!died, "destructed-in-use");
  }
  s.Eq(0, users.load(), "released-before-its-users");
  for (auto& x : t) x.join();
  s.Eq(int(with_callbacks), callbacks.load(), "callbacks");
  s.LabelIf(saw_invalid, "a borrower outlived the request to stop");
  if (threads >= 2) s.NonTrivial();
}

}  // namespace

PBT_PROP(history_memory, o.weight = 2; o.hang_s = 10; o.hang_is_violation = true) {
  auto stream = std::make_unique<current::Owned<memory_stream_t>>(memory_stream_t::CreateStream());
  History(s, stream);
}

PBT_PROP(history_file, o.weight = 2; o.hang_s = 10; o.hang_is_violation = true) {
  auto stream = std::make_unique<current::Owned<file_stream_t>>(file_stream_t::CreateStream(s.Scratch() + "/f"));
  History(s, stream);
}

PBT_PROP(flips, o.weight = 3; o.hang_s = 30; o.hang_is_violation = true; o.schedule = true) {
  const std::string dir = s.Scratch();
  Flips<file_stream_t, current::stream::ReplicationMode::Checked>(s, [&](size_t k) { return file_stream_t::CreateStream(dir + "/f" + std::to_string(k)); });
}

PBT_PROP(flips_unchecked, o.weight = 3; o.hang_s = 30; o.hang_is_violation = true; o.schedule = true) {
  Flips<memory_stream_t, current::stream::ReplicationMode::Unchecked>(s, [&](size_t) { return memory_stream_t::CreateStream(); });
}

PBT_PROP(flip_request, o.weight = 2; o.hang_s = 10; o.hang_is_violation = true) {
  const std::string dir = s.Scratch();
  FlipRequest(s, [&] { return file_stream_t::CreateStream(dir + "/f"); });
}

PBT_PROP(owners, o.weight = 3; o.hang_s = 10; o.hang_is_violation = true; o.schedule = true) { Owners(s); }

PBT_PROBE(borrower_gone_by_then, "a callback is only called for a borrower which is still there") {
  auto owned = std::make_unique<current::Owned<int>>(current::MakeOwned<int>(1));
  std::unique_ptr<current::BorrowedWithCallback<int>> first, second;
  bool second_called = false;
  first = std::make_unique<current::BorrowedWithCallback<int>>(*owned, [&] {
    second = nullptr;
    first = nullptr;
  });
  second = std::make_unique<current::BorrowedWithCallback<int>>(*owned, [&] {
    second_called = true;
    second = nullptr;
  });
  owned = nullptr;
  s.Check(!second_called, "callback-of-a-gone-borrower");
}

PBT_PROBE(publishing_while_handed_over, "a stream can take its publisher back from a thread which is about to publish its last entry") {
  // The borrower looks whether it has to give up, as it should, and is asked to in between of that and the publishing.
  current::time::ResetToZero();
  const std::string dir = s.Scratch();
  auto stream = file_stream_t::CreateStream(dir + "/f");
  struct Shared {
    std::atomic_bool done{false};
  };
  auto shared = std::make_shared<Shared>();
  std::thread t([shared, p = stream->BorrowPublisher()]() mutable {
    while (p) std::this_thread::yield();
    p->Publish(Rec("last"), us_t(1));
    p = nullptr;
  });
  std::thread watchdog([shared] {
    for (int i = 0; i < 300 && !shared->done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    if (!shared->done) _exit(77);
  });
  stream->BecomeMasterStream();
  shared->done = true;
  t.join();
  watchdog.join();
}
