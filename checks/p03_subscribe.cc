// P03: subscriptions deliver every entry exactly once, in order, until they end.
#include <atomic>
#include <thread>

#include "pbt.h"

#include "stream/stream.h"

PBT_CHECK("P03", "exploration",
          "A case is a random concurrent history: one to three publishers (default or explicit timestamps, parsed "
          "entries, head updates, pauses), up to five subscribers (parsed, raw or filtered to one case of a variant; "
          "random starting index, speed and way of ending: done after k entries, Terminate, Terminate answered by Wait, "
          "cancelled while publishing, destroyed stream) over an in-memory or file stream. Non-trivial: at least one "
          "subscriber received at least three entries and at least two parties ran concurrently.");

namespace {

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(s, std::string, "");
  CURRENT_FIELD(n, int64_t, 0);
};
CURRENT_STRUCT(Other) {
  CURRENT_FIELD(v, (std::vector<int32_t>));
};
CURRENT_VARIANT(Either, Rec, Other);

using us_t = std::chrono::microseconds;
using current::ss::EntryResponse;
using current::ss::TerminationResponse;

template <typename E>
Either AsEither(const E& e) {
  return Either(e);
}

struct Event {
  char kind;  // 'e' parsed, 'r' raw, 'h' head, 'f' asked at the end of the filter, 't' terminate.
  uint64_t index = 0;
  int64_t us = 0;
  uint64_t last_index = 0;
  int64_t last_us = 0;
  std::string data;
};

struct State {
  std::mutex m;
  std::vector<Event> events;
  size_t entries = 0;
  size_t done_after = size_t(-1);
  bool wait_on_terminate = false;
  bool done_on_filter_end = false;
  bool ended = false;       // Said Done, or Terminate was answered with Terminate.
  size_t after_end = 0;     // Calls made after that.
  size_t terminates = 0;
  std::atomic_int in_call{0};
  bool overlapping = false;
  unsigned slow = 0;
  int filter = 0;
  std::vector<uint8_t> pauses;
  size_t pause_at = 0;
  std::atomic_int done_callbacks{0};

  struct Call {
    State& s;
    Call(State& s) : s(s) {
      if (s.in_call++) s.overlapping = true;
    }
    ~Call() { --s.in_call; }
  };
  void Pause() {
    if (pauses.empty()) return;
    const uint8_t p = pauses[pause_at++ % pauses.size()];
    if (p == 1) std::this_thread::yield();
    if (p >= 2) std::this_thread::sleep_for(us_t(p * 40));
  }
  EntryResponse Add(Event e) {
    Call c(*this);
    Pause();
    std::lock_guard<std::mutex> lock(m);
    if (ended) ++after_end;
    events.push_back(std::move(e));
    if (++entries >= done_after) {
      ended = true;
      return EntryResponse::Done;
    }
    return EntryResponse::More;
  }
  EntryResponse Head(us_t us) {
    Call c(*this);
    std::lock_guard<std::mutex> lock(m);
    if (ended) ++after_end;
    events.push_back({'h', 0, us.count(), 0, 0, ""});
    return EntryResponse::More;
  }
  EntryResponse FilterEnd() {
    Call c(*this);
    std::lock_guard<std::mutex> lock(m);
    if (ended) ++after_end;
    events.push_back({'f', 0, 0, 0, 0, ""});
    if (done_on_filter_end) {
      ended = true;
      return EntryResponse::Done;
    }
    return EntryResponse::More;
  }
  TerminationResponse Term() {
    Call c(*this);
    std::lock_guard<std::mutex> lock(m);
    if (ended) ++after_end;
    ++terminates;
    events.push_back({'t', 0, 0, 0, 0, ""});
    if (wait_on_terminate) return TerminationResponse::Wait;
    ended = true;
    return TerminationResponse::Terminate;
  }
};

template <typename E>
struct SubImpl {
  State& state;
  explicit SubImpl(State& state) : state(state) {}
  EntryResponse operator()(const E& e, idxts_t current, idxts_t last) {
    return state.Add({'e', current.index, current.us.count(), last.index, last.us.count(), JSON(AsEither(e))});
  }
  EntryResponse operator()(const std::string& raw, uint64_t index, idxts_t last) {
    return state.Add({'r', index, 0, last.index, last.us.count(), raw});
  }
  EntryResponse operator()(us_t us) { return state.Head(us); }
  EntryResponse EntryResponseIfNoMorePassTypeFilter() const { return state.FilterEnd(); }
  TerminationResponse Terminate() { return state.Term(); }
};
template <typename E>
using Sub = current::ss::StreamSubscriber<SubImpl<E>, E>;

struct Published {
  uint64_t index;
  int64_t us;
  std::string json;
};

enum class Ending { DoneAfter, CancelLate, CancelMidway, TerminateWait, StreamGone, FilterDone };

struct SubPlan {
  int filter;  // 0: parsed, 1: raw, 2: Rec only, 3: Other only.
  uint64_t begin;
  Ending ending;
  unsigned start_delay;
  unsigned cancel_delay;
  std::unique_ptr<State> state;
  std::unique_ptr<Sub<Either>> sub_all;
  std::unique_ptr<Sub<Rec>> sub_rec;
  std::unique_ptr<Sub<Other>> sub_other;
  current::stream::SubscriberScope scope;
};

void Delay(unsigned d) {
  if (d == 1) std::this_thread::yield();
  if (d > 1) std::this_thread::sleep_for(us_t(d * 60));
}

template <typename STREAM, typename MAKE>
void Run(pbt::Src& s, MAKE&& make, bool persisted) {
  struct Op {
    int kind;  // 0: publish, 1: head.
    Either e;
    unsigned delay;
  };
  const bool explicit_us = s.Chance(1, 3);
  const bool before = s.Chance(1, 2);  // Some entries are there before anyone subscribes.
  auto GenEntry = [&]() -> Either {
    if (s.Chance(2, 5)) {
      Other o;
      const size_t n = s.Len(3);
      for (size_t i = 0; i < n; ++i) o.v.push_back(int32_t(s.Int(-5, 5)));
      return Either(o);
    }
    Rec r;
    r.s = s.Utf8(8);
    r.n = s.Int(0, 1000);
    return Either(r);
  };
  const size_t n_pub = 1 + s.Draw(2);
  std::vector<std::vector<Op>> scripts(n_pub);
  std::vector<Either> initial;
  if (before) {
    const size_t n = 1 + s.Draw(9);
    for (size_t i = 0; i < n; ++i) initial.push_back(GenEntry());
  }
  size_t planned = initial.size();
  for (auto& script : scripts) {
    const size_t n = s.Draw(12);
    for (size_t i = 0; i < n; ++i) {
      Op op;
      op.kind = s.Chance(1, 5) ? 1 : 0;
      if (op.kind == 0) {
        op.e = GenEntry();
        ++planned;
      }
      op.delay = unsigned(s.Weighted({6, 3, 1, 1, 1}));
      script.push_back(std::move(op));
    }
  }
  const bool end_with_head = s.Chance(1, 3);
  const size_t n_sub = 1 + s.Draw(4);
  auto stream_holder = std::make_unique<current::Owned<STREAM>>(make());
  current::Owned<STREAM>& stream = *stream_holder;
  std::vector<SubPlan> subs(n_sub);
  // When a check fails midway, let go of everything.
  const auto release = current::MakeScopeGuard([&]() {
    for (auto& p : subs) {
      if (p.state) {
        std::lock_guard<std::mutex> lock(p.state->m);
        p.state->wait_on_terminate = false;
        p.state->done_after = 0;
      }
    }
  });
  bool stream_gone = false;
  for (auto& p : subs) {
    p.filter = int(s.Draw(3));
    p.begin = s.Chance(1, 3) ? 0 : s.Draw(planned + 2);
    p.state = std::make_unique<State>();
    p.ending = Ending(s.Weighted({3, 3, 3, 2, 2, 1}));
    if (p.ending == Ending::TerminateWait && (p.filter >= 2 || explicit_us || p.begin >= planned)) p.ending = Ending::CancelLate;
    if (p.ending == Ending::FilterDone && p.filter < 2) p.ending = Ending::CancelMidway;
    p.start_delay = unsigned(s.Weighted({4, 2, 1, 1, 1, 1}));
    p.cancel_delay = unsigned(s.Weighted({4, 2, 1, 1, 1, 1, 1, 1}));
    if (p.ending == Ending::DoneAfter) p.state->done_after = 1 + s.Draw(planned + 1);
    if (p.ending == Ending::TerminateWait) {
      p.state->wait_on_terminate = true;
      p.state->done_after = 1 + s.Draw(planned - p.begin - 1);
    }
    p.state->done_on_filter_end = p.ending == Ending::FilterDone;
    const size_t np = s.Draw(3);
    for (size_t i = 0; i < np; ++i) p.state->pauses.push_back(uint8_t(s.Weighted({4, 2, 1, 1})));
    if (p.ending == Ending::StreamGone) stream_gone = true;
    if (s.Describing()) {
      s.Note("subscriber: " + std::string(p.filter == 0 ? "parsed" : p.filter == 1 ? "raw" : p.filter == 2 ? "case 1" : "case 2") + " from " + std::to_string(p.begin) +
             " ending " + std::to_string(int(p.ending)) + " done_after=" + std::to_string(int64_t(p.state->done_after)));
    }
  }
  if (s.Describing()) {
    s.Note(std::string(persisted ? "file" : "memory") + (explicit_us ? ", explicit timestamps" : ", default timestamps") + ", initial entries " + std::to_string(initial.size()));
    for (size_t i = 0; i < n_pub; ++i) {
      std::string line = "publisher " + std::to_string(i) + ":";
      for (const auto& op : scripts[i]) line += op.kind ? " head" : " publish";
      s.Note(line);
    }
  }

  std::vector<Published> log;
  std::mutex log_mutex;
  std::atomic<int64_t> clock{1};
  std::atomic<int64_t> max_head{-1};
  std::string error;
  auto Note = [&](int64_t us) {
    int64_t x = max_head;
    while (x < us && !max_head.compare_exchange_weak(x, us)) {
    }
  };
  auto Publish = [&](const Either& e) {
    try {
      idxts_t r;
      if (explicit_us) {
        const int64_t us = clock += 3;
        std::this_thread::yield();
        r = stream->Publisher()->Publish(e, us_t(us));
        if (r.us.count() != us) error = "the returned timestamp is not the given one";
      } else {
        r = stream->Publisher()->Publish(e);
      }
      Note(r.us.count());
      std::lock_guard<std::mutex> lock(log_mutex);
      log.push_back({r.index, r.us.count(), JSON(e)});
    } catch (const current::ss::InconsistentTimestampException&) {
      if (!explicit_us) error = "a default-timestamp publish was rejected";
    }
  };
  auto Head = [&]() {
    try {
      if (explicit_us) {
        const int64_t us = clock += 2;
        stream->Publisher()->UpdateHead(us_t(us));
        Note(us);
      } else {
        stream->Publisher()->UpdateHead();
      }
    } catch (const current::ss::InconsistentTimestampException&) {
      if (!explicit_us) error = "a default-timestamp head update was rejected";
    }
  };
  for (const auto& e : initial) Publish(e);

  std::vector<std::thread> threads;
  for (size_t i = 0; i < n_pub; ++i) {
    threads.emplace_back([&, i]() {
      for (const auto& op : scripts[i]) {
        Delay(op.delay);
        op.kind == 0 ? Publish(op.e) : Head();
      }
    });
  }
  // Subscribers join and some leave while the publishers run.
  for (auto& p : subs) {
    Delay(p.start_delay);
    State* st = p.state.get();
    const auto done = [st]() { ++st->done_callbacks; };
    if (p.filter == 0) {
      p.sub_all = std::make_unique<Sub<Either>>(*st);
      p.scope = stream->Subscribe(*p.sub_all, p.begin, us_t(0), done);
    } else if (p.filter == 1) {
      p.sub_all = std::make_unique<Sub<Either>>(*st);
      p.scope = stream->SubscribeUnchecked(*p.sub_all, p.begin, us_t(0), done);
    } else if (p.filter == 2) {
      p.sub_rec = std::make_unique<Sub<Rec>>(*st);
      p.scope = stream->template Subscribe<Rec>(*p.sub_rec, p.begin, us_t(0), done);
    } else {
      p.sub_other = std::make_unique<Sub<Other>>(*st);
      p.scope = stream->template Subscribe<Other>(*p.sub_other, p.begin, us_t(0), done);
    }
  }
  for (auto& p : subs) {
    if (p.ending == Ending::CancelMidway) {
      Delay(p.cancel_delay);
      p.scope = nullptr;
      // Cancelled: nothing may come after this point.
      std::lock_guard<std::mutex> lock(p.state->m);
      p.state->ended = true;
    }
  }
  for (auto& t : threads) t.join();
  if (end_with_head) Head();
  s.Check(error.empty(), "publishing", [&] { return error; });

  // The log itself.
  std::sort(log.begin(), log.end(), [](const Published& a, const Published& b) { return a.index < b.index; });
  s.Eq(log.size(), size_t(stream->Data()->Size()), "log-size");
  {
    size_t i = 0;
    for (const auto& e : stream->Data()->Iterate()) {
      s.Check(i < log.size(), "log-longer");
      s.Check(log[i].index == i && e.idx_ts.index == i && e.idx_ts.us.count() == log[i].us && JSON(e.entry) == log[i].json, "log-differs", [&] {
        return "entry " + std::to_string(i) + ": published as " + std::to_string(log[i].index) + "@" + std::to_string(log[i].us) + " " + log[i].json + ", read as " +
               std::to_string(e.idx_ts.index) + "@" + std::to_string(e.idx_ts.us.count()) + " " + JSON(e.entry);
      });
      s.Check(i == 0 || log[i - 1].us < log[i].us, "log-order");
      ++i;
    }
  }
  const int64_t final_head = stream->Data()->CurrentHead().count();
  // What a subscriber is to receive.
  auto Expected = [&](const SubPlan& p) {
    std::vector<const Published*> r;
    for (const auto& e : log) {
      if (e.index < p.begin) continue;
      const bool is_rec = e.json.find("{\"Rec\":") == 0;
      if (p.filter == 2 && !is_rec) continue;
      if (p.filter == 3 && is_rec) continue;
      r.push_back(&e);
    }
    return r;
  };
  // Everything is delivered, without further publishing.
  const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(12);
  for (auto& p : subs) {
    if (p.ending == Ending::CancelMidway || p.ending == Ending::FilterDone) continue;
    const size_t want = std::min(Expected(p).size(), p.state->done_after);
    while (true) {
      {
        std::lock_guard<std::mutex> lock(p.state->m);
        if (p.state->entries >= want) break;
      }
      s.Check(std::chrono::steady_clock::now() < deadline, "not-delivered", [&] {
        return "subscriber from " + std::to_string(p.begin) + " has " + std::to_string(p.state->entries) + " of " + std::to_string(want) + " entries long after the publishing ended";
      });
      std::this_thread::sleep_for(us_t(50));
    }
  }
  // And they end: by themselves, ...
  for (auto& p : subs) {
    const bool self = p.ending == Ending::DoneAfter && Expected(p).size() >= p.state->done_after;
    if (self) {
      while (p.state->done_callbacks == 0) {
        s.Check(std::chrono::steady_clock::now() < deadline, "does-not-end");
        std::this_thread::sleep_for(us_t(50));
      }
    }
  }
  // ... by their scopes, ...
  for (auto& p : subs) {
    if (p.ending != Ending::StreamGone) {
      if (s.Bool()) {
        current::stream::SubscriberScope moved(std::move(p.scope));
      } else {
        p.scope = nullptr;
      }
      s.Eq(1, p.state->done_callbacks.load(), "done-callback-after-cancel");
    }
  }
  // ... or with the stream.
  if (stream_gone) {
    std::atomic_bool gone{false};
    std::thread destroyer([&]() {
      stream_holder = nullptr;
      gone = true;
    });
    bool late = false;
    for (auto& p : subs) {
      if (p.ending == Ending::StreamGone) {
        while (p.state->done_callbacks == 0 && !late) {
          late = std::chrono::steady_clock::now() > deadline + std::chrono::seconds(5);
          std::this_thread::sleep_for(us_t(50));
        }
        if (late) break;
        p.scope = nullptr;
      }
    }
    if (late) {
      destroyer.detach();
      s.Fail("stream-destruction", "a subscriber was not ended by the destruction of the stream");
    }
    destroyer.join();
    s.Check(gone, "stream-destroyed");
  }

  size_t most = 0;
  for (auto& p : subs) {
    State& st = *p.state;
    std::lock_guard<std::mutex> lock(st.m);
    auto Where = [&] {
      std::string r = "subscriber from " + std::to_string(p.begin) + ", filter " + std::to_string(p.filter) + ", ending " + std::to_string(int(p.ending)) + ":\n";
      for (const auto& e : st.events) {
        r += std::string(1, e.kind) + " " + std::to_string(e.index) + "@" + std::to_string(e.us) + " last " + std::to_string(e.last_index) + "@" + std::to_string(e.last_us) + " " + e.data + "\n";
      }
      return r + "log size " + std::to_string(log.size());
    };
    s.Check(st.done_callbacks == 1, "done-callback-once", [&] { return std::to_string(st.done_callbacks.load()) + " calls; " + Where(); });
    s.Check(!st.overlapping, "overlapping-calls", Where);
    s.Check(st.after_end == 0, "call-after-the-end", Where);
    s.Check(st.terminates <= 1, "terminate-twice", Where);
    const auto expected = Expected(p);
    size_t k = 0;
    int64_t told = -1, last_index = -1;
    for (const auto& e : st.events) {
      if (e.kind == 'e' || e.kind == 'r') {
        s.Check(k < expected.size(), "extra-entry", Where);
        const Published& x = *expected[k];
        s.Check(e.index == x.index, "wrong-index", Where);
        if (e.kind == 'e') {
          s.Check(e.us == x.us && e.data == x.json, "wrong-entry", Where);
        } else {
          const std::string raw = "{\"index\":" + std::to_string(x.index) + ",\"us\":" + std::to_string(x.us) + "}\t" + x.json;
          s.Check(e.data == raw, "wrong-raw-entry", Where);
        }
        s.Check(x.us > told, "entry-behind-the-head", Where);
        s.Check(e.last_index >= e.index && e.last_index < log.size() && int64_t(e.last_index) >= last_index && log[e.last_index].us == e.last_us, "untrue-last", Where);
        last_index = int64_t(e.last_index);
        told = x.us;
        ++k;
      } else if (e.kind == 'h') {
        s.Check(e.us > told, "head-repeated", Where);
        s.Check(e.us <= final_head, "head-from-the-future", Where);
        // Every entry at or before the head told has been delivered.
        s.Check(k >= expected.size() || expected[k]->us > e.us, "head-ahead-of-entries", Where);
        told = e.us;
      }
    }
    if (p.ending != Ending::CancelMidway && p.ending != Ending::FilterDone) {
      s.Check(k == std::min(expected.size(), st.done_after), "missing-entries", Where);
    }
    if (p.ending == Ending::FilterDone) {
      // Asked only when an entry which is the last one is filtered out.
      for (const auto& e : st.events) {
        if (e.kind == 'f') s.Label("ended at the end of the filter");
      }
    }
    most = std::max(most, k);
  }
  s.LabelIf(persisted, "file");
  s.LabelIf(!persisted, "memory");
  s.LabelIf(stream_gone, "stream destroyed under subscribers");
  s.LabelIf(n_pub > 1, "concurrent publishers");
  if (most >= 3 && n_pub + n_sub >= 2) s.NonTrivial();
}

}  // namespace

PBT_PROP(memory, o.schedule = true; o.hang_is_violation = true; o.hang_s = 40) {
  using stream_t = current::stream::Stream<Either, current::persistence::Memory>;
  Run<stream_t>(s, [] { return stream_t::CreateStream(); }, false);
}

PBT_PROP(file, o.schedule = true; o.hang_is_violation = true; o.hang_s = 40) {
  using stream_t = current::stream::Stream<Either, current::persistence::File>;
  const std::string fn = s.Scratch() + "/log";
  Run<stream_t>(s, [&] { return stream_t::CreateStream(fn); }, true);
}
