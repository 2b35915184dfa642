// P28: queues deliver every message once, in order.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

#include "blocks/mmq/mmq.h"
#include "blocks/mmq/mmpq.h"

PBT_CHECK("P28", "exploration",
          "A case is a queue with a buffer of one to five messages, up to four publishers with random bursts and pauses, "
          "by copy or by move, with default or explicit timestamps, and a consumer which is fast, slow, or gated; the queue "
          "is destroyed right after the last message is published, or later. For the priority queue, messages at random "
          "timestamps, equal ones included, with head updates in between. Non-trivial: at least three messages were "
          "delivered, and either the buffer was full at some point, or the order differed from the order of publishing, "
          "or at least two publishers took part.");

namespace {

using current::ss::EntryResponse;
using us_t = std::chrono::microseconds;

struct Got {
  std::string message;
  uint64_t index;
  int64_t us;
  uint64_t last_index;
  int64_t last_us;
};

struct Sink {
  std::vector<Got> got;
  std::vector<uint8_t> pauses;
  bool steal = false;  // Accept by rvalue reference, and take the message away.
  std::atomic_bool gated{false};
  std::atomic_uint64_t allowed{0};
  std::atomic_uint64_t begun{0};
  std::atomic_uint64_t completed{0};
  std::atomic_int inside{0};
  std::atomic_bool overlapped{false};

  void Pause(size_t i) {
    if (!pauses.empty()) {
      const uint8_t p = pauses[i % pauses.size()];
      if (p == 1) std::this_thread::yield();
      if (p >= 2) std::this_thread::sleep_for(us_t(p * 30));
    }
  }

  EntryResponse Take(std::string m, idxts_t current, idxts_t last) {
    if (inside++) overlapped = true;
    const uint64_t i = begun++;
    got.push_back(Got{std::move(m), current.index, current.us.count(), last.index, last.us.count()});
    Pause(i);
    while (gated && i >= allowed) {
      std::this_thread::sleep_for(us_t(20));
    }
    ++completed;
    --inside;
    return EntryResponse::More;
  }
};

struct ConsumerImpl {
  Sink& sink;
  explicit ConsumerImpl(Sink& sink) : sink(sink) {}
  EntryResponse operator()(const std::string& s, idxts_t current, idxts_t last) { return sink.Take(s, current, last); }
  EntryResponse operator()(std::string&& s, idxts_t current, idxts_t last) {
    return sink.Take(std::move(s), current, last);
  }
};
using Consumer = current::ss::EntrySubscriber<ConsumerImpl, std::string>;

using Blocking = current::mmq::MMQ<std::string, Consumer, 1024, false>;
using Dropping = current::mmq::MMQ<std::string, Consumer, 1024, true>;
using Priority = current::mmq::MMPQ<std::string, Consumer>;

std::string Message(size_t publisher, size_t i) {
  // Long enough to live on the heap.
  return "p" + std::to_string(publisher) + ":" + std::to_string(i) + ":" + std::string(20 + i % 7, char('a' + publisher));
}

std::vector<uint8_t> Pauses(pbt::Src& s) {
  std::vector<uint8_t> v(s.Len(6));
  for (auto& p : v) p = uint8_t(s.Weighted({3, 2, 1, 1}));
  return v;
}

struct Publisher {
  size_t n;
  std::vector<uint8_t> pauses;
  std::vector<uint8_t> by_copy;
  std::vector<idxts_t> returned;
  bool source_spoiled = false;

  template <typename Q>
  void Run(Q& q, size_t me) {
    for (size_t i = 0; i < n; ++i) {
      if (!pauses.empty()) {
        const uint8_t p = pauses[i % pauses.size()];
        if (p == 1) std::this_thread::yield();
        if (p >= 2) std::this_thread::sleep_for(us_t(p * 25));
      }
      if (!by_copy.empty() && by_copy[i % by_copy.size()]) {
        const std::string m = Message(me, i);
        returned.push_back(q.Publish(m));
        if (m != Message(me, i)) source_spoiled = true;
      } else {
        returned.push_back(q.Publish(Message(me, i)));
      }
    }
  }
};

std::vector<Publisher> Publishers(pbt::Src& s, size_t max_n) {
  std::vector<Publisher> v(s.Size(1, 4));
  for (auto& p : v) {
    p.n = s.Len(max_n);
    p.pauses = Pauses(s);
    p.by_copy.resize(s.Len(3));
    for (auto& c : p.by_copy) c = uint8_t(s.Bool());
    if (s.Describing()) s.Note("publisher of " + std::to_string(p.n) + ", paces " + std::to_string(p.pauses.size()));
  }
  return v;
}

// What must hold for both kinds of the plain queue, given which messages have been accepted.
void CheckDelivery(pbt::Src& s, const Sink& sink, const std::vector<Publisher>& publishers) {
  s.Check(!sink.overlapped, "the consumer is called while inside another call");
  std::vector<std::pair<std::string, idxts_t>> accepted;
  for (size_t p = 0; p < publishers.size(); ++p) {
    s.Check(!publishers[p].source_spoiled, "publishing by a const reference changes the message");
    uint64_t previous = 0;
    for (size_t i = 0; i < publishers[p].returned.size(); ++i) {
      const auto r = publishers[p].returned[i];
      if (r.index) {
        accepted.emplace_back(Message(p, i), r);
        s.Check(r.index > previous, "the messages of one publisher are out of order");
        previous = r.index;
      }
    }
  }
  std::sort(accepted.begin(), accepted.end(), [](const auto& a, const auto& b) { return a.second.index < b.second.index; });
  if (accepted.size() != sink.got.size()) {
    std::ostringstream os;
    os << accepted.size() << " accepted, " << sink.got.size() << " delivered";
    s.Fail("the number of messages delivered is not the number accepted", os.str());
  }
  int64_t us = -1;
  for (size_t i = 0; i < accepted.size(); ++i) {
    const auto& g = sink.got[i];
    s.Eq(accepted[i].first, g.message, "another message is delivered");
    s.Eq(uint64_t(i + 1), g.index, "the indexes are not consecutive");
    s.Eq(g.index, accepted[i].second.index, "the index delivered is not the one returned to the publisher");
    s.Eq(g.us, int64_t(accepted[i].second.us.count()), "the timestamp delivered is not the one returned to the publisher");
    s.Check(g.us > us, "the timestamps do not increase");
    us = g.us;
    s.Check(g.last_index >= g.index && g.last_us >= g.us, "the last entry is before the current one");
    s.Check(g.last_index <= accepted.size(), "the last entry is not accepted yet");
  }
}

template <typename Q>
void RunPublishers(Q& q, std::vector<Publisher>& publishers) {
  std::vector<std::thread> threads;
  for (size_t p = 0; p < publishers.size(); ++p) {
    threads.emplace_back([&q, &publishers, p] { publishers[p].Run(q, p); });
  }
  for (auto& t : threads) t.join();
}

}  // namespace

PBT_PROP(blocking_queue, o.weight = 4; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  const size_t buffer = s.Size(1, 5);
  auto publishers = Publishers(s, 40);
  Sink sink;
  sink.pauses = Pauses(s);
  const bool destroy_at_once = s.Chance(2, 3);
  size_t total = 0;
  for (const auto& p : publishers) total += p.n;
  if (s.Describing()) s.Note("buffer " + std::to_string(buffer) + (destroy_at_once ? ", destroyed at once" : ""));
  {
    Consumer consumer(sink);
    Blocking q(consumer, buffer);
    RunPublishers(q, publishers);
    if (!destroy_at_once) {
      while (sink.completed < total) std::this_thread::sleep_for(us_t(50));
    }
  }
  for (const auto& p : publishers) {
    for (const auto& r : p.returned) s.Check(r.index, "a message is dropped by the queue which never drops");
  }
  CheckDelivery(s, sink, publishers);
  s.LabelIf(total > buffer, "more messages than the buffer holds");
  s.LabelIf(destroy_at_once && total, "destroyed at once");
  if (total >= 3 && (publishers.size() > 1 || total > buffer)) s.NonTrivial();
}

// A gated consumer tells exactly how many slots are occupied, up to the one being freed at the moment.
PBT_PROP(dropping_queue, o.weight = 4; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  const size_t buffer = s.Size(1, 5);
  Sink sink;
  sink.gated = true;
  std::vector<Publisher> publishers(1);
  auto& p = publishers[0];
  uint64_t accepted = 0;
  size_t dropped = 0;
  size_t attempts = 0;
  {
    Consumer consumer(sink);
    Dropping q(consumer, buffer);
    const size_t ops = s.Size(1, 30);
    for (size_t k = 0; k < ops; ++k) {
      if (s.Chance(1, 3)) {
        // Let the consumer finish one more message, and wait for it to begin the next one if there is one.
        if (sink.allowed < accepted) {
          const uint64_t target = ++sink.allowed;
          if (s.Describing()) s.Note("consume one");
          if (s.Bool()) {
            while (sink.begun < std::min<uint64_t>(target + 1, accepted)) std::this_thread::sleep_for(us_t(20));
          }
        }
      } else {
        const uint64_t begun_before = sink.begun;
        const auto r = q.Publish(Message(0, attempts));
        ++attempts;
        const uint64_t completed_after = sink.completed;
        p.returned.push_back(r);
        const uint64_t freed_at_least = begun_before ? begun_before - 1 : 0;
        if (s.Describing()) s.Note(r.index ? "publish: accepted" : "publish: dropped");
        if (!r.index) {
          s.Check(accepted - freed_at_least >= buffer, "a message is dropped although the buffer is not full");
          s.Eq(int64_t(0), int64_t(r.us.count()), "the result for the message dropped");
          ++dropped;
        } else {
          s.Check(accepted - completed_after < buffer, "a message is accepted although the buffer is full");
          ++accepted;
          s.Eq(accepted, uint64_t(r.index), "the index of the message accepted");
        }
      }
    }
    sink.gated = false;
    if (s.Bool()) {
      while (sink.completed < accepted) std::this_thread::sleep_for(us_t(50));
    }
  }
  CheckDelivery(s, sink, publishers);
  s.LabelIf(dropped > 0, "messages dropped");
  if (accepted >= 3 && dropped) s.NonTrivial();
}

PBT_PROP(dropping_queue_concurrently, o.weight = 2; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  const size_t buffer = s.Size(1, 5);
  auto publishers = Publishers(s, 40);
  Sink sink;
  sink.pauses = Pauses(s);
  {
    Consumer consumer(sink);
    Dropping q(consumer, buffer);
    RunPublishers(q, publishers);
  }
  CheckDelivery(s, sink, publishers);
  size_t dropped = 0;
  size_t total = 0;
  for (const auto& p : publishers) {
    for (const auto& r : p.returned) {
      ++total;
      if (!r.index) ++dropped;
    }
  }
  s.Check(total - dropped >= std::min(total, buffer), "messages are dropped although the buffer is not full");
  s.LabelIf(dropped > 0, "messages dropped");
  if (sink.got.size() >= 3 && (dropped || publishers.size() > 1)) s.NonTrivial();
}

template <typename Q>
void ExplicitTimestamps(pbt::Src& s) {
  Sink sink;
  int64_t last_us = -1;
  uint64_t last_index = 0;
  std::vector<Publisher> publishers(1);
  auto& p = publishers[0];
  std::vector<std::string> expected;
  size_t refused = 0;
  {
    Consumer consumer(sink);
    Q q(consumer, 64);
    const size_t n = s.Size(1, 30);
    for (size_t i = 0; i < n; ++i) {
      const int64_t us = s.Weighted({3, 1, 1}) ? s.Int(-3, 40) : last_us + s.Int(-1, 1000);
      if (s.Describing()) s.Note("publish at " + std::to_string(us));
      bool thrown = false;
      idxts_t r;
      try {
        r = q.Publish(Message(0, i), us_t(us));
      } catch (const current::ss::InconsistentTimestampException&) {
        thrown = true;
      }
      s.Eq(us <= last_us, thrown, "a timestamp which does not increase is refused, and no other");
      if (!thrown) {
        ++last_index;
        last_us = us;
        s.Eq(last_index, uint64_t(r.index), "the index returned");
        s.Eq(us, int64_t(r.us.count()), "the timestamp returned");
        p.returned.push_back(r);
      } else {
        p.returned.push_back(idxts_t());
        ++refused;
      }
    }
  }
  CheckDelivery(s, sink, publishers);
  s.LabelIf(refused > 0, "timestamps refused");
  if (last_index >= 3 && refused) s.NonTrivial();
}

PBT_PROP(explicit_timestamps, o.weight = 2; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  if (s.Bool()) {
    ExplicitTimestamps<Dropping>(s);
  } else {
    ExplicitTimestamps<Blocking>(s);
  }
}

namespace {
struct Published {
  std::string message;
  int64_t us;
  size_t at;  // The operation.
};
}  // namespace

PBT_PROP(priority_queue, o.weight = 4; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  Sink sink;
  sink.pauses = Pauses(s);
  const bool settle = s.Bool();
  const bool settle_at_the_end = s.Bool();
  std::vector<Published> published;
  std::vector<std::string> exact;  // The delivery order, if waiting for the queue to settle after each operation.
  std::vector<bool> due;
  std::vector<std::pair<size_t, int64_t>> heads;  // { operation, head }.
  int64_t head = -1;
  const auto deliver = [&]() {
    std::vector<size_t> now;
    for (size_t i = 0; i < published.size(); ++i) {
      if (!due[i] && published[i].us <= head) {
        due[i] = true;
        now.push_back(i);
      }
    }
    std::stable_sort(now.begin(), now.end(), [&](size_t a, size_t b) { return published[a].us < published[b].us; });
    for (size_t i : now) exact.push_back(published[i].message);
  };
  size_t ties = 0;
  {
    Consumer consumer(sink);
    Priority q(consumer);
    const auto wait = [&]() {
      while (sink.completed < exact.size()) std::this_thread::sleep_for(us_t(30));
    };
    const size_t n = s.Size(1, 40);
    for (size_t op = 0; op < n; ++op) {
      if (s.Chance(3, 4)) {
        const int64_t us = s.Weighted({4, 1}) ? s.Int(0, 100) : std::max<int64_t>(0, head) + s.Int(0, 5);
        const std::string m = Message(0, published.size());
        for (const auto& e : published) ties += e.us == us;
        published.push_back(Published{m, us, op});
        due.push_back(false);
        idxts_t r;
        if (s.Bool()) {
          r = q.Publish(m, us_t(us));
        } else {
          r = q.Publish(std::string(m), us_t(us));
        }
        if (s.Describing()) s.Note("publish " + m.substr(0, 5) + " at " + std::to_string(us));
        s.Eq(uint64_t(published.size()), uint64_t(r.index), "the index returned");
        s.Eq(us, int64_t(r.us.count()), "the timestamp returned");
      } else {
        const int64_t us = s.Weighted({3, 1}) ? s.Int(0, 100) : head + s.Int(-1, 8);
        bool thrown = false;
        try {
          q.UpdateHead(us_t(us));
        } catch (const current::ss::InconsistentTimestampException&) {
          thrown = true;
        }
        if (s.Describing()) s.Note("head " + std::to_string(us) + (thrown ? ": refused" : ""));
        s.Eq(us <= head, thrown, "a head which does not increase is refused, and no other");
        if (!thrown) {
          head = us;
          heads.emplace_back(op, head);
        }
      }
      deliver();
      if (settle) wait();
    }
    if (settle_at_the_end) wait();
  }
  s.Check(!sink.overlapped, "the consumer is called while inside another call");
  if (sink.got.size() != exact.size()) {
    std::ostringstream os;
    os << exact.size() << " due, " << sink.got.size() << " delivered";
    s.Fail("the number of messages delivered is not the number due by the head", os.str());
  }
  std::vector<size_t> position(published.size(), size_t(-1));
  bool reordered = false;
  size_t previous = 0;
  for (size_t k = 0; k < sink.got.size(); ++k) {
    const auto& g = sink.got[k];
    s.Check(g.index >= 1 && g.index <= published.size(), "the index delivered is not one returned");
    const size_t i = size_t(g.index - 1);
    s.Eq(published[i].message, g.message, "another message is delivered");
    s.Eq(published[i].us, g.us, "the timestamp delivered");
    s.Check(position[i] == size_t(-1), "a message is delivered twice");
    position[i] = k;
    s.Check(g.us <= g.last_us, "a message beyond the head is delivered");
    s.Check(g.last_us <= head, "the head given is not there yet");
    if (settle) s.Eq(exact[k], g.message, "the order of delivery");
    if (i < previous) reordered = true;
    previous = i;
  }
  // If the first one was published before the head has reached the second one, it is delivered before it.
  for (size_t b = 0; b < published.size(); ++b) {
    if (position[b] == size_t(-1)) continue;
    // The operation which has made `b` deliverable.
    size_t reached = published[b].at;
    int64_t head_at_publish = -1;
    for (const auto& h : heads) {
      if (h.first < published[b].at) head_at_publish = h.second;
    }
    if (head_at_publish < published[b].us) {
      for (const auto& h : heads) {
        if (h.first > published[b].at && h.second >= published[b].us) {
          reached = h.first;
          break;
        }
      }
    }
    for (size_t a = 0; a < published.size(); ++a) {
      if (a == b || position[a] == size_t(-1) || published[a].at > reached) continue;
      const bool before = published[a].us < published[b].us || (published[a].us == published[b].us && a < b);
      if (before) {
        if (position[a] > position[b]) {
          s.Fail("the messages are not delivered in the order of their timestamps",
                 published[b].message + " before " + published[a].message);
        }
      }
    }
  }
  s.LabelIf(ties > 0, "equal timestamps");
  s.LabelIf(reordered, "delivered out of the order of publishing");
  if (exact.size() >= 3 && (reordered || ties)) s.NonTrivial();
}

PBT_PROP(priority_queue_concurrently, o.weight = 2; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  auto publishers = Publishers(s, 25);
  Sink sink;
  sink.pauses = Pauses(s);
  const size_t updates = s.Size(0, 5);
  const bool settle = s.Bool();
  size_t total = 0;
  for (const auto& p : publishers) total += p.n;
  {
    Consumer consumer(sink);
    Priority q(consumer);
    std::thread t([&] {
      for (size_t i = 0; i < updates; ++i) {
        q.UpdateHead();
        std::this_thread::sleep_for(us_t(40));
      }
    });
    RunPublishers(q, publishers);
    t.join();
    q.UpdateHead();
    if (settle) {
      while (sink.completed < total) std::this_thread::sleep_for(us_t(50));
    }
  }
  // With the default timestamps, the order of the timestamps is the one of publishing.
  CheckDelivery(s, sink, publishers);
  if (total >= 3 && publishers.size() > 1) s.NonTrivial();
}
