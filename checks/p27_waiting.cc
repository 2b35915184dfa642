// P27: waiting on shared state never misses or invents a change.
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <sys/wait.h>
#include <unistd.h>

#include "pbt.h"

#include "bricks/sync/waitable_atomic.h"
#include "bricks/sync/owned_borrowed.h"
#include "bricks/util/waitable_terminate_signal.h"

PBT_CHECK("P27", "exploration",
          "A case is a random concurrent history on one shared object: mutators using every way of updating, waiters on "
          "thresholds with and without timeouts, scoped clients of an object being destroyed, borrowers copied, moved, "
          "released and called back while the owner goes away, and waits to be terminated. Non-trivial: at least two "
          "threads took part and at least one of them had to wait, or for the histories in one thread, at least five "
          "operations were made.");

namespace {

using ms_t = std::chrono::milliseconds;
using us_t = std::chrono::microseconds;

void Pace(uint8_t p) {
  if (p == 1) std::this_thread::yield();
  if (p >= 2) std::this_thread::sleep_for(us_t(p * 30));
}

std::vector<uint8_t> Paces(pbt::Src& s) {
  std::vector<uint8_t> v(s.Size(1, 5));
  for (auto& p : v) p = uint8_t(s.Weighted({3, 2, 1, 1}));
  return v;
}

struct Data {
  int64_t a = 0;  // Always equal to `b` when seen from the outside.
  std::vector<int> per_thread;
  int64_t b = 0;
};

struct Mutator {
  std::vector<uint8_t> ops;
  std::vector<uint8_t> paces;
};

struct Waiter {
  int kind;            // 0: Wait on the total, 1: Wait on one thread's total, 2: WaitFor to be met, 3: WaitFor maybe not met.
  size_t thread;
  int64_t threshold;
  int timeout_us;
  bool result = false;
  bool torn = false;
  bool seen = false;   // What the predicate said last.
  int64_t took_us = 0;
  int64_t seen_after = 0;
};

const char* const kOps[] = {"mutable use",       "mutable accessor", "potentially mutable use: modify",
                            "potentially mutable use: leave", "set value if: yes", "set value if: no",
                            "use as lock",       "read"};

template <typename W>
void Mutate(W& w, size_t me, const Mutator& m, std::atomic_bool& torn) {
  const auto bump = [me](Data& d, uint8_t pace) {
    const int64_t a = d.a;
    const int t = d.per_thread[me];
    Pace(pace);
    d.a = a + 1;
    d.per_thread[me] = t + 1;
    d.b = d.a;
  };
  for (size_t i = 0; i < m.ops.size(); ++i) {
    const uint8_t pace = m.paces[i % m.paces.size()];
    switch (m.ops[i]) {
      case 0:
        w.MutableUse([&](Data& d) { bump(d, pace); });
        break;
      case 1: {
        auto a = w.MutableScopedAccessor();
        bump(*a, pace);
        if (a->a != a->b) torn = true;
        break;
      }
      case 2:
        if (!w.PotentiallyMutableUse([&](Data& d) {
              bump(d, pace);
              return true;
            })) {
          torn = true;
        }
        break;
      case 3:
        if (w.PotentiallyMutableUse([&](Data& d) {
              if (d.a != d.b) torn = true;
              Pace(pace);
              return false;
            })) {
          torn = true;
        }
        break;
      case 4: {
        // Set as a whole, if no one has interfered; otherwise fall back to an update.
        Data d = w.GetValue();
        const int64_t before = d.a;
        bool done = false;
        bump(d, pace);
        w.SetValueIf(
            [&](const Data& now) {
              done = now.a == before;
              return done;
            },
            d);
        if (!done) w.MutableUse([&](Data& d) { bump(d, 0); });
        break;
      }
      case 5:
        w.SetValueIf([](const Data& d) { return d.a < 0; }, Data());
        break;
      case 6: {
        w.UseAsLock([&] { Pace(pace); });
        break;
      }
      default:
        if (w.ImmutableUse([&](const Data& d) {
              const int64_t a = d.a;
              Pace(pace);
              return a != d.b;
            })) {
          torn = true;
        }
        break;
    }
    if (pace == 3) Pace(2);
  }
}

template <typename W>
void Run(pbt::Src& s, W& w) {
  std::vector<Mutator> mutators(s.Size(1, 4));
  std::vector<int> totals;
  int64_t total = 0;
  for (size_t i = 0; i < mutators.size(); ++i) {
    auto& m = mutators[i];
    m.ops.resize(s.Len(12));
    m.paces = Paces(s);
    int n = 0;
    for (auto& o : m.ops) {
      o = uint8_t(s.Weighted({4, 3, 3, 1, 3, 1, 1, 1}));
      n += o == 0 || o == 1 || o == 2 || o == 4;
      if (s.Describing()) s.Note("mutator " + std::to_string(i) + ": " + kOps[o]);
    }
    totals.push_back(n);
    total += n;
  }
  w.MutableUse([&](Data& d) { d.per_thread.resize(mutators.size()); });
  std::vector<Waiter> waiters(s.Size(1, 5));
  for (auto& v : waiters) {
    v.kind = int(s.Weighted({4, 3, 2, 2}));
    v.thread = s.Draw(mutators.size() - 1);
    // Mostly at the very last update, where there is no other one to wake up the waiter.
    const int64_t max = v.kind == 1 ? totals[v.thread] : total;
    v.threshold = s.Bool() ? s.Int(0, max) : max;
    if (v.kind == 3) v.threshold = max + s.Int(0, 1);
    v.timeout_us = v.kind == 3 ? int(s.Int(0, 4000)) : 0;
    if (s.Describing()) {
      s.Note("waiter of kind " + std::to_string(v.kind) + " for " + std::to_string(v.threshold) + ", timeout " +
             std::to_string(v.timeout_us));
    }
  }
  std::atomic_bool torn{false};
  std::atomic_int waited{0};
  std::vector<std::thread> threads;
  for (auto& v : waiters) {
    threads.emplace_back([&w, &v, &waited] {
      size_t calls = 0;
      const auto predicate = [&](const Data& d) {
        ++calls;
        if (d.a != d.b) v.torn = true;
        v.seen = (v.kind == 1 ? int64_t(d.per_thread[v.thread]) : d.a) >= v.threshold;
        return v.seen;
      };
      const auto begin = std::chrono::steady_clock::now();
      if (v.kind <= 1) {
        v.result = w.Wait(predicate);
      } else {
        v.result = w.WaitFor(predicate, v.kind == 2 ? us_t(600 * 1000 * 1000) : us_t(v.timeout_us));
      }
      v.took_us = std::chrono::duration_cast<us_t>(std::chrono::steady_clock::now() - begin).count();
      v.seen_after = w.ImmutableUse([](const Data& d) { return d.a; });
      if (calls > 1) ++waited;
    });
  }
  for (size_t i = 0; i < mutators.size(); ++i) {
    threads.emplace_back([&, i] { Mutate(w, i, mutators[i], torn); });
  }
  for (auto& t : threads) t.join();
  s.Check(!torn, "an update is seen half way");
  const Data d = w.GetValue();
  s.Eq(total, d.a, "the number of updates");
  s.Eq(total, d.b, "the number of updates");
  for (size_t i = 0; i < mutators.size(); ++i) s.Eq(totals[i], d.per_thread[i], "the number of updates by a thread");
  for (const auto& v : waiters) {
    s.Check(!v.torn, "a waiter sees an update half way");
    s.Eq(v.seen, v.result, "the result of waiting is not what the predicate said");
    if (v.kind != 3) s.Check(v.result, "the wait is over although the predicate does not hold");
    if (v.result && v.kind != 1) s.Check(v.seen_after >= v.threshold, "the wait is over although the predicate does not hold");
    if (v.kind == 3 && !v.result) {
      s.Check(v.took_us >= v.timeout_us, "the wait is over before its time");
    }
    if (v.kind == 3 && v.threshold > total) s.Check(!v.result, "the wait for what never happens has succeeded");
    s.LabelIf(v.kind == 3 && !v.result, "timed out");
  }
  s.LabelIf(waited > 0, "waited");
  if (waited > 0) s.NonTrivial();
}

}  // namespace

PBT_PROP(waiters, o.weight = 5; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  if (s.Bool()) {
    current::WaitableAtomic<Data> w;
    Run(s, w);
  } else {
    current::WaitableAtomic<Data, true> w;
    Run(s, w);
  }
}

namespace {

struct Watched {
  std::shared_ptr<std::atomic_bool> alive;
  int64_t n = 0;
  Watched() : alive(std::make_shared<std::atomic_bool>(true)) {}
  explicit Watched(int64_t n) : alive(std::make_shared<std::atomic_bool>(true)), n(n) {}
  ~Watched() { *alive = false; }
  Watched(const Watched&) = delete;
};

struct Plain {
  int64_t n = 0;
};

struct Destructor : current::CustomWaitableAtomicDestructor {
  std::atomic_int calls{0};
  void WaitableAtomicDestructing() override { ++calls; }
};

struct Client {
  int kind;  // 0: Wait for what never happens, 1: the same with a timeout, 2: poll the client, 3: leave at once,
             // 4: Wait for what has happened, 5: register repeatedly.
  uint8_t pace;
  bool wait_result = false;
  bool flag_after = false;
  bool refused = false;
  int64_t registered_at_end = 0;
};

}  // namespace

PBT_PROP(scoped_clients, o.weight = 3; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  std::vector<Client> clients(s.Size(1, 6));
  for (auto& c : clients) {
    c.kind = int(s.Draw(5));
    c.pace = uint8_t(s.Draw(4));
    if (s.Describing()) s.Note("client of kind " + std::to_string(c.kind));
  }
  Destructor destructor;
  const bool with_destructor = s.Bool();
  const uint8_t pace = uint8_t(s.Draw(5));
  auto w = std::make_unique<current::WaitableAtomic<Plain, true>>(Plain{1}, with_destructor ? &destructor : nullptr);
  std::atomic_int alive{0};
  std::atomic_int started{0};
  std::atomic_bool spoiled{false};
  std::atomic_bool destroying{false};
  std::vector<std::thread> threads;
  for (auto& c : clients) {
    threads.emplace_back([&, p = w.get()] {
      {
        auto client = p->RegisterScopedClient();
        ++alive;
        if (!client) spoiled = true;
        ++started;
        while (started < int(clients.size())) std::this_thread::yield();
        Pace(c.pace);
        auto moved = std::move(client);
        switch (c.kind) {
          case 0:
            c.wait_result = p->Wait([](const Plain& d) { return d.n < 0; });
            break;
          case 1:
            c.wait_result = p->WaitFor([](const Plain& d) { return d.n < 0; }, std::chrono::seconds(600));
            break;
          case 2:
            while (moved) std::this_thread::sleep_for(us_t(50));
            break;
          case 3:
            break;
          case 4: {
            const bool was_destroying = destroying;
            c.wait_result = p->Wait([](const Plain& d) { return d.n == 1; });
            // Only refused if being destroyed.
            if (!was_destroying && !c.wait_result && !destroying) spoiled = true;
            break;
          }
          default:
            while (true) {
              auto another = p->RegisterScopedClient();
              if (!another) {
                c.refused = true;
                break;
              }
              std::this_thread::sleep_for(us_t(30));
            }
            break;
        }
        c.flag_after = moved;
        if (p->GetValue().n != 1) spoiled = true;
        Pace(c.pace);
        --alive;
      }
    });
  }
  while (started < int(clients.size())) std::this_thread::sleep_for(us_t(20));
  Pace(pace);
  destroying = true;
  w = nullptr;
  const int alive_after = alive;
  for (auto& t : threads) t.join();
  s.Eq(0, alive_after, "clients which are alive as the object is gone");
  s.Check(!spoiled, "a client of a live object is refused, or sees a wrong value");
  s.Eq(with_destructor ? 1 : 0, int(destructor.calls), "the calls of the destructor");
  bool waited = false;
  for (const auto& c : clients) {
    if (c.kind == 0 || c.kind == 1) s.Check(!c.wait_result, "the aborted wait is reported as the one which succeeded");
    if (c.kind <= 2 || c.kind == 5) {
      s.Check(!c.flag_after, "the client is not told that the object is being destroyed");
      waited = true;
    }
    if (c.kind == 5) s.Check(c.refused, "registered with an object which is being destroyed");
  }
  if (waited) s.NonTrivial();
}

namespace {

struct Shared {
  std::atomic_int callbacks{0};
  std::atomic_bool stop{false};
  std::atomic_bool early{false};
};

struct BorrowerPlan {
  int kind;  // 0: until not valid, 1: with callback, 2: for a while, 3: exclusive uses, 4: copies, 5: moved into with callback.
  uint8_t pace;
  int n;
  std::shared_ptr<Shared> shared = std::make_shared<Shared>();
  bool dead_value = false;
  bool wrong_valid = false;
};

}  // namespace

PBT_PROP(owner_and_borrowers, o.weight = 4; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  std::vector<BorrowerPlan> plans(s.Size(1, 5));
  int exclusive = 0;
  for (auto& p : plans) {
    p.kind = int(s.Draw(5));
    p.pace = uint8_t(s.Draw(4));
    p.n = int(s.Size(1, 8));
    if (p.kind == 3) exclusive += p.n;
    if (s.Describing()) s.Note("borrower of kind " + std::to_string(p.kind) + ", " + std::to_string(p.n));
  }
  const int how = int(s.Draw(2));  // Destroyed in place, moved first, assigned over.
  const uint8_t pace = uint8_t(s.Draw(5));
  auto owner = std::make_unique<current::Owned<Watched>>(current::ConstructOwned<Watched>(), int64_t(0));
  const auto alive = (*owner)->alive;
  std::atomic_int borrowers{0};
  std::atomic_bool destroying{false};
  std::atomic_int inside{0};
  std::atomic_bool overlapped{false};
  std::vector<std::thread> threads;
  for (auto& p : plans) {
    ++borrowers;
    threads.emplace_back([&, b = std::make_unique<current::Borrowed<Watched>>(*owner)]() mutable {
      if (!*b && !destroying) p.wrong_valid = true;
      auto shared = p.shared;
      const auto callback = [shared, &destroying] {
        if (!destroying) shared->early = true;
        ++shared->callbacks;
        shared->stop = true;
      };
      switch (p.kind) {
        case 0:
          while (*b) std::this_thread::sleep_for(us_t(40));
          break;
        case 1:
        case 5: {
          std::unique_ptr<current::BorrowedWithCallback<Watched>> c;
          if (p.kind == 1) {
            c = std::make_unique<current::BorrowedWithCallback<Watched>>(*b, callback);
          } else {
            c = std::make_unique<current::BorrowedWithCallback<Watched>>(std::move(*b), callback);
            if (*b) p.wrong_valid = true;
          }
          b = nullptr;
          // The callback may have missed the borrower registered once the destruction began; the validity does not.
          while (!shared->stop && *c) std::this_thread::sleep_for(us_t(40));
          if (*c) p.wrong_valid = true;
          if (!*(*c)->alive) p.dead_value = true;
          Pace(p.pace);
          if (!*(*c)->alive) p.dead_value = true;
          --borrowers;
          return;
        }
        case 2:
          for (int i = 0; i < p.n; ++i) Pace(p.pace);
          break;
        case 3:
          for (int i = 0; i < p.n; ++i) {
            b->ExclusiveUse([&](Watched& v) {
              if (inside++) overlapped = true;
              const int64_t n = v.n;
              Pace(p.pace);
              v.n = n + 1;
              --inside;
            });
          }
          break;
        default: {
          std::vector<current::Borrowed<Watched>> copies;
          for (int i = 0; i < p.n; ++i) {
            copies.emplace_back(*b);
            Pace(p.pace);
          }
          b = nullptr;
          if (!*copies.back()->alive) p.dead_value = true;
          while (copies.size() > 1) copies.pop_back();
          Pace(p.pace);
          if (!*copies.back()->alive) p.dead_value = true;
          --borrowers;
          return;
        }
      }
      if (!*(*b)->alive) p.dead_value = true;
      Pace(p.pace);
      if (!*(*b)->alive) p.dead_value = true;
      --borrowers;
      b = nullptr;
    });
  }
  Pace(pace);
  if (how == 1) {
    owner = std::make_unique<current::Owned<Watched>>(std::move(*owner));
    if (!*alive) s.Fail("moving the owner destroys the object", "");
  }
  destroying = true;
  if (how == 2) {
    *owner = current::Owned<Watched>(current::ConstructOwned<Watched>(), int64_t(-100));
  } else {
    owner = nullptr;
  }
  const int borrowers_after = borrowers;
  const bool alive_after = *alive;
  for (auto& t : threads) t.join();
  s.Eq(0, borrowers_after, "borrowers which are there as the object is gone");
  s.Check(!alive_after, "the object outlives its owner");
  if (how == 2) s.Eq(int64_t(-100), (*owner)->n, "the value assigned");
  s.Check(!overlapped, "two exclusive uses at the same time");
  bool waited = false;
  for (const auto& p : plans) {
    s.Check(!p.dead_value, "the object is destroyed while borrowed");
    s.Check(!p.wrong_valid, "the validity of a borrower is wrong");
    s.Check(!p.shared->early, "told to release the object which is not being destroyed");
    s.Check(p.shared->callbacks <= 1, "told to release the object twice");
    if (p.kind == 0 || p.kind == 1 || p.kind == 5) waited = true;
  }
  if (waited) s.NonTrivial();
}

// The borrowers which are there as the destruction begins, and stay, are all told, exactly once.
PBT_PROP(callbacks, o.weight = 2; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  const size_t n = s.Size(1, 6);
  const bool wait_for_all = s.Bool();  // Leave only once everyone has been told.
  std::vector<uint8_t> kinds(n);
  for (auto& k : kinds) k = uint8_t(s.Draw(2));
  auto owner = std::make_unique<current::Owned<Watched>>(current::ConstructOwned<Watched>());
  std::vector<std::shared_ptr<Shared>> shared;
  std::atomic_int told{0};
  std::vector<std::thread> threads;
  std::atomic_int ready{0};
  std::atomic_int uses{0};
  for (size_t i = 0; i < n; ++i) {
    shared.push_back(std::make_shared<Shared>());
    threads.emplace_back([&, i, v = shared[i]] {
      const auto f = [&told, v] {
        ++v->callbacks;
        v->stop = true;
        ++told;
      };
      std::unique_ptr<current::BorrowedWithCallback<Watched>> c;
      if (kinds[i] == 0) {
        c = std::make_unique<current::BorrowedWithCallback<Watched>>(*owner, f);
      } else {
        auto b = std::make_unique<current::Borrowed<Watched>>(*owner);
        if (kinds[i] == 2) {
          current::Borrowed<Watched> moved(std::move(*b));
          *b = std::move(moved);
        }
        c = std::make_unique<current::BorrowedWithCallback<Watched>>(std::move(*b), f);
      }
      ++ready;
      while (!v->stop) std::this_thread::sleep_for(us_t(30));
      while (wait_for_all && told < int(n)) std::this_thread::sleep_for(us_t(30));
      c->ExclusiveUse([&](Watched&) { ++uses; });
      c = nullptr;
    });
  }
  while (ready < int(n)) std::this_thread::sleep_for(us_t(20));
  const size_t active = owner->NumberOfActiveBorrowers();
  owner = nullptr;
  for (auto& t : threads) t.join();
  s.Eq(n, active, "the number of active borrowers");
  for (const auto& v : shared) s.Eq(1, int(v->callbacks), "the number of times a borrower is told");
  s.Eq(int(n), int(uses), "the uses made while being destroyed");
  if (n > 1) s.NonTrivial();
}

// The bookkeeping, in one thread.
PBT_PROP(borrowing, o.weight = 2; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  auto owner = std::make_unique<current::Owned<Watched>>(current::ConstructOwned<Watched>(), int64_t(7));
  const auto alive = (*owner)->alive;
  std::map<int, std::unique_ptr<current::Borrowed<Watched>>> held;
  std::set<int> moved_from;
  std::map<int, std::unique_ptr<current::BorrowedWithCallback<Watched>>> with_callback;
  size_t spawned = 0;
  int next = 0;
  int called = 0;
  int64_t value = 7;
  const size_t ops = s.Size(1, 25);
  const auto pick = [&](const auto& m) {
    auto it = m.begin();
    std::advance(it, s.Draw(m.size() - 1));
    return it->first;
  };
  std::vector<int> live;
  for (size_t k = 0; k < ops; ++k) {
    live.clear();
    for (const auto& h : held) {
      if (!moved_from.count(h.first)) live.push_back(h.first);
    }
    const size_t op = s.Draw(9);
    if (s.Describing()) s.Note("op " + std::to_string(op));
    switch (op) {
      case 0:
        held[next++] = std::make_unique<current::Borrowed<Watched>>(*owner);
        ++spawned;
        break;
      case 1:
        if (!live.empty()) {
          held[next++] = std::make_unique<current::Borrowed<Watched>>(*held[s.OneOf(live)]);
          ++spawned;
        }
        break;
      case 2:
        if (!live.empty()) {
          const int from = s.OneOf(live);
          held[next++] = std::make_unique<current::Borrowed<Watched>>(std::move(*held[from]));
          moved_from.insert(from);
        }
        break;
      case 3:
        if (!held.empty()) {
          const int h = pick(held);
          held.erase(h);
          moved_from.erase(h);
        }
        break;
      case 4:
        if (!live.empty()) {
          const int from = s.OneOf(live);
          const int to = pick(held);
          *held[to] = std::move(*held[from]);
          if (from != to) {
            moved_from.insert(from);
            moved_from.erase(to);
          }
        }
        break;
      case 5:
        with_callback[next++] = std::make_unique<current::BorrowedWithCallback<Watched>>(*owner, [&called] { ++called; });
        ++spawned;
        break;
      case 6:
        if (!live.empty()) {
          const int from = s.OneOf(live);
          with_callback[next++] =
              std::make_unique<current::BorrowedWithCallback<Watched>>(std::move(*held[from]), [&called] { ++called; });
          moved_from.insert(from);
        }
        break;
      case 7:
        if (!with_callback.empty()) {
          const int h = pick(with_callback);
          if (s.Bool()) *with_callback[h] = nullptr;
          with_callback.erase(h);
        }
        break;
      case 8:
        if (!live.empty()) {
          const int h = s.OneOf(live);
          value = (*held[h])->n + 1;
          held[h]->ExclusiveUse([&](Watched& w) { w.n = value; });
        }
        break;
      default:
        if (!live.empty()) {
          *held[s.OneOf(live)] = nullptr;
          // Which one was it? The one which is not valid any more.
          for (int h : live) {
            if (!*held[h]) moved_from.insert(h);
          }
        } else {
          owner = std::make_unique<current::Owned<Watched>>(std::move(*owner));
        }
        break;
    }
    size_t active = with_callback.size();
    for (const auto& h : held) {
      const bool is_live = !moved_from.count(h.first);
      active += is_live;
      s.Eq(is_live, static_cast<bool>(*h.second), "the validity of a borrower");
      if (is_live) s.Eq(value, (*h.second)->n, "the value through a borrower");
    }
    s.Eq(active, owner->NumberOfActiveBorrowers(), "the number of active borrowers");
    s.Eq(spawned, owner->TotalBorrowersSpawnedThroughoutLifetime(), "the number of borrowers spawned");
    s.Eq(value, (*owner)->n, "the value through the owner");
    s.Check(*alive, "the object is gone");
    s.Eq(0, called, "the callbacks called");
  }
  held.clear();
  with_callback.clear();
  owner = nullptr;
  s.Check(!*alive, "the object outlives its owner");
  s.Eq(0, called, "the callbacks of those gone called");
  if (ops >= 5) s.NonTrivial();
}

// A borrower of guaranteed lifetime is one which can not be there as the owner goes: if it is, this is fatal, no matter
// where the borrower has been moved by then; if it has been released first, all is well.
PBT_PROP(guaranteed_lifetime, o.weight = 1; o.fresh_process = true; o.hang_s = 30; o.hang_is_violation = true) {
  const uint8_t made = uint8_t(s.Draw(1));
  std::vector<uint8_t> steps(s.Size(0, 6));
  for (auto& x : steps) x = uint8_t(s.Draw(2));
  const uint8_t end = uint8_t(s.Draw(3));
  if (s.Describing()) {
    std::string moves;
    for (const auto x : steps) moves += x == 0 ? " constructed" : x == 1 ? " assigned to another" : " assigned to itself";
    s.Note(std::string(made ? "from a moved borrower" : "from the owner") + ", then" + moves + ", then " +
           (end == 0 ? "released" : end == 1 ? "destroyed" : end == 2 ? "the owner goes" : "the owner is moved and goes"));
  }
  const pid_t pid = fork();
  if (!pid) {
    using borrowed_t = current::BorrowedOfGuaranteedLifetime<Watched>;
    if (!freopen("/dev/null", "w", stderr)) _exit(100);
    alarm(10);
    auto owner = std::make_unique<current::Owned<Watched>>(current::ConstructOwned<Watched>(), int64_t(7));
    auto b = made ? std::make_unique<borrowed_t>(current::Borrowed<Watched>(*owner)) : std::make_unique<borrowed_t>(*owner);
    for (const auto x : steps) {
      if (x == 0) {
        b = std::make_unique<borrowed_t>(std::move(*b));
      } else if (x == 1) {
        auto c = std::make_unique<borrowed_t>(*owner);
        *c = std::move(*b);
        b = std::move(c);
      } else {
        auto& self = *b;
        *b = std::move(self);
      }
      if (!*b || (*b)->n != 7) _exit(101);
      if (owner->NumberOfActiveBorrowers() != 1) _exit(102);
    }
    if (end == 0) *b = nullptr;
    if (end == 1) b = nullptr;
    if (end == 3) owner = std::make_unique<current::Owned<Watched>>(std::move(*owner));
    owner = nullptr;
    _exit(42);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  const int code = WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
  s.Eq(end <= 1 ? 42 : 255, code, "the outcome of the owner going");
  if (!steps.empty()) s.NonTrivial();
}

PBT_PROP(terminate_signals, o.weight = 2; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  struct Plan {
    int threshold;      // The state to wait for, beyond the last one if it never comes.
    bool terminate;     // Whether it is signalled to terminate.
    bool bulk;          // Registered with the bulk notifier from the very start, or only for the wait.
    uint8_t pace;
    bool result = false;
    bool signalled = false;
    int state = -1;
    current::WaitableTerminateSignal signal;
  };
  const int updates = int(s.Size(0, 6));
  std::vector<std::unique_ptr<Plan>> plans;
  for (size_t i = s.Size(1, 4); i; --i) {
    auto p = std::make_unique<Plan>();
    p->threshold = int(s.Int(0, updates));
    p->terminate = s.Chance(1, 3);
    if (p->terminate) p->threshold += int(s.Draw(3));
    p->bulk = s.Bool();
    p->pace = uint8_t(s.Draw(4));
    plans.push_back(std::move(p));
  }
  const auto paces = Paces(s);
  std::mutex mutex;
  int state = 0;
  current::WaitableTerminateSignalBulkNotifier bulk;
  std::vector<std::thread> threads;
  for (auto& plan : plans) {
    threads.emplace_back([&bulk, &mutex, &state, p = plan.get()] {
      std::unique_ptr<current::WaitableTerminateSignalBulkNotifier::Scope> scope;
      if (p->bulk) {
        scope = std::make_unique<current::WaitableTerminateSignalBulkNotifier::Scope>(bulk, p->signal);
      }
      Pace(p->pace);
      std::unique_lock<std::mutex> lock(mutex);
      if (!p->bulk) {
        scope = std::make_unique<current::WaitableTerminateSignalBulkNotifier::Scope>(&bulk, p->signal);
      }
      p->result = p->signal.WaitUntil(lock, [&] { return state >= p->threshold; });
      p->state = state;
      p->signalled = p->signal;
      scope = nullptr;
    });
  }
  for (int i = 0; i < updates; ++i) {
    Pace(paces[size_t(i) % paces.size()]);
    {
      std::lock_guard<std::mutex> lock(mutex);
      ++state;
    }
    bulk.NotifyAllOfExternalWaitableEvent();
  }
  for (auto& p : plans) {
    if (p->terminate) p->signal.SignalExternalTermination();
  }
  for (auto& t : threads) t.join();
  for (const auto& p : plans) {
    if (p->result) {
      s.Check(p->terminate, "told to terminate by no one");
      s.Check(p->signalled, "the signal is not there");
    } else {
      s.Check(p->state >= p->threshold, "the wait is over although the condition does not hold");
    }
    if (p->threshold > updates) s.Check(p->result, "the wait for what never happens has succeeded");
  }
  if (updates && plans.size() > 1) s.NonTrivial();
}
