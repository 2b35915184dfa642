// P09: replaying the log of a storage rebuilds it: restarts, followers, take-overs.
#include "storage_five.h"
#include "stream/replicator.h"

#include <atomic>
#include <thread>

PBT_CHECK("P09", "exploration",
          "A case is a random history of committed and rolled back transactions over five fields of different kinds, with "
          "entries of other types between them in some, and random restarts from the file, following storages created at "
          "random points, or a following storage behind a replicated stream which becomes the master at a random point "
          "while possibly behind. Every rebuilt storage is compared, with its last modified times and through every view, to "
          "a model as of the same log entry; the log past a take-over continues the one replicated. "
          "Non-trivial: at least three committed transactions, one of which removes or overwrites, and a rebuilt storage.");

namespace {

using namespace five;

CURRENT_STRUCT(Other) {
  CURRENT_FIELD(text, std::string);
  CURRENT_CONSTRUCTOR(Other)(const std::string& s = "") : text(s) {}
};

using memory_t = Five<StreamInMemoryStreamPersister>;
using file_t = Five<StreamStreamPersister>;
using transaction_t = typename memory_t::transaction_t;
using mixed_memory_t = Five<StreamInMemoryStreamPersister, current::storage::transaction_policy::Synchronous, Variant<transaction_t, Other>>;
using mixed_file_t = Five<StreamStreamPersister, current::storage::transaction_policy::Synchronous, Variant<transaction_t, Other>>;

template <class STORAGE>
struct Driver {
  pbt::Src& s;
  std::vector<State> history{State()};      // By the number of log entries.
  std::vector<int64_t> applied{-1};         // The timestamp of the last transaction, by the number of log entries.
  size_t commits = 0, changes = 0, rebuilt = 0;
  explicit Driver(pbt::Src& s) : s(s) {}
  const State& Last() const { return history.back(); }

  template <class P>
  void Transaction(P& storage, size_t max_ops = 8) {
    State next = Last();
    const bool roll_back = s.Chance(1, 6);
    const size_t n = 1 + s.Len(max_ops);
    auto stream = storage->BorrowUnderlyingStream();
    const uint64_t size = stream->Data()->Size();
    auto result = storage->ReadWriteTransaction([&](MutableFields<STORAGE> fields) {
      for (size_t i = 0; i < n; ++i) {
        switch (s.Draw(4)) {
          case 0: RandomOp(s, fields.d, next.m[0]); break;
          case 1: RandomOp(s, fields.u, next.m[1]); break;
          case 2: RandomOp(s, fields.mm, next.m[2]); break;
          case 3: RandomOp(s, fields.om, next.m[3]); break;
          case 4: RandomOp(s, fields.oo, next.m[4]); break;
        }
      }
      if (s.Chance(1, 6)) fields.SetTransactionMetaField("k", Name(s));
      if (roll_back) CURRENT_STORAGE_THROW_ROLLBACK();
    }).Go();
    if (s.Describing()) s.Note(roll_back ? "rolled back" : "committed");
    s.Eq(!roll_back, WasCommitted(result), "committed");
    const uint64_t new_size = stream->Data()->Size();
    s.Eq(history.size() - 1, size, "log-size-before");
    if (new_size > size) {
      s.Eq(size + 1, new_size, "one-log-entry");
      s.Check(!roll_back, "logged-a-rollback");
      size_t cells = 0, keys = 0;
      for (int i = 0; i < 5; ++i) {
        cells += next.m[i].cells.size();
        keys += next.m[i].lm.size();
      }
      if (cells < keys) ++changes;
      ++commits;
      history.push_back(next);
      applied.push_back(storage->LastAppliedTimestamp().count());
    } else {
      s.Check(roll_back || next == Last(), "not-logged");
    }
  }
  template <class P>
  void Alien(P& storage) {
    if constexpr (!std::is_same_v<typename STORAGE::stream_t::entry_t, transaction_t>) {
      storage->PublisherUsed()->Publish(Other(s.Utf8(5)));
      if (s.Describing()) s.Note("an entry of another type");
      history.push_back(Last());
      applied.push_back(applied.back());
    }
  }
  template <class P>
  void Step(P& storage) {
    if (s.Chance(1, 5)) Alien(storage);
    Transaction(storage);
  }
  template <class P>
  void Same(P& storage, size_t entries, bool deep, const char* what) {
    const State& m = history.at(entries);
    storage->ReadOnlyTransaction([&](ImmutableFields<STORAGE> fields) {
      const State got = DumpAll(fields, m);
      s.Check(got == m, what, [&] { return std::string(what) + ": after " + std::to_string(entries) + " entries expected\n" + m.Show() + "got\n" + got.Show(); });
      if (deep) CheckAll(s, fields, m);
    }).Go();
    s.Eq(applied.at(entries), storage->LastAppliedTimestamp().count(), "last-applied-timestamp");
    ++rebuilt;
  }
  // Waits for a following storage.
  template <class P>
  void CatchUp(P& storage, size_t entries) {
    const auto t0 = std::chrono::steady_clock::now();
    while (storage->LastAppliedTimestamp().count() < applied.at(entries)) {
      std::this_thread::sleep_for(std::chrono::microseconds(50));
      s.Check(std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20), "follower-does-not-catch-up");
    }
  }
  template <class P>
  void Refuses(P& storage) {
    bool refused = false;
    bool ran = false;
    try {
      storage->ReadWriteTransaction([&](MutableFields<STORAGE>) { ran = true; }).Go();
    } catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) {
      refused = true;
    }
    s.Check(refused && !ran, "follower-accepts-transactions");
  }
  bool AllTransactionsIn(size_t entries) const { return applied.at(entries) == applied.back(); }
  void Finish() {
    if (commits >= 3 && changes && rebuilt) s.NonTrivial();
  }
};

template <class STORAGE>
void Restart(pbt::Src& s) {
  const std::string file = s.Scratch() + "/log";
  Driver<STORAGE> d(s);
  const size_t rounds = 1 + s.Draw(4);
  for (size_t r = 0; r <= rounds; ++r) {
    const size_t how = s.Draw(3);
    if (s.Describing()) s.Note("open, " + std::to_string(how));
    auto Use = [&](auto& storage) {
      s.Check(storage->IsMasterStorage(), "not-the-master");
      s.Eq(d.history.size() - 1, size_t(storage->UnderlyingStream()->Data()->Size()), "log-size-after-restart");
      d.Same(storage, d.history.size() - 1, true, "restarted");
      const size_t n = r == rounds ? 0 : s.Len(8);
      for (size_t i = 0; i < n; ++i) d.Step(storage);
      d.Same(storage, d.history.size() - 1, false, "original");
    };
    if (how == 0) {
      auto storage = STORAGE::CreateMasterStorage(file);
      Use(storage);
    } else if (how == 1) {
      auto stream = STORAGE::stream_t::CreateStream(file);
      auto storage = STORAGE::CreateMasterStorageAtopExistingStream(stream);
      Use(storage);
    } else {
      auto stream = STORAGE::stream_t::CreateStream(file);
      auto storage = STORAGE::CreateFollowingStorageAtopExistingStream(stream);
      s.Check(!storage->IsMasterStorage(), "unexpected-master");
      if (how == 2) {
        d.CatchUp(storage, d.history.size() - 1);
        d.Same(storage, d.history.size() - 1, true, "following");
        d.Refuses(storage);
      }
      storage->FlipToMaster();  // Possibly while replaying.
      Use(storage);
      bool threw = false;
      try {
        storage->FlipToMaster();
      } catch (const current::storage::StorageIsAlreadyMasterException&) {
        threw = true;
      }
      s.Check(threw, "flipped-twice");
      d.Same(storage, d.history.size() - 1, false, "flipped-twice");
    }
  }
  d.Finish();
}

template <class STORAGE>
void Following(pbt::Src& s) {
  Driver<STORAGE> d(s);
  std::string file;
  auto Make = [&] {
    if constexpr (std::is_same_v<STORAGE, file_t> || std::is_same_v<STORAGE, mixed_file_t>) {
      file = s.Scratch() + "/log";
      return STORAGE::stream_t::CreateStream(file);
    } else {
      return STORAGE::stream_t::CreateStream();
    }
  };
  auto stream = Make();
  auto master = STORAGE::CreateMasterStorageAtopExistingStream(stream);
  std::vector<current::Owned<STORAGE>> followers;
  const size_t steps = 2 + s.Len(12);
  for (size_t i = 0; i < steps; ++i) {
    if (followers.size() < 3 && s.Chance(1, 3)) {
      followers.push_back(STORAGE::CreateFollowingStorageAtopExistingStream(stream));
      if (s.Describing()) s.Note("a new follower");
    }
    d.Step(master);
    if (!followers.empty() && s.Chance(1, 8)) followers.erase(followers.begin() + s.Draw(followers.size() - 1));
    if (!followers.empty() && s.Chance(1, 3)) {
      auto& f = followers[s.Draw(followers.size() - 1)];
      d.CatchUp(f, d.history.size() - 1);
      d.Same(f, d.history.size() - 1, s.Chance(1, 3), "following");
      if (s.Chance(1, 3)) d.Refuses(f);
    }
  }
  if (followers.empty() || s.Bool()) followers.push_back(STORAGE::CreateFollowingStorageAtopExistingStream(stream));
  for (auto& f : followers) {
    d.CatchUp(f, d.history.size() - 1);
    d.Same(f, d.history.size() - 1, true, "following");
  }
  d.Finish();
}

// A replica of the log, followed by a storage which takes over.
template <class STORAGE>
void TakeOver(pbt::Src& s) {
  using stream_t = typename STORAGE::stream_t;
  Driver<STORAGE> d(s);
  auto Make = [&](const char* name) {
    static_cast<void>(name);
    if constexpr (std::is_same_v<STORAGE, file_t> || std::is_same_v<STORAGE, mixed_file_t>) {
      return stream_t::CreateStream(s.Scratch() + "/" + name);
    } else {
      return stream_t::CreateStream();
    }
  };
  auto source = Make("source");
  auto master = STORAGE::CreateMasterStorageAtopExistingStream(source);
  size_t replicated = 0;
  std::vector<std::string> replica_log;
  {
    auto target = Make("replica");
    auto replicator = std::make_unique<current::stream::StreamReplicator<stream_t>>(target);
    auto storage = STORAGE::CreateFollowingStorageAtopExistingStream(target);
    size_t before = s.Len(10);
    for (size_t i = 0; i < before; ++i) d.Step(master);
    current::stream::SubscriberScope scope;
    scope = std::move(source->Subscribe(*replicator));
    const size_t during = s.Len(6);
    for (size_t i = 0; i < during; ++i) d.Step(master);
    s.Check(!storage->IsMasterStorage(), "unexpected-master");
    if (s.Bool()) d.Refuses(storage);
    const size_t wait = s.Draw(2);
    if (wait == 0) d.CatchUp(storage, d.history.size() - 1);
    std::thread flipper;
    if (s.Chance(1, 4)) {
      // The flip waits for the replicator to give up. (With entries yet to replicate it would wait forever: P06.)
      scope = nullptr;
      flipper = std::thread([&] { storage->FlipToMaster(); });
      if (wait == 2) std::this_thread::sleep_for(std::chrono::microseconds(s.Draw(500)));
      replicator = nullptr;
      flipper.join();
    } else {
      if (wait == 2) std::this_thread::sleep_for(std::chrono::microseconds(s.Draw(500)));
      scope = nullptr;
      replicator = nullptr;
      storage->FlipToMaster();
    }
    s.Check(storage->IsMasterStorage(), "not-the-master");
    replicated = target->Data()->Size();
    s.Check(replicated < d.history.size(), "replicated-too-much");
    if (wait == 0) s.Check(d.AllTransactionsIn(replicated), "replicated-too-little");
    if (s.Describing()) s.Note("took over with " + std::to_string(replicated) + " entries");
    d.Same(storage, replicated, true, "taken-over");
    // The old one is on its own.
    d.Same(master, d.history.size() - 1, false, "old-master");
    d.history.resize(replicated + 1);
    d.applied.resize(replicated + 1);
    const size_t after = s.Len(8);
    for (size_t i = 0; i < after; ++i) d.Step(storage);
    d.Same(storage, d.history.size() - 1, s.Bool(), "new-master");
    s.Eq(d.history.size() - 1, size_t(target->Data()->Size()), "log-size");
    uint64_t i = 0;
    int64_t last = -1;
    auto sit = source->Data()->Iterate();
    std::vector<std::string> expected;
    for (const auto& e : sit) expected.push_back(JSON(e.idx_ts) + JSON(e.entry));
    for (const auto& e : target->Data()->Iterate()) {
      s.Eq(i, uint64_t(e.idx_ts.index), "log-index");
      s.Check(e.idx_ts.us.count() > last, "log-order");
      last = e.idx_ts.us.count();
      if (i < replicated) s.Eq(expected[i], JSON(e.idx_ts) + JSON(e.entry), "replicated-entry");
      ++i;
    }
    // And followers of the new master.
    auto f = STORAGE::CreateFollowingStorageAtopExistingStream(target);
    d.CatchUp(f, d.history.size() - 1);
    d.Same(f, d.history.size() - 1, true, "following-the-new-master");
  }
  if constexpr (std::is_same_v<STORAGE, file_t> || std::is_same_v<STORAGE, mixed_file_t>) {
    auto again = STORAGE::CreateMasterStorage(s.Scratch() + "/replica");
    d.Same(again, d.history.size() - 1, true, "restarted-new-master");
  }
  d.Finish();
}

}  // namespace

#if !__has_feature(thread_sanitizer)
PBT_PROP(restart) { Restart<file_t>(s); }
PBT_PROP(restart_mixed) { Restart<mixed_file_t>(s); }
#endif
PBT_PROP(following_memory, o.schedule = true; o.hang_s = 60) { Following<memory_t>(s); }
PBT_PROP(following_mixed_file, o.schedule = true; o.hang_s = 60) { Following<mixed_file_t>(s); }
PBT_PROP(take_over_file, o.schedule = true; o.hang_s = 60) { TakeOver<file_t>(s); }
PBT_PROP(take_over_mixed_memory, o.schedule = true; o.hang_s = 60) { TakeOver<mixed_memory_t>(s); }
