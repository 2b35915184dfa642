// P08: storage transactions are all or nothing.
#include <atomic>
#include <thread>

#include "storage_five.h"

PBT_CHECK("P08", "fault_enumeration",
          "A case is a random history of transactions of every kind (read-write and read-only, with and without a result, "
          "two-step) over five fields of different kinds, in memory or in a file, with an exception of a random type or a "
          "rollback with or without a value thrown after a random operation of some of them; after each of them the whole "
          "state, the last modified times, the log, its head and its file are compared to those of a model, and the log entry "
          "is replayed by an independent interpreter. Or several threads run transactions at once over shared counters. "
          "Non-trivial: at least one transaction committed after, and one rolled back with, at least two mutations; or at "
          "least two threads with both committed and abandoned transactions.");

namespace {

using namespace five;

struct Mine : current::Exception {
  using current::Exception::Exception;
};
struct Result {
  std::string text;
  std::vector<int> list;
  std::shared_ptr<int> owned;
  Result() = default;
};

int64_t Now() { return current::time::Now().count(); }

template <class STORAGE, class... ARGS>
void History(pbt::Src& s, const std::string& file, ARGS&&... args) {
  auto storage = STORAGE::CreateMasterStorage(std::forward<ARGS>(args)...);
  State m;
  Replayer replayer;
  uint64_t size = 0;
  size_t file_size = 0;
  size_t good = 0, bad = 0;
  std::map<std::string, std::string> nothing;
  const size_t transactions = 2 + s.Len(14);
  bool shut_down = false;
  for (size_t t = 0; t < transactions; ++t) {
    State next = m;
    std::map<std::string, std::string> meta;
    size_t ops = 0;
    const bool only_reads = s.Chance(1, 5);
    const size_t ending = s.Weighted({5, 2, 2, 2});  // Commit, throw, roll back, roll back with a value.
    const size_t thrown = s.Draw(4);
    const size_t form = s.Draw(2);  // Void, with a result, two-step.
    const std::string text = s.Utf8(6);
    const bool second_throws = form == 2 && ending == 0 && s.Chance(1, 6);
    auto End = [&](bool with_value_possible) {
      if (ending == 1) {
        if (thrown == 0) CURRENT_THROW(Mine("mine"));
        if (thrown == 1) throw std::logic_error("logic");
        if (thrown == 2) throw 42;
        if (thrown == 3) throw std::string("string");
        std::vector<int>().at(1);
      }
      if (ending == 2 || (ending == 3 && !with_value_possible)) CURRENT_STORAGE_THROW_ROLLBACK();
    };
    const size_t planned = s.Len(12);
    auto Write = [&](auto& fields) {
      for (size_t i = 0; i < planned; ++i) {
        switch (s.Draw(5)) {
          case 0: RandomOp(s, fields.d, next.m[0]); break;
          case 1: RandomOp(s, fields.u, next.m[1]); break;
          case 2: RandomOp(s, fields.mm, next.m[2]); break;
          case 3: RandomOp(s, fields.om, next.m[3]); break;
          case 4: RandomOp(s, fields.oo, next.m[4]); break;
          default: {
            const std::string k = Name(s);
            if (s.Chance(2, 3)) {
              meta[k] = text;
              fields.SetTransactionMetaField(k, text);
            } else {
              meta.erase(k);
              fields.EraseTransactionMetaField(k);
            }
          }
        }
        ++ops;
      }
      if (s.Chance(1, 6)) CheckAll(s, fields, next);  // Within the transaction its changes are seen.
    };
    auto Read = [&](const auto& fields) {
      const State got = DumpAll(fields, m);
      s.Check(got == m, "read-only-state", [&] { return "expected\n" + m.Show() + "got\n" + got.Show(); });
      if (s.Chance(1, 4)) CheckAll(s, fields, m);
    };
    if (s.Describing())
      s.Note(std::string(only_reads ? "read-only" : "read-write") + (form == 0 ? "" : form == 1 ? ", with a result" : ", two-step") +
             (ending == 0 ? ", to commit" : ending == 1 ? ", to throw" : ending == 2 ? ", to roll back" : ", to roll back with a value"));
    const int64_t t0 = Now();
    std::string got_second;
    bool second_called = false;
    int outcome = -1;  // 0: committed, 1: rolled back, 2: exception.
    size_t exception = 100;
    std::string got;
    bool exists = false;
    auto Make = [&] {
      Result r;
      r.text = text;
      r.list = {int(t), 2};
      r.owned = std::make_shared<int>(int(t) + 7);
      return r;
    };
    auto SameResult = [&](const Result& r) {
      s.Eq(text, r.text, "result-text");
      s.Check(r.list == std::vector<int>({int(t), 2}) && r.owned && *r.owned == int(t) + 7, "result");
    };
    auto Try = [&](auto&& call) {
      try {
        call();
      } catch (const Mine& e) {
        exception = 0;
      } catch (const std::out_of_range& e) {
        exception = 4;
      } catch (const std::logic_error& e) {
        exception = 1;
      } catch (int x) {
        exception = x == 42 ? 2 : 101;
      } catch (const std::string& x) {
        exception = x == "string" ? 3 : 101;
      } catch (const current::storage::StorageInGracefulShutdownException&) {
        exception = 50;
      }
      if (exception != 100) outcome = 2;
    };
    const auto& const_storage = *storage;
    auto Void = [&](auto&& future) {
      auto r = future.Go();
      outcome = WasCommitted(r) ? 0 : 1;
      exists = Exists(r);
    };
    if (form == 0) {
      Try([&] {
        if (only_reads) {
          Void(const_storage.ReadOnlyTransaction([&](ImmutableFields<STORAGE> fields) {
            Read(fields);
            End(false);
          }));
        } else {
          Void(storage->ReadWriteTransaction([&](MutableFields<STORAGE> fields) {
            Write(fields);
            End(false);
          }));
        }
      });
    } else if (form == 1) {
      auto Go = [&](auto&& future) {
        auto r = future.Go();
        outcome = WasCommitted(r) ? 0 : 1;
        exists = Exists(r);
        if (exists) SameResult(Value(r));
      };
      Try([&] {
        if (only_reads) {
          Go(const_storage.ReadOnlyTransaction([&](ImmutableFields<STORAGE> fields) -> std::string {
            Read(fields);
            End(true);
            if (ending == 3) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(std::string, text);
            return text;
          }).Go().WasCommittedImpl()
                 ? const_storage.ReadOnlyTransaction([&](ImmutableFields<STORAGE>) { return Make(); })
                 : const_storage.ReadOnlyTransaction([&](ImmutableFields<STORAGE>) -> Result {
                     if (ending == 2) CURRENT_STORAGE_THROW_ROLLBACK();
                     if (ending == 3) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(Result, Make());
                     return Make();
                   }));
        } else {
          Go(storage->ReadWriteTransaction([&](MutableFields<STORAGE> fields) -> Result {
            Write(fields);
            End(true);
            if (ending == 3) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(Result, Make());
            return Make();
          }));
        }
      });
      if (outcome == 0) s.Check(exists, "committed-result-missing");
      if (outcome == 1) s.Eq(ending == 3, exists, "rolled-back-result");
    } else {
      auto Second = [&](std::string x) {
        second_called = true;
        got_second = x;
        if (second_throws) throw std::string("string");
      };
      Try([&] {
        if (only_reads) {
          Void(const_storage.ReadOnlyTransaction(
              [&](ImmutableFields<STORAGE> fields) -> std::string {
                Read(fields);
                End(true);
                if (ending == 3) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(std::string, text);
                return text;
              },
              Second));
        } else {
          Void(storage->ReadWriteTransaction(
              [&](MutableFields<STORAGE> fields) -> std::string {
                Write(fields);
                End(true);
                if (ending == 3) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(std::string, text);
                return text;
              },
              Second));
        }
      });
      if (!shut_down) {
        s.Eq(ending == 0 || ending == 3, second_called, "second-step-called");
        if (second_called) s.Eq(text, got_second, "second-step-argument");
      }
    }
    const int64_t t1 = Now();
    bool expect_commit = ending == 0;
    if (shut_down) {
      s.Check(outcome == 2 && exception == 50, "after-shutdown");
      expect_commit = false;
    } else if (second_throws) {
      s.Check(outcome == 2 && exception == 3, "second-step-exception");
    } else {
      s.Eq(ending == 0 ? 0 : ending == 1 ? 2 : 1, outcome, "outcome");
      if (ending == 1) s.Eq(thrown, exception, "exception");
    }
    if (expect_commit && !only_reads) {
      m = next;
    }
    // The memory.
    if (!shut_down) {
      const_storage.ReadOnlyTransaction([&](ImmutableFields<STORAGE> fields) {
        const State after = DumpAll(fields, next);
        s.Check(after == m, expect_commit ? "state-after-commit" : "state-after-rollback", [&] { return "expected\n" + m.Show() + "got\n" + after.Show(); });
        if (!expect_commit || s.Chance(1, 3)) CheckAll(s, fields, m);
      }).Go();
    }
    // The log.
    auto stream = storage->BorrowUnderlyingStream();
    const uint64_t new_size = stream->Data()->Size();
    size_t mutations_before = replayer.mutations;
    if (new_size > size) {
      s.Eq(size + 1, new_size, "one-log-entry");
      s.Check(expect_commit && !only_reads, "unexpected-log-entry");
      for (const auto& e : stream->Data()->Iterate(size)) {
        const int64_t us = e.idx_ts.us.count();
        s.Check(us > t0 && us < t1, "log-entry-time");
        s.Eq(us, storage->LastAppliedTimestamp().count(), "last-applied");
        s.Check(e.entry.meta.begin_us.count() > t0 && e.entry.meta.begin_us < e.entry.meta.end_us && e.entry.meta.end_us.count() < us, "meta-times");
        s.Check(e.entry.meta.fields == meta, "meta-fields");
        replayer.last_us = e.entry.meta.begin_us.count();
        for (const auto& mutation : e.entry.mutations) mutation.Call(replayer);
        s.Check(replayer.increasing && replayer.last_us < e.entry.meta.end_us.count(), "mutation-times");
      }
      s.Check(replayer.mutations > mutations_before, "empty-log-entry");
    }
    s.Check(replayer.st == m, "log-replay", [&] { return "expected\n" + m.Show() + "replayed\n" + replayer.st.Show(); });
    size = new_size;
    if (!file.empty()) {
      const std::string contents = current::FileSystem::ReadFileAsString(file);
      if (mutations_before == replayer.mutations) {
        s.Check(contents.size() == file_size || file_size == 0, "file-changed");
      } else {
        s.Check(contents.size() > file_size && contents.back() == '\n', "file-not-appended");
        if (file_size) s.Eq(size_t(1), size_t(std::count(contents.begin() + file_size, contents.end(), '\n')), "file-lines");
      }
      file_size = contents.size();
    }
    const size_t mutated = replayer.mutations - mutations_before;
    if (mutated >= 2) ++good;
    if (!only_reads && ending != 0 && ops >= 2 && !(next == m)) ++bad;
    if (!shut_down && s.Chance(1, 40)) {
      storage->GracefulShutdown();
      shut_down = true;
      if (s.Describing()) s.Note("graceful shutdown");
    }
  }
  if (good && bad) s.NonTrivial();
}

}  // namespace

#if !__has_feature(thread_sanitizer)
PBT_PROP(memory, o.weight = 2) { History<Five<StreamInMemoryStreamPersister>>(s, ""); }

PBT_PROP(file, o.weight = 1) {
  const std::string f = s.Scratch() + "/storage";
  History<Five<StreamStreamPersister>>(s, f, f);
}

#endif

// Transactions of several threads are equivalent to some order of them, which is the order of the log.
PBT_PROP(concurrent, o.schedule = true; o.weight = 1; o.hang_s = 60) {
  using storage_t = Five<StreamInMemoryStreamPersister>;
  auto storage = storage_t::CreateMasterStorage();
  const size_t threads = 2 + s.Draw(3);
  const size_t per_thread = 5 + s.Len(60);
  const size_t readers = s.Draw(2);
  const uint64_t seed = s.U64();
  std::atomic_size_t committed(0), abandoned(0), torn(0), wrong(0);
  std::atomic_bool stop(false);
  struct Done {
    int64_t version;
    std::string who;
  };
  std::vector<std::vector<Done>> done(threads);
  // In each committed state: `u[0].v` is the version, `d` has a record per version, `om` has the version in column 0, and
  // `mm` has exactly two cells in row "x".
  auto Consistent = [&](const auto& f) {
    const auto v = f.u[0];
    const int64_t version = Exists(v) ? current::FromString<int64_t>(Value(Value(v).v)) : 0;
    if (int64_t(f.d.Size()) != version) return false;
    const auto o = f.om.GetEntryFromCol(0);
    if (Exists(o) != (version > 0) || (version > 0 && Value(o).row != std::to_string(version))) return false;
    if (f.om.Size() != (version > 0 ? 1u : 0u)) return false;
    if (f.oo.Size() != (version > 0 ? 1u : 0u)) return false;
    if (f.mm.Row("x").Size() != (version > 0 ? 2u : 0u)) return false;
    return true;
  };
  std::vector<std::thread> all;
  for (size_t t = 0; t < threads; ++t) {
    all.emplace_back([&, t] {
      uint64_t r = seed + t * 7919;
      for (size_t i = 0; i < per_thread; ++i) {
        r = pbt::Mix(r, i);
        const int how = int(r % 8);
        const std::string who = std::to_string(t) + ":" + std::to_string(i);
        auto Body = [&](MutableFields<storage_t> f) {
          if (!Consistent(f)) ++torn;
          const auto v = f.u[0];
          const int64_t version = (Exists(v) ? current::FromString<int64_t>(Value(Value(v).v)) : 0) + 1;
          ByName n;
          n.key = std::to_string(version);
          n.v = who;
          f.d.Add(n);
          if (how == 0) CURRENT_STORAGE_THROW_ROLLBACK();
          Cell c;
          c.col = 0;
          c.row = std::to_string(version);
          f.om.Add(c);
          c.row = "y";
          f.oo.Add(c);
          if (how == 1) throw std::runtime_error("stop");
          c.row = "x";
          for (int32_t k : {0, 1}) {
            f.mm.Erase("x", int32_t((version - 1) * 2 + k));
            c.col = int32_t(version * 2 + k);
            f.mm.Add(c);
          }
          ByNumber b;
          b.id = 0;
          b.v = std::to_string(version);
          f.u.Add(b);
          f.SetTransactionMetaField("who", who);
          if (how == 2) throw 1;
          return version;
        };
        if (how == 3) {
          // Two-step.
          int64_t got = 0;
          auto x = storage->ReadWriteTransaction(Body, [&](int64_t version) { got = version; }).Go();
          if (!WasCommitted(x)) ++wrong;
          done[t].push_back({got, who});
          ++committed;
          continue;
        }
        try {
          auto x = storage->ReadWriteTransaction(Body).Go();
          if (WasCommitted(x)) {
            ++committed;
            done[t].push_back({Value(x), who});
            if (how <= 2) ++wrong;
          } else {
            ++abandoned;
            if (how != 0) ++wrong;
          }
        } catch (const std::runtime_error&) {
          ++abandoned;
          if (how != 1) ++wrong;
        } catch (int) {
          ++abandoned;
          if (how != 2) ++wrong;
        }
      }
    });
  }
  std::vector<std::thread> reading;
  for (size_t t = 0; t < readers; ++t) {
    reading.emplace_back([&] {
      size_t last = 0;
      while (!stop) {
        auto r = storage->ReadOnlyTransaction([&](ImmutableFields<storage_t> f) {
          if (!Consistent(f)) ++torn;
          const size_t n = f.d.Size();
          if (n < last) ++torn;
          last = n;
          return n;
        }).Go();
        if (!WasCommitted(r) || Value(r) != last) ++wrong;
      }
    });
  }
  for (auto& t : all) t.join();
  stop = true;
  for (auto& t : reading) t.join();
  s.Eq(size_t(0), torn.load(), "torn-state");
  s.Eq(size_t(0), wrong.load(), "wrong-outcome");
  std::map<int64_t, std::string> by_version;
  for (auto& d : done) {
    int64_t last = 0;
    for (auto& x : d) {
      s.Check(x.version > last, "order-within-a-thread");
      last = x.version;
      s.Check(by_version.emplace(x.version, x.who).second, "same-version-twice");
    }
  }
  s.Eq(committed.load(), by_version.size(), "committed");
  if (!by_version.empty()) s.Eq(int64_t(committed.load()), by_version.rbegin()->first, "last-version");
  Replayer replayer;
  int64_t n = 0;
  auto stream = storage->BorrowUnderlyingStream();
  for (const auto& e : stream->Data()->Iterate()) {
    ++n;
    s.Check(by_version.count(n) > 0, "log-too-long");
    s.Check(e.entry.meta.fields == (std::map<std::string, std::string>{{"who", by_version[n]}}), "log-order");
    for (const auto& mutation : e.entry.mutations) mutation.Call(replayer);
  }
  s.Eq(int64_t(committed.load()), n, "log-size");
  storage->ReadOnlyTransaction([&](ImmutableFields<storage_t> f) {
    const State got = DumpAll(f, replayer.st);
    s.Check(got == replayer.st, "final-state", [&] { return "replayed\n" + replayer.st.Show() + "got\n" + got.Show(); });
    CheckAll(s, f, replayer.st);
  }).Go();
  if (committed && abandoned) s.NonTrivial();
}
