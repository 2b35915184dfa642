// P01: the log is a faithful, ordered, durable sequence. P02 (crash) lives in p02_crash.cc.
#define CURRENT_MOCK_TIME
#include "pbt.h"

#include "blocks/persistence/memory.h"
#include "blocks/persistence/file.h"
#include "blocks/ss/ss.h"
#include "bricks/file/file.h"

PBT_CHECK("P01", "exploration",
          "A case is a random history of publishes (default, explicit, stale and equal timestamps; parsed and raw), head "
          "updates, reopenings and range reads (by index, by time, resumed after later publishes) executed against the "
          "in-memory log, the file log and a list model at once. Non-trivial: at least three accepted publishes and at "
          "least one of {rejected write, head update, reopening} between them.");

namespace {

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(s, std::string, "");
  CURRENT_FIELD(n, int64_t, 0);
};
CURRENT_STRUCT(Other) {
  CURRENT_FIELD(v, (std::vector<std::string>));
};
CURRENT_VARIANT(Either, Rec, Other);

using us_t = std::chrono::microseconds;

template <typename T>
struct Make;
template <>
struct Make<Rec> {
  static Rec Gen(pbt::Src& s) {
    Rec r;
    r.s = s.Utf8(40);
    r.n = s.I64();
    return r;
  }
};
template <>
struct Make<Either> {
  static Either Gen(pbt::Src& s) {
    if (s.Bool()) {
      Other o;
      const size_t n = s.Len(4);
      for (size_t i = 0; i < n; ++i) o.v.push_back(s.Utf8(10));
      return Either(o);
    } else {
      return Either(Make<Rec>::Gen(s));
    }
  }
};

struct ModelEntry {
  int64_t us;
  std::string json;
  std::string raw;  // As IterateUnsafe should show it; empty: not compared byte to byte for the memory persister.
};

struct Model {
  std::vector<ModelEntry> e;
  int64_t head = -1;
};

template <typename P>
std::string Observe(P& p) {
  std::ostringstream os;
  os << "size=" << p.Size() << " empty=" << p.Empty() << " head=" << p.CurrentHead().count();
  const auto h = p.HeadAndLastPublishedIndexAndTimestamp();
  os << " h=" << h.head.count();
  if (Exists(h.idxts)) os << " last=" << Value(h.idxts).index << ":" << Value(h.idxts).us.count();
  try {
    const auto l = p.LastPublishedIndexAndTimestamp();
    os << " l=" << l.index << ":" << l.us.count();
  } catch (const current::persistence::NoEntriesPublishedYet&) {
    os << " l=none";
  }
  return os.str();
}

std::string ObserveModel(const Model& m) {
  std::ostringstream os;
  os << "size=" << m.e.size() << " empty=" << m.e.empty() << " head=" << m.head << " h=" << m.head;
  if (!m.e.empty()) {
    os << " last=" << m.e.size() - 1 << ":" << m.e.back().us << " l=" << m.e.size() - 1 << ":" << m.e.back().us;
  } else {
    os << " l=none";
  }
  return os.str();
}

std::string Line(uint64_t i, const ModelEntry& e) {
  return std::to_string(i) + "@" + std::to_string(e.us) + " " + e.json + "\n";
}

template <typename P>
std::string ReadIdx(P& p, uint64_t a, uint64_t b) {
  std::string r;
  try {
    for (const auto& x : p.Iterate(a, b)) {
      r += std::to_string(x.idx_ts.index) + "@" + std::to_string(x.idx_ts.us.count()) + " " + JSON(x.entry) + "\n";
    }
  } catch (const current::persistence::InvalidIterableRangeException&) {
    return "invalid-range";
  }
  return r;
}
template <typename P>
std::string ReadTime(P& p, int64_t a, int64_t b) {
  std::string r;
  try {
    for (const auto& x : p.Iterate(us_t(a), us_t(b))) {
      r += std::to_string(x.idx_ts.index) + "@" + std::to_string(x.idx_ts.us.count()) + " " + JSON(x.entry) + "\n";
    }
  } catch (const current::persistence::InvalidIterableRangeException&) {
    return "invalid-range";
  }
  return r;
}
template <typename P, typename A>
std::string ReadRaw(P& p, A a, A b) {
  std::string r;
  try {
    for (const std::string& x : p.IterateUnsafe(a, b)) {
      r += x + "\n";
    }
  } catch (const current::persistence::InvalidIterableRangeException&) {
    return "invalid-range";
  }
  return r;
}

template <typename ENTRY>
void RunHistory(pbt::Src& s) {
  current::time::ResetToZero();
  const auto ns = current::ss::StreamNamespaceName("ns", "entry");
  const std::string fn = s.Scratch() + "/log";
  using File = current::persistence::File<ENTRY>;
  using Memory = current::persistence::Memory<ENTRY>;
  std::mutex fm, mm;
  auto f = std::make_unique<File>(fm, ns, fn);
  auto m = std::make_unique<Memory>(mm, ns);
  Model model;
  int64_t now = 0;
  size_t ok = 0, rejected = 0, heads = 0, reopens = 0, reads = 0;

  auto CheckState = [&](const char* where) {
    const std::string expected = ObserveModel(model);
    s.Eq(expected, Observe(*f), "file-state");
    s.Eq(expected, Observe(*m), "memory-state");
    (void)where;
  };

  // Timestamps around the interesting values: the head, existing entries, and beyond.
  auto GenUs = [&]() -> int64_t {
    switch (s.Weighted({6, 2, 2, 1, 1})) {
      case 0:
        return model.head + s.Int(1, 20);
      case 1:
        return model.head + s.Int(-2, 1);
      case 2:
        return model.e.empty() ? s.Int(-3, 10) : model.e[s.Draw(model.e.size() - 1)].us + s.Int(-1, 1);
      case 3:
        return s.Int(-5, 5);
      default:
        return model.head + s.Int(1, 1000000000000ll);
    }
  };

  const size_t ops = 1 + s.Size(0, 30);
  for (size_t op = 0; op < ops; ++op) {
    switch (s.Weighted({13, 4, 0, 4, 2, 4, 4, 2, 2})) {
      case 1: {  // Publish a raw line, as the replicator does.
        const ENTRY e = Make<ENTRY>::Gen(s);
        const int64_t us = GenUs();
        const int kind = int(s.Weighted({12, 1, 1}));
        const uint64_t index = kind == 1 ? s.Draw(model.e.size() + 2) : model.e.size();
        const std::string head = "{\"index\":" + std::to_string(index) + ",\"us\":" + std::to_string(us) + "}";
        const std::string j = JSON(e);
        const std::string line = kind == 2 ? head + " " + j : head + "\t" + j;
        if (s.Describing()) s.Note("publish raw " + line);
        const bool expect_ok = kind != 2 && index == model.e.size() && us > model.head;
        for (int which = 0; which < 2; ++which) {
          bool done = false;
          idxts_t r;
          try {
            r = which ? m->PublishUnsafe(line) : f->PublishUnsafe(line);
            done = true;
          } catch (const current::persistence::MalformedEntryException&) {
            s.Check(kind == 2, "raw-refused-as-malformed");
          } catch (const current::persistence::UnsafePublishBadIndexTimestampException&) {
            s.Check(kind == 1 && index != model.e.size(), "raw-refused-by-index");
          } catch (const current::ss::InconsistentTimestampException&) {
            s.Check(us <= model.head, "raw-refused-by-time");
          }
          s.Check(done == expect_ok, which ? "memory-accepts-raw" : "file-accepts-raw");
          if (done) {
            s.Eq(std::to_string(index) + ":" + std::to_string(us), std::to_string(r.index) + ":" + std::to_string(r.us.count()), "publish-raw-result");
          }
        }
        if (expect_ok) {
          model.e.push_back({us, j, line});
          model.head = us;
          ++ok;
        } else {
          ++rejected;
        }
        break;
      }
      case 0:
      case 2: {  // Publish, with an explicit or with the default timestamp.
        const bool explicit_us = s.Chance(3, 4);
        const ENTRY e = Make<ENTRY>::Gen(s);
        int64_t us;
        if (explicit_us) {
          us = GenUs();
        } else {
          now = std::max(now, model.head) + s.Int(0, 5);
          us = now;
          current::time::SetNow(us_t(now), us_t(now));
        }
        if (s.Describing()) s.Note("publish us=" + std::to_string(us) + (explicit_us ? "" : " (default)") + " " + JSON(e));
        const bool expect_ok = us > model.head;
        for (int which = 0; which < 2; ++which) {
          bool done = false;
          idxts_t r;
          try {
            if (which == 0) {
              r = explicit_us ? f->Publish(e, us_t(us)) : f->Publish(e);
            } else {
              r = explicit_us ? m->Publish(e, us_t(us)) : m->Publish(e);
            }
            done = true;
          } catch (const current::ss::InconsistentTimestampException&) {
          }
          s.Check(done == expect_ok, which ? "memory-accepts" : "file-accepts", [&] {
            return "us=" + std::to_string(us) + " head=" + std::to_string(model.head) + (done ? " was accepted" : " was rejected");
          });
          if (done) {
            s.Eq(std::to_string(model.e.size()) + ":" + std::to_string(us), std::to_string(r.index) + ":" + std::to_string(r.us.count()), "publish-result");
          }
        }
        if (expect_ok) {
          const std::string j = JSON(e);
          model.e.push_back({us, j, "{\"index\":" + std::to_string(model.e.size()) + ",\"us\":" + std::to_string(us) + "}\t" + j});
          model.head = us;
          ++ok;
        } else {
          ++rejected;
        }
        break;
      }
      case 3: {  // Update head.
        const int64_t us = GenUs();
        if (s.Describing()) s.Note("head us=" + std::to_string(us));
        const bool expect_ok = us > model.head;
        for (int which = 0; which < 2; ++which) {
          bool done = false;
          try {
            which ? m->UpdateHead(us_t(us)) : f->UpdateHead(us_t(us));
            done = true;
          } catch (const current::ss::InconsistentTimestampException&) {
          }
          s.Check(done == expect_ok, which ? "memory-accepts-head" : "file-accepts-head");
        }
        if (expect_ok) {
          model.head = us;
          ++heads;
        } else {
          ++rejected;
        }
        break;
      }
      case 4: {  // Reopen the file.
        if (s.Describing()) s.Note("reopen");
        f = nullptr;
        f = std::make_unique<File>(fm, ns, fn);
        ++reopens;
        break;
      }
      case 5: {  // Read by index.
        const uint64_t n = model.e.size();
        const uint64_t a = s.Draw(n + 1);
        const uint64_t b = s.Chance(1, 4) ? uint64_t(-1) : s.Draw(n + 1);
        if (s.Describing()) s.Note("read [" + std::to_string(a) + "," + std::to_string(int64_t(b)) + ")");
        std::string expected, raw;
        const uint64_t bb = b == uint64_t(-1) ? n : b;
        if (bb > n || (a != bb && bb < a)) {
          expected = raw = "invalid-range";
        } else {
          for (uint64_t i = a; i < bb; ++i) {
            expected += Line(i, model.e[i]);
            raw += model.e[i].raw + "\n";
          }
        }
        s.Eq(expected, ReadIdx(*f, a, b), "file-read-index");
        s.Eq(expected, ReadIdx(*m, a, b), "memory-read-index");
        s.Eq(raw, ReadRaw(*f, a, b), "file-read-raw");
        s.Eq(raw, ReadRaw(*m, a, b), "memory-read-raw");
        ++reads;
        break;
      }
      case 6: {  // Read by time.
        auto T = [&]() -> int64_t {
          if (model.e.empty() || s.Chance(1, 5)) return s.Int(0, 40);
          return model.e[s.Draw(model.e.size() - 1)].us + s.Int(-1, 1);
        };
        const int64_t a = std::max<int64_t>(0, T());
        const int64_t b = s.Chance(1, 4) ? -1 : std::max<int64_t>(1, T());
        if (s.Describing()) s.Note("read time [" + std::to_string(a) + "," + std::to_string(b) + "]");
        std::string expected, raw;
        if (b > 0 && b < a) {
          expected = raw = "invalid-range";
        } else {
          for (uint64_t i = 0; i < model.e.size(); ++i) {
            if (model.e[i].us >= a && (b <= 0 || model.e[i].us <= b)) {
              expected += Line(i, model.e[i]);
              raw += model.e[i].raw + "\n";
            }
          }
        }
        s.Eq(expected, ReadTime(*f, a, b), "file-read-time");
        s.Eq(expected, ReadTime(*m, a, b), "memory-read-time");
        s.Eq(raw, ReadRaw(*f, us_t(a), us_t(b)), "file-read-time-raw");
        s.Eq(raw, ReadRaw(*m, us_t(a), us_t(b)), "memory-read-time-raw");
        ++reads;
        break;
      }
      case 7: {  // A range taken now and consumed after later publishes shows exactly what it covered when taken.
        if (model.e.empty()) break;
        const uint64_t n = model.e.size();
        const uint64_t a = s.Draw(n - 1);
        const uint64_t b = a + s.Draw(n - a);
        if (s.Describing()) s.Note("deferred read [" + std::to_string(a) + "," + std::to_string(b) + ")");
        auto fr = f->Iterate(a, b);
        auto mr = m->Iterate(a, b);
        auto fi = fr.begin();
        const auto fe = fr.end();
        auto mi = mr.begin();
        const auto me = mr.end();
        const size_t publish_at = s.Draw(b - a);
        for (uint64_t i = a; i < b; ++i) {
          if (i - a == publish_at) {
            const ENTRY e = Make<ENTRY>::Gen(s);
            const int64_t us = model.head + 1 + int64_t(s.Draw(3));
            f->Publish(e, us_t(us));
            m->Publish(e, us_t(us));
            const std::string j = JSON(e);
            model.e.push_back({us, j, "{\"index\":" + std::to_string(model.e.size()) + ",\"us\":" + std::to_string(us) + "}\t" + j});
            model.head = us;
            ++ok;
          }
          s.Check(fi != fe, "file-deferred-short");
          s.Check(mi != me, "memory-deferred-short");
          const auto x = *fi;
          s.Eq(Line(i, model.e[i]), std::to_string(x.idx_ts.index) + "@" + std::to_string(x.idx_ts.us.count()) + " " + JSON(x.entry) + "\n", "file-deferred");
          const auto y = *mi;
          s.Eq(Line(i, model.e[i]), std::to_string(y.idx_ts.index) + "@" + std::to_string(y.idx_ts.us.count()) + " " + JSON(y.entry) + "\n", "memory-deferred");
          ++fi;
          ++mi;
        }
        s.Check(!(fi != fe), "file-deferred-long");
        s.Check(!(mi != me), "memory-deferred-long");
        ++reads;
        break;
      }
      default: {  // Skipping within a range: dereference only some of the positions.
        if (model.e.empty()) break;
        const uint64_t n = model.e.size();
        const uint64_t a = s.Draw(n - 1);
        auto fr = f->Iterate(a, n);
        auto fi = fr.begin();
        auto ur = f->IterateUnsafe(a, n);
        auto ui = ur.begin();
        for (uint64_t i = a; i < n; ++i) {
          if (s.Bool()) {
            const auto x = *fi;
            s.Eq(Line(i, model.e[i]), std::to_string(x.idx_ts.index) + "@" + std::to_string(x.idx_ts.us.count()) + " " + JSON(x.entry) + "\n", "file-skip");
          }
          if (s.Bool()) {
            const std::string x = *ui;
            s.Eq(model.e[i].raw, x, "file-skip-raw");
          }
          ++fi;
          ++ui;
        }
        ++reads;
      }
    }
    CheckState("op");
  }
  // Everything accepted survives a reopening, in order, and is the same by either way of reading.
  f = nullptr;
  f = std::make_unique<File>(fm, ns, fn);
  CheckState("end");
  std::string expected;
  for (uint64_t i = 0; i < model.e.size(); ++i) expected += Line(i, model.e[i]);
  s.Eq(expected, ReadIdx(*f, 0, uint64_t(-1)), "file-final");
  s.Eq(expected, ReadIdx(*m, 0, uint64_t(-1)), "memory-final");
  s.LabelIf(reopens > 0, "with reopening");
  s.LabelIf(heads > 0, "with head updates");
  s.LabelIf(rejected > 0, "with rejected writes");
  s.LabelIf(ok >= 10, "ten or more entries");
  if (ok >= 3 && (rejected || heads || reopens)) s.NonTrivial();
}

}  // namespace

PBT_PROP(history_struct, o.weight = 2) { RunHistory<Rec>(s); }
PBT_PROP(history_variant, o.weight = 1) { RunHistory<Either>(s); }

// A log written for another type or another name is refused, and refusing leaves it untouched.
PBT_PROP(foreign_signature) {
  current::time::ResetToZero();
  const std::string fn = s.Scratch() + "/log";
  std::mutex mx;
  const auto ns = current::ss::StreamNamespaceName("ns", "entry");
  const size_t n = s.Draw(3);
  {
    current::persistence::File<Rec> f(mx, ns, fn);
    for (size_t i = 0; i < n; ++i) f.Publish(Make<Rec>::Gen(s), us_t(int64_t(i) + 1));
  }
  const std::string before = current::FileSystem::ReadFileAsString(fn);
  const int kind = int(s.Draw(3));
  bool threw = false;
  try {
    if (kind == 0) {
      current::persistence::File<Either> f(mx, ns, fn);
    } else if (kind == 1) {
      current::persistence::File<Rec> f(mx, current::ss::StreamNamespaceName("other", "entry"), fn);
    } else if (kind == 2) {
      current::persistence::File<Rec> f(mx, current::ss::StreamNamespaceName("ns", "other"), fn);
    } else {
      current::persistence::File<Rec> f(mx, ns, fn);
    }
  } catch (const current::persistence::InvalidStreamSignature&) {
    threw = true;
  }
  s.Check(threw == (kind != 3), "signature-check");
  s.Eq(before, current::FileSystem::ReadFileAsString(fn), "refusing-leaves-the-file-alone");
  if (s.Describing()) s.Note("kind=" + std::to_string(kind) + " entries=" + std::to_string(n));
  if (kind != 3 && n) s.NonTrivial();
}
