// P02: crash recovery of the file log.
#define CURRENT_MOCK_TIME
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>

#include "pbt.h"

#include "blocks/persistence/file.h"
#include "blocks/ss/ss.h"
#include "bricks/file/file.h"

PBT_CHECK("P02", "fault_enumeration",
          "crash_prefix: a log is written by a random history of publishes and head updates, then cut at every byte offset "
          "of its tail region and at random offsets elsewhere (the state a killed writer leaves), reopened, read and written "
          "to again. corrupt_file: a valid log with random edits is opened and read. damaged_lines: whole lines dropped, repeated, "
          "swapped, renumbered, moved in time; opened iff an independent reader says the rest is a log. failed_writes: a history in which some of the writes fail, at a random byte, as the file can not grow. Non-trivial: the cut "
          "falls strictly inside a line (crash_prefix), or an edited file (corrupt_file, damaged_lines), or a failed write followed by a successful one (failed_writes).");

namespace {

CURRENT_STRUCT(Rec) {
  CURRENT_FIELD(s, std::string, "");
  CURRENT_FIELD(n, int64_t, 0);
};

using us_t = std::chrono::microseconds;
using File = current::persistence::File<Rec>;

Rec Gen(pbt::Src& s) {
  Rec r;
  r.s = s.Utf8(20);
  r.n = s.I64();
  return r;
}

struct Opened {
  std::vector<std::string> lines;
  int64_t head;
};

std::vector<std::string> ReadAll(File& f) {
  std::vector<std::string> v;
  for (const auto& e : f.Iterate()) {
    v.push_back(std::to_string(e.idx_ts.index) + "@" + std::to_string(e.idx_ts.us.count()) + " " + JSON(e.entry));
  }
  return v;
}

std::string Dump(const std::vector<std::string>& v) {
  std::string r;
  for (auto& x : v) r += x + "\n";
  return r;
}

}  // namespace

PBT_PROP(crash_prefix, o.weight = 3) {
  const auto ns = current::ss::StreamNamespaceName("ns", "entry");
  const std::string fn = s.Scratch() + "/log";
  std::mutex mx;
  std::vector<std::string> all;     // Model of the entries.
  std::vector<size_t> size_after;   // The file size once each entry was acknowledged.
  int64_t head = -1;
  {
    File f(mx, ns, fn);
    const size_t ops = 1 + s.Size(0, 6);
    for (size_t i = 0; i < ops; ++i) {
      const int64_t us = head + 1 + int64_t(s.Draw(1000));
      if (s.Weighted({3, 1}) == 0) {
        const Rec r = Gen(s);
        f.Publish(r, us_t(us));
        all.push_back(std::to_string(all.size()) + "@" + std::to_string(us) + " " + JSON(r));
        size_after.push_back(current::FileSystem::GetFileSize(fn));
      } else {
        f.UpdateHead(us_t(us));
      }
      head = us;
    }
  }
  const std::string whole = current::FileSystem::ReadFileAsString(fn);
  const size_t signature_end = whole.find('\n') + 1;
  const size_t cut = signature_end + s.Draw(whole.size() - signature_end);
  const std::string prefix = whole.substr(0, cut);
  const bool on_boundary = prefix.back() == '\n';
  size_t acknowledged = 0;
  while (acknowledged < size_after.size() && size_after[acknowledged] <= cut) ++acknowledged;
  if (s.Describing()) {
    s.Note("file: " + pbt::Esc(whole.substr(signature_end)));
    s.Note("cut: " + pbt::Esc(prefix.substr(signature_end)));
  }
  current::FileSystem::WriteStringToFile(prefix, fn.c_str());
  s.LabelIf(on_boundary, "cut at a line boundary");
  if (!on_boundary) s.NonTrivial();

  std::unique_ptr<File> f;
  try {
    f = std::make_unique<File>(mx, ns, fn);
  } catch (const current::Exception& e) {
    // A torn file may be refused, never silently misread. A cleanly cut one must open.
    s.Check(!on_boundary, "clean-prefix-refused", [&] { return e.OriginalDescription(); });
    s.Label("torn: refused");
    return;
  }
  s.LabelIf(!on_boundary, "torn: opened");
  std::vector<std::string> got;
  try {
    got = ReadAll(*f);
  } catch (const std::exception& e) {
    s.Fail("opened-but-unreadable", e.what());
  }
  // Whatever was acknowledged before the cut is there, and nothing which was never published is.
  s.Check(got.size() >= acknowledged, "acknowledged-entry-lost", [&] { return "expected at least " + std::to_string(acknowledged) + " got\n" + Dump(got); });
  s.Check(got.size() <= all.size() && std::equal(got.begin(), got.end(), all.begin()), "not-a-prefix", [&] { return "published:\n" + Dump(all) + "read back:\n" + Dump(got); });
  s.Eq(got.size(), f->Size(), "size-vs-read");

  // Life goes on: later publishes are preserved, along with what was recovered.
  std::vector<std::string> expected = got;
  int64_t us = f->CurrentHead().count();
  const size_t more = 1 + s.Draw(2);
  for (size_t i = 0; i < more; ++i) {
    us += 1 + int64_t(s.Draw(5));
    if (s.Weighted({3, 1}) == 0) {
      const Rec r = Gen(s);
      f->Publish(r, us_t(us));
      expected.push_back(std::to_string(expected.size()) + "@" + std::to_string(us) + " " + JSON(r));
      if (s.Describing()) s.Note("then publish " + expected.back());
    } else {
      f->UpdateHead(us_t(us));
      if (s.Describing()) s.Note("then head " + std::to_string(us));
    }
  }
  try {
    s.Eq(Dump(expected), Dump(ReadAll(*f)), "after-recovery");
  } catch (const std::exception& e) {
    s.Fail("after-recovery-unreadable", e.what());
  }
  f = nullptr;
  try {
    f = std::make_unique<File>(mx, ns, fn);
    s.Eq(Dump(expected), Dump(ReadAll(*f)), "after-recovery-reopened");
    s.Eq(us, f->CurrentHead().count(), "head-after-recovery");
  } catch (const std::exception& e) {
    s.Fail("after-recovery-not-reopened", e.what());
  }
}

// The in-place head rewriting, interrupted: any prefix of the new digits over the old ones.
PBT_PROP(torn_head) {
  const auto ns = current::ss::StreamNamespaceName("ns", "entry");
  const std::string fn = s.Scratch() + "/log";
  std::mutex mx;
  std::vector<std::string> all;
  int64_t head = -1;
  std::string before, after;
  {
    File f(mx, ns, fn);
    const size_t n = s.Draw(3);
    for (size_t i = 0; i < n; ++i) {
      const Rec r = Gen(s);
      head += 1 + int64_t(s.Draw(1000));
      f.Publish(r, us_t(head));
      all.push_back(std::to_string(all.size()) + "@" + std::to_string(head) + " " + JSON(r));
    }
    head += 1 + int64_t(s.Draw(100000));
    f.UpdateHead(us_t(head));
    before = current::FileSystem::ReadFileAsString(fn);
    head += 1 + int64_t(s.Draw(100000));
    f.UpdateHead(us_t(head));
    after = current::FileSystem::ReadFileAsString(fn);
  }
  s.Eq(before.size(), after.size(), "head-rewritten-in-place");
  size_t first = 0;
  while (first < after.size() && before[first] == after[first]) ++first;
  const size_t cut = first + s.Draw(after.size() - first);
  current::FileSystem::WriteStringToFile(after.substr(0, cut) + before.substr(cut), fn.c_str());
  if (s.Describing()) s.Note("torn head: " + pbt::Esc((after.substr(0, cut) + before.substr(cut)).substr(before.find('\n') + 1)));
  if (cut > first && cut < after.size() - 1) s.NonTrivial();
  File f(mx, ns, fn);
  s.Eq(Dump(all), Dump(ReadAll(f)), "entries-after-torn-head");
  s.Check(f.CurrentHead().count() >= 0, "head-lost");
}

// A damaged file is refused at opening, or at reading: it never crashes the process, and whatever is read is well-formed.
PBT_PROP(corrupt_file) {
  const auto ns = current::ss::StreamNamespaceName("ns", "entry");
  const std::string fn = s.Scratch() + "/log";
  std::mutex mx;
  {
    File f(mx, ns, fn);
    int64_t us = 0;
    const size_t n = s.Draw(4);
    for (size_t i = 0; i < n; ++i) {
      us += 1 + int64_t(s.Draw(50));
      if (s.Weighted({3, 1})) {
        f.UpdateHead(us_t(us));
      } else {
        f.Publish(Gen(s), us_t(us));
      }
    }
  }
  std::string c = current::FileSystem::ReadFileAsString(fn);
  const size_t body = c.find('\n') + 1;
  const size_t edits = 1 + s.Draw(3);
  for (size_t i = 0; i < edits; ++i) {
    const size_t from = s.Chance(1, 8) ? 0 : std::min(body, c.size());
    const size_t at = from + s.Draw(c.size() - from);
    switch (s.Draw(3)) {
      case 0:
        c.insert(at, s.Bytes(6));
        break;
      case 1:
        c.erase(at, s.Draw(8));
        break;
      case 2:
        if (at < c.size()) c[at] = s.Pick({"\n", "\t", "0", "9", "\"", "}", "#", "-", "\xff"})[0];
        break;
      default: {
        const size_t from2 = s.Draw(c.size());
        c.insert(at, c.substr(from2, s.Draw(40)));
      }
    }
  }
  if (s.Describing()) s.Note(pbt::Esc(c));
  current::FileSystem::WriteStringToFile(c, fn.c_str());
  s.NonTrivial();
  try {
    File f(mx, ns, fn);
    const uint64_t size = f.Size();
    s.Label("opened");
    uint64_t next = 0;
    int64_t last = -1;
    for (const auto& e : f.Iterate()) {
      s.Check(e.idx_ts.index == next, "index-gap");
      s.Check(e.idx_ts.us.count() > last, "timestamp-order");
      last = e.idx_ts.us.count();
      ++next;
    }
    s.Eq(size, next, "size-vs-read");
    s.Check(f.CurrentHead().count() >= last, "head-behind");
    if (f.CurrentHead().count() > (1ll << 60)) return;
    // It was accepted as a valid log: hence it should remain one after more writes.
    int64_t us = f.CurrentHead().count();
    const size_t more = 1 + s.Draw(3);
    std::string expected = Dump(ReadAll(f));
    for (size_t i = 0; i < more; ++i) {
      us += 1 + int64_t(s.Draw(5));
      if (s.Bool()) {
        const Rec r = Gen(s);
        f.Publish(r, us_t(us));
        expected += std::to_string(next++) + "@" + std::to_string(us) + " " + JSON(r) + "\n";
      } else {
        f.UpdateHead(us_t(us));
      }
    }
    try {
      s.Eq(expected, Dump(ReadAll(f)), "after-more-writes");
      File g(mx, ns, fn);
      s.Eq(expected, Dump(ReadAll(g)), "after-more-writes-reopened");
      s.Eq(us, g.CurrentHead().count(), "head-after-more-writes");
    } catch (const current::Exception& e) {
      s.Fail("after-more-writes-unreadable", e.OriginalDescription());
    }
  } catch (const current::Exception&) {
    s.Label("refused");
  }
}

// A log with whole lines damaged (dropped, repeated, swapped, renumbered, moved in time) is opened if and only if what is
// left is a log: indexes from zero on with no gaps, time strictly increasing across the entries and the head updates, and
// the signature, if there is one, in the first line. Decided by an independent reader of the format.
PBT_PROP(damaged_lines) {
  const auto ns = current::ss::StreamNamespaceName("ns", "entry");
  const std::string fn = s.Scratch() + "/log";
  std::mutex mx;
  struct Line {
    int kind;  // 0: entry, 1: head, 2: signature, 3: other directive.
    int64_t index, us;
    std::string body;
    std::string Text() const {
      switch (kind) {
        case 0:
          return "{\"index\":" + std::to_string(index) + ",\"us\":" + std::to_string(us) + "}\t" + body;
        case 1: {
          char b[64];
          snprintf(b, sizeof(b), body.c_str(), static_cast<long long>(us));
          return b;
        }
        default:
          return body;
      }
    }
  };
  std::vector<Line> lines;
  {
    File f(mx, ns, fn);
    const std::string c = current::FileSystem::ReadFileAsString(fn);
    lines.push_back({2, 0, 0, c.substr(0, c.find('\n'))});
  }
  int64_t us = s.Bool() ? 0 : int64_t(s.Draw(1000));
  const size_t n = s.Len(8);
  int64_t index = 0;
  for (size_t i = 0; i < n; ++i) {
    switch (s.Weighted({4, 3, 1})) {
      case 0:
        lines.push_back({0, index++, us, JSON(Gen(s))});
        us += 1 + int64_t(s.Draw(3));
        break;
      case 1:
        lines.push_back({1, 0, us, s.Chance(1, 4) ? "#head %lld" : "#head %020lld"});
        us += 1 + int64_t(s.Draw(3));
        break;
      default:
        lines.push_back({3, 0, 0, s.Pick({"#", "#comment", "#headless", "# head 5"})});
        if (lines.back().body == "#headless") lines.back().body = "#note";
    }
  }
  const size_t damages = s.Draw(3);
  for (size_t d = 0; d < damages && !lines.empty(); ++d) {
    const size_t k = s.Draw(lines.size() - 1);
    switch (s.Draw(6)) {
      case 0:
        lines.erase(lines.begin() + k);
        s.Label("dropped");
        break;
      case 1: {
        const Line copy = lines[k];
        lines.insert(lines.begin() + k, copy);
        s.Label("repeated");
        break;
      }
      case 2: {
        const size_t l = s.Draw(lines.size() - 1);
        std::swap(lines[k], lines[l]);
        s.Label("swapped");
        break;
      }
      case 3:
        lines[k].index += s.Bool() ? 1 : -1;
        s.Label("renumbered");
        break;
      case 4: {
        // To the very same moment as the previous line which has one, or next to it.
        for (size_t l = k; l-- > 0;) {
          if (lines[l].kind < 2) {
            lines[k].us = lines[l].us + int64_t(s.Draw(2)) - 1;
            break;
          }
        }
        s.Label("moved-in-time");
        break;
      }
      case 5:
        lines[k].us += int64_t(s.Draw(6)) - 3;
        s.Label("moved-in-time");
        break;
      default: {
        const size_t l = s.Draw(lines.size());
        lines.insert(lines.begin() + l, {3, 0, 0, s.Pick({"", "{\"index\":0,\"us\":0}", "junk", "#", "#signature {}"})});
        s.Label("inserted");
      }
    }
  }
  // The reference reader.
  bool valid = true;
  int64_t last = -1;
  std::vector<std::string> expected;
  std::string text;
  for (size_t i = 0; i < lines.size(); ++i) {
    const Line& l = lines[i];
    text += l.Text() + "\n";
    switch (l.kind) {
      case 0:
        valid = valid && l.index == int64_t(expected.size()) && l.us > last;
        expected.push_back(std::to_string(l.index) + "@" + std::to_string(l.us) + " " + l.body);
        last = l.us;
        break;
      case 1:
        valid = valid && l.us > last;
        last = l.us;
        break;
      case 2:
        valid = valid && !i;
        break;
      default:
        valid = valid && !l.body.empty() && l.body[0] == '#' && l.body != "#signature {}";
    }
  }
  if (damages) s.NonTrivial();
  s.Label(valid ? "valid" : "invalid");
  if (s.Describing()) s.Note(pbt::Esc(text));
  current::FileSystem::WriteStringToFile(text, fn.c_str());
  std::unique_ptr<File> f;
  try {
    f = std::make_unique<File>(mx, ns, fn);
  } catch (const current::Exception& e) {
    if (valid) s.Fail("valid-log-refused", e.OriginalDescription());
    return;
  }
  s.Check(valid, "damaged-log-accepted");
  s.Eq(uint64_t(expected.size()), uint64_t(f->Size()), "size");
  s.Eq(Dump(expected), Dump(ReadAll(*f)), "entries");
  s.Eq(last, f->CurrentHead().count(), "head");
  if (!expected.empty()) {
    const auto idxts = f->LastPublishedIndexAndTimestamp();
    s.Eq(uint64_t(expected.size() - 1), idxts.index, "last-index");
  }
  // Writing goes on, and what is written is read back once the log is opened again.
  const size_t more = s.Draw(4);
  for (size_t i = 0; i < more; ++i) {
    last += 1 + int64_t(s.Draw(3));
    if (s.Bool()) {
      const Rec r = Gen(s);
      f->Publish(r, us_t(last));
      expected.push_back(std::to_string(expected.size()) + "@" + std::to_string(last) + " " + JSON(r));
    } else {
      f->UpdateHead(us_t(last));
    }
    if (s.Chance(1, 4)) {
      f = nullptr;
      f = std::make_unique<File>(mx, ns, fn);
    }
  }
  s.Eq(Dump(expected), Dump(ReadAll(*f)), "entries-after-more");
  f = nullptr;
  try {
    File g(mx, ns, fn);
    s.Eq(Dump(expected), Dump(ReadAll(g)), "entries-reopened");
    s.Eq(last, g.CurrentHead().count(), "head-reopened");
  } catch (const current::Exception& e) {
    s.Fail("reopening", e.OriginalDescription());
  }
}

namespace {

CURRENT_STRUCT(Inner) { CURRENT_FIELD(x, int64_t, 0); };
CURRENT_VARIANT(One, Rec, Inner);
CURRENT_STRUCT(Wrapped) {
  CURRENT_FIELD(before, std::string, "");
  CURRENT_FIELD(one, One);
  CURRENT_FIELD(after, std::string, "");
};
using WrappedFile = current::persistence::File<Wrapped>;

struct NoGrowth {  // No file may grow beyond that.
  rlimit before;
  explicit NoGrowth(size_t n) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &before);
    rlimit r = before;
    r.rlim_cur = n;
    setrlimit(RLIMIT_FSIZE, &r);
  }
  ~NoGrowth() { setrlimit(RLIMIT_FSIZE, &before); }
};

size_t FileSize(const std::string& fn) {
  struct stat st;
  return stat(fn.c_str(), &st) ? 0 : size_t(st.st_size);
}

std::string Content(WrappedFile& f) {
  std::string r = std::to_string(f.Size()) + " head " + std::to_string(f.CurrentHead().count()) + "\n";
  for (const auto& e : f.Iterate()) {
    r += std::to_string(e.idx_ts.index) + "@" + std::to_string(e.idx_ts.us.count()) + " " + JSON(e.entry) + "\n";
  }
  return r;
}

}  // namespace

PBT_PROP(failed_writes) {
  // What is not acknowledged is not there, and what comes next is not affected by it.
  const auto ns = current::ss::StreamNamespaceName("ns", "entry");
  const std::string fn = s.Scratch() + "/log";
  std::mutex mx;
  current::time::ResetToZero();
  current::time::SetNow(us_t(0));
  auto file = std::make_unique<WrappedFile>(mx, ns, fn);
  std::vector<std::string> entries;
  int64_t head = -1;
  bool failed = false;
  const size_t n = s.Size(1, 20);
  const auto expected = [&] {
    std::string r = std::to_string(entries.size()) + " head " + std::to_string(head) + "\n";
    for (const auto& e : entries) r += e + "\n";
    return r;
  };
  for (size_t i = 0; i < n; ++i) {
    const size_t op = s.Weighted({5, 2, 1});
    if (op == 2) {
      s.Note("reopen");
      file.reset();
      file = std::make_unique<WrappedFile>(mx, ns, fn);
      s.Eq(expected(), Content(*file), "reopened");
      continue;
    }
    const int64_t us = head + s.Int(1, 20);
    Wrapped w;
    w.before = s.Ascii(10);
    if (op == 0) {
      w.after = s.Chance(1, 8) ? std::string(9000, 'x') : s.Ascii(10);
      if (s.Bool()) {
        w.one = Inner();
      } else {
        w.one = Gen(s);
      }
    }
    const size_t size = FileSize(fn);
    // Rewriting the head in place needs no space.
    const bool limited = s.Chance(1, 3);
    size_t needs;
    std::string json;
    if (op == 0) {
      json = JSON(w);
      needs = JSON(idxts_t(entries.size(), us_t(us))).length() + 1 + json.length() + 1;
    } else {
      needs = 2;
    }
    const size_t room = limited ? s.Size(0, needs - 1) : 0;
    s.Note((op == 0 ? "publish " + pbt::Esc(json.substr(0, 80)) : std::string("head")) + " at " + std::to_string(us) +
           (limited ? ", room for " + std::to_string(room) + " of " + std::to_string(needs) : ""));
    bool accepted = true;
    {
      std::unique_ptr<NoGrowth> limit(limited ? new NoGrowth(size + room) : nullptr);
      try {
        if (op == 0 && s.Bool()) {
          file->PublishUnsafe(JSON(idxts_t(entries.size(), us_t(us))) + '\t' + json);
        } else if (op == 0) {
          file->Publish(w, us_t(us));
        } else {
          file->UpdateHead(us_t(us));
        }
      } catch (const current::persistence::PersistenceFileNotWritable&) {
        accepted = false;
      }
    }
    if (op == 0) {
      s.Eq(!limited, accepted, "acknowledged");
    } else if (!limited) {
      s.Check(accepted, "head_refused");
    }
    if (accepted) {
      if (failed) s.NonTrivial();
      head = us;
      if (op == 0) entries.push_back(std::to_string(entries.size()) + "@" + std::to_string(us) + " " + json);
    } else {
      failed = true;
      s.Eq(size, FileSize(fn), "size_after_failure");
    }
    s.Eq(expected(), Content(*file), "content");
  }
  file.reset();
  s.Eq(expected(), Content(*std::make_unique<WrappedFile>(mx, ns, fn)), "reopened_at_the_end");
}

PBT_PROP(not_writable) {
  // A log which can not be written to is not opened.
  const auto ns = current::ss::StreamNamespaceName("ns", "entry");
  std::mutex mx;
  std::string fn = s.Scratch() + "/log";
  const size_t kind = s.Size(0, 3);
  s.Note(std::to_string(kind));
  if (kind) s.NonTrivial();
  std::unique_ptr<NoGrowth> limit;
  if (kind == 1) fn = s.Scratch();
  if (kind == 2) fn = s.Scratch() + "/there/is/no/such/directory";
  if (kind == 3) limit = std::make_unique<NoGrowth>(s.Size(0, 20));
  bool refused = false;
  try {
    File f(mx, ns, fn);
  } catch (const current::persistence::PersistenceFileNotWritable&) {
    refused = true;
  }
  s.Eq(kind != 0, refused, "refused");
}
