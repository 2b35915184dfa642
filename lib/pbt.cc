#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

// ---------------------------------------------------------------------------------------------- small helpers

static int64_t NowMs() {
  return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ull;
  }
  return Mix(h, s.size());
}

std::string Esc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c == '\n') {
      r += "\\n";
    } else if (c == '\r') {
      r += "\\r";
    } else if (c == '\t') {
      r += "\\t";
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof(b), "\\x%02x", c);
      r += b;
    } else {
      r += char(c);
    }
  }
  return r + "\"";
}

static std::string JsonStr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += char(c);
    }
  }
  return r + "\"";
}

struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed) {
    for (auto& x : s) {
      seed += 0x9E3779B97F4A7C15ull;
      uint64_t z = seed;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      x = z ^ (z >> 31);
    }
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t operator()() {
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t Upto(uint64_t max) { return max == ~0ull ? (*this)() : uint64_t((__uint128_t((*this)()) * (__uint128_t(max) + 1)) >> 64); }
};

// ---------------------------------------------------------------------------------------------- shared memory

constexpr uint32_t kMaxChoices = 1u << 17;
constexpr uint32_t kMaxWorkers = 32;
constexpr uint32_t kMaxLabels = 512;
constexpr uint32_t kMaxProps = 64;
constexpr uint32_t kSetSize = 1u << 22;
constexpr uint32_t kMaxSamplesPerProp = 6;

struct Slot {
  std::atomic<uint32_t> state;  // 0: idle, 1: in a case, 2: a failure is recorded, 3: OK (forked runs), 4: discarded.
  std::atomic<int64_t> start_ms;
  uint32_t prop;
  uint64_t case_index;
  std::atomic<uint32_t> n;
  uint64_t choices[kMaxChoices];
  char tag[512];
  char what[1 << 15];
  char notes[1 << 16];
};

struct PropStats {
  std::atomic<uint64_t> evaluations, discarded, nontrivial, overruns, inconclusive;
  std::atomic<uint32_t> nsamples;
  std::atomic<uint64_t> sample_case[kMaxSamplesPerProp];
};

struct LabelEntry {
  std::atomic<uint64_t> hash;
  std::atomic<uint64_t> count;
  char name[120];
};

struct Shared {
  std::atomic<bool> stop;
  std::atomic<uint64_t> next_case[kMaxProps];
  PropStats props[kMaxProps];
  LabelEntry labels[kMaxLabels];
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> set[kSetSize];
  Slot slots[kMaxWorkers];
};

static Shared* g = nullptr;

static void SetInsert(uint64_t h) {
  if (!h) h = 1;
  if (g->distinct.load() > kSetSize / 2) {
    return;
  }
  uint32_t i = uint32_t(h % kSetSize);
  while (true) {
    uint64_t cur = g->set[i].load();
    if (cur == h) return;
    if (cur == 0) {
      if (g->set[i].compare_exchange_strong(cur, h)) {
        ++g->distinct;
        return;
      }
      if (cur == h) return;
    }
    i = (i + 1) % kSetSize;
  }
}

static void BumpLabel(const char* prop, const char* label) {
  const std::string full = std::string(prop) + ":" + label;
  uint64_t h = Hash(full);
  if (!h) h = 1;
  uint32_t i = uint32_t(h % kMaxLabels);
  for (uint32_t tries = 0; tries < kMaxLabels; ++tries, i = (i + 1) % kMaxLabels) {
    uint64_t cur = g->labels[i].hash.load();
    if (cur == 0 && g->labels[i].hash.compare_exchange_strong(cur, h)) {
      snprintf(g->labels[i].name, sizeof(g->labels[i].name), "%s", full.c_str());
      cur = h;
    }
    if (cur == h) {
      ++g->labels[i].count;
      return;
    }
  }
}

// ---------------------------------------------------------------------------------------------- the source

struct Prop {
  std::string name;
  PropFn fn;
  PropOptions o;
};
struct Probe {
  std::string name, description;
  PropFn fn;
};
static std::vector<Prop>& Props() {
  static std::vector<Prop> p;
  return p;
}
static std::vector<Probe>& Probes() {
  static std::vector<Probe> p;
  return p;
}
Registrar::Registrar(const char* name, PropFn fn, PropOptions o) { Props().push_back(Prop{name, fn, o}); }
ProbeRegistrar::ProbeRegistrar(const char* name, const char* d, PropFn fn) { Probes().push_back(Probe{name, d, fn}); }

class RealSrc final : public Src {
 public:
  enum class Mode { Fresh, Replay, Bytes };
  RealSrc(Slot* slot, const char* prop, const std::string& scratch, uint64_t seed)
      : slot_(slot), prop_(prop), scratch_(scratch), mode_(Mode::Fresh), rng_(seed) {}
  RealSrc(Slot* slot, const char* prop, const std::string& scratch, std::vector<uint64_t> choices)
      : slot_(slot), prop_(prop), scratch_(scratch), mode_(Mode::Replay), rng_(0), replay_(std::move(choices)) {}
  RealSrc(Slot* slot, const char* prop, const std::string& scratch, const uint8_t* data, size_t size)
      : slot_(slot), prop_(prop), scratch_(scratch), mode_(Mode::Bytes), rng_(0), data_(data), size_(size) {}

  uint64_t Draw(uint64_t max) override {
    uint64_t v = 0;
    if (mode_ == Mode::Fresh) {
      v = rng_.Upto(max);
    } else if (mode_ == Mode::Replay) {
      const uint32_t i = slot_->n;
      v = i < replay_.size() ? std::min(replay_[i], max) : 0;
    } else {
      if (max) {
        int bytes = 0;
        for (uint64_t m = max; m; m >>= 8) ++bytes;
        for (int i = 0; i < bytes; ++i) {
          v = (v << 8) | (pos_ < size_ ? data_[pos_] : 0);
          ++pos_;
        }
        if (max != ~0ull) v %= (max + 1);
      }
    }
    Record(v);
    return v;
  }
  uint64_t DrawWeighted(const std::vector<uint32_t>& w) override {
    if (mode_ == Mode::Bytes) {
      uint64_t v = Draw(w.size() - 1);
      return Fix(w, v);
    }
    uint64_t v = 0;
    if (mode_ == Mode::Fresh) {
      uint64_t sum = 0;
      for (auto x : w) sum += x;
      uint64_t r = rng_.Upto(sum - 1);
      while (r >= w[v]) {
        r -= w[v];
        ++v;
      }
    } else {
      const uint32_t i = slot_->n;
      v = i < replay_.size() ? std::min<uint64_t>(replay_[i], w.size() - 1) : 0;
      v = Fix(w, v);
    }
    Record(v);
    return v;
  }
  void Label(const char* label) override {
    if (count_) labels_.push_back(label);
  }
  void NonTrivial(uint64_t h) override {
    nontrivial_ = true;
    extra_ = Mix(extra_, h);
    has_extra_ = has_extra_ || h != 0;
  }
  void Note(const std::string& s) override {
    if (!describing_) return;
    const size_t have = strlen(slot_->notes);
    if (have + 2 < sizeof(slot_->notes)) {
      snprintf(slot_->notes + have, sizeof(slot_->notes) - have, "%s\n", s.c_str());
    }
  }
  bool Describing() const override { return describing_; }
  const std::string& Scratch() const override { return scratch_; }

  void Finish() {
    for (const char* l : labels_) BumpLabel(prop_, l);
  }
  uint64_t CaseHash() const {
    if (has_extra_) return Mix(Hash(prop_), extra_);
    uint64_t h = Hash(prop_);
    for (uint32_t i = 0; i < slot_->n; ++i) h = Mix(h, slot_->choices[i]);
    return h;
  }

  bool describing_ = false;
  bool count_ = true;
  bool nontrivial_ = false;
  bool overrun_ = false;

 private:
  static uint64_t Fix(const std::vector<uint32_t>& w, uint64_t v) {
    if (w[v]) return v;
    for (size_t i = 0; i < w.size(); ++i)
      if (w[i]) return i;
    return 0;
  }
  void Record(uint64_t v) {
    const uint32_t n = slot_->n;
    if (n >= kMaxChoices) {
      overrun_ = true;
      throw Discarded();
    }
    slot_->choices[n] = v;
    slot_->n = n + 1;
  }
  Slot* slot_;
  const char* prop_;
  std::string scratch_;
  Mode mode_;
  Rng rng_;
  std::vector<uint64_t> replay_;
  const uint8_t* data_ = nullptr;
  size_t size_ = 0, pos_ = 0;
  uint64_t extra_ = 0;
  bool has_extra_ = false;
  std::vector<const char*> labels_;
};

// ---------------------------------------------------------------------------------------------- generators

uint64_t Src::U64() {
  switch (Weighted({4, 3, 3, 2})) {
    case 0:
      return Draw(15);
    case 1: {
      const uint64_t p = Draw(63);
      const uint64_t d = Draw(4);
      return (1ull << p) + d - 2;
    }
    case 2: {
      const uint64_t bits = Draw(63);
      return Draw(bits == 63 ? ~0ull : ((1ull << (bits + 1)) - 1));
    }
    default:
      return ~0ull - Draw(3);
  }
}
int64_t Src::I64() {
  switch (Weighted({4, 3, 3, 1, 1})) {
    case 0: {
      const int64_t v = int64_t(Draw(15));
      return Bool() ? -v : v;
    }
    case 1: {
      const uint64_t p = Draw(63);
      const uint64_t d = Draw(4);
      const uint64_t v = (1ull << p) + d - 2;
      return Bool() ? int64_t(0 - v) : int64_t(v);
    }
    case 2: {
      const uint64_t bits = Draw(62);
      const uint64_t v = Draw((1ull << (bits + 1)) - 1);
      return Bool() ? int64_t(0 - v) : int64_t(v);
    }
    case 3:
      return std::numeric_limits<int64_t>::max() - int64_t(Draw(3));
    default:
      return std::numeric_limits<int64_t>::min() + int64_t(Draw(3));
  }
}
double Src::FiniteDouble() {
  switch (Weighted({3, 3, 3, 2, 1})) {
    case 0:
      return double(Int(-20, 20));
    case 1:
      return double(Int(-1000000, 1000000)) / double(OneOf(std::vector<int>{2, 3, 7, 8, 10, 100, 1000}));
    case 2: {
      const double m = double(Draw((1ull << 53) - 1)) / double(1ull << 53);
      const int e = int(Int(-60, 60));
      return std::ldexp(Bool() ? -m : m, e);
    }
    case 3: {
      const uint64_t bits = Draw(~0ull);
      double d;
      memcpy(&d, &bits, 8);
      return std::isfinite(d) ? d : 1.5;
    }
    default: {
      static const std::vector<double> v = {0.0, -0.0, 1e-300, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1.0 / 3, 9007199254740993.0, 1e15, 1e16, 1e17, 123456789012345680.0, -1e-7};
      return OneOf(v);
    }
  }
}
size_t Src::Len(size_t max) {
  if (max == 0) return 0;
  const size_t small = std::min<size_t>(max, 4), mid = std::min<size_t>(max, 16);
  switch (Weighted({6, 4, 1})) {
    case 0:
      return Draw(small);
    case 1:
      return Draw(mid);
    default:
      return Draw(max);
  }
}
std::string Src::Bytes(size_t max_len) {
  const size_t n = Len(max_len);
  std::string r;
  for (size_t i = 0; i < n; ++i) {
    switch (Weighted({3, 1})) {
      case 0:
        r += char(Draw(255));
        break;
      default: {
        static const std::string sp("\0\n\r\t \"\\/%&=?#+;:,.{}[]<>'\x7f\x80\xff", 27);
        r += sp[Draw(sp.size() - 1)];
      }
    }
  }
  return r;
}
std::string Src::Ascii(size_t max_len) {
  const size_t n = Len(max_len);
  std::string r;
  for (size_t i = 0; i < n; ++i) {
    if (Weighted({2, 1}) == 0) {
      r += char('a' + Draw(25));
    } else {
      r += char(32 + Draw(94));
    }
  }
  return r;
}
std::string Src::Utf8(size_t max_len) {
  const size_t n = Len(max_len);
  std::string r;
  for (size_t i = 0; i < n; ++i) {
    uint32_t cp = 0;
    switch (Weighted({6, 3, 2, 2, 2, 1})) {
      case 0:
        cp = 'a' + uint32_t(Draw(25));
        break;
      case 1:
        cp = 32 + uint32_t(Draw(95));
        break;
      case 2:
        cp = uint32_t(Draw(31));
        break;
      case 3:
        cp = 0x80 + uint32_t(Draw(0x7ff - 0x80));
        break;
      case 4:
        cp = 0x800 + uint32_t(Draw(0xffff - 0x800));
        if (cp >= 0xd800 && cp <= 0xdfff) cp = 0x2028;
        break;
      default:
        cp = 0x10000 + uint32_t(Draw(0xfffff));
    }
    if (cp < 0x80) {
      r += char(cp);
    } else if (cp < 0x800) {
      r += char(0xc0 | (cp >> 6));
      r += char(0x80 | (cp & 63));
    } else if (cp < 0x10000) {
      r += char(0xe0 | (cp >> 12));
      r += char(0x80 | ((cp >> 6) & 63));
      r += char(0x80 | (cp & 63));
    } else {
      r += char(0xf0 | (cp >> 18));
      r += char(0x80 | ((cp >> 12) & 63));
      r += char(0x80 | ((cp >> 6) & 63));
      r += char(0x80 | (cp & 63));
    }
  }
  return r;
}
std::string Src::From(const std::string& a, size_t max_len) {
  const size_t n = Len(max_len);
  std::string r;
  for (size_t i = 0; i < n; ++i) r += a[Draw(a.size() - 1)];
  return r;
}
std::string Src::FromN(const std::string& a, size_t lo, size_t hi) {
  const size_t n = lo + Len(hi - lo);
  std::string r;
  for (size_t i = 0; i < n; ++i) r += a[Draw(a.size() - 1)];
  return r;
}

// ---------------------------------------------------------------------------------------------- running

static std::string g_scratch_root;
static std::string g_verif = "/verif";
static std::string g_tier = "quick";
static uint64_t g_seed = 1;

static void RmTree(const std::string& d, bool self) {
  // Only ever called on paths under `g_scratch_root`, a directory this process created.
  if (g_scratch_root.empty() || d.compare(0, g_scratch_root.size(), g_scratch_root) != 0) return;
  if (DIR* dir = opendir(d.c_str())) {
    while (dirent* e = readdir(dir)) {
      const std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      const std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
        RmTree(p, true);
      } else {
        unlink(p.c_str());
      }
    }
    closedir(dir);
  }
  if (self) rmdir(d.c_str());
}

static void CopyTo(char* dst, size_t cap, const std::string& s) {
  const size_t n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

// Runs the case in this process. Records the failure in the slot. Returns the final state.
static uint32_t RunInline(const Prop& p, RealSrc& src, Slot& slot) {
  try {
    p.fn(src);
    slot.state = 3;
  } catch (const Discarded&) {
    slot.state = 4;
  } catch (const Failed& f) {
    CopyTo(slot.tag, sizeof(slot.tag), f.tag);
    CopyTo(slot.what, sizeof(slot.what), f.what);
    slot.state = 2;
  } catch (const std::exception& e) {
    CopyTo(slot.tag, sizeof(slot.tag), "uncaught-exception");
    CopyTo(slot.what, sizeof(slot.what), e.what());
    slot.state = 2;
  } catch (...) {
    CopyTo(slot.tag, sizeof(slot.tag), "uncaught-exception");
    CopyTo(slot.what, sizeof(slot.what), "(not an std::exception)");
    slot.state = 2;
  }
  return slot.state;
}

static void BeginSlot(Slot& s, uint32_t prop, uint64_t case_index) {
  s.prop = prop;
  s.case_index = case_index;
  s.n = 0;
  s.tag[0] = s.what[0] = s.notes[0] = 0;
  s.start_ms = NowMs();
  s.state = 1;
}

static void RedirectOutput(const std::string& log) {
  const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_APPEND | O_WRONLY, 0600);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    if (fd > 2) close(fd);
  }
}

static std::string ReadLog(const std::string& log, size_t cap = 6000) {
  std::ifstream f(log, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  const size_t asan = s.find("ERROR: AddressSanitizer");
  const size_t tsan = s.find("WARNING: ThreadSanitizer");
  size_t pos = std::min(asan, tsan);
  if (pos == std::string::npos) pos = s.find("runtime error:");
  if (pos != std::string::npos) {
    pos = pos > 200 ? pos - 200 : 0;
    return s.substr(pos, cap);
  }
  return s.size() > cap ? s.substr(s.size() - cap) : s;
}

static uint64_t CaseSeed(const Prop& p, uint64_t index) { return Mix(Mix(g_seed * 1000003 + 17, Hash(p.name)), index); }

struct Outcome {
  enum Kind { OK, DISCARD, FAIL, CRASH, HANG } kind = OK;
  std::string tag, what, notes;
  std::vector<uint64_t> choices;
  bool Bad() const { return kind == FAIL || kind == CRASH || kind == HANG; }
};

static std::string CrashTag(int status, const std::string& log) {
  std::string t;
  if (WIFSIGNALED(status)) {
    t = std::string("crash:signal-") + std::to_string(WTERMSIG(status));
  } else {
    t = std::string("crash:exit-") + std::to_string(WEXITSTATUS(status));
  }
  const char* kinds[] = {"heap-use-after-free", "heap-buffer-overflow", "stack-buffer-overflow", "stack-use-after-scope", "stack-use-after-return", "stack-overflow", "double-free", "global-buffer-overflow", "data race", "runtime error", "allocation-size-too-big", "out-of-memory", "SEGV", "bad-free", "alloc-dealloc-mismatch"};
  for (const char* k : kinds) {
    if (log.find(k) != std::string::npos) {
      t += std::string("/") + k;
      break;
    }
  }
  return t;
}

static void ChildSetup(const std::string& dir) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  mkdir(dir.c_str(), 0700);
  RedirectOutput(dir + ".log");
}

static uint64_t g_fork_counter = 0;

template <typename MAKE>
static Outcome RunForkedImpl(Slot& slot, const Prop& p, uint32_t prop_index, double hang_s, bool describe, MAKE make) {
  const std::string dir = g_scratch_root + "/f" + std::to_string(++g_fork_counter % 16);
  BeginSlot(slot, prop_index, 0);
  const pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    RmTree(dir, false);
    ChildSetup(dir);
    std::unique_ptr<RealSrc> src = make(dir);
    src->describing_ = describe;
    src->count_ = false;
    RunInline(p, *src, slot);
    _exit(0);
  }
  int status = 0;
  const int64_t t0 = NowMs();
  bool hang = false;
  useconds_t nap = 100;
  while (waitpid(pid, &status, WNOHANG) == 0) {
    if (NowMs() - t0 > int64_t(hang_s * 1000)) {
      hang = true;
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(nap);
    if (nap < 5000) nap += nap / 4;
  }
  kill(-pid, SIGKILL);
  Outcome o;
  o.choices.assign(slot.choices, slot.choices + std::min<uint32_t>(slot.n, kMaxChoices));
  o.notes = slot.notes;
  const uint32_t st = slot.state;
  if (hang) {
    o.kind = Outcome::HANG;
    o.tag = "hang";
    o.what = "the case did not finish within " + std::to_string(hang_s) + " s";
  } else if (st == 2) {
    o.kind = Outcome::FAIL;
    o.tag = slot.tag;
    o.what = slot.what;
  } else if (st == 3 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    o.kind = Outcome::OK;
  } else if (st == 4 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    o.kind = Outcome::DISCARD;
  } else {
    o.kind = Outcome::CRASH;
    o.what = ReadLog(dir + ".log");
    o.tag = CrashTag(status, o.what);
  }
  RmTree(dir, true);
  unlink((dir + ".log").c_str());
  return o;
}

static Outcome RunForked(Slot& slot, const Prop& p, uint32_t i, const std::vector<uint64_t>& choices, double hang_s, bool describe) {
  return RunForkedImpl(slot, p, i, hang_s, describe, [&](const std::string& dir) {
    return std::make_unique<RealSrc>(&slot, p.name.c_str(), dir, choices);
  });
}
static Outcome RunForkedSeed(Slot& slot, const Prop& p, uint32_t i, uint64_t case_index, double hang_s, bool describe) {
  return RunForkedImpl(slot, p, i, hang_s, describe, [&](const std::string& dir) {
    return std::make_unique<RealSrc>(&slot, p.name.c_str(), dir, CaseSeed(p, case_index));
  });
}

// ---------------------------------------------------------------------------------------------- shrinking

static bool Smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static Outcome Shrink(Slot& slot, const Prop& p, uint32_t pi, Outcome best, double budget_s) {
  const int64_t deadline = NowMs() + int64_t(budget_s * 1000);
  uint32_t attempts = 0;
  std::set<std::vector<uint64_t>> tried;
  const int repeats = p.o.schedule ? 5 : 1;
  const double hang = best.kind == Outcome::HANG ? std::max(2.0, p.o.hang_s / 4) : p.o.hang_s;
  auto OutOfTime = [&] { return NowMs() > deadline; };
  auto Try = [&](const std::vector<uint64_t>& c) -> bool {
    if (OutOfTime() || !Smaller(c, best.choices) || !tried.insert(c).second) return false;
    for (int r = 0; r < repeats; ++r) {
      ++attempts;
      Outcome o = RunForked(slot, p, pi, c, hang, false);
      if (o.Bad() && o.tag == best.tag) {
        if (Smaller(c, o.choices)) o.choices = c;
        if (Smaller(o.choices, best.choices)) {
          best = o;
          return true;
        }
        return false;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && !OutOfTime()) {
    progress = false;
    // Delete chunks.
    for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1; k /= 2) {
      for (size_t i = best.choices.size(); i-- > 0 && !OutOfTime();) {
        if (i + k > best.choices.size()) continue;
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (Try(c)) progress = true;
      }
    }
    // Zero chunks.
    for (size_t k = 8; k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.choices.size() && !OutOfTime(); ++i) {
        std::vector<uint64_t> c = best.choices;
        bool any = false;
        for (size_t j = i; j < i + k; ++j) {
          any = any || c[j];
          c[j] = 0;
        }
        if (any && Try(c)) progress = true;
      }
    }
    // Minimize single values.
    for (size_t i = 0; i < best.choices.size() && !OutOfTime(); ++i) {
      uint64_t lo = 0;
      while (i < best.choices.size() && lo < best.choices[i] && !OutOfTime()) {
        const uint64_t cur = best.choices[i];
        const uint64_t mid = lo + (cur - lo) / 2;
        std::vector<uint64_t> c = best.choices;
        c[i] = mid;
        if (Try(c)) {
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
    // Lower a value (often a length) and delete a few later choices at once.
    for (size_t i = 0; i < best.choices.size() && !OutOfTime(); ++i) {
      if (!best.choices[i]) continue;
      for (size_t k = 1; k <= 6 && !OutOfTime(); ++k) {
        for (size_t j = i + 1; j + k <= best.choices.size() && j < i + 24 && !OutOfTime(); ++j) {
          std::vector<uint64_t> c = best.choices;
          if (!c[i]) break;
          --c[i];
          c.erase(c.begin() + j, c.begin() + j + k);
          if (Try(c)) {
            progress = true;
            break;
          }
        }
        if (i >= best.choices.size() || !best.choices[i]) break;
      }
    }
  }
  fprintf(stderr, "[pbt] shrink: %u attempts, %zu choices left\n", attempts, best.choices.size());
  return best;
}

// ---------------------------------------------------------------------------------------------- replay files

static std::string WriteReplay(const std::string& prop, const std::string& kind, const Outcome& o, const std::string& extra) {
  const std::string dir = g_verif + "/replays";
  mkdir(dir.c_str(), 0755);
  uint64_t h = Hash(prop + o.tag);
  for (uint64_t c : o.choices) h = Mix(h, c);
  char name[64];
  snprintf(name, sizeof(name), "%s-%012llx.replay", kCheck.id, static_cast<unsigned long long>(h & 0xffffffffffffull));
  const std::string path = dir + "/" + name;
  std::ofstream f(path);
  f << "check " << kCheck.id << "\n" << kind << " " << prop << "\ntag " << o.tag << "\nseed " << g_seed << "\nchoices " << o.choices.size();
  for (uint64_t c : o.choices) f << " " << c;
  f << "\n\n--- what failed\n" << o.what << "\n\n--- the case\n" << o.notes << "\n" << extra << "\n";
  f << "\n--- to replay\n/verif/run.py " << kCheck.id << " replay " << path << "\n";
  return path;
}

struct Known {
  std::string probe, text;
};
static std::vector<Known> LoadKnown() {
  std::vector<Known> r;
  std::ifstream f(g_verif + "/known_findings.txt");
  std::string line;
  const std::string head = std::string("known: property=") + kCheck.id + " probe=";
  while (std::getline(f, line)) {
    if (line.compare(0, head.size(), head) == 0) {
      const std::string rest = line.substr(head.size());
      const size_t sp = rest.find(' ');
      r.push_back(Known{rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1)});
    }
  }
  return r;
}

// ---------------------------------------------------------------------------------------------- workers

struct WorkItem {
  uint32_t prop;
};
static std::vector<uint32_t> g_schedule;  // Property indexes, repeated by weight.

static long RssMb() {
  FILE* f = fopen("/proc/self/statm", "r");
  long a = 0, b = 0;
  if (f) {
    if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
    fclose(f);
  }
  return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
}

static void AfterCase(const Prop& p, PropStats& st, RealSrc& src, Slot& slot, uint64_t idx) {
  if (slot.state == 3) {
    ++st.evaluations;
    src.Finish();
    if (src.nontrivial_) {
      ++st.nontrivial;
      SetInsert(src.CaseHash());
      // Spread the samples: the first few are usually the least interesting.
      if (st.nsamples < kMaxSamplesPerProp && (idx % 7) == 3) {
        const uint32_t k = st.nsamples++;
        if (k < kMaxSamplesPerProp) st.sample_case[k] = idx;
      }
    }
  } else if (slot.state == 4) {
    ++st.discarded;
    if (src.overrun_) ++st.overruns;
  }
  (void)p;
}

static void WorkerMain(uint32_t w, uint32_t workers, uint64_t start_at, int64_t deadline_ms, uint64_t max_cases) {
  const std::string dir = g_scratch_root + "/w" + std::to_string(w);
  ChildSetup(dir);
  Slot& slot = g->slots[w];
  uint64_t pos = start_at;
  (void)workers;
  while (!g->stop && NowMs() < deadline_ms) {
    const uint32_t pi = g_schedule[pos++ % g_schedule.size()];
    const Prop& p = Props()[pi];
    const uint64_t idx = g->next_case[pi]++;
    if (max_cases && idx >= max_cases) {
      bool all = true;
      for (uint32_t q : g_schedule) {
        if (g->next_case[q] < max_cases) all = false;
      }
      if (all) break;
      continue;
    }
    RmTree(dir, false);
    if (lseek(2, 0, SEEK_END) > (1 << 20)) {
      if (ftruncate(2, 0)) {
      }
    }
    BeginSlot(slot, pi, idx);
    PropStats& st = g->props[pi];
    if (p.o.fresh_process) {
      const pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        RealSrc src(&slot, p.name.c_str(), dir, CaseSeed(p, idx));
        RunInline(p, src, slot);
        AfterCase(p, st, src, slot, idx);
        _exit(0);
      }
      int status = 0;
      waitpid(pid, &status, 0);
      if (slot.state == 1 || !WIFEXITED(status) || WEXITSTATUS(status)) {
        if (slot.state != 2) {
          slot.state = 1;
          _exit(WIFSIGNALED(status) ? 100 : 101);
        }
      }
      if (slot.state == 2) _exit(50);
    } else {
      RealSrc src(&slot, p.name.c_str(), dir, CaseSeed(p, idx));
      RunInline(p, src, slot);
      AfterCase(p, st, src, slot, idx);
      if (slot.state == 2) {
        _exit(50);
      }
    }
    slot.state = 0;
    if ((pos & 31) == 0 && RssMb() > 2500) {
      _exit(77);
    }
  }
  slot.state = 0;
  _exit(0);
}

// ---------------------------------------------------------------------------------------------- evidence

static void WriteEvidence(double wall_s, int violations, const std::vector<std::string>& samples, const std::vector<std::string>& known, uint64_t unconfirmed, bool time_capped) {
  mkdir((g_verif + "/evidence").c_str(), 0755);
  const char* override_path = getenv("PBT_EVIDENCE");
  std::ofstream f(override_path ? override_path : g_verif + "/evidence/" + kCheck.id + ".json");
  uint64_t ev = 0, disc = 0, nt = 0, inc = 0;
  for (size_t i = 0; i < Props().size(); ++i) {
    ev += g->props[i].evaluations;
    disc += g->props[i].discarded;
    nt += g->props[i].nontrivial;
    inc += g->props[i].inconclusive;
  }
  f << "{\n  \"property\": " << JsonStr(kCheck.id) << ",\n  \"tier\": " << JsonStr(g_tier) << ",\n  \"seed\": " << g_seed << ",\n  \"level\": " << JsonStr(kCheck.level)
    << ",\n  \"coverage\": {\n    \"evaluations\": " << ev << ",\n    \"nontrivial\": " << nt << ",\n    \"distinct_nontrivial\": " << g->distinct.load()
    << ",\n    \"discarded\": " << disc << ",\n    \"inconclusive\": " << inc << ",\n    \"unconfirmed_failures\": " << unconfirmed << ",\n    \"rule\": " << JsonStr(kCheck.rule) << ",\n    \"per_check\": {";
  for (size_t i = 0; i < Props().size(); ++i) {
    f << (i ? ", " : "") << JsonStr(Props()[i].name) << ": {\"evaluations\": " << g->props[i].evaluations << ", \"nontrivial\": " << g->props[i].nontrivial << ", \"discarded\": " << g->props[i].discarded << "}";
  }
  f << "},\n    \"classes\": {";
  std::map<std::string, uint64_t> labels;
  for (auto& l : g->labels) {
    if (l.hash) labels[l.name] += l.count;
  }
  bool first = true;
  for (auto& l : labels) {
    f << (first ? "" : ", ") << JsonStr(l.first) << ": " << l.second;
    first = false;
  }
  f << "},\n    \"known_findings_seen\": [";
  for (size_t i = 0; i < known.size(); ++i) f << (i ? ", " : "") << JsonStr(known[i]);
  f << "],\n    \"samples\": [";
  for (size_t i = 0; i < samples.size(); ++i) {
    f << (i ? ",\n      " : "\n      ") << JsonStr(samples[i]);
  }
  f << "\n    ]\n  },\n  \"wall_s\": " << wall_s << ",\n  \"violations\": " << violations << "\n}\n";
  (void)time_capped;
}

static volatile sig_atomic_t g_interrupted = 0;

static void Cleanup() {
  if (!g_scratch_root.empty()) RmTree(g_scratch_root, true);
}

static int Main(int argc, char** argv) {
  double time_s = 15;
  uint32_t workers = 8;
  uint64_t max_cases = 0;
  std::string replay, only, bytes_file;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--time") time_s = atof(next().c_str());
    else if (a == "--workers") workers = uint32_t(atoi(next().c_str()));
    else if (a == "--cases") max_cases = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier") g_tier = next();
    else if (a == "--verif") g_verif = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-bytes") bytes_file = next();
    else if (a == "--prop") only = next();
    else if (a == "--list") list = true;
  }
  if (const char* s = getenv("VERIF_SEED")) g_seed = strtoull(s, nullptr, 10);
  if (list) {
    for (auto& p : Props()) printf("%s\n", p.name.c_str());
    return 0;
  }
  workers = std::min(workers, kMaxWorkers - 1);
  const int64_t t0 = NowMs();
  signal(SIGPIPE, SIG_IGN);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  void* mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mem == MAP_FAILED) {
    fprintf(stderr, "[pbt] mmap failed\n");
    return 3;
  }
  g = static_cast<Shared*>(mem);  // Zero pages.

  for (const char* base : {"/dev/shm", "/tmp"}) {
    std::string t = std::string(base) + "/pbt.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (mkdtemp(b.data())) {
      g_scratch_root = b.data();
      break;
    }
  }
  if (g_scratch_root.empty()) {
    fprintf(stderr, "[pbt] no scratch directory\n");
    return 3;
  }
  std::sort(Props().begin(), Props().end(), [](const Prop& a, const Prop& b) { return a.name < b.name; });
  auto PropIndex = [&](const std::string& n) -> int {
    for (size_t i = 0; i < Props().size(); ++i)
      if (Props()[i].name == n) return int(i);
    return -1;
  };
  Slot& pslot = g->slots[kMaxWorkers - 1];

  if (!replay.empty() || !bytes_file.empty()) {
    int rc = 3;
    if (!replay.empty()) {
      std::ifstream f(replay);
      std::string word, prop, probe;
      std::vector<uint64_t> choices;
      std::string line;
      while (std::getline(f, line) && !line.empty()) {
        std::istringstream is(line);
        is >> word;
        if (word == "prop") is >> prop;
        if (word == "probe") is >> probe;
        if (word == "choices") {
          size_t n = 0;
          is >> n;
          for (size_t i = 0; i < n; ++i) {
            uint64_t c;
            if (is >> c) choices.push_back(c);
          }
        }
      }
      Outcome o;
      if (!probe.empty()) {
        for (auto& pr : Probes()) {
          if (pr.name == probe) {
            Prop tmp{pr.name, pr.fn, PropOptions()};
            o = RunForked(pslot, tmp, 0, {}, 60, true);
            rc = o.Bad() ? 1 : 0;
          }
        }
      } else if (PropIndex(prop) >= 0) {
        const int pi = PropIndex(prop);
        const int repeats = Props()[pi].o.schedule ? 50 : 1;
        for (int r = 0; r < repeats; ++r) {
          o = RunForked(pslot, Props()[pi], uint32_t(pi), choices, Props()[pi].o.hang_s, true);
          rc = o.Bad() ? 1 : 0;
          if (rc) break;
        }
      }
      printf("%s\ntag: %s\n%s\n--- the case\n%s\n", rc == 1 ? "REPRODUCED" : rc == 0 ? "did not reproduce" : "unknown property", o.tag.c_str(), o.what.c_str(), o.notes.c_str());
      if (rc == 1) printf("VIOLATION property=%s replay=%s\n", kCheck.id, replay.c_str());
    } else {
      std::ifstream f(bytes_file, std::ios::binary);
      std::string data((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
      const int pi = PropIndex(only);
      if (pi >= 0) {
        const Prop& p = Props()[pi];
        Outcome o = RunForkedImpl(pslot, p, uint32_t(pi), p.o.hang_s, false, [&](const std::string& dir) {
          return std::make_unique<RealSrc>(&pslot, p.name.c_str(), dir, reinterpret_cast<const uint8_t*>(data.data()), data.size());
        });
        rc = 0;
        if (o.Bad()) {
          int bad = 0;
          for (int i = 0; i < 3; ++i) bad += RunForked(pslot, p, uint32_t(pi), o.choices, p.o.hang_s, false).Bad();
          if (bad == 3) {
            o = Shrink(pslot, p, uint32_t(pi), o, 60);
            Outcome d = RunForked(pslot, p, uint32_t(pi), o.choices, p.o.hang_s, true);
            if (d.Bad()) o = d;
            const std::string path = WriteReplay(p.name, "prop", o, "found by coverage-guided fuzzing");
            printf("%s: %s\n%s\n%s\nVIOLATION property=%s replay=%s\n", p.name.c_str(), o.tag.c_str(), o.what.c_str(), o.notes.c_str(), kCheck.id, path.c_str());
            rc = 1;
          }
        }
      }
    }
    Cleanup();
    return rc;
  }

  int violations = 0;
  std::vector<std::string> known_seen;

  // Probes: known findings and pinned regressions.
  const auto known = LoadKnown();
  for (auto& pr : Probes()) {
    if (!only.empty() && only != pr.name) continue;
    Prop tmp{pr.name, pr.fn, PropOptions()};
    int bad = 0;
    Outcome o;
    for (int i = 0; i < 3; ++i) {
      o = RunForked(pslot, tmp, 0, {}, 60, true);
      if (!o.Bad()) break;
      ++bad;
    }
    if (bad == 3) {
      const Known* k = nullptr;
      for (auto& x : known)
        if (x.probe == pr.name) k = &x;
      if (k) {
        printf("KNOWN-FINDING: property=%s probe=%s %s\n", kCheck.id, pr.name.c_str(), k->text.c_str());
        known_seen.push_back(pr.name);
      } else {
        ++violations;
        o.what = pr.description + "\n" + o.what;
        const std::string path = WriteReplay(pr.name, "probe", o, "");
        printf("%s: %s\n%s\nVIOLATION property=%s replay=%s\n", pr.name.c_str(), o.tag.c_str(), o.what.c_str(), kCheck.id, path.c_str());
      }
      fflush(stdout);
    }
  }

  uint32_t max_weight = 0;
  for (size_t i = 0; i < Props().size(); ++i) {
    if (!only.empty() && Props()[i].name != only) continue;
    max_weight = std::max(max_weight, Props()[i].o.weight);
  }
  for (uint32_t r = 0; r < max_weight; ++r) {
    for (uint32_t i = 0; i < Props().size(); ++i) {
      if (!only.empty() && Props()[i].name != only) continue;
      if (r < Props()[i].o.weight) g_schedule.push_back(i);
    }
  }
  uint64_t unconfirmed = 0;
  std::map<std::string, int> unconfirmed_per_prop;
  if (!g_schedule.empty() && !violations) {
    const int64_t deadline = NowMs() + int64_t(time_s * 1000);
    std::vector<pid_t> pids(workers, 0);
    uint32_t live = 0;
    uint64_t spawned = 0;
    auto Spawn = [&](uint32_t w) {
      g->slots[w].state = 0;
      const uint64_t start = w + (spawned++) * 7;
      const pid_t pid = fork();
      if (pid == 0) {
        setpgid(0, 0);
        WorkerMain(w, workers, start, deadline, max_cases);
      }
      pids[w] = pid;
      ++live;
    };
    auto KillAll = [&] {
      g->stop = true;
      for (auto& p : pids) {
        if (p > 0) {
          kill(-p, SIGKILL);
          kill(p, SIGKILL);
          waitpid(p, nullptr, 0);
          p = 0;
        }
      }
      live = 0;
    };
    fflush(stdout);
    fflush(stderr);
    for (uint32_t w = 0; w < workers; ++w) Spawn(w);
    while (live) {
      usleep(3000);
      for (uint32_t w = 0; w < workers && live; ++w) {
        if (!pids[w]) continue;
        Slot& slot = g->slots[w];
        int status = 0;
        bool exited = waitpid(pids[w], &status, WNOHANG) == pids[w];
        bool hang = false;
        if (!exited && slot.state == 1) {
          const Prop& p = Props()[slot.prop];
          if (NowMs() - slot.start_ms > int64_t(p.o.hang_s * 1000)) {
            hang = true;
            kill(-pids[w], SIGKILL);
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &status, 0);
            exited = true;
          }
        }
        if (!exited) continue;
        kill(-pids[w], SIGKILL);
        pids[w] = 0;
        --live;
        if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0 && slot.state != 1) continue;  // Done.
        if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 77) {
          Spawn(w);
          continue;
        }
        // A candidate failure.
        const uint32_t pi = slot.prop;
        const Prop& p = Props()[pi];
        Outcome o;
        o.choices.assign(slot.choices, slot.choices + std::min<uint32_t>(slot.n, kMaxChoices));
        if (hang) {
          o.kind = Outcome::HANG;
          o.tag = "hang";
          o.what = "the case did not finish within " + std::to_string(p.o.hang_s) + " s";
        } else if (slot.state == 2) {
          o.kind = Outcome::FAIL;
          o.tag = slot.tag;
          o.what = slot.what;
        } else {
          o.kind = Outcome::CRASH;
          o.what = ReadLog(g_scratch_root + "/w" + std::to_string(w) + ".log");
          o.tag = CrashTag(status, o.what);
        }
        fprintf(stderr, "[pbt] candidate: %s case %llu: %s: %.300s\n", p.name.c_str(), static_cast<unsigned long long>(slot.case_index), o.tag.c_str(), o.what.c_str());
        if ((o.kind == Outcome::HANG && !p.o.hang_is_violation) || (o.kind == Outcome::CRASH && !p.o.crash_is_violation)) {
          ++g->props[pi].inconclusive;
          if (NowMs() < deadline) Spawn(w);
          continue;
        }
        // Confirm it, by replaying the choices.
        const Outcome original = o;
        bool confirmed = false;
        int reproduced = 0;
        if (p.o.schedule && o.kind != Outcome::HANG) {
          confirmed = true;
        } else {
          // The other workers are stopped for the time of the confirmation: no interference, and no load.
          for (auto q : pids)
            if (q > 0) kill(-q, SIGSTOP);
          const double limit = o.kind == Outcome::HANG ? p.o.hang_s * 1.5 : p.o.hang_s;
          const int need = 3;
          for (int r = 0; r < need; ++r) {
            Outcome x = RunForked(pslot, p, pi, original.choices, limit, false);
            if (x.Bad()) {
              ++reproduced;
              o = x;
            } else if (!p.o.schedule) {
              break;
            }
          }
          confirmed = p.o.schedule ? reproduced > 0 : reproduced == need;
          for (uint32_t v = 0; v < workers; ++v) {
            if (pids[v] > 0) {
              g->slots[v].start_ms = NowMs();
              kill(-pids[v], SIGCONT);
            }
          }
        }
        if (!confirmed) {
          ++unconfirmed;
          fprintf(stderr, "[pbt] not reproduced (%d of 3): not reported\n", reproduced);
          if (++unconfirmed_per_prop[p.name] < 20 && NowMs() < deadline) Spawn(w);
          continue;
        }
        KillAll();
        ++violations;
        const double budget = g_tier == "thorough" ? 90 : 25;
        Outcome shrunk = o.kind == Outcome::HANG ? o : Shrink(pslot, p, pi, o, budget);
        for (int r = 0; r < (p.o.schedule ? 30 : 1); ++r) {
          if (shrunk.kind == Outcome::HANG && r) break;
          Outcome d = RunForked(pslot, p, pi, shrunk.choices, p.o.hang_s, true);
          if (d.Bad()) {
            d.choices = shrunk.choices;
            shrunk = d;
            break;
          }
          shrunk.notes = d.notes;
        }
        const std::string path = WriteReplay(p.name, "prop", shrunk, "");
        printf("%s: %s\n%s\n%s\nVIOLATION property=%s replay=%s\n", p.name.c_str(), shrunk.tag.c_str(), shrunk.what.c_str(), shrunk.notes.substr(0, 3000).c_str(), kCheck.id, path.c_str());
        fflush(stdout);
      }
    }
  }

  // Samples: re-run a few non-trivial cases, described.
  std::vector<std::string> samples;
  for (uint32_t i = 0; i < Props().size(); ++i) {
    const uint32_t take = Props().size() <= 3 ? 3 : Props().size() <= 8 ? 2 : 1;
    for (uint32_t k = 0; k < std::min<uint32_t>({take, g->props[i].nsamples.load(), kMaxSamplesPerProp}); ++k) {
      const uint64_t idx = g->props[i].sample_case[k];
      Outcome o = RunForkedSeed(pslot, Props()[i], i, idx, Props()[i].o.hang_s, true);
      samples.push_back(Props()[i].name + " #" + std::to_string(idx) + ": " + (o.notes.size() > 1500 ? o.notes.substr(0, 1500) + "..." : o.notes));
    }
  }
  const double wall = double(NowMs() - t0) / 1000.0;
  WriteEvidence(wall, violations, samples, known_seen, unconfirmed, false);
  uint64_t ev = 0, nt = 0;
  for (size_t i = 0; i < Props().size(); ++i) {
    ev += g->props[i].evaluations;
    nt += g->props[i].nontrivial;
    printf("  %-28s %9llu cases, %9llu non-trivial, %llu discarded, %llu inconclusive\n", Props()[i].name.c_str(), static_cast<unsigned long long>(g->props[i].evaluations), static_cast<unsigned long long>(g->props[i].nontrivial), static_cast<unsigned long long>(g->props[i].discarded), static_cast<unsigned long long>(g->props[i].inconclusive));
  }
  printf("%s %s: %llu cases, %llu non-trivial (%llu distinct), %d violations, %.1f s\n", kCheck.id, g_tier.c_str(), static_cast<unsigned long long>(ev), static_cast<unsigned long long>(nt), static_cast<unsigned long long>(g->distinct.load()), violations, wall);
  Cleanup();
  return violations ? 1 : 0;
}

}  // namespace pbt

#ifdef PBT_LIBFUZZER
// Coverage-guided driver: the bytes are the choices. PBT_FUZZ_PROP names the property.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  using namespace pbt;
  static Slot* slot = static_cast<Slot*>(calloc(1, sizeof(Slot)));
  static const Prop* prop = nullptr;
  static std::string dir;
  if (!prop) {
    g = static_cast<Shared*>(calloc(1, sizeof(Shared)));
    const char* want = getenv("PBT_FUZZ_PROP");
    for (auto& p : Props())
      if (!want || p.name == want) {
        prop = &p;
        break;
      }
    if (!prop) exit(3);
    char t[] = "/tmp/pbtfuzz.XXXXXX";
    dir = mkdtemp(t) ? t : "/tmp";
    if (dir != "/tmp") {
      g_scratch_root = dir;
      atexit([] { RmTree(g_scratch_root, true); });
    }
  }
  BeginSlot(*slot, 0, 0);
  RealSrc src(slot, prop->name.c_str(), dir, data, size);
  src.count_ = false;
  if (RunInline(*prop, src, *slot) == 2) {
    fprintf(stderr, "PBT failure %s: %s\n", slot->tag, slot->what);
    abort();
  }
  return slot->state == 4 ? -1 : 0;
}
#else
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
#endif
