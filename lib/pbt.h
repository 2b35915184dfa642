// A small choice-sequence property-based testing engine.
//
// A case is a pure function of a sequence of integer choices. Fresh cases draw choices from a PRNG seeded with
// (VERIF_SEED, property, case index); replays and shrinking feed a recorded sequence back. Cases run in forked workers,
// so a crash, an assertion, `std::terminate`, a sanitizer report or a hang of the code under test is an observation and
// not the end of the check.
#pragma once
#include <cstdint>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discarded {};
struct Failed {
  std::string tag;
  std::string what;
};

class Src {
 public:
  virtual ~Src() = default;

  // A choice in [0, max]; smaller is simpler.
  virtual uint64_t Draw(uint64_t max) = 0;
  // A raw choice from fresh randomness, biased by `bias`: see IntBiased().
  virtual uint64_t DrawWeighted(const std::vector<uint32_t>& weights) = 0;

  // [lo, hi], shrinks to `lo`.
  int64_t Int(int64_t lo, int64_t hi) { return int64_t(uint64_t(lo) + Draw(uint64_t(hi) - uint64_t(lo))); }
  size_t Size(size_t lo, size_t hi) { return size_t(Int(int64_t(lo), int64_t(hi))); }
  bool Bool() { return Draw(1) != 0; }
  // True with probability num/den; shrinks to false.
  bool Chance(uint32_t num, uint32_t den) {
    return DrawWeighted(std::vector<uint32_t>{den - num, num}) != 0;
  }
  // An index, distributed by weights; shrinks to 0.
  size_t Weighted(std::vector<uint32_t> w) { return size_t(DrawWeighted(w)); }
  template <typename T>
  const T& OneOf(const std::vector<T>& v) {
    return v[Draw(v.size() - 1)];
  }
  std::string Pick(std::initializer_list<const char*> l) { return *(l.begin() + Draw(l.size() - 1)); }
  // Boundary-biased integers over the full range.
  uint64_t U64();
  int64_t I64();
  template <typename T>
  T Integer() {
    const int64_t lo = int64_t(std::numeric_limits<T>::min());
    if (std::numeric_limits<T>::is_signed) {
      const int64_t hi = int64_t(std::numeric_limits<T>::max());
      int64_t v = I64();
      if (v < lo || v > hi) {
        v = int64_t(T(v));
      }
      return T(v);
    } else {
      return T(U64());
    }
  }
  double FiniteDouble();
  // A length that is mostly small, sometimes up to `max`.
  size_t Len(size_t max);
  std::string Bytes(size_t max_len);                           // Arbitrary bytes.
  std::string Ascii(size_t max_len);                           // Printable ASCII, biased to "special" characters.
  std::string Utf8(size_t max_len);                            // Valid UTF-8 incl. controls, quotes, multi-byte, astral.
  std::string From(const std::string& alphabet, size_t max_len);
  std::string FromN(const std::string& alphabet, size_t min_len, size_t max_len);

  // Bookkeeping.
  virtual void Label(const char* label) = 0;  // Classification counter.
  void LabelIf(bool b, const char* label) {
    if (b) Label(label);
  }
  virtual void NonTrivial(uint64_t extra_hash = 0) = 0;  // The case is non-trivial by the stated rule.
  virtual void Note(const std::string& s) = 0;  // A line of the human-readable case description.
  virtual bool Describing() const = 0;
  virtual const std::string& Scratch() const = 0;  // A private scratch directory, emptied before each case.

  [[noreturn]] void Discard() { throw Discarded(); }
  [[noreturn]] void Fail(const std::string& tag, const std::string& what) { throw Failed{tag, what}; }
  void Check(bool ok, const char* tag) {
    if (!ok) Fail(tag, "");
  }
  template <typename F>
  void Check(bool ok, const char* tag, F&& what) {
    if (!ok) Fail(tag, what());
  }
  template <typename A, typename B>
  void Eq(const A& expected, const B& actual, const char* tag) {
    if (!(expected == actual)) {
      std::ostringstream os;
      os << "expected: " << expected << "\nactual:   " << actual;
      Fail(tag, os.str());
    }
  }
};

std::string Esc(const std::string& s);  // C-style escaped, quoted.
uint64_t Hash(const std::string& s);
inline uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull + b;
  x ^= x >> 31;
  x *= 0xBF58476D1CE4E5B9ull;
  x ^= x >> 29;
  return x;
}

struct PropOptions {
  uint32_t weight = 1;         // Share of cases.
  double hang_s = 20;          // A case running for longer is a hang.
  bool hang_is_violation = false;  // Otherwise: the case is inconclusive, counted.
  bool crash_is_violation = true;
  bool schedule = false;       // Outcome depends on the thread schedule: a failure stands even if replays differ.
  bool fresh_process = false;  // Run each case in its own forked child (for process-wide state).
};

using PropFn = void (*)(Src&);

struct Registrar {
  Registrar(const char* name, PropFn fn, PropOptions o = PropOptions());
};

// A deterministic probe, run in a forked child: a known finding (if listed in known_findings.txt) or a pinned regression.
struct ProbeRegistrar {
  ProbeRegistrar(const char* name, const char* description, PropFn fn);
};

struct CheckInfo {
  const char* id;     // Property id.
  const char* level;  // "exploration" or "fault_enumeration".
  const char* rule;   // How cases are made and which are non-trivial.
};
extern const CheckInfo kCheck;  // Defined by PBT_CHECK.

}  // namespace pbt

#define PBT_CHECK(id, level, rule)               \
  namespace pbt {                                \
  const CheckInfo kCheck = {id, level, rule};    \
  }

#define PBT_PROP(name, ...)                                                                          \
  static void pbt_prop_##name(pbt::Src& s);                                                          \
  static pbt::Registrar pbt_reg_##name(#name, pbt_prop_##name, [] {                                  \
    pbt::PropOptions o;                                                                              \
    __VA_ARGS__;                                                                                     \
    return o;                                                                                        \
  }());                                                                                              \
  static void pbt_prop_##name(pbt::Src& s)

#define PBT_PROBE(name, description)                                                  \
  static void pbt_probe_##name(pbt::Src& s);                                          \
  static pbt::ProbeRegistrar pbt_preg_##name(#name, description, pbt_probe_##name);   \
  static void pbt_probe_##name(pbt::Src& s)
