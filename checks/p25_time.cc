// P25: times format and parse consistently.
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

#include "bricks/time/chrono.h"

PBT_CHECK("P25", "exploration",
          "A case is a moment within the years 1 to 9999 (close to the boundaries of days, months, years and leap years half of "
          "the time) with a random format of date and time in a random time zone; or a text which is not such a date; or "
          "a history of readings of the clock by up to four threads, with the clock of the system stuck or going backwards. "
          "Non-trivial: the moment is not the Epoch and the format is complete, or the clock was read ten times or more.");

using us_t = std::chrono::microseconds;

#ifndef CURRENT_MOCK_TIME
// The clock of the system is a stand-in, as the real one can not be made to go backwards.
namespace {
std::atomic_bool fake_clock{false};
std::atomic_int64_t fake_now_us{0};
std::atomic_uint64_t fake_reads{0};
std::vector<int64_t> fake_deltas;
}  // namespace

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (fake_clock) {
    const uint64_t i = fake_reads++;
    const int64_t d = fake_deltas.empty() ? 0 : fake_deltas[i % fake_deltas.size()];
    return time_point(duration_cast<duration>(us_t(fake_now_us += d)));
  }
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  return time_point(duration(int64_t(t.tv_sec) * 1000000000 + t.tv_nsec));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
#endif

namespace {

// The reference calendar: the proleptic Gregorian one.
bool Leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int Days(int64_t y, int m) {
  static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return k[m - 1] + (m == 2 && Leap(y) ? 1 : 0);
}
int64_t DaysBeforeYear(int64_t y) {  // Since the year 1.
  const int64_t p = y - 1;
  return p * 365 + p / 4 - p / 100 + p / 400;
}
struct Moment {
  int64_t year;
  int month, day, hour, minute, second, us;
  int64_t DayNumber() const {
    int64_t d = DaysBeforeYear(year) - DaysBeforeYear(1970);
    for (int m = 1; m < month; ++m) d += Days(year, m);
    return d + day - 1;
  }
  int64_t Seconds() const { return ((DayNumber() * 24 + hour) * 60 + minute) * 60 + second; }
  int64_t Us() const { return Seconds() * 1000000 + us; }
  int WeekDay() const { return int(((DayNumber() + 4) % 7 + 7) % 7); }
};

Moment Generate(pbt::Src& s, int64_t min_year = 1, int64_t max_year = 9999) {
  Moment m;
  switch (s.Weighted({3, 2, 2})) {
    case 0:
      m.year = s.Int(1971, 2040);
      break;
    case 1:
      m.year = s.Int(min_year, max_year);
      break;
    default:
      m.year = s.OneOf(std::vector<int64_t>{1970, 1969, 1900, 2000, 2100, 1600, 2038, 2037, 1901, 2262, 2263, 1677, 1678, 1999, 4, 400, 9999, 1});
      break;
  }
  m.year = std::max(min_year, std::min(max_year, m.year));
  m.month = s.Bool() ? int(s.Int(1, 12)) : int(s.OneOf(std::vector<int>{1, 2, 3, 12}));
  const int days = Days(m.year, m.month);
  m.day = s.Bool() ? int(s.Int(1, days)) : s.Bool() ? days : 1;
  if (s.Bool()) {
    m.hour = int(s.Int(0, 23));
    m.minute = int(s.Int(0, 59));
    m.second = int(s.Int(0, 59));
  } else if (s.Bool()) {
    m.hour = 23, m.minute = 59, m.second = 59;
  } else {
    m.hour = m.minute = m.second = 0;
  }
  m.us = s.Bool() ? 0 : s.Bool() ? 999999 : int(s.Int(0, 999999));
  return m;
}

const char* const kDays[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
const char* const kMonths[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};

std::string Pad(int64_t v, size_t width) {
  std::string r = std::to_string(v);
  while (r.size() < width) r.insert(r.begin(), '0');
  return r;
}

// The reference formatter.
std::string Render(const Moment& m, const std::string& format) {
  std::string r;
  for (size_t i = 0; i < format.size(); ++i) {
    if (format[i] != '%') {
      r += format[i];
      continue;
    }
    switch (format[++i]) {
      case 'Y': r += std::to_string(m.year); break;
      case 'y': r += Pad(m.year % 100, 2); break;
      case 'm': r += Pad(m.month, 2); break;
      case 'd': r += Pad(m.day, 2); break;
      case 'H': r += Pad(m.hour, 2); break;
      case 'I': r += Pad((m.hour + 11) % 12 + 1, 2); break;
      case 'M': r += Pad(m.minute, 2); break;
      case 'S': r += Pad(m.second, 2); break;
      case 'p': r += m.hour < 12 ? "AM" : "PM"; break;
      case 'a': r += std::string(kDays[m.WeekDay()]).substr(0, 3); break;
      case 'A': r += kDays[m.WeekDay()]; break;
      case 'b': r += std::string(kMonths[m.month - 1]).substr(0, 3); break;
      case 'B': r += kMonths[m.month - 1]; break;
      case 'T': r += Pad(m.hour, 2) + ":" + Pad(m.minute, 2) + ":" + Pad(m.second, 2); break;
      case 'F': r += std::to_string(m.year) + "-" + Pad(m.month, 2) + "-" + Pad(m.day, 2); break;
      case '%': r += '%'; break;
      default: r += "?"; break;
    }
  }
  return r;
}

std::string Format(pbt::Src& s) {
  const std::string date = s.Pick({"%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%d %b %Y", "%B %d, %Y", "%a, %d %b %Y", "%A %Y-%m-%d"});
  const std::string time = s.Pick({"%H:%M:%S", "%H-%M-%S", "%T", "%I:%M:%S %p", "%H%M%S"});
  const std::string separator = s.Pick({" ", "T", ", at ", " %% "});
  const std::string suffix = s.Pick({"", "Z", " GMT", "+00:00", "!"});
  return (s.Chance(3, 4) ? date + separator + time : time + separator + date) + suffix;
}

const char* const kZones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX-14", "YYY+12", "NPT-5:45", "AEST-10AEDT,M10.1.0,M4.1.0/3"};

}  // namespace

PBT_PROP(utc, o.weight = 5) {
  const Moment m = Generate(s);
  const us_t t(m.Us());
  const std::string format = Format(s);
  setenv("TZ", s.Pick({"UTC0", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45"}).c_str(), 1);
  tzset();
  if (s.Describing()) s.Note(format + ": " + Render(m, "%Y-%m-%d %H:%M:%S") + "." + Pad(m.us, 6));
  const std::string text = current::FormatDateTime<current::time::TimeRepresentation::UTC>(t, format.c_str());
  s.Eq(Render(m, format), text, "the text of a moment");
  const us_t second(m.Seconds() * 1000000);
  s.Eq(int64_t(second.count()), int64_t(current::UTCDateTimeStringToTimestamp(text, format.c_str()).count()), "a moment from its text");
  s.Eq(int64_t(second.count()), int64_t(current::UTCDateTimeStringToTimestamp(text.c_str(), format.c_str()).count()), "a moment from its text");
  s.Eq(int64_t(second.count() + 999999),
       int64_t(current::UTCDateTimeStringToTimestamp(text, format.c_str(), current::time::SecondsToMicrosecondsPadding::Upper).count()),
       "a moment from its text, to the end of the second");
  s.LabelIf(m.year < 1970, "before 1970");
  s.LabelIf(m.month == 2 && m.day == 29, "leap day");
  s.LabelIf(m.year < 1678 || m.year > 2261, "centuries away");
  if (t.count()) s.NonTrivial();
}

PBT_PROP(internet_formats, o.weight = 3) {
  const Moment m = Generate(s);
  const us_t t(m.Us());
  setenv("TZ", kZones[s.Draw(6)], 1);
  tzset();
  if (s.Describing()) s.Note(Render(m, "%Y-%m-%d %H:%M:%S") + "." + Pad(m.us, 6));
  const std::string text = current::FormatDateTimeAsIMFFix(t);
  s.Eq(Render(m, "%a, %d %b %Y %H:%M:%S GMT"), text, "the text of a moment as of RFC 7231");
  s.Eq(m.Seconds() * 1000000, int64_t(current::IMFFixDateTimeStringToTimestamp(text).count()), "a moment from its text as of RFC 7231");
  s.Eq(m.Seconds() * 1000000 + 999999,
       int64_t(current::IMFFixDateTimeStringToTimestamp(text, current::time::SecondsToMicrosecondsPadding::Upper).count()),
       "a moment from its text as of RFC 7231");
  const std::string old = current::FormatDateTimeAsRFC850(t);
  s.Eq(Render(m, "%A, %d-%b-%y %H:%M:%S GMT"), old, "the text of a moment as of RFC 850");
  if (m.year >= 1969 && m.year <= 2068) {
    s.Eq(m.Seconds() * 1000000, int64_t(current::RFC850DateTimeStringToTimestamp(old).count()), "a moment from its text as of RFC 850");
    s.NonTrivial();
  }
}

PBT_PROP(local, o.weight = 3) {
  const Moment m = Generate(s, 1000, 3000);
  const us_t t(m.Us());
  const std::string format = Format(s);
  const size_t z = s.Draw(6);
  setenv("TZ", kZones[z], 1);
  tzset();
  if (s.Describing()) s.Note(std::string(kZones[z]) + ", " + format + ": " + Render(m, "%Y-%m-%d %H:%M:%S"));
  const std::string text = current::FormatDateTime(t, format.c_str());
  const us_t parsed = current::LocalDateTimeStringToTimestamp(text, format.c_str());
  // The hour is repeated as the daylight saving time ends, there are two moments to choose from.
  const int64_t difference = parsed.count() - m.Seconds() * 1000000;
  s.Check(difference == 0 || (std::string(kZones[z]).find(",M") != std::string::npos && std::abs(difference) == int64_t(3600) * 1000000),
          "a moment from its local text");
  s.Eq(text, current::FormatDateTime(parsed, format.c_str()), "the text of the moment from the text");
  // For the zones of fixed offset, the local time is the one of UTC, shifted.
  const std::vector<int64_t> offsets{0, 0, 0, 14 * 3600, -12 * 3600, 5 * 3600 + 45 * 60, 0};
  if (z == 0 || (z >= 3 && z <= 5)) {
    s.Eq(current::FormatDateTime<current::time::TimeRepresentation::UTC>(t + us_t(offsets[z] * 1000000), format.c_str()), text, "the local time");
    s.Eq(m.Seconds() * 1000000, int64_t(parsed.count()), "a moment from its local text");
  }
  s.Eq(current::FormatDateTime(t, "%Y/%m/%d %H:%M:%S"), current::FormatDateTime(t), "the default format");
  s.NonTrivial();
}

PBT_PROP(not_a_date, o.weight = 2) {
  const Moment m = Generate(s);
  setenv("TZ", "UTC0", 1);
  tzset();
  const std::string format = s.Pick({"%Y-%m-%d %H:%M:%S", "%a, %d %b %Y %H:%M:%S GMT", "%d.%m.%Y %H:%M:%S"});
  const std::string good = Render(m, format);
  std::string bad = good;
  switch (s.Draw(4)) {
    case 0:
      // Cut short. The last number may lose its second digit, and still be a number.
      bad = good.substr(0, s.Draw(good.size() - 4));
      break;
    case 1: {
      // A digit which is none. The one which is not the second digit of a number.
      std::vector<size_t> at;
      for (size_t i = 0; i < good.size(); ++i) {
        if (::isdigit(good[i]) && (i == 0 || !::isdigit(good[i - 1]))) at.push_back(i);
      }
      bad[s.OneOf(at)] = s.Pick({"x", "/", ":", "%", "-"})[0];
      break;
    }
    case 2: {
      // Out of range.
      Moment w = m;
      switch (s.Draw(4)) {
        case 0: w.day = int(s.Int(32, 99)); break;
        case 1: w.hour = int(s.Int(24, 99)); break;
        case 2: w.minute = int(s.Int(60, 99)); break;
        case 3:
          // Not at the end of the text, where what follows the date is not looked at: `70` is `7` and an extra zero.
          if (format.substr(format.size() - 2) == "%S") s.Discard();
          w.second = int(s.Int(62, 99));
          break;
        default: w.day = 0; break;
      }
      bad = Render(w, format[0] == '%' && format[1] == 'a' ? "Sun, %d %b %Y %H:%M:%S GMT" : format);
      break;
    }
    case 3:
      bad = s.From("abcdxyz !?", 12);
      break;
    default:
      bad = s.From("xyz!?", 3) + "?" + good;
      break;
  }
  if (s.Describing()) s.Note(pbt::Esc(bad) + " as " + format);
  s.Eq(int64_t(0), int64_t(current::UTCDateTimeStringToTimestamp(bad, format.c_str()).count()), "a text which is not a date");
  s.Eq(int64_t(0), int64_t(current::LocalDateTimeStringToTimestamp(bad, format.c_str()).count()), "a text which is not a date");
  s.NonTrivial();
}

PBT_PROP(odd_formats) {
  // Too long to fit, and still right, or reported as the number of microseconds.
  const us_t t(s.Int(0, int64_t(4000000000) * 1000000));
  const size_t n = s.Size(0, 1200);
  const std::string filler(n, 'x');
  const std::string text = current::FormatDateTime<current::time::TimeRepresentation::UTC>(t, filler.c_str());
  if (n == 0 || n > 1024) {
    s.Eq(std::to_string(t.count()) + "us", text, "the text which does not fit");
  } else {
    s.Eq(filler, text, "the text of the format");
  }
  if (n > 1000) s.NonTrivial();
}

#ifndef CURRENT_MOCK_TIME

PBT_PROP(clock, o.weight = 2; o.schedule = true; o.hang_s = 30; o.hang_is_violation = true) {
  // Steps of the clock of the system: stuck, forward, or backwards.
  fake_deltas.clear();
  for (size_t i = s.Size(1, 8); i; --i) fake_deltas.push_back(s.Weighted({2, 2, 1}) == 0 ? 0 : s.Int(-50, 60));
  // The clock is one for the process: begin after where the previous cases have left it.
  const int64_t base = current::time::Now().count() + 1000 * 1000;
  fake_now_us = base;
  fake_reads = 0;
  fake_clock = true;
  const size_t n = s.Size(1, 4);
  const size_t reads = s.Size(1, 40);
  std::vector<std::vector<int64_t>> got(n);
  std::atomic_int64_t seen{0};  // The latest one known to have been read before.
  std::atomic_bool early{false};
  const auto read = [&](std::vector<int64_t>& v) {
    for (size_t i = 0; i < reads; ++i) {
      const int64_t before = seen;
      const int64_t now = current::time::Now().count();
      if (now <= before) early = true;
      v.push_back(now);
      int64_t latest = seen;
      while (latest < now && !seen.compare_exchange_weak(latest, now)) {
      }
    }
  };
  if (n == 1) {
    read(got[0]);
  } else {
    std::vector<std::thread> threads;
    for (auto& v : got) threads.emplace_back([&read, &v] { read(v); });
    for (auto& t : threads) t.join();
  }
  fake_clock = false;
  s.Check(!early, "the clock goes back");
  std::vector<int64_t> all;
  for (const auto& v : got) {
    for (size_t i = 1; i < v.size(); ++i) s.Check(v[i - 1] < v[i], "the clock does not increase");
    all.insert(all.end(), v.begin(), v.end());
  }
  std::sort(all.begin(), all.end());
  for (size_t i = 1; i < all.size(); ++i) s.Check(all[i - 1] != all[i], "the same time is told twice");
  // The clock follows the one of the system where it can.
  s.Check(all.back() <= base + int64_t(all.size()) * 70 + int64_t(fake_reads) * 70, "the clock runs away");
  // The clock of the system may have been stepped back by each of the threads before the first of them is through.
  s.Check(all.front() >= base - int64_t(fake_reads) * 60, "the clock is behind");
  if (all.size() >= 10) s.NonTrivial();
}

#else

// The mocked clock tells the times from the one set, one microsecond apart, up to the limit, and can not be set back.
PBT_PROP(mocked_clock, o.weight = 3) {
  current::time::ResetToZero();
  int64_t now = 0;
  int64_t max = int64_t(1000) * 1000 * 1000;
  const size_t n = s.Size(1, 30);
  for (size_t i = 0; i < n; ++i) {
    switch (s.Weighted({5, 2, 1, 1})) {
      case 0:
        s.Eq(now, int64_t(current::time::Now().count()), "the time");
        if (now < max) ++now;
        break;
      case 1: {
        const int64_t to = now + s.Int(-3, 20);
        const int64_t limit = s.Bool() ? 0 : to + s.Int(-2, 5);
        bool thrown = false;
        try {
          if (limit == 0 && s.Bool()) {
            current::time::SetNow(us_t(to));
          } else {
            current::time::SetNow(us_t(to), us_t(limit));
          }
        } catch (const current::time::InconsistentSetNowException&) {
          thrown = true;
        }
        s.Eq(to < now, thrown, "setting the time back is refused");
        if (!thrown) {
          now = to;
          max = limit;
        }
        break;
      }
      case 2:
        current::time::ResetToZero();
        now = 0;
        max = int64_t(1000) * 1000 * 1000;
        break;
      default:
        s.Eq(int64_t(5), int64_t(current::time::TimestampAsMicroseconds(us_t(5)).count()), "an explicit time");
        s.Eq(now, int64_t(current::time::TimestampAsMicroseconds(current::time::DefaultTimeArgument()).count()), "the default time");
        if (now < max) ++now;
        break;
    }
  }
  if (n >= 10) s.NonTrivial();
}

#endif
