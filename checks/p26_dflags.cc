// P26: command line flags are parsed exactly as given.
#include "../lib/pbt.h"

#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <memory>

#include "bricks/dflags/dflags.h"

PBT_CHECK("P26", "exploration",
          "a case is non-trivial if the command line has at least two flags, of which one is repeated, is followed by a value in a separate argument, or is followed by a positional argument; or if it is refused past its first argument");

namespace {

enum class Type { I8, U8, I16, U16, I32, U32, I64, U64, SizeT, Float, Double, String, Bool, kCount };

struct Flag {
  std::string name;
  Type type;
  // The canonical text of the value.
  std::string value, default_value, description;
};

struct AnyFlag {
  virtual ~AnyFlag() = default;
  virtual std::string Get() const = 0;
};

std::string Text(const std::string& x) { return x; }
std::string Text(bool x) { return x ? "true" : "false"; }
std::string Text(double x) {
  char buf[60];
  snprintf(buf, sizeof(buf), "%.17g", x);
  return buf;
}
std::string Text(float x) { return Text(double(x)); }
template <typename T>
std::string Text(T x) { return std::to_string(x); }

template <typename T>
struct TypedFlag final : AnyFlag {
  T value;
  dflags::FlagRegisterer<T> registerer;
  TypedFlag(const Flag& f, T default_value) : value(default_value), registerer(value, f.name, "type", default_value, f.description) {}
  std::string Get() const override { return Text(value); }
};

template <typename T>
T Parse(const std::string& x) {
  if (std::is_floating_point<T>::value) return T(strtod(x.c_str(), nullptr));
  return std::is_unsigned<T>::value ? T(strtoull(x.c_str(), nullptr, 10)) : T(strtoll(x.c_str(), nullptr, 10));
}

std::unique_ptr<AnyFlag> Make(const Flag& f) {
  const std::string& d = f.default_value;
  switch (f.type) {
    case Type::I8: return std::make_unique<TypedFlag<int8_t>>(f, Parse<int8_t>(d));
    case Type::U8: return std::make_unique<TypedFlag<uint8_t>>(f, Parse<uint8_t>(d));
    case Type::I16: return std::make_unique<TypedFlag<int16_t>>(f, Parse<int16_t>(d));
    case Type::U16: return std::make_unique<TypedFlag<uint16_t>>(f, Parse<uint16_t>(d));
    case Type::I32: return std::make_unique<TypedFlag<int32_t>>(f, Parse<int32_t>(d));
    case Type::U32: return std::make_unique<TypedFlag<uint32_t>>(f, Parse<uint32_t>(d));
    case Type::I64: return std::make_unique<TypedFlag<int64_t>>(f, Parse<int64_t>(d));
    case Type::U64: return std::make_unique<TypedFlag<uint64_t>>(f, Parse<uint64_t>(d));
    case Type::SizeT: return std::make_unique<TypedFlag<size_t>>(f, Parse<size_t>(d));
    case Type::Float: return std::make_unique<TypedFlag<float>>(f, Parse<float>(d));
    case Type::Double: return std::make_unique<TypedFlag<double>>(f, Parse<double>(d));
    case Type::String: return std::make_unique<TypedFlag<std::string>>(f, d);
    default: return std::make_unique<TypedFlag<bool>>(f, d == "true");
  }
}

template <typename T>
std::string Value(pbt::Src& s) { return std::to_string(s.Integer<T>()); }

// A text which is a value of the type.
std::string Good(pbt::Src& s, Type t) {
  switch (t) {
    case Type::I8: return Value<int8_t>(s);
    case Type::U8: return Value<uint8_t>(s);
    case Type::I16: return Value<int16_t>(s);
    case Type::U16: return Value<uint16_t>(s);
    case Type::I32: return Value<int32_t>(s);
    case Type::U32: return Value<uint32_t>(s);
    case Type::I64: return Value<int64_t>(s);
    case Type::U64: return Value<uint64_t>(s);
    case Type::SizeT: return Value<uint64_t>(s);
    case Type::Float: return Text(float(s.Int(-100000, 100000)) / 64);
    case Type::Double: return Text(double(s.Int(-1000000000, 1000000000)) / 1024);
    case Type::String: return s.From("ab=- \t\"1", 6);
    default: return s.Pick({"0", "1", "true", "True", "yes", "Yes", "false", "False", "no", "No"});
  }
}

// A text which is not.
std::string Bad(pbt::Src& s, Type t) {
  const std::string not_a_number = s.Pick({"", "x", "12x", "1 2", "0x10", "1,000", "--1", "5-", "nope", "tru", "1true", "42abc", "7\x01"});
  switch (t) {
    case Type::Bool: return s.Pick({"", "2", "maybe", "TRUE", "truee", " 1", "t", "01", "false ", "on"});
    case Type::Float:
    case Type::Double: return s.Chance(1, 4) ? s.Pick({"1.5.5", "1e", "1.0f", "1e999"}) : not_a_number;
    default: break;
  }
  if (s.Bool()) return not_a_number;
  if (s.Chance(1, 3)) return s.Pick({"1.5", "1e3", "3."});
  switch (t) {
    case Type::I8: return s.Pick({"128", "-129", "1000", "4294967297"});
    case Type::U8: return s.Pick({"256", "-1", "1000", "4294967297"});
    case Type::I16: return s.Pick({"32768", "-32769"});
    case Type::U16: return s.Pick({"65536", "-1"});
    case Type::I32: return s.Pick({"2147483648", "-2147483649"});
    case Type::U32: return s.Pick({"4294967296", "-1"});
    case Type::I64: return s.Pick({"9223372036854775808", "-9223372036854775809"});
    default: return s.Pick({"18446744073709551616", "-1"});
  }
}

bool IsBool(const std::string& x) {
  for (const char* v : {"0", "1", "true", "True", "yes", "Yes", "false", "False", "no", "No"}) if (x == v) return true;
  return false;
}

std::string Canonical(Type t, const std::string& x) {
  if (t == Type::Bool) return x == "1" || x == "true" || x == "True" || x == "yes" || x == "Yes" ? "true" : "false";
  return x;
}

struct Outcome {
  int code = -1;
  std::string report, out, err;
};

// The code under test exits on errors, hence a process of its own for each command line.
Outcome Run(const std::vector<Flag>& flags, const std::vector<std::string>& args, bool compatible) {
  int report[2], out[2], err[2];
  if (pipe(report) || pipe(out) || pipe(err)) abort();
  fflush(nullptr);
  const pid_t pid = fork();
  if (!pid) {
    dup2(out[1], 1);
    dup2(err[1], 2);
    dflags::FlagsManager::DefaultRegisterer registerer;
    dflags::FlagsManager::ScopedSingletonInjector injector(registerer);
    std::vector<std::unique_ptr<AnyFlag>> real;
    for (const auto& f : flags) real.push_back(Make(f));
    // Exactly the size of the arguments in the heap, for AddressSanitizer.
    std::vector<char*> argv;
    for (const auto& a : args) argv.push_back(strdup(a.c_str()));
    argv.push_back(nullptr);
    int argc = int(args.size());
    char** v = argv.data();
    if (compatible) google::ParseCommandLineFlags(&argc, &v); else ParseDFlags(&argc, &v);
    std::string text;
    for (const auto& f : real) text += f->Get() + '\0';
    text += '\n';
    for (int i = 0; i < argc; ++i) text += std::string(v[i]) + '\0';
    if (write(report[1], text.data(), text.size()) != ssize_t(text.size())) _exit(77);
    _exit(0);
  }
  close(report[1]);
  close(out[1]);
  close(err[1]);
  Outcome r;
  const auto drain = [](int fd, std::string& to) {
    char buf[4096];
    ssize_t n;
    while ((n = read(fd, buf, sizeof(buf))) > 0) to.append(buf, size_t(n));
    close(fd);
  };
  drain(report[0], r.report);
  drain(out[0], r.out);
  drain(err[0], r.err);
  int status = 0;
  waitpid(pid, &status, 0);
  r.code = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
  return r;
}

}  // namespace

PBT_PROP(command_lines, o.weight = 200; o.hang_s = 20) {
  std::vector<Flag> flags;
  const size_t n = 1 + s.Draw(4);
  std::map<std::string, size_t> index;
  for (size_t i = 0; i < n; ++i) {
    Flag f;
    f.name = s.Pick({"a", "b", "flag", "flags", "flag_a", "A", "x1", "hel", "helpme"});
    if (index.count(f.name)) continue;
    f.type = Type(s.Draw(uint64_t(Type::kCount) - 1));
    f.default_value = f.value = Canonical(f.type, Good(s, f.type));
    f.description = "The " + f.name + ".";
    index[f.name] = flags.size();
    flags.push_back(f);
  }
  std::vector<std::string> args(1, s.Pick({"./main", "", "-x"})), positional = args;
  const size_t m = s.Len(6);
  const bool erroneous = s.Chance(1, 3);
  const size_t error_at = erroneous ? s.Draw(m) : size_t(-1);
  bool error = false, help = false;
  size_t given = 0;
  bool interesting = false;
  std::map<size_t, size_t> times;
  // Whether the previous argument is a boolean flag with no value, which would take the next argument for one.
  bool implicit = false;
  for (size_t i = 0; i < m || i == error_at; ++i) {
    if (i == error_at) {
      error = true;
      switch (s.Draw(5)) {
        case 0: args.push_back(s.Pick({"---a=1", "---", "----flag"})); break;
        case 1: args.push_back(s.Pick({"-", "--", "--nosuch", "--nosuch=1", "-a1=1", "--=1", "--fla=1", "-FLAG"})); break;
        case 2: {
          const Flag& f = flags[s.Draw(flags.size() - 1)];
          if (f.type == Type::Bool) {
            args.push_back("--" + f.name + "=" + Bad(s, f.type));
          } else {
            // No value to take.
            args.push_back("-" + f.name);
            i = m;
          }
          break;
        }
        case 3: {
          error = false;
          help = true;
          args.push_back(s.Pick({"--help", "-help", "--help=1"}));
          break;
        }
        default: {
          const Flag& f = flags[s.Draw(flags.size() - 1)];
          if (f.type == Type::String) {
            args.push_back("--nosuch");
          } else if (f.type == Type::Bool || s.Bool()) {
            args.push_back("--" + f.name + "=" + Bad(s, f.type));
          } else {
            args.push_back("--" + f.name);
            args.push_back(Bad(s, f.type));
          }
        }
      }
      if (args.size() > 2) interesting = true;
      // Whatever follows the error, if the error is not that nothing does.
      if (i < m) while (s.Chance(1, 3)) args.push_back(s.Pick({"foo", "--a=1", "--nosuch"}));
      break;
    }
    if (s.Chance(1, 3)) {
      std::string p = s.Pick({"foo", "bar", "", "a", "a=1", "1", "true", "=", "x-y"});
      if (implicit && IsBool(p)) p = "foo";
      args.push_back(p);
      positional.push_back(p);
      if (given) interesting = true;
      implicit = false;
      continue;
    }
    const size_t k = s.Draw(flags.size() - 1);
    Flag& f = flags[k];
    const std::string dashes = s.Bool() ? "--" : "-";
    ++given;
    if (++times[k] > 1) interesting = true;
    implicit = false;
    if (f.type == Type::Bool && s.Chance(1, 2)) {
      args.push_back(dashes + f.name);
      f.value = "true";
      implicit = true;
      continue;
    }
    const std::string value = Good(s, f.type);
    f.value = Canonical(f.type, value);
    if (s.Bool()) {
      args.push_back(dashes + f.name + "=" + value);
    } else {
      args.push_back(dashes + f.name);
      args.push_back(value);
      interesting = true;
    }
  }
  std::string shown;
  for (const auto& f : flags) shown += f.name + ":" + std::to_string(int(f.type)) + "=" + pbt::Esc(f.default_value) + " ";
  shown += "|";
  for (const auto& a : args) shown += " " + pbt::Esc(a);
  if (s.Describing()) s.Note(shown);
  const Outcome r = Run(flags, args, s.Bool());
  if (error) {
    s.Check(r.code == 255, "error-not-reported", [&] { return shown + ": exit code " + std::to_string(r.code) + " " + r.err; });
    s.Check(!r.err.empty(), "error-without-message");
  } else if (help) {
    s.Eq(0, r.code, "help");
    s.Check(r.report.empty(), "help-then-continued");
    for (const auto& f : flags) {
      s.Check(r.out.find("--" + f.name + " ") != std::string::npos && r.out.find(f.description) != std::string::npos, "help-lacks-a-flag");
    }
  } else {
    s.Check(r.code == 0, "refused", [&] { return shown + ": exit code " + std::to_string(r.code) + " " + r.err; });
    std::string expected;
    for (const auto& f : flags) expected += f.value + '\0';
    expected += '\n';
    for (const auto& p : positional) expected += p + '\0';
    s.Eq(expected, r.report, "values");
  }
  if (interesting && (given >= 2 || error || help)) s.NonTrivial(pbt::Hash(shown));
  s.LabelIf(error, "error");
  s.LabelIf(help, "help");
}

PBT_PROP(called_twice, o.weight = 1) {
  Outcome r;
  fflush(nullptr);
  int err[2];
  if (pipe(err)) abort();
  const pid_t pid = fork();
  if (!pid) {
    dup2(err[1], 2);
    dflags::FlagsManager::DefaultRegisterer registerer;
    dflags::FlagsManager::ScopedSingletonInjector injector(registerer);
    char name[] = "main";
    char* argv[] = {name, nullptr};
    int argc = 1;
    char** v = argv;
    ParseDFlags(&argc, &v);
    ParseDFlags(&argc, &v);
    _exit(0);
  }
  close(err[1]);
  close(err[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  s.Check(WIFEXITED(status) ? WEXITSTATUS(status) == 255 : WTERMSIG(status) == SIGPIPE, "called-twice");
}
