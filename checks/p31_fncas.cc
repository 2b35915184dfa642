// P31: differentiation and compiled functions agree with the function.
#include <unistd.h>

#include <cmath>
#include <deque>
#include <functional>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "bricks/file/file.h"
#include "fncas/fncas.h"

PBT_CHECK("P31", "exploration",
          "A case is a program of up to sixty statements over one to four variables, made of the four operations, their "
          "assigning forms, unary signs, constants and the twelve supported functions, with values shared freely, evaluated "
          "plainly, as recorded, and as compiled just in time, at up to four points, with the gradients compared to the ones by "
          "automatic differentiation with running error bounds; or a chain of hundreds of statements; or a run of an optimizer; or "
          "a sequence of machine instructions. Non-trivial: at least four statements which depend on a variable, and a finite "
          "value; or an optimizer which made a step; or four instructions.");

namespace oracle {

// Automatic differentiation in extended precision. Along with each quantity goes the bound on the error that evaluating
// the same formula, or an equivalent one, in plain doubles may make, in units of the machine precision.
constexpr long double kEps = std::numeric_limits<double>::epsilon();
struct Dual {
  long double v = 0, ev = 0;  // The value, and its error.
  long double d = 0, ed = 0;  // The derivative, and its error.
  bool bad = false;           // Too close to where the function is not smooth, or not finite.
  Dual() = default;
  Dual(double x) : v(x) {}
  static Dual Variable(double x, bool active) {
    Dual r(x);
    r.d = active ? 1 : 0;
    return r;
  }
  void Settle() {
    if (!std::isfinite(v) || !std::isfinite(d) || !std::isfinite(ev) || !std::isfinite(ed) || fabsl(v) > 1e100L || fabsl(d) > 1e100L) bad = true;
    if ((v != 0 && fabsl(v) < 1e-100L) || (d != 0 && fabsl(d) < 1e-100L)) bad = true;
    ev += fabsl(v) * kEps;
    ed += fabsl(d) * kEps * 4;
  }
};
Dual operator+(const Dual& a, const Dual& b) {
  Dual r;
  r.v = a.v + b.v;
  r.d = a.d + b.d;
  r.ev = a.ev + b.ev;
  r.ed = a.ed + b.ed;
  r.bad = a.bad || b.bad;
  r.Settle();
  return r;
}
Dual operator-(const Dual& a, const Dual& b) {
  Dual r;
  r.v = a.v - b.v;
  r.d = a.d - b.d;
  r.ev = a.ev + b.ev;
  r.ed = a.ed + b.ed;
  r.bad = a.bad || b.bad;
  r.Settle();
  return r;
}
Dual operator*(const Dual& a, const Dual& b) {
  Dual r;
  r.v = a.v * b.v;
  r.d = a.d * b.v + a.v * b.d;
  r.ev = fabsl(a.v) * b.ev + fabsl(b.v) * a.ev + a.ev * b.ev;
  r.ed = (fabsl(a.d) + a.ed) * b.ev + fabsl(b.v) * a.ed + fabsl(a.v) * b.ed + (fabsl(b.d) + b.ed) * a.ev + (fabsl(a.d * b.v) + fabsl(a.v * b.d)) * kEps * 4;
  r.bad = a.bad || b.bad;
  r.Settle();
  return r;
}
// f of x, with its two derivatives, and the factor of the error of how the derivative is computed.
Dual Apply(const Dual& x, long double f, long double f1, long double f2, long double factor = 1) {
  Dual r;
  r.v = f;
  r.d = f1 * x.d;
  r.ev = fabsl(f1) * x.ev + fabsl(f) * kEps * 2;
  r.ed = fabsl(f1) * x.ed + fabsl(f2) * (fabsl(x.d) + x.ed) * x.ev + fabsl(r.d) * kEps * 16 * factor;
  r.bad = x.bad || !(x.ev * 1e6L <= 1 + fabsl(x.v));
  r.Settle();
  return r;
}
Dual operator/(const Dual& a, const Dual& b) {
  if (fabsl(b.v) <= b.ev * 1e6L) {
    Dual r;
    r.bad = true;
    return r;
  }
  Dual inverse = Apply(b, 1 / b.v, -1 / (b.v * b.v), 2 / (b.v * b.v * b.v));
  Dual r = a * inverse;
  // The formula in use is (b da - a db) / b^2.
  r.ed += (fabsl(b.v * a.d) + fabsl(a.v * b.d)) / (b.v * b.v) * kEps * 16;
  return r;
}
Dual operator+(const Dual& a) { return a; }
Dual operator-(const Dual& a) { return Dual(0.0) - a; }
void operator+=(Dual& a, const Dual& b) { a = a + b; }
void operator-=(Dual& a, const Dual& b) { a = a - b; }
void operator*=(Dual& a, const Dual& b) { a = a * b; }
void operator/=(Dual& a, const Dual& b) { a = a / b; }
bool Near(const Dual& x, long double to) { return fabsl(x.v - to) <= x.ev * 1e6L + 1e-12L; }
Dual sqr(const Dual& x) { return Apply(x, x.v * x.v, 2 * x.v, 2); }
Dual sqrt(const Dual& x) {
  const long double r = sqrtl(x.v);
  Dual y = Apply(x, r, 0.5L / r, -0.25L / (r * x.v));
  y.bad |= x.v < 0 || Near(x, 0);
  return y;
}
Dual exp(const Dual& x) { return Apply(x, expl(x.v), expl(x.v), expl(x.v)); }
Dual log(const Dual& x) {
  Dual y = Apply(x, logl(x.v), 1 / x.v, -1 / (x.v * x.v));
  y.bad |= x.v < 0 || Near(x, 0);
  return y;
}
Dual sin(const Dual& x) { return Apply(x, sinl(x.v), cosl(x.v), -sinl(x.v)); }
Dual cos(const Dual& x) { return Apply(x, cosl(x.v), -sinl(x.v), -cosl(x.v)); }
Dual tan(const Dual& x) {
  const long double t = tanl(x.v), q = 1 + t * t;
  Dual y = Apply(x, t, q, 2 * t * q, q);
  y.bad |= q > 1e8L;
  y.ed += fabsl(y.d) * x.ev * q;
  return y;
}
Dual InverseOfTrigonometric(const Dual& x, long double value, long double sign) {
  const long double q = 1 - x.v * x.v;
  Dual y = Apply(x, value, sign / sqrtl(q), sign * x.v / (q * sqrtl(q)), 1 + 1 / q);
  y.bad |= q <= 0 || Near(x, 1) || Near(x, -1) || q < 1e-8L;
  return y;
}
Dual asin(const Dual& x) { return InverseOfTrigonometric(x, asinl(x.v), +1); }
Dual acos(const Dual& x) { return InverseOfTrigonometric(x, acosl(x.v), -1); }
Dual atan(const Dual& x) {
  const long double q = 1 + x.v * x.v;
  return Apply(x, atanl(x.v), 1 / q, -2 * x.v / (q * q));
}
Dual unit_step(const Dual& x) {
  Dual y = Apply(x, x.v >= 0 ? 1 : 0, 0, 0);
  y.bad |= Near(x, 0);
  return y;
}
Dual ramp(const Dual& x) {
  Dual y = Apply(x, x.v > 0 ? x.v : 0, x.v > 0 ? 1 : 0, 0);
  y.bad |= Near(x, 0);
  return y;
}

}  // namespace oracle

namespace {

using oracle::Dual;

// A program.
enum Kind { Constant, Binary, BinaryWithConstant, Assigning, Unary, Function };
struct Statement {
  Kind kind;
  int op;  // The operation or the function.
  size_t a, b;
  double c;
  bool swap;
};
struct Program {
  size_t dim;
  std::vector<Statement> statements;

  template <typename T>
  static T Operation(int op, const T& a, const T& b) {
    switch (op) {
      case 0:
        return a + b;
      case 1:
        return a - b;
      case 2:
        return a * b;
      default:
        return a / b;
    }
  }
  template <typename T>
  static T Call(int f, const T& x) {
    using namespace fncas;
    switch (f) {
      case 0:
        return sqr(x);
      case 1:
        return sqrt(x);
      case 2:
        return exp(x);
      case 3:
        return log(x);
      case 4:
        return sin(x);
      case 5:
        return cos(x);
      case 6:
        return tan(x);
      case 7:
        return asin(x);
      case 8:
        return acos(x);
      case 9:
        return atan(x);
      case 10:
        return ramp(x);
      default:
        return unit_step(x);
    }
  }

  template <typename T, typename X>
  T Run(const X& x) const {
    std::deque<T> r;
    for (size_t i = 0; i < dim; ++i) r.push_back(x[i]);
    for (const auto& s : statements) {
      switch (s.kind) {
        case Constant:
          r.push_back(T(s.c));
          break;
        case Binary:
          r.push_back(Operation<T>(s.op, r[s.a], r[s.b]));
          break;
        case BinaryWithConstant:
          if (s.swap) {
            switch (s.op) {
              case 0:
                r.push_back(s.c + r[s.a]);
                break;
              case 1:
                r.push_back(s.c - r[s.a]);
                break;
              case 2:
                r.push_back(s.c * r[s.a]);
                break;
              default:
                r.push_back(s.c / r[s.a]);
            }
          } else {
            switch (s.op) {
              case 0:
                r.push_back(r[s.a] + s.c);
                break;
              case 1:
                r.push_back(r[s.a] - s.c);
                break;
              case 2:
                r.push_back(r[s.a] * s.c);
                break;
              default:
                r.push_back(r[s.a] / s.c);
            }
          }
          break;
        case Assigning: {
          T t = r[s.a];
          switch (s.op) {
            case 0:
              t += r[s.b];
              break;
            case 1:
              t -= r[s.b];
              break;
            case 2:
              t *= r[s.b];
              break;
            default:
              t /= r[s.b];
          }
          r.push_back(t);
          break;
        }
        case Unary:
          if constexpr (std::is_same_v<T, double>) {
            // The unary minus is the subtraction from zero, which is the same except for the sign of zero.
            r.push_back(s.op ? 0.0 - r[s.a] : r[s.a]);
          } else {
            r.push_back(s.op ? -r[s.a] : +r[s.a]);
          }
          break;
        case Function:
          r.push_back(Call<T>(s.op, r[s.a]));
          break;
      }
    }
    return r.back();
  }

  // The statements the result depends on, and, of them, the ones which depend on a variable.
  void Reach(std::vector<bool>& reached, std::vector<bool>& varies) const {
    const size_t n = dim + statements.size();
    reached.assign(n, false);
    varies.assign(n, false);
    for (size_t i = 0; i < dim; ++i) varies[i] = true;
    for (size_t i = 0; i < statements.size(); ++i) {
      const auto& s = statements[i];
      if (s.kind == Constant) continue;
      varies[dim + i] = varies[s.a] || ((s.kind == Binary || s.kind == Assigning) && varies[s.b]);
    }
    reached[n - 1] = true;
    for (size_t i = statements.size(); i--;) {
      if (!reached[dim + i]) continue;
      const auto& s = statements[i];
      if (s.kind == Constant) continue;
      reached[s.a] = true;
      if (s.kind == Binary || s.kind == Assigning) reached[s.b] = true;
    }
  }

  std::string Text() const {
    static const char* f[] = {"sqr", "sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "ramp", "unit_step"};
    static const char* o[] = {"+", "-", "*", "/"};
    std::string t = "dim " + std::to_string(dim);
    for (size_t i = 0; i < statements.size(); ++i) {
      const auto& s = statements[i];
      char c[40];
      snprintf(c, sizeof(c), "%.17g", s.c);
      t += "; r" + std::to_string(dim + i) + " = ";
      const std::string a = "r" + std::to_string(s.a), b = "r" + std::to_string(s.b);
      switch (s.kind) {
        case Constant:
          t += c;
          break;
        case Binary:
          t += a + ' ' + o[s.op] + ' ' + b;
          break;
        case BinaryWithConstant:
          t += s.swap ? std::string(c) + ' ' + o[s.op] + ' ' + a : a + ' ' + o[s.op] + ' ' + c;
          break;
        case Assigning:
          t += "(" + a + ' ' + o[s.op] + "= " + b + ")";
          break;
        case Unary:
          t += (s.op ? "-" : "+") + a;
          break;
        case Function:
          t += std::string(f[s.op]) + '(' + a + ')';
      }
    }
    return t;
  }
};

double SmallNumber(pbt::Src& s) {
  switch (s.Weighted({5, 4, 2, 1})) {
    case 0:
      return double(s.Int(-4, 4));
    case 1:
      return double(s.Int(-400, 400)) / 64;
    case 2:
      return double(s.Int(-1000000, 1000000)) / 777777.0;
    default:
      return s.OneOf(std::vector<double>{0, 1, -1, 0.5, 1e-3, 1e3, 1e-8, 12345.678, 1.0 / 3});
  }
}
// A negative zero is the same constant as the positive one.
double ConstantOf(pbt::Src& s) { return SmallNumber(s) + 0.0; }

Program Generate(pbt::Src& s, size_t max_statements, bool smooth) {
  Program p;
  p.dim = s.Size(1, 4);
  const size_t n = s.Chance(1, 3) ? 1 + s.Len(max_statements - 1) : s.Size(std::min<size_t>(max_statements, 5), max_statements);
  for (size_t i = 0; i < n; ++i) {
    Statement t{};
    const size_t have = p.dim + i;
    const auto recent = [&] { return s.Chance(2, 3) ? have - 1 - s.Draw(std::min<size_t>(have - 1, 3)) : size_t(s.Draw(have - 1)); };
    t.a = recent();
    t.b = recent();
    t.kind = static_cast<Kind>(s.Weighted({1, 6, 3, 2, 1, 5}));
    switch (t.kind) {
      case Constant:
        t.c = ConstantOf(s);
        break;
      case BinaryWithConstant:
        t.c = ConstantOf(s);
        t.swap = s.Bool();
        t.op = int(s.Weighted({3, 3, 3, 1}));
        break;
      case Unary:
        t.op = int(s.Draw(1));
        break;
      case Function:
        t.op = int(s.Weighted({3, 1, 2, 1, 3, 3, 1, 1, 1, 3, smooth ? 0u : 2u, smooth ? 0u : 1u}));
        break;
      default:
        t.op = int(s.Weighted({3, 3, 3, 1}));
    }
    p.statements.push_back(t);
  }
  return p;
}

std::vector<double> Point(pbt::Src& s, size_t dim) {
  std::vector<double> x(dim);
  for (auto& v : x) v = SmallNumber(s);
  return x;
}
std::string Show(const std::vector<double>& v) {
  std::string t = "(";
  for (double d : v) {
    char b[40];
    snprintf(b, sizeof(b), "%s%.17g", t.size() > 1 ? ", " : "", d);
    t += b;
  }
  return t + ")";
}
std::string Show(double d) { return Show(std::vector<double>{d}); }
bool Same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool Same(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (!Same(a[i], b[i])) return false;
  }
  return true;
}

void RemoveTheLibrary(const std::string& so) {
  if (so.size() < 4 || so.compare(0, 5, "/tmp/") != 0) return;
  const std::string base = so.substr(0, so.size() - 3);
  for (const char* e : {".so", ".o", ".s", ".asm", ".c"}) unlink((base + e).c_str());
}

template <fncas::JIT J, typename F, typename G>
void Compiled(pbt::Src& s, const char* name, const F& f, const G* g, const std::vector<std::vector<double>>& points, bool move) {
  const auto id = [&](const char* what) { return std::string(what) + " compiled with " + name; };
  {
    fncas::function_t<J> compiled(f);
    RemoveTheLibrary(compiled.lib_filename());
    const auto check = [&](const auto& c) {
      for (const auto& x : points) {
        const double expected = f(x), actual = c(x);
        s.Check(Same(expected, actual), "the compiled function is the function",
                [&] { return id("the function") + " at " + Show(x) + " is " + Show(actual) + ", not " + Show(expected); });
      }
    };
    if constexpr (J != fncas::JIT::X64NativeJIT) {
      if (move) {
        const fncas::function_t<J> moved(std::move(compiled));
        check(moved);
      } else {
        check(compiled);
      }
    } else {
      check(compiled);
    }
  }
  if (g) {
    fncas::gradient_t<J> compiled(f, *g);
    RemoveTheLibrary(compiled.lib_filename());
    const auto check = [&](const auto& c) {
      for (const auto& x : points) {
        const auto expected = (*g)(x), actual = c(x);
        s.Check(Same(expected, actual), "the compiled gradient is the gradient",
                [&] { return id("the gradient") + " at " + Show(x) + " is " + Show(actual) + ", not " + Show(expected); });
      }
    };
    if constexpr (J != fncas::JIT::X64NativeJIT) {
      if (move) {
        const fncas::gradient_t<J> moved(std::move(compiled));
        check(moved);
      } else {
        check(compiled);
      }
    } else {
      check(compiled);
    }
  }
}

// Returns whether the value has been finite at least once.
bool CheckProgram(pbt::Src& s, const Program& p, const std::vector<std::vector<double>>& points, bool external) {
  bool finite = false;
  std::vector<bool> reached, varies;
  p.Reach(reached, varies);
  bool step = false;
  for (size_t i = 0; i < p.statements.size(); ++i) {
    step |= reached[p.dim + i] && p.statements[i].kind == Function && p.statements[i].op == 11;
  }
  const fncas::variables_vector_t x(p.dim);
  using blueprint_t = fncas::function_t<fncas::JIT::Blueprint>;
  const blueprint_t f = p.Run<fncas::term_t>(x);
  s.Eq(p.dim, f.dim(), "the dimension of the function");
  for (const auto& at : points) {
    const double expected = p.Run<double>(at), actual = f(at);
    finite |= std::isfinite(expected);
    s.Check(Same(expected, actual), "the recorded function is the function",
            [&] { return "at " + Show(at) + " is " + Show(actual) + ", not " + Show(expected); });
  }
  std::unique_ptr<fncas::gradient_t<fncas::JIT::Blueprint>> g;
  try {
    g = std::make_unique<fncas::gradient_t<fncas::JIT::Blueprint>>(x, f);
    s.Check(!step, "the function which is not differentiable is refused");
  } catch (const fncas::exceptions::FnCASZeroOrOneIsNonDifferentiable&) {
    s.Check(step, "the function which is differentiable is differentiated");
    s.Label("not differentiable");
  }
  if (g) {
    s.Eq(p.dim, g->dim(), "the dimension of the gradient");
    for (const auto& at : points) {
      const auto gradient = (*g)(at);
      s.Eq(p.dim, gradient.size(), "the number of the components of the gradient");
      for (size_t i = 0; i < p.dim; ++i) {
        std::vector<Dual> dual;
        for (size_t j = 0; j < p.dim; ++j) dual.push_back(Dual::Variable(at[j], i == j));
        const Dual d = p.Run<Dual>(dual);
        const long double tolerance = d.ed * 100 + 1e-300L;
        if (d.bad || !(tolerance <= 1e-4L * (fabsl(d.d) + 1e-3L))) {
          s.Label("the derivative is not compared: singular or ill-conditioned");
          continue;
        }
        s.LabelIf(d.d != 0, "a nonzero derivative compared");
        s.Check(fabsl(gradient[i] - d.d) <= tolerance, "the gradient is the derivative", [&] {
          return "component " + std::to_string(i) + " at " + Show(at) + " is " + Show(gradient[i]) + ", not " + Show(double(d.d)) + " within " + Show(double(tolerance));
        });
      }
    }
    // Evaluating the function in between does not affect the gradient, or the other way round.
    for (const auto& at : points) {
      const auto first = (*g)(at);
      f(points[0]);
      s.Check(Same(first, (*g)(at)), "the gradient is the same when evaluated again");
      s.Check(Same(p.Run<double>(at), f(at)), "the function is the same when evaluated after its gradient");
    }
  }
  Compiled<fncas::JIT::X64NativeJIT>(s, "the native JIT", f, g.get(), points, false);
  if (external) {
    const bool move = s.Bool();
    switch (s.Weighted({3, 2, 1})) {
      case 0:
        Compiled<fncas::JIT::AS>(s, "as", f, g.get(), points, move);
        break;
      case 1:
        Compiled<fncas::JIT::NASM>(s, "nasm", f, g.get(), points, move);
        break;
      default:
        Compiled<fncas::JIT::CLANG>(s, "clang", f, g.get(), points, move);
    }
    s.Label("compiled by an external tool");
  }
  return finite;
}

size_t Substance(const Program& p) {
  std::vector<bool> reached, varies;
  p.Reach(reached, varies);
  size_t n = 0;
  for (size_t i = p.dim; i < reached.size(); ++i) n += reached[i] && varies[i];
  return n;
}

}  // namespace

PBT_PROP(programs, o.weight = 12) {
  const Program p = Generate(s, 30, false);
  std::vector<std::vector<double>> points;
  for (size_t i = s.Size(1, 4); i; --i) points.push_back(Point(s, p.dim));
  if (s.Describing()) s.Note(p.Text());
  if (CheckProgram(s, p, points, s.Chance(1, 60)) && Substance(p) >= 4) s.NonTrivial();
}

// Smooth and short, for the derivatives to be well-conditioned.
PBT_PROP(smooth_programs, o.weight = 12) {
  const Program p = Generate(s, 10, true);
  std::vector<std::vector<double>> points;
  for (size_t i = s.Size(1, 4); i; --i) points.push_back(Point(s, p.dim));
  if (s.Describing()) s.Note(p.Text());
  if (CheckProgram(s, p, points, false) && Substance(p) >= 4) s.NonTrivial();
}

// One statement.
PBT_PROP(single_statements, o.weight = 4) {
  Program p = Generate(s, 1, false);
  std::vector<std::vector<double>> points;
  for (size_t i = s.Size(1, 3); i; --i) points.push_back(Point(s, p.dim));
  if (s.Describing()) s.Note(p.Text());
  if (CheckProgram(s, p, points, false)) s.NonTrivial();
}

// Hundreds of statements, where each value is used many times, and the number of paths is astronomical.
PBT_PROP(chains, o.weight = 1; o.hang_s = 20; o.hang_is_violation = true) {
  Program p;
  p.dim = s.Size(1, 3);
  const size_t n = s.OneOf(std::vector<size_t>{30, 60, 300, 1500});
  const size_t kind = s.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    Statement t{};
    const size_t have = p.dim + i;
    t.a = have - 1;
    t.b = kind == 0 ? have - 1 : kind == 1 ? i % p.dim : have - 1 - (have > 1 ? 1 : 0);
    if (i % 3 == 2) {
      t.kind = Function;
      t.op = i % 2 ? 9 : 4;
    } else if (i % 3 == 1) {
      t.kind = BinaryWithConstant;
      t.op = 2;
      t.c = 0.5;
    } else {
      t.kind = Binary;
      t.op = i % 5 == 0 ? 1 : 0;
      if (kind == 0) t.op = 0;
    }
    p.statements.push_back(t);
  }
  if (s.Describing()) s.Note(std::to_string(n) + " statements of kind " + std::to_string(kind));
  if (CheckProgram(s, p, {Point(s, p.dim)}, s.Chance(1, 10))) s.NonTrivial(pbt::Hash(std::to_string(n)));
}

// Several threads, each recording its own.
PBT_PROP(threads, o.weight = 1) {
  std::vector<Program> programs;
  std::vector<std::vector<double>> points;
  for (size_t i = s.Size(2, 3); i; --i) {
    programs.push_back(Generate(s, 12, true));
    points.push_back(Point(s, programs.back().dim));
  }
  std::vector<std::vector<double>> alone, together(programs.size());
  const auto run = [](const Program& p, const std::vector<double>& at) {
    const fncas::variables_vector_t x(p.dim);
    const fncas::function_t<fncas::JIT::Blueprint> f = p.Run<fncas::term_t>(x);
    const fncas::gradient_t<fncas::JIT::Blueprint> g(x, f);
    const fncas::function_t<fncas::JIT::X64NativeJIT> cf(f);
    const fncas::gradient_t<fncas::JIT::X64NativeJIT> cg(f, g);
    std::vector<double> r{f(at), cf(at)};
    for (double d : g(at)) r.push_back(d);
    for (double d : cg(at)) r.push_back(d);
    return r;
  };
  for (size_t i = 0; i < programs.size(); ++i) alone.push_back(run(programs[i], points[i]));
  std::vector<std::thread> threads;
  for (size_t i = 0; i < programs.size(); ++i) threads.emplace_back([&, i] { together[i] = run(programs[i], points[i]); });
  for (auto& t : threads) t.join();
  for (size_t i = 0; i < programs.size(); ++i) {
    s.Check(Same(alone[i], together[i]), "threads do not affect each other", [&] { return programs[i].Text(); });
  }
  s.NonTrivial();
}

// At most one function per thread is recorded at a time.
PBT_PROP(one_at_a_time, o.weight = 1) {
  const Program p = Generate(s, 6, true);
  const auto at = Point(s, p.dim);
  const fncas::variables_vector_t x(p.dim);
  bool refused = false;
  try {
    const fncas::variables_vector_t y(s.Size(1, 5));
  } catch (const fncas::exceptions::FnCASConcurrentEvaluationAttemptException&) {
    refused = true;
  }
  s.Check(refused, "recording the second function is refused");
  const fncas::function_t<fncas::JIT::Blueprint> f = p.Run<fncas::term_t>(x);
  s.Check(Same(p.Run<double>(at), f(at)), "the refusal does not affect the function being recorded");
  s.Eq(p.dim, f.dim(), "the dimension of the function");
  s.NonTrivial();
}

namespace {

struct Objective {
  const Program* p;
  double scale;
  template <typename X>
  auto ObjectiveFunction(const X& x) const {
    using T = std::decay_t<decltype(x[0])>;
    T r = p->Run<T>(x);
    // Keeps the function bounded from one side.
    for (size_t i = 0; i < p->dim; ++i) {
      T t = x[i] - 1.0;
      r = r + t * t * scale;
    }
    return r;
  }
};

template <typename O>
bool Optimize(pbt::Src& s, const Objective& f, const std::vector<double>& start, const fncas::optimize::OptimizerParameters& parameters, bool minimize) {
  const O optimizer(parameters, f);
  const double before = f.ObjectiveFunction(start);
  try {
    const auto r = optimizer.Optimize(start);
    s.Eq(start.size(), r.point.size(), "the dimension of the result");
    s.Check(Same(f.ObjectiveFunction(r.point), r.value), "the value of the result is the one of the function in it",
            [&] { return Show(r.value) + " vs. " + Show(f.ObjectiveFunction(r.point)) + " at " + Show(r.point); });
    if (std::isfinite(before)) {
      s.Check(minimize ? r.value <= before : r.value >= before, "optimization does not end worse than it has started",
              [&] { return "from " + Show(before) + " to " + Show(r.value); });
    }
    s.Check(Exists(r.progress), "the progress is tracked");
    const auto& values = Value(r.progress).objective_function_values;
    s.Eq(values.size(), size_t(Value(r.progress).iterations), "one value per iteration");
    if (!values.empty()) s.Check(Same(before, values[0]), "the progress begins with the value at the start");
    s.Check(values.size() <= size_t(parameters.GetValue("max_steps", 0)), "no more steps than allowed");
    return r.point != start;
  } catch (const fncas::exceptions::FnCASOptimizationException&) {
    s.Label("the optimizer has given up");
    return false;
  }
}

template <fncas::OptimizationDirection D, fncas::JIT J>
bool OptimizeWith(pbt::Src& s, size_t which, const Objective& f, const std::vector<double>& start, const fncas::optimize::OptimizerParameters& p) {
  constexpr bool minimize = D == fncas::OptimizationDirection::Minimize;
  switch (which) {
    case 0:
      return Optimize<fncas::optimize::GradientDescentOptimizer<Objective, D, J>>(s, f, start, p, minimize);
    case 1:
      return Optimize<fncas::optimize::GradientDescentOptimizerBT<Objective, D, J>>(s, f, start, p, minimize);
    default:
      return Optimize<fncas::optimize::ConjugateGradientOptimizer<Objective, D, J>>(s, f, start, p, minimize);
  }
}

}  // namespace

PBT_PROP(optimizers, o.weight = 5) {
  Program p = Generate(s, 8, true);
  for (auto& t : p.statements) {
    if (t.kind == Function && s.Chance(1, 4)) t.op = 10;  // ramp().
  }
  const bool minimize = s.Bool();
  const size_t which = s.Draw(2);
  const bool jit = s.Bool();
  Objective f{&p, (minimize ? 1 : -1) * s.OneOf(std::vector<double>{1, 0.01, 100, 0})};
  const auto start = Point(s, p.dim);
  fncas::optimize::OptimizerParameters parameters;
  parameters.SetValue("max_steps", s.Size(1, 30));
  parameters.TrackOptimizationProgress();
  if (s.Chance(1, 3)) parameters.SetValue("bt_max_steps", s.Draw(8));
  if (s.Chance(1, 3)) parameters.SetValue("min_steps", s.Draw(8));
  if (s.Chance(1, 5)) parameters.SetValue("bt_beta", 0.3);
  if (s.Chance(1, 5)) parameters.SetValue("no_improvement_steps_to_terminate", s.Size(1, 10));
  if (s.Chance(1, 5)) parameters.DisableJIT();
  if (s.Describing()) {
    s.Note(p.Text() + "; " + std::to_string(which) + (minimize ? " minimize" : " maximize") + (jit ? " jit" : "") + " from " + Show(start));
  }
  using D = fncas::OptimizationDirection;
  bool moved;
  if (minimize) {
    moved = jit ? OptimizeWith<D::Minimize, fncas::JIT::X64NativeJIT>(s, which, f, start, parameters)
                : OptimizeWith<D::Minimize, fncas::JIT::Blueprint>(s, which, f, start, parameters);
  } else {
    moved = jit ? OptimizeWith<D::Maximize, fncas::JIT::X64NativeJIT>(s, which, f, start, parameters)
                : OptimizeWith<D::Maximize, fncas::JIT::Blueprint>(s, which, f, start, parameters);
  }
  if (moved) s.NonTrivial();
}

// The code generator by itself: any sequence of the instructions it can emit does what the names of the instructions say.
#ifdef FNCAS_X64_NATIVE_JIT_ENABLED
namespace {
std::vector<std::pair<size_t, double>> calls_made;
template <size_t I>
double Callee(double x) {
  calls_made.emplace_back(I, x);
  // What a function is free to spoil, this one does.
  asm volatile("xor %%rdi, %%rdi\n\txor %%rsi, %%rsi\n\txor %%rdx, %%rdx\n\txor %%rax, %%rax" : : : "rdi", "rsi", "rdx", "rax", "rcx", "r8", "r9");
  return x * 0.5 + I;
}
template <size_t... I>
std::vector<double (*)(double)> Callees(std::index_sequence<I...>) {
  return {Callee<I>...};
}
#define CHECKED(condition, tag, what) s.Check(condition, tag, [&] { std::ostringstream os; os << what; return os.str(); })
bool SameDouble(double a, double b) { return (std::isnan(a) && std::isnan(b)) || !memcmp(&a, &b, sizeof(a)); }
}  // namespace

PBT_PROP(instructions, o.weight = 6) {
  using namespace current::fncas::x64_native_jit;
  enum Register : size_t { RDI, RSI, RBX, RDX };
  enum Points : int { Nowhere, AtX, AtO, AtFunctions, TheCallersRBX };
  const size_t size = s.OneOf(std::vector<size_t>{4, 20, 300, 5000});
  std::vector<double> x(size), o(size);
  const auto number = [&] {
    return s.Weighted({4, 1}) ? s.OneOf(std::vector<double>{0.0, -0.0, 1e308, -1e308, 5e-324, 1e-310, HUGE_VAL, -HUGE_VAL, std::nan(""), 1.0}) : static_cast<double>(s.Int(-1000, 1000)) / 8;
  };
  for (size_t i = 0; i < 4; ++i) x[s.Draw(size - 1)] = number();
  for (size_t i = 0; i < 4; ++i) o[s.Draw(size - 1)] = number();
  const auto functions = Callees(std::make_index_sequence<31>());
  std::vector<double> model_x = x, model_o = o;
  std::vector<std::pair<size_t, double>> model_calls;
  double xmm0 = 0;
  std::vector<uint8_t> code;
  Points at[4] = {AtX, AtO, TheCallersRBX, AtFunctions};
  std::vector<Points> pushed;
  const auto memory = [&](size_t r) -> std::vector<double>* { return at[r] == AtX ? &model_x : at[r] == AtO ? &model_o : nullptr; };
  const auto push = [&](size_t r) {
    pushed.push_back(at[r]);
    switch (r) {
      case RDI: return opcodes::push_rdi(code);
      case RSI: return opcodes::push_rsi(code);
      case RBX: return opcodes::push_rbx(code);
      default: return opcodes::push_rdx(code);
    }
  };
  const auto pop = [&](size_t r) {
    at[r] = pushed.back();
    pushed.pop_back();
    switch (r) {
      case RDI: return opcodes::pop_rdi(code);
      case RSI: return opcodes::pop_rsi(code);
      case RBX: return opcodes::pop_rbx(code);
      default: return opcodes::pop_rdx(code);
    }
  };
  push(RBX);
  opcodes::load_from_memory_by_rdi_offset_to_xmm0(code, 0);
  xmm0 = model_x[0];
  const size_t n = s.OneOf(std::vector<size_t>{3, 10, 40, 700});
  size_t moved = 0;
  for (size_t i = 0; i < n; ++i) {
    const size_t offset = s.Draw(size - 1);
    const size_t what = s.Weighted({4, 6, 6, 4, 2, 2, 1, 2});
    const size_t r = s.Draw(2);  // One of `rdi`, `rsi`, `rbx`.
    std::vector<double>* const m = memory(r);
    ++moved;
    if (what == 0 && m) {
      const double v = number();
      if (r == RDI) opcodes::unsafe_load_immediate_to_memory_by_rdi_offset(code, offset, v);
      if (r == RSI) opcodes::load_immediate_to_memory_by_rsi_offset(code, offset, v);
      if (r == RBX) opcodes::load_immediate_to_memory_by_rbx_offset(code, offset, v);
      (*m)[offset] = v;
    } else if (what == 1 && m) {
      if (r == RDI) opcodes::load_from_memory_by_rdi_offset_to_xmm0(code, offset);
      if (r == RSI) opcodes::load_from_memory_by_rsi_offset_to_xmm0(code, offset);
      if (r == RBX) opcodes::load_from_memory_by_rbx_offset_to_xmm0(code, offset);
      xmm0 = (*m)[offset];
    } else if (what == 2 && m) {
      const size_t op = s.Draw(3);
      const double y = (*m)[offset];
      switch (op * 3 + r) {
        case 0: opcodes::add_from_memory_by_rdi_offset_to_xmm0(code, offset); break;
        case 1: opcodes::add_from_memory_by_rsi_offset_to_xmm0(code, offset); break;
        case 2: opcodes::add_from_memory_by_rbx_offset_to_xmm0(code, offset); break;
        case 3: opcodes::sub_from_memory_by_rdi_offset_to_xmm0(code, offset); break;
        case 4: opcodes::sub_from_memory_by_rsi_offset_to_xmm0(code, offset); break;
        case 5: opcodes::sub_from_memory_by_rbx_offset_to_xmm0(code, offset); break;
        case 6: opcodes::mul_from_memory_by_rdi_offset_to_xmm0(code, offset); break;
        case 7: opcodes::mul_from_memory_by_rsi_offset_to_xmm0(code, offset); break;
        case 8: opcodes::mul_from_memory_by_rbx_offset_to_xmm0(code, offset); break;
        case 9: opcodes::div_from_memory_by_rdi_offset_to_xmm0(code, offset); break;
        case 10: opcodes::div_from_memory_by_rsi_offset_to_xmm0(code, offset); break;
        case 11: opcodes::div_from_memory_by_rbx_offset_to_xmm0(code, offset); break;
      }
      volatile double a = xmm0, b = y;
      volatile double result = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
      xmm0 = result;
    } else if (what == 3 && r != RDI && m) {
      if (r == RSI) opcodes::store_xmm0_to_memory_by_rsi_offset(code, offset);
      if (r == RBX) opcodes::store_xmm0_to_memory_by_rbx_offset(code, offset);
      (*m)[offset] = xmm0;
    } else if (what == 4) {
      push(s.Draw(3));
    } else if (what == 5 && pushed.size() > 1) {
      pop(s.Draw(3));
    } else if (what == 6 && at[RSI] != Nowhere) {
      opcodes::mov_rsi_rbx(code);
      at[RBX] = at[RSI];
    } else if (what == 7 && at[RDX] == AtFunctions) {
      // The stack is aligned by an odd number of what is pushed.
      std::vector<size_t> saved;
      for (size_t k = 0; k < 2; ++k) saved.push_back(s.OneOf(std::vector<size_t>{RDI, RSI, RDX}));
      saved[0] = RDX;
      if (pushed.size() % 2 == 0) saved.push_back(s.OneOf(std::vector<size_t>{RDI, RSI}));
      for (const size_t k : saved) push(k);
      const size_t index = s.Draw(30);
      opcodes::call_function_from_rdx_pointers_array_by_index(code, static_cast<uint8_t>(index));
      at[RDI] = at[RSI] = at[RDX] = Nowhere;
      model_calls.emplace_back(index, xmm0);
      volatile double result = xmm0 * 0.5;
      result = result + static_cast<double>(index);
      xmm0 = result;
      for (size_t k = saved.size(); k--;) pop(saved[k]);
    } else {
      --moved;
    }
  }
  while (pushed.size() > 1) pop(s.OneOf(std::vector<size_t>{RDI, RSI, RDX}));
  pop(RBX);
  opcodes::ret(code);
  if (s.Describing()) {
    std::string bytes;
    for (size_t i = 0; i < std::min<size_t>(code.size(), 400); ++i) {
      char hex[4];
      snprintf(hex, sizeof(hex), "%02x", code[i]);
      bytes += hex;
    }
    s.Note(bytes);
  }
  if (s.Describing()) s.Note(std::to_string(moved) + " instructions, " + std::to_string(code.size()) + " bytes, over " + std::to_string(size) + " numbers");
  s.LabelIf(code.size() > 4096, "more than a page of code");
  s.LabelIf(!model_calls.empty(), "calls");
  const CallableVectorUInt8 callable(code);
  std::vector<double (*)(double)> f = functions;
  const std::vector<double> initial_x = x, initial_o = o;
  for (size_t round = 0; round < 2; ++round) {
    x = initial_x;
    o = initial_o;
    calls_made.clear();
    const double result = callable(&x[0], &o[0], &f[0]);
    CHECKED(SameDouble(result, xmm0), "value-of-code", "the code returned " << result << ", expected " << xmm0);
    for (size_t i = 0; i < size; ++i) {
      CHECKED(SameDouble(x[i], model_x[i]), "memory-of-code", "x[" << i << "] is " << x[i] << ", expected " << model_x[i]);
      CHECKED(SameDouble(o[i], model_o[i]), "memory-of-code", "o[" << i << "] is " << o[i] << ", expected " << model_o[i]);
    }
    CHECKED(calls_made.size() == model_calls.size(), "calls-of-code", calls_made.size() << " calls, expected " << model_calls.size());
    for (size_t i = 0; i < model_calls.size(); ++i) {
      CHECKED(calls_made[i].first == model_calls[i].first && SameDouble(calls_made[i].second, model_calls[i].second), "calls-of-code", "call " << i << " is of " << calls_made[i].first << " of " << calls_made[i].second);
    }
  }
  if (moved >= 4) s.NonTrivial();
}
#endif  // FNCAS_X64_NATIVE_JIT_ENABLED
