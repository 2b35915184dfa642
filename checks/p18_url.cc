// P18: URLs decompose and recompose without loss.
#include "../lib/pbt.h"

#include <map>

#include "blocks/url/url.h"

PBT_CHECK("P18", "exploration",
          "a case is non-trivial if the URL has at least three of: a scheme, credentials, a port, a path of two or more components, parameters, a fragment; "
          "or, for the parameters, at least two of them with a byte that has to be encoded; or an encoded text with an escape, valid or not");

namespace {

using current::url::URL;

CURRENT_STRUCT(Inner) {
  CURRENT_FIELD(a, int32_t, 0);
  CURRENT_FIELD(b, std::string);
};
CURRENT_STRUCT(Base) { CURRENT_FIELD(base, std::string, "unset"); };
CURRENT_STRUCT(Filled, Base) {
  CURRENT_FIELD(i, int16_t, -1);
  CURRENT_FIELD(s, std::string, "unset");
  CURRENT_FIELD(flag, bool, false);
  CURRENT_FIELD(v, std::vector<std::string>);
  CURRENT_FIELD(o, Optional<std::string>);
  CURRENT_FIELD(oi, Optional<int32_t>);
  CURRENT_FIELD(inner, Inner);
};

bool Hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int HexValue(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

std::string RefDecode(const std::string& e) {
  std::string r;
  for (size_t i = 0; i < e.size(); ++i) {
    if (e[i] == '+') {
      r += ' ';
    } else if (e[i] == '%' && i + 2 < e.size() && Hex(e[i + 1]) && Hex(e[i + 2])) {
      r += char(HexValue(e[i + 1]) * 16 + HexValue(e[i + 2]));
      i += 2;
    } else {
      r += e[i];
    }
  }
  return r;
}

// An encoder with the freedom the standards allow: any byte may be escaped, in either case of the digits.
std::string AnyEncode(pbt::Src& s, const std::string& d) {
  std::string r;
  for (unsigned char c : d) {
    const bool safe = isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~';
    const size_t how = safe ? s.Weighted({6, 1, 1}) : c == ' ' ? s.Draw(2) : 1 + s.Draw(1);
    if (how == 0) {
      r += c == ' ' ? '+' : char(c);
    } else {
      char buf[8];
      snprintf(buf, sizeof(buf), how == 1 ? "%%%02X" : "%%%02x", c);
      r += buf;
    }
  }
  return r;
}

std::string AnyBytes(pbt::Src& s) {
  switch (s.Weighted({3, 3, 2})) {
    case 0: return s.Utf8(8);
    case 1: return s.Bytes(8);
    default: return s.From("&=?#%+ /:;@a0%2F\xff\x80", 8);
  }
}

bool Special(const std::string& x) {
  for (unsigned char c : x) {
    if (!isalnum(c)) return true;
  }
  return false;
}

std::string Show(const std::vector<std::pair<std::string, std::string>>& v) {
  std::string r;
  for (const auto& p : v) r += "[" + pbt::Esc(p.first) + "=" + pbt::Esc(p.second) + "]";
  return r;
}

std::map<std::string, std::string> FirstWins(const std::vector<std::pair<std::string, std::string>>& v) {
  std::map<std::string, std::string> r;
  for (const auto& p : v) r.insert(p);
  return r;
}

std::string ShowMap(const std::map<std::string, std::string>& m) {
  return Show(std::vector<std::pair<std::string, std::string>>(m.begin(), m.end()));
}

struct Parts {
  std::string scheme, user, pass, host, path = "/", fragment;
  int port = 0;
  std::vector<std::pair<std::string, std::string>> params;
};

std::string Show(const Parts& p) {
  return "scheme=" + pbt::Esc(p.scheme) + " user=" + pbt::Esc(p.user) + " pass=" + pbt::Esc(p.pass) + " host=" + pbt::Esc(p.host) +
         " port=" + std::to_string(p.port) + " path=" + pbt::Esc(p.path) + " params=" + Show(p.params) + " fragment=" + pbt::Esc(p.fragment);
}
Parts Of(const URL& u) {
  Parts p;
  p.scheme = u.scheme;
  p.user = u.username;
  p.pass = u.password;
  p.host = u.host;
  p.port = u.port;
  p.path = u.path;
  p.params = u.parameters_vector;
  p.fragment = u.fragment;
  return p;
}

struct Generated {
  Parts p;
  std::string text;
  int features = 0;
};

Generated Gen(pbt::Src& s, bool relative_ok) {
  static const std::string kHost = "abcXYZ019-._";
  static const std::string kUser = "abcXYZ019-._~!$*,;";
  static const std::string kPath = "abcXYZ019-._~!$*,;=:@%+()'";
  Generated g;
  Parts& p = g.p;
  const bool has_scheme = s.Chance(3, 5);
  const bool protocol_relative = !has_scheme && s.Chance(1, 4);
  const bool has_host = !relative_ok || s.Chance(3, 4);
  if (has_scheme) {
    p.scheme = s.Chance(1, 2) ? s.Pick({"http", "https", "ftp", "meh"}) : "x" + s.From("abz09+-.", 4);
    g.text = p.scheme + "://";
    ++g.features;
  } else if (protocol_relative) {
    g.text = "//";
  }
  if (has_host) {
    if (s.Chance(1, 3)) {
      p.user = "u" + s.From(kUser, 5);
      g.text += p.user;
      if (s.Bool()) {
        p.pass = s.From(kUser + ":", 5) + "p";
        g.text += ":" + p.pass;
      }
      g.text += "@";
      ++g.features;
    }
    p.host = "h" + s.From(kHost, 8);
    g.text += p.host;
  }
  if (s.Chance(1, 2) && (has_host || relative_ok)) {
    p.port = s.Chance(1, 2) ? int(s.Pick({"80", "443"}) == "80" ? 80 : 443) : int(s.Int(1, 65535));
    g.text += ":" + std::to_string(p.port);
    ++g.features;
  }
  std::string path;
  size_t components = s.Len(4);
  // A URL which is nothing but a path has to have one, and its path can not begin with two slashes.
  const bool bare = g.text.empty();
  if (components == 0 && bare) components = 1;
  for (size_t i = 0; i < components; ++i) path += "/" + (bare && i == 0 ? "c" : std::string()) + s.From(kPath, 5);
  if (s.Bool() && components) path += "/";
  // `://` past a host which is not preceded by a scheme makes that host a scheme.
  if (!bare && !has_scheme && !protocol_relative && path.find("://") != std::string::npos) path = "/c";
  if (components >= 2) ++g.features;
  g.text += path;
  p.path = path.empty() ? "/" : path;
  const size_t n = s.Chance(1, 2) ? s.Len(4) : 0;
  if (n || s.Chance(1, 8)) g.text += "?";
  for (size_t i = 0; i < n; ++i) {
    const std::string name = AnyBytes(s), value = AnyBytes(s);
    const std::string en = AnyEncode(s, name), ev = AnyEncode(s, value);
    std::string chunk;
    if (value.empty() && !name.empty() && s.Bool()) {
      chunk = en;
    } else {
      chunk = en + "=" + ev;
    }
    g.text += (i ? "&" : "") + std::string(s.Chance(1, 10) ? "&" : "") + chunk;
    p.params.emplace_back(name, value);
  }
  if (n) ++g.features;
  if (s.Chance(1, 3)) {
    p.fragment = s.From("abc?/&=#%41+:@", 6);
    g.text += "#" + p.fragment;
    ++g.features;
  }
  return g;
}

// What a URL means with everything omitted filled in.
Parts Defaults(Parts p) {
  if (p.scheme.empty()) p.scheme = p.port == 443 ? "https" : "http";
  if (p.host.empty()) p.host = "localhost";
  if (p.port == 0) p.port = p.scheme == "http" ? 80 : p.scheme == "https" ? 443 : 0;
  return p;
}

void Garbage(pbt::Src& s, const std::string& text) {
  if (s.Describing()) s.Note("text: " + pbt::Esc(text));
  URL u;
  try {
    u = URL(text);
  } catch (const current::url::EmptyURLException&) {
    const size_t end = text.find_first_of("?#");
    s.Check(text.empty() || end == 0, "only-an-empty-url-is-refused");
    return;
  }
  const size_t pound = text.find('#');
  s.Eq(pbt::Esc(pound == std::string::npos ? "" : text.substr(pound + 1)), pbt::Esc(u.fragment), "fragment");
  const std::string rest = text.substr(0, pound);
  const size_t q = rest.find('?');
  std::vector<std::pair<std::string, std::string>> params;
  if (q != std::string::npos) {
    size_t i = q + 1;
    while (i <= rest.size()) {
      size_t j = rest.find('&', i);
      if (j == std::string::npos) j = rest.size();
      const std::string chunk = rest.substr(i, j - i);
      if (!chunk.empty()) {
        const size_t e = chunk.find('=');
        params.emplace_back(RefDecode(chunk.substr(0, e)), e == std::string::npos ? "" : RefDecode(chunk.substr(e + 1)));
      }
      i = j + 1;
    }
  }
  s.Eq(Show(params), Show(u.parameters_vector), "parameters");
  s.Eq(ShowMap(FirstWins(params)), ShowMap(u.AllQueryParameters()), "parameters-by-name");
  for (const auto& p : FirstWins(params)) {
    s.Check(u.query.has(p.first), "has");
    s.Eq(pbt::Esc(p.second), pbt::Esc(u.query[p.first]), "by-name");
    s.Eq(pbt::Esc(p.second), pbt::Esc(u.query.get(p.first, "x")), "get");
  }
  s.Check(!u.path.empty() && u.path[0] == '/', "path-begins-with-a-slash");
  if (!u.host.empty() && u.host.find_first_of("@:") == std::string::npos) {
    const std::string c = u.ComposeURL();
    if (s.Describing()) s.Note("composed: " + pbt::Esc(c));
    s.Eq(pbt::Esc(c), pbt::Esc(URL(c).ComposeURL()), "composing-is-stable");
  }
  static_cast<void>(URL::MakeURLWithDefaults(u).ComposeURL());
  if (params.size() >= 2 || u.port || !u.username.empty()) s.NonTrivial();
}

}  // namespace

// A URL made of known parts is split into exactly these parts, and composing them gives an equivalent URL.
PBT_PROP(split_and_compose, o.weight = 3) {
  const Generated g = Gen(s, true);
  if (s.Describing()) s.Note("url: " + pbt::Esc(g.text) + "\nof " + Show(g.p));
  if (g.text.empty() || g.text[0] == '?' || g.text[0] == '#') return s.Discard();
  const URL u(g.text);
  s.Eq(Show(g.p), Show(Of(u)), "parts");
  s.Eq(ShowMap(FirstWins(g.p.params)), ShowMap(u.AllQueryParameters()), "parameters-by-name");
  const std::string composed = u.ComposeURL();
  if (s.Describing()) s.Note("composed: " + pbt::Esc(composed));
  // A path which begins with two slashes can not be told from a host, and the port is not composed without the host.
  if (!g.p.host.empty()) {
    s.Eq(Show(Defaults(g.p)), Show(Defaults(Of(URL(composed)))), "composed-is-equivalent");
  } else if (g.p.path.substr(0, 2) != "//" && g.p.path.find("://") == std::string::npos) {
    const URL again(composed);
    s.Eq(Show(g.p.params), Show(again.parameters_vector), "composed-parameters");
    s.Eq(pbt::Esc(g.p.path), pbt::Esc(again.path), "composed-path");
    s.Eq(pbt::Esc(g.p.fragment), pbt::Esc(again.fragment), "composed-fragment");
  }
  s.Eq(Show(Defaults(g.p)), Show(Of(URL::MakeURLWithDefaults(u))), "defaults");
  if (g.features >= 3) s.NonTrivial();
}

// Resolving against a previous URL keeps what is omitted.
PBT_PROP(redirect) {
  const Generated from = Gen(s, true), to = Gen(s, true);
  if (s.Describing()) s.Note("from: " + pbt::Esc(from.text) + "\nto:   " + pbt::Esc(to.text));
  for (const auto* g : {&from, &to}) {
    if (g->text.empty() || g->text[0] == '?' || g->text[0] == '#') return s.Discard();
  }
  Parts e = to.p;
  if (e.scheme.empty()) e.scheme = from.p.scheme;
  if (e.host.empty()) {
    e.host = from.p.host;
    if (e.port == 0) e.port = from.p.port;
  }
  e = Defaults(e);
  s.Eq(Show(e), Show(Of(URL::MakeRedirectedURL(URL(from.text), to.text))), "redirected");
  if (from.features + to.features >= 5) s.NonTrivial();
}

// Parameters of arbitrary bytes survive encoding and decoding.
PBT_PROP(parameters, o.weight = 2) {
  std::vector<std::pair<std::string, std::string>> params;
  const size_t n = s.Len(6);
  size_t special = 0;
  for (size_t i = 0; i < n; ++i) {
    if (i && s.Chance(1, 4)) {
      params.emplace_back(params[s.Draw(i - 1)].first, AnyBytes(s));
    } else {
      const std::string name = AnyBytes(s);
      params.emplace_back(name, AnyBytes(s));
    }
    special += Special(params.back().first + params.back().second);
  }
  if (s.Describing()) s.Note("parameters: " + Show(params));
  URL u("http://host/path");
  u.parameters_vector = params;
  const std::string text = u.ComposeURL();
  if (s.Describing()) s.Note("composed: " + pbt::Esc(text));
  for (unsigned char c : text) s.Check(c > 32 && c < 127, "composed-is-printable-ascii");
  const URL v(text);
  s.Eq(Show(params), Show(v.parameters_vector), "round-trip");
  s.Eq(ShowMap(FirstWins(params)), ShowMap(URL::ParseQueryString(u.ComposeParameters().empty() ? "" : u.ComposeParameters().substr(1))), "query-string");
  // And the form-encoded bodies of others, which encode in other ways.
  std::string body;
  for (const auto& p : params) {
    const std::string en = AnyEncode(s, p.first);
    body += (body.empty() ? "" : "&") + en + "=" + AnyEncode(s, p.second);
  }
  s.Eq(ShowMap(FirstWins(params)), ShowMap(URL::ParseQueryString(body)), "form-encoded");
  for (const auto& p : params) {
    for (const auto& x : {p.first, p.second}) s.Eq(pbt::Esc(x), pbt::Esc(URL::DecodeURIComponent(URL::EncodeURIComponent(x))), "component");
  }
  if (special >= 2) s.NonTrivial();
}

PBT_PROP(decode) {
  std::string e;
  const size_t n = s.Len(8);
  for (size_t i = 0; i < n; ++i) {
    switch (s.Weighted({2, 2, 2, 1})) {
      case 0: e += s.From("abcAF09gG%+", 3); break;
      case 1: e += "%" + s.FromN("0123456789abcdefABCDEFgG%+- x", 2, 2); break;
      case 2: e += s.Bytes(3); break;
      default: e += "%";
    }
  }
  if (s.Describing()) s.Note("encoded: " + pbt::Esc(e));
  // An exact copy on the heap, for reads beyond the end to be seen.
  const std::string exact(e.data(), e.size());
  s.Eq(pbt::Esc(RefDecode(e)), pbt::Esc(URL::DecodeURIComponent(exact)), "decoded");
  if (e.find('%') != std::string::npos) s.NonTrivial();
}

PBT_PROP(garbage, o.weight = 2) {
  std::string t;
  const size_t n = s.Len(10);
  for (size_t i = 0; i < n; ++i) {
    switch (s.Weighted({4, 2, 1})) {
      case 0: t += s.Pick({"/", "//", ":", "@", "?", "&", "=", "#", "%", "://", "http", "80", "+", "a"}); break;
      case 1: t += s.From("abz09-.:/", 4); break;
      default: t += s.Bytes(3);
    }
  }
  Garbage(s, t);
}

PBT_PROP(mutated) {
  std::string t = Gen(s, true).text;
  const size_t n = 1 + s.Len(3);
  for (size_t i = 0; i < n && !t.empty(); ++i) {
    const size_t at = s.Draw(t.size() - 1);
    switch (s.Draw(2)) {
      case 0: t.erase(at, 1 + s.Draw(2)); break;
      case 1: t.insert(at, s.Pick({"/", "//", ":", "@", "?", "&", "=", "#", "%", "%4"})); break;
      default: t[at] = s.Bytes(1).empty() ? 'x' : char(s.Draw(255)); break;
    }
  }
  Garbage(s, t);
}

// Filling an object from the parameters: what is there is taken, what is not is left as it is, or refused if strict.
PBT_PROP(fill_object) {
  Filled e;
  const bool strict = s.Bool();
  std::vector<std::pair<std::string, std::string>> params;
  bool error = false, missing = false;
  auto Has = [&](bool required) {
    const bool r = s.Chance(4, 5);
    if (!r && required) missing = true;
    return r;
  };
  if (Has(true)) params.emplace_back("base", e.base = AnyBytes(s));
  if (Has(true)) {
    const int64_t x = s.Chance(3, 4) ? s.Int(-32768, 32767) : s.I64();
    params.emplace_back("i", std::to_string(x));
    if (x >= -32768 && x <= 32767) {
      e.i = int16_t(x);
    } else {
      error = true;
    }
  }
  if (Has(true)) params.emplace_back("s", e.s = AnyBytes(s));
  if (Has(false)) {
    const std::string v = s.Pick({"", "true", "false"});
    params.emplace_back("flag", v);
    e.flag = v != "false";
  }
  if (Has(true)) {
    const size_t n = s.Len(3);
    for (size_t i = 0; i < n; ++i) e.v.push_back(s.Utf8(4));
    params.emplace_back("v", JSON(e.v));
  }
  if (Has(false)) {
    e.o = AnyBytes(s);
    params.emplace_back("o", Value(e.o));
  }
  if (Has(false)) {
    const bool bad = s.Chance(1, 8);
    e.oi = int32_t(s.Int(-1000, 1000));
    params.emplace_back("oi", bad ? s.Pick({"", "x", "1.5", "\"1\"", "[1]"}) : std::to_string(Value(e.oi)));
    if (bad) error = true;
  }
  if (Has(true)) {
    e.inner.a = int32_t(s.I64());
    e.inner.b = s.Utf8(4);
    params.emplace_back("inner", JSON(e.inner));
  }
  if (s.Chance(1, 3)) params.emplace_back("unknown", AnyBytes(s));
  for (size_t i = params.size(); i > 1; --i) std::swap(params[i - 1], params[s.Draw(i - 1)]);
  URL u("/p");
  u.parameters_vector = params;
  const URL v(u.ComposeURL());
  if (s.Describing()) s.Note(std::string(strict ? "strict " : "forgiving ") + Show(params));
  bool threw = false;
  Filled got;
  try {
    if (strict) {
      v.query.FillObject<Filled, current::url::FillObjectMode::Strict>(got);
    } else {
      v.query.FillObject(got);
    }
  } catch (const current::url::URLParseObjectAsURLParameterException&) {
    threw = true;
  }
  s.Check(threw == (error || (strict && missing)), "refused-if-and-only-if-it-should-be");
  if (!threw) {
    auto Str = [](const Filled& f) {
      return "base=" + pbt::Esc(f.base) + " i=" + std::to_string(f.i) + " s=" + pbt::Esc(f.s) + " flag=" + std::to_string(f.flag) + " v=" + JSON(f.v) +
             " o=" + (Exists(f.o) ? pbt::Esc(Value(f.o)) : "none") + " oi=" + (Exists(f.oi) ? std::to_string(Value(f.oi)) : "none") + " inner=" + JSON(f.inner);
    };
    s.Eq(Str(e), Str(got), "filled");
  }
  if (params.size() >= 4) s.NonTrivial();
}
