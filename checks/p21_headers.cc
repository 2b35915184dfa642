// P21: HTTP headers and cookies behave as a case-insensitive map.
#include "../lib/pbt.h"
#include "../lib/httpc.h"

#include <map>
#include <mutex>

#include "blocks/http/api.h"

PBT_CHECK("P21", "exploration",
          "a case is non-trivial if a header is set or read under two spellings of its name, or one is removed or overwritten while others are there, or a copy is made of a container which is then changed; "
          "over the wire, if at least two of the headers or cookies are sent; for the dates, if the date is not within a day of 1970");

namespace {

using current::net::http::Cookie;
using current::net::http::CookieIsNotYourRegularHeader;
using current::net::http::Header;
using current::net::http::HeaderNotFoundException;
using current::net::http::Headers;

std::string Canonical(const std::string& name) {
  std::string r;
  for (char c : name) r += c == '-' ? '_' : c >= 'A' && c <= 'Z' ? char(c + 32) : c;
  return r;
}

bool IsCookie(const std::string& name) {
  const std::string c = Canonical(name);
  return c == "cookie" || c == "set_cookie";
}

std::string Trim(const std::string& x) {
  size_t b = 0, e = x.size();
  while (b < e && isspace(static_cast<unsigned char>(x[b]))) ++b;
  while (e > b && isspace(static_cast<unsigned char>(x[e - 1]))) --e;
  return x.substr(b, e - b);
}

struct RefCookie {
  std::string value;
  std::map<std::string, std::string> params;
};

struct Model {
  std::vector<std::pair<std::string, std::string>> list;
  std::map<std::string, RefCookie> cookies;

  std::pair<std::string, std::string>* Find(const std::string& name) {
    for (auto& e : list) if (Canonical(e.first) == Canonical(name)) return &e;
    return nullptr;
  }
  void Set(const std::string& name, const std::string& value) {
    if (name.empty()) return;
    auto* p = Find(name);
    if (!p) {
      list.emplace_back(name, value);
    } else if (!value.empty()) {
      p->second += (p->second.empty() ? "" : ", ") + value;
    }
  }
  void Remove(const std::string& name) {
    for (size_t i = 0; i < list.size(); ++i) {
      if (Canonical(list[i].first) == Canonical(name)) {
        list.erase(list.begin() + i);
        return;
      }
    }
  }
  void CookieHeader(const std::string& value) {
    std::string piece;
    for (char c : value + ";") {
      if (c != ';') {
        piece += c;
        continue;
      }
      const size_t eq = piece.find('=');
      if (eq != std::string::npos && !Trim(piece.substr(0, eq)).empty()) {
        cookies.emplace(Trim(piece.substr(0, eq)), RefCookie{Trim(piece.substr(eq + 1)), {}});
      }
      piece.clear();
    }
  }
  void SetCookieHeader(const std::string& value) {
    std::vector<std::string> pieces(1);
    for (char c : value) {
      if (c == ';') pieces.emplace_back(); else pieces.back() += c;
    }
    const size_t eq = pieces[0].find('=');
    if (eq == std::string::npos || Trim(pieces[0].substr(0, eq)).empty()) return;
    RefCookie cookie{Trim(pieces[0].substr(eq + 1)), {}};
    for (size_t i = 1; i < pieces.size(); ++i) {
      const size_t e = pieces[i].find('=');
      const std::string name = Trim(pieces[i].substr(0, e));
      if (!name.empty()) cookie.params[name] = e == std::string::npos ? "" : Trim(pieces[i].substr(e + 1));
    }
    cookies.emplace(Trim(pieces[0].substr(0, eq)), cookie);
  }
};

std::string Respell(pbt::Src& s, const std::string& name) {
  std::string r;
  for (char c : name) {
    if (isalpha(static_cast<unsigned char>(c)) && s.Chance(1, 3)) c ^= 32;
    else if ((c == '-' || c == '_') && s.Chance(1, 3)) c = c == '-' ? '_' : '-';
    r += c;
  }
  return r;
}

std::string SomeName(pbt::Src& s) {
  switch (s.Weighted({12, 3, 1, 1, 1})) {
    case 0: return Respell(s, s.Pick({"a", "b", "A-b", "x-foo", "x-fo", "x-foo-bar", "Access-Control-Allow-Origin", "Content-Type", "Location"}));
    case 1: return s.FromN("aB-_zZ09", 1, 4);
    case 2: return Respell(s, s.Pick({"cookie", "set-cookie"}));
    case 3: return s.Pick({"", "cookie2", "set-cookies", "[", "`", "{", "@", "\xc3\xa9", "\xe9"});
    default: return s.Bytes(4);
  }
}

std::string SomeValue(pbt::Src& s) { return s.Chance(1, 5) ? std::string() : s.Chance(1, 2) ? s.From("abc,; =:\"", 6) : s.Bytes(6); }

std::string CookieText(pbt::Src& s) { return s.From("ab;;== \t\"", 12); }

void Compare(pbt::Src& s, Model& m, const Headers& h) {
  s.Eq(m.list.size(), h.size(), "size");
  s.Eq(m.list.empty(), h.empty(), "empty");
  size_t i = 0;
  for (const auto& e : h) {
    s.Check(i < m.list.size(), "iterated-past-the-end");
    s.Eq(m.list[i].first, e.header, "name");
    s.Eq(m.list[i].second, e.value, "value");
    ++i;
  }
  s.Eq(m.list.size(), i, "iterated");
  for (const auto& e : m.list) {
    s.Check(h.Has(e.first), "has");
    s.Eq(e.second, h.Get(e.first), "get");
    s.Eq(e.first, h[e.first].header, "lookup-name");
    s.Eq(e.second, h[e.first].value, "lookup-value");
  }
  std::map<std::string, std::string> as_map(m.list.begin(), m.list.end());
  s.Check(as_map == h.AsMap(), "as-map");
  s.Eq(m.cookies.size(), h.cookies.size(), "cookies");
  auto it = h.cookies.begin();
  std::string text;
  for (const auto& c : m.cookies) {
    s.Eq(c.first, it->first, "cookie-name");
    s.Eq(c.second.value, it->second.value, "cookie-value");
    s.Check(c.second.params == it->second.params, "cookie-params");
    text += (text.empty() ? "" : "; ") + c.first + "=" + c.second.value;
    ++it;
  }
  s.Eq(text, h.CookiesAsString(), "cookies-text");
}

template <typename F>
void Regular(pbt::Src& s, const std::string& name, const char* tag, F&& f) {
  bool thrown = false;
  try {
    f();
  } catch (const CookieIsNotYourRegularHeader&) {
    thrown = true;
  }
  s.Check(thrown == IsCookie(name), tag);
}

}  // namespace

PBT_PROP(history, o.weight = 10) {
  constexpr size_t kSlots = 3;
  std::unique_ptr<Headers> real[kSlots];
  Model model[kSlots];
  for (auto& r : real) r = std::make_unique<Headers>();
  bool respelled = false, overwritten = false, copied = false;
  uint64_t hash = 0;
  const size_t steps = 1 + s.Len(20);
  for (size_t i = 0; i < steps; ++i) {
    const size_t k = s.Draw(kSlots - 1);
    Headers& h = *real[k];
    Model& m = model[k];
    const auto op = s.Weighted({8, 3, 4, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2});
    hash = pbt::Mix(hash, op * kSlots + k);
    const auto note = [&](const std::string& text) {
      if (s.Describing()) s.Note("[" + std::to_string(k) + "] " + text);
    };
    switch (op) {
      case 0: {
        const std::string name = SomeName(s), value = SomeValue(s);
        note("set " + pbt::Esc(name) + " " + pbt::Esc(value));
        if (!IsCookie(name)) {
          auto* p = m.Find(name);
          if (p && p->first != name) respelled = true;
          m.Set(name, value);
        }
        const auto how = s.Draw(3);
        Regular(s, name, "set-cookie-as-header", [&] {
          if (how == 0) s.Check(&h.Set(name, value) == &h, "set-returns-self");
          else if (how == 1) h.emplace_back(name, value);
          else if (how == 2) h.push_back(std::make_pair(name, value));
          else h.Set(name, value);
        });
        break;
      }
      case 1: {
        const std::string name = SomeName(s), value = SomeValue(s);
        note("assign " + pbt::Esc(name) + " " + pbt::Esc(value));
        if (!IsCookie(name)) {
          if (auto* p = m.Find(name)) p->second = value, overwritten = true;
          else m.list.emplace_back(name, value);
        }
        Regular(s, name, "assign-cookie-as-header", [&] {
          Header& e = h[name];
          e = value;
        });
        break;
      }
      case 2: {
        const std::string name = SomeName(s);
        note("remove " + pbt::Esc(name));
        if (!IsCookie(name)) {
          if (auto* p = m.Find(name)) {
            if (p->first != name) respelled = true;
            if (m.list.size() > 1) overwritten = true;
          }
          m.Remove(name);
        }
        Regular(s, name, "remove-cookie-as-header", [&] { h.Remove(name); });
        break;
      }
      case 3: {
        const std::string name = SomeName(s);
        const Headers& c = h;
        note("get " + pbt::Esc(name));
        auto* p = IsCookie(name) ? nullptr : m.Find(name);
        if (p && p->first != name) respelled = true;
        Regular(s, name, "has-cookie-as-header", [&] { s.Eq(p != nullptr, c.Has(name), "has"); });
        Regular(s, name, "default-cookie-as-header", [&] { s.Eq(p ? p->second : "none", c.GetOrDefault(name, "none"), "get-or-default"); });
        Regular(s, name, "get-cookie-as-header", [&] {
          bool found = true;
          try {
            const std::string value = c.Get(name);
            s.Check(p != nullptr, "got-missing");
            s.Eq(p->second, value, "get");
          } catch (const HeaderNotFoundException&) {
            found = false;
          }
          s.Eq(p != nullptr, found, "get-missing");
        });
        Regular(s, name, "lookup-cookie-as-header", [&] {
          bool found = true;
          try {
            const Header& e = c[name];
            s.Check(p != nullptr, "looked-up-missing");
            s.Eq(p->first, e.header, "lookup-name");
            s.Eq(p->second, e.value, "lookup-value");
          } catch (const HeaderNotFoundException&) {
            found = false;
          }
          s.Eq(p != nullptr, found, "lookup-missing");
        });
        break;
      }
      case 4: {
        const size_t j = s.Draw(kSlots - 1);
        note("= copy of " + std::to_string(j));
        if (!model[j].list.empty()) copied = true;
        const Headers& from = *real[j];
        h = from;
        m = Model(model[j]);
        break;
      }
      case 5: {
        const size_t j = s.Draw(kSlots - 1);
        note("copy constructed from " + std::to_string(j));
        if (!model[j].list.empty()) copied = true;
        auto copy = std::make_unique<Headers>(*real[j]);
        Model copy_of_model = model[j];
        real[k] = std::move(copy);
        model[k] = copy_of_model;
        break;
      }
      case 6: {
        const size_t j = s.Draw(kSlots - 1);
        if (j == k) break;
        note("moved from " + std::to_string(j));
        if (s.Bool()) h = std::move(*real[j]);
        else real[k] = std::make_unique<Headers>(std::move(*real[j]));
        real[j] = std::make_unique<Headers>();
        m = model[j];
        model[j] = Model();
        break;
      }
      case 7: {
        const std::string name = s.FromN("abc", 1, 1), value = s.Ascii(4);
        note("cookie " + name + " " + pbt::Esc(value));
        h.SetCookie(name, value);
        m.cookies[name].value = value;
        break;
      }
      case 8: {
        const std::string name = s.FromN("abc", 1, 1), value = s.Ascii(4);
        std::map<std::string, std::string> params;
        for (size_t n = s.Len(2); n; --n) params[s.FromN("pq", 1, 1)] = s.Ascii(3);
        note("cookie with parameters " + name + " " + pbt::Esc(value));
        if (s.Bool()) {
          h.SetCookie(name, value, params);
        } else {
          Cookie cookie(value);
          for (const auto& p : params) cookie[p.first] = p.second;
          h.SetCookie(name, cookie);
        }
        m.cookies[name] = RefCookie{value, params};
        break;
      }
      case 9: {
        const std::string text = CookieText(s), name = Respell(s, "Cookie");
        note(name + ": " + pbt::Esc(text));
        h.SetHeaderOrCookie(name, text);
        m.CookieHeader(text);
        break;
      }
      case 10: {
        const std::string text = CookieText(s), name = Respell(s, "Set-Cookie");
        note(name + ": " + pbt::Esc(text));
        h.SetHeaderOrCookie(name, text);
        m.SetCookieHeader(text);
        break;
      }
      case 11: {
        const std::string name = SomeName(s), value = SomeValue(s);
        if (IsCookie(name)) break;
        note("header " + pbt::Esc(name) + ": " + pbt::Esc(value));
        h.SetHeaderOrCookie(name, value);
        m.Set(name, value);
        break;
      }
      case 12: {
        note("CORS");
        const char* kName = "Access-Control-Allow-Origin";
        if (s.Bool()) h.SetCORSHeader(), m.Set(kName, "*");
        else h.RemoveCORSHeader(), m.Remove(kName);
        break;
      }
      case 13: {
        std::vector<std::pair<std::string, std::string>> v;
        for (size_t n = 0; n < 3; ++n) {
          std::string name = SomeName(s);
          if (IsCookie(name)) name = "x";
          v.emplace_back(name, SomeValue(s));
        }
        note("initializer list");
        real[k] = std::make_unique<Headers>(Headers({v[0], v[1], v[2]}));
        m = Model();
        for (const auto& e : v) m.Set(e.first, e.second);
        break;
      }
      default: {
        // The reference obtained remains valid as other headers come and go, as the copy constructor of the container promises to preserve it.
        const std::string name = SomeName(s), other = SomeName(s), value = SomeValue(s);
        if (IsCookie(name) || IsCookie(other) || Canonical(name) == Canonical(other)) break;
        note("keep " + pbt::Esc(name) + ", add and remove " + pbt::Esc(other));
        Header& e = h[name];
        if (auto* p = m.Find(name)) p->second = value; else m.list.emplace_back(name, value);
        if (s.Bool()) h.Set(other, "x"), m.Set(other, "x");
        else h.Remove(other), m.Remove(other);
        e = value;
        break;
      }
    }
    for (size_t j = 0; j < kSlots; ++j) Compare(s, model[j], *real[j]);
  }
  if (respelled || overwritten || copied) s.NonTrivial(hash);
  s.LabelIf(respelled, "respelled");
  s.LabelIf(overwritten, "overwritten or removed");
  s.LabelIf(copied, "copied");
}

// The names are ordered consistently: the comparator has to be a strict weak order, with the spellings equivalent.
PBT_PROP(names_are_ordered, o.weight = 3) {
  Header::KeyComparator less;
  const auto some = [&] { return s.Chance(1, 2) ? SomeName(s) : s.Bytes(3); };
  const std::string a = some(), b = s.Bool() ? Respell(s, a) : some(), c = some();
  s.Eq(Canonical(a) == Canonical(b), !less(a, b) && !less(b, a), "equivalence");
  s.Check(!less(a, a), "irreflexive");
  s.Check(!(less(a, b) && less(b, a)), "asymmetric");
  if (less(a, b) && less(b, c)) s.Check(less(a, c), "transitive");
  s.Eq(less(a, c), less(Respell(s, a), Respell(s, c)), "respelled");
  s.Eq(IsCookie(a), Header::IsCookieHeader(a), "is-cookie");
  if (a != b && Canonical(a) == Canonical(b)) s.NonTrivial(pbt::Hash(a + "|" + b));
}

namespace {

std::mutex exchange_mutex;
Headers* reply = nullptr;
Headers* received = nullptr;

int Port() {
  static int port = 0;
  static HTTPRoutesScope* scope = nullptr;
  if (!port) {
    auto reserved = current::net::ReserveLocalPort();
    port = reserved;
    auto& server = HTTP(std::move(reserved));
    scope = new HTTPRoutesScope(server.Register("/x", [](Request r) {
      std::lock_guard<std::mutex> lock(exchange_mutex);
      *received = r.headers;
      r("ok", HTTPResponseCode.OK, *reply);
    }));
  }
  return port;
}

std::string WireValue(pbt::Src& s) {
  std::string r = Trim(s.Chance(1, 2) ? s.From("abc,:;=\"/ \t", 8) : s.Utf8(5));
  std::string t;
  for (char c : r) if (static_cast<unsigned char>(c) >= 32 || c == '\t') t += c;
  return Trim(t);
}

std::string WireCookieValue(pbt::Src& s) {
  std::string t;
  for (char c : WireValue(s)) if (c != ';') t += c;
  return Trim(t);
}

}  // namespace

PBT_PROP(over_the_wire, o.weight = 1; o.hang_s = 30; o.hang_is_violation = true) {
  Headers to_send, got;
  Model sent, replied;
  const int port = Port();
  auto request = GET("http://localhost:" + std::to_string(port) + "/x");
  for (size_t i = s.Len(4); i; --i) {
    const std::string name = "X-" + s.FromN("abAB-_", 1, 3), value = WireValue(s);
    request.SetHeader(name, value);
    sent.Set(name, value);
  }
  for (size_t i = s.Len(3); i; --i) {
    const std::string name = s.FromN("abcABC", 1, 2), value = WireCookieValue(s);
    request.SetCookie(name, value);
    sent.cookies[name].value = value;
  }
  for (size_t i = s.Len(4); i; --i) {
    const std::string name = "X-" + s.FromN("abAB-_", 1, 3), value = WireValue(s);
    to_send.Set(name, value);
    replied.Set(name, value);
  }
  for (size_t i = s.Len(3); i; --i) {
    const std::string name = s.FromN("abcABC", 1, 2), value = WireCookieValue(s);
    RefCookie cookie{value, {}};
    for (size_t n = s.Len(2); n; --n) cookie.params[s.Pick({"Path", "Domain", "HttpOnly", "Max-Age"})] = WireCookieValue(s);
    to_send.SetCookie(name, value, cookie.params);
    replied.cookies[name] = cookie;
  }
  {
    std::lock_guard<std::mutex> lock(exchange_mutex);
    reply = &to_send;
    received = &got;
  }
  const auto response = HTTP(request);
  s.Eq(200, int(response.code), "code");
  {
    std::lock_guard<std::mutex> lock(exchange_mutex);
    // The client and the server add the headers of their own, which are not of the form `X-*`.
    const auto check = [&](Model& m, const Headers& h, const char* what) {
      Headers own;
      for (const auto& e : h) if (e.header.substr(0, 2) == "X-") own.Set(e.header, e.value);
      own.cookies = h.cookies;
      if (s.Describing()) s.Note(what);
      Compare(s, m, own);
    };
    check(sent, got, "request");
    check(replied, response.headers, "reply");
  }
  if (sent.list.size() + sent.cookies.size() >= 2 || replied.list.size() + replied.cookies.size() >= 2) {
    uint64_t h = 0;
    for (const auto& e : sent.list) h = pbt::Mix(h, pbt::Hash(e.second));
    for (const auto& e : replied.list) h = pbt::Mix(h, pbt::Hash(e.second));
    s.NonTrivial(h);
  }
}

// The dates of the conditional requests, in both formats the standard requires of a recipient.
PBT_PROP(http_dates, o.weight = 2) {
  const char* kDay[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
  const char* kMonth[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  const bool rfc850 = s.Bool();
  // The two-digit years span 1969 .. 2068 in POSIX.
  const int64_t day = s.Chance(1, 4) ? s.Int(0, 800) : s.Int(0, rfc850 ? 36159 : 2932896);
  const int64_t second = s.Chance(1, 4) ? int64_t(s.Draw(1)) * 86399 : s.Int(0, 86399);
  // Civil from days.
  const int64_t z = day + 719468, era = z / 146097, doe = z - era * 146097;
  const int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const int64_t mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, mo = mp < 10 ? mp + 3 : mp - 9;
  const int64_t y = yoe + era * 400 + (mo <= 2);
  const int w = int((day + 4) % 7);
  char buf[100];
  if (rfc850) {
    snprintf(buf, sizeof(buf), "%s, %02d-%s-%02d %02d:%02d:%02d GMT", kDay[w], int(d), kMonth[mo - 1], int(y % 100), int(second / 3600), int(second / 60 % 60), int(second % 60));
  } else {
    snprintf(buf, sizeof(buf), "%.3s, %02d %s %04d %02d:%02d:%02d GMT", kDay[w], int(d), kMonth[mo - 1], int(y), int(second / 3600), int(second / 60 % 60), int(second % 60));
  }
  if (s.Describing()) s.Note(buf);
  const int64_t expected = (day * 86400 + second) * 1000000;
  if (!expected) return;
  s.Eq(expected + 999999, int64_t(current::net::http::ParseHTTPDate(buf).count()), "date");
  s.Eq(expected, int64_t(current::net::http::ParseHTTPDate(buf, current::time::SecondsToMicrosecondsPadding::Lower).count()), "date-lower");
  // Half of a date is not a date.
  const std::string cut = std::string(buf).substr(0, s.Draw(20));
  bool refused = false;
  try {
    current::net::http::ParseHTTPDate(cut);
  } catch (const current::net::http::InvalidHTTPDateException&) {
    refused = true;
  }
  s.Check(refused, "half-of-date");
  if (day > 1) s.NonTrivial(uint64_t(expected) + rfc850);
}
