// P19: HTTP messages mean the same however the bytes arrive.
#include "../lib/pbt.h"
#include "../lib/httpc.h"

#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>

#include "blocks/http/api.h"

PBT_CHECK("P19", "exploration",
          "a case is non-trivial if the message has a body (or chunks) and arrives in at least three pieces, or is cut short, or is corrupted; "
          "for the replies over the loopback: a body together with custom headers or cookies, or at least two chunks, or a redirect followed");

namespace {

using current::net::Connection;
using current::net::GenericHTTPRequestData;
using current::net::HTTPRequestData;
using current::net::IPAndPort;
using current::net::SocketHandle;

// What `recv()` and `send()` do for one descriptor: the bytes come as scripted.
struct Script {
  int fd = -1;
  std::string bytes;
  std::vector<size_t> cuts;        // Ascending offsets at which a read stops.
  std::set<size_t> interruptions;  // Offsets at which one read is interrupted by a signal.
  bool signals = false;            // Even a read of exactly so many bytes may stop at a cut.
  int stale_errno = 0;
  bool reset_at_end = false;
  bool write_fails = false;
  size_t at = 0;
  size_t reads = 0;
  std::string sent;
};
thread_local Script* script = nullptr;

}  // namespace

extern "C" {
ssize_t __real_recv(int fd, void* buffer, size_t n, int flags);
ssize_t __real_send(int fd, const void* buffer, size_t n, int flags);
ssize_t __wrap_recv(int fd, void* buffer, size_t n, int flags) {
  if (!script || script->fd != fd) {
    return __real_recv(fd, buffer, n, flags);
  }
  Script& s = *script;
  ++s.reads;
  if (s.at == s.bytes.size()) {
    if (s.reset_at_end) {
      errno = ECONNRESET;
      return -1;
    }
    errno = s.stale_errno;
    return 0;
  }
  if (s.interruptions.count(s.at)) {
    s.interruptions.erase(s.at);
    errno = EINTR;
    return -1;
  }
  size_t end = std::min(s.bytes.size(), s.at + n);
  if (!(flags & MSG_WAITALL) || s.signals) {
    const auto it = std::upper_bound(s.cuts.begin(), s.cuts.end(), s.at);
    if (it != s.cuts.end()) {
      end = std::min(end, *it);
    }
  }
  const size_t result = end - s.at;
  memcpy(buffer, s.bytes.data() + s.at, result);
  s.at = end;
  errno = s.stale_errno;
  return ssize_t(result);
}
ssize_t __wrap_send(int fd, const void* buffer, size_t n, int flags) {
  if (!script || script->fd != fd) {
    return __real_send(fd, buffer, n, flags);
  }
  if (script->write_fails) {
    errno = EPIPE;
    return -1;
  }
  script->sent.append(static_cast<const char*>(buffer), n);
  return ssize_t(n);
}
}

namespace {

struct Message {
  std::string method;
  std::string path;
  std::vector<std::pair<std::string, std::string>> headers;  // The custom ones.
  int kind = 0;                                               // 0: no body, 1: plain, 2: chunked.
  std::string body;
  std::vector<std::string> chunks;
  std::string bytes;
  size_t complete_at = 0;
};

const char* const kHeaderChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";

std::string RandomCase(pbt::Src& s, std::string x) {
  const auto how = s.Draw(3);
  for (char& c : x) {
    if (how == 1) c = char(tolower(c));
    if (how == 2) c = char(toupper(c));
    if (how == 3 && c == '-') c = '_';
  }
  return x;
}

std::string Canonical(std::string x) {
  for (char& c : x) {
    c = c == '_' ? '-' : char(tolower(c));
  }
  return x;
}

// Printable, with spaces and tabs inside, trimmed, and any bytes beyond ASCII.
std::string HeaderValue(pbt::Src& s) {
  std::string v = s.Chance(1, 4) ? s.Utf8(12) : s.Ascii(20);
  for (char& c : v) {
    if (static_cast<unsigned char>(c) < 32 && c != '\t') c = '!';
    if (c == 127) c = '?';
  }
  const auto blank = [](char c) { return c == ' ' || c == '\t'; };
  while (!v.empty() && blank(v.front())) v.erase(0, 1);
  while (!v.empty() && blank(v.back())) v.pop_back();
  return v;
}

std::vector<std::pair<std::string, std::string>> SomeHeaders(pbt::Src& s, size_t max) {
  std::vector<std::pair<std::string, std::string>> h;
  std::set<std::string> names{"cookie", "set-cookie", "content-length", "transfer-encoding", "x-http-method-override", "location", "connection", "content-type", "host", "user-agent", "access-control-allow-origin"};
  const size_t n = s.Len(max);
  for (size_t i = 0; i < n; ++i) {
    const std::string name = s.FromN(kHeaderChars, 1, 12);
    if (names.insert(Canonical(name)).second) {
      h.emplace_back(name, HeaderValue(s));
    }
  }
  return h;
}

std::string SomeBody(pbt::Src& s) {
  switch (s.Draw(4)) {
    case 0: return s.Bytes(30);
    case 1: return s.From("\r\n0a", 40);
    case 2: return s.Utf8(40);
    case 3: {
      const std::string x = s.Bytes(20);
      std::string r;
      const size_t n = s.Draw(200);
      for (size_t i = 0; i < n; ++i) r += x;
      return r;
    }
    default: return s.Pick({"0\r\n\r\n", "\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "Content-Length: 5\r\n\r\n"});
  }
}

std::string Hex(pbt::Src& s, size_t n) {
  char buf[40];
  static const char* const formats[] = {"%zX", "%zx", "%08zx", "0%zx"};
  snprintf(buf, sizeof(buf), formats[s.Weighted({4, 3, 1, 1})], n);
  return buf;
}

Message SomeMessage(pbt::Src& s) {
  Message m;
  static const std::vector<std::string> with_body{"POST", "PUT", "PATCH"};
  static const std::vector<std::string> without{"GET", "DELETE", "HEAD", "OPTIONS"};
  m.kind = int(s.Weighted({1, 3, 4}));
  m.method = m.kind && s.Chance(3, 4) ? s.OneOf(with_body) : s.OneOf(without);
  m.path = "/" + s.From("abcXYZ019-_.~/?&=%+", 20);
  for (size_t i = s.Weighted({8, 1, 1}); i; --i) m.bytes += "\r\n";
  m.bytes += m.method + s.Pick({" ", " ", "  "}) + m.path + " HTTP/1.1\r\n";
  m.headers = SomeHeaders(s, 5);
  std::string special;
  if (m.kind == 1) {
    m.body = SomeBody(s);
    special = RandomCase(s, "Content-Length") + s.Pick({": ", ":", ":  ", ":\t"}) + std::to_string(m.body.size()) + s.Pick({"", "", " ", "\t "}) + "\r\n";
  } else if (m.kind == 2) {
    special = RandomCase(s, "Transfer-Encoding") + ": " + s.Pick({"chunked", "chunked", "Chunked", "CHUNKED"}) + "\r\n";
    if (s.Chance(1, 6)) {
      special += "Content-Length: " + std::to_string(s.Draw(100)) + "\r\n";
    }
  }
  const size_t where = s.Draw(m.headers.size());
  for (size_t i = 0; i <= m.headers.size(); ++i) {
    if (i == where) m.bytes += special;
    if (i < m.headers.size()) {
      m.bytes += m.headers[i].first + s.Pick({": ", ":", ": \t "}) + m.headers[i].second + s.Pick({"", "", " "}) + "\r\n";
    }
  }
  m.bytes += "\r\n";
  if (m.kind == 1) {
    m.bytes += m.body;
  } else if (m.kind == 2) {
    const size_t n = s.Len(6);
    for (size_t i = 0; i < n; ++i) {
      const std::string chunk = SomeBody(s);
      if (!chunk.empty()) {
        m.chunks.push_back(chunk);
        m.body += chunk;
        m.bytes += Hex(s, chunk.size()) + s.Pick({"", "", "", ";ext", "; name=value", " "}) + "\r\n" + chunk + "\r\n";
      }
    }
    m.bytes += s.Pick({"0", "0", "0", "00", "0;last"}) + "\r\n";
  }
  m.complete_at = m.bytes.size();
  if (m.kind == 2) {
    m.bytes += "\r\n";
  }
  return m;
}

struct Outcome {
  bool parsed = false;
  std::string error;
  std::string method, path, body;
  std::vector<std::pair<std::string, std::string>> headers;
  std::map<std::string, std::string> cookies;
  std::vector<std::string> chunks;
  bool done = false;
  std::string sent;
  size_t reads = 0;
  std::string AsString() const {
    if (!parsed) return "refused";
    std::string r = pbt::Esc(method) + ' ' + pbt::Esc(path) + ' ' + pbt::Esc(body);
    for (const auto& h : headers) r += " [" + pbt::Esc(h.first) + "=" + pbt::Esc(h.second) + "]";
    for (const auto& c : cookies) r += " {" + pbt::Esc(c.first) + "=" + pbt::Esc(c.second) + "}";
    return r;
  }
};

struct Knobs {
  std::vector<size_t> cuts;
  std::set<size_t> interruptions;
  bool signals = false;
  int stale_errno = 0;
  bool reset_at_end = false;
  bool write_fails = false;
  int buffer = 16 * 1024 + 1;
  double growth = 1.95;
};

Knobs SomeKnobs(pbt::Src& s, size_t size) {
  Knobs k;
  const auto how = s.Weighted({1, 3, 2, 2});
  if (how == 1) {
    const size_t n = 1 + s.Draw(8);
    for (size_t i = 0; i < n; ++i) k.cuts.push_back(s.Draw(size));
  } else if (how == 2) {
    const size_t step = 1 + s.Draw(6);
    for (size_t i = step; i < size; i += step) k.cuts.push_back(i);
  } else if (how == 3) {
    for (size_t i = 1 + s.Draw(40); i < size; i += 1 + s.Draw(40)) k.cuts.push_back(i);
  }
  std::sort(k.cuts.begin(), k.cuts.end());
  k.signals = s.Chance(1, 3);
  if (k.signals) {
    for (size_t i = s.Draw(3); i; --i) k.interruptions.insert(k.cuts.empty() ? 0 : k.cuts[s.Draw(k.cuts.size() - 1)]);
  }
  k.stale_errno = int(s.Chance(1, 2) ? 0 : s.Chance(1, 2) ? EAGAIN : ECONNRESET);
  k.reset_at_end = s.Chance(1, 4);
  k.write_fails = s.Chance(1, 8);
  if (s.Chance(2, 3)) k.buffer = int(3 + s.Draw(s.Chance(1, 2) ? 30 : 600));
  if (s.Chance(1, 2)) k.growth = s.Chance(1, 2) ? 1.0001 : 1.0 + double(s.Draw(40)) / 10;
  return k;
}

template <class DATA, typename F>
Outcome Run(const std::string& bytes, const Knobs& k, const typename DATA::ConstructionParams& params, F&& more) {
  Outcome o;
  Script sc;
  sc.bytes = bytes;
  sc.cuts = k.cuts;
  sc.interruptions = k.interruptions;
  sc.signals = k.signals;
  sc.stale_errno = k.stale_errno;
  sc.reset_at_end = k.reset_at_end;
  sc.write_fails = k.write_fails;
  sc.fd = open("/dev/null", O_RDWR | O_CLOEXEC);
  {
    Connection c(SocketHandle(SocketHandle::FromAcceptedHandle(sc.fd)), IPAndPort("127.0.0.1", 1), IPAndPort("127.0.0.1", 2));
    script = &sc;
    try {
      const DATA d(c, params, k.buffer, k.growth);
      o.parsed = true;
      o.method = d.Method();
      o.path = d.RawPath();
      more(d, o);
    } catch (const current::Exception& e) {
      o.error = e.what();
    } catch (...) {
      script = nullptr;
      throw;
    }
    script = nullptr;
  }
  o.sent = sc.sent;
  o.reads = sc.reads;
  return o;
}

Outcome Plain(const std::string& bytes, const Knobs& k) {
  return Run<HTTPRequestData>(bytes, k, HTTPRequestData::ConstructionParams(), [](const HTTPRequestData& d, Outcome& o) {
    o.body = d.Body();
    if (d.BodyLength() != o.body.size() || (d.BodyLength() && std::string(d.BodyBegin(), d.BodyEnd()) != o.body)) {
      o.body += " BUT THE ACCESSORS DISAGREE";
    }
    for (const auto& h : d.headers()) o.headers.emplace_back(h.header, h.value);
    for (const auto& c : d.headers().cookies) o.cookies[c.first] = c.second.value;
  });
}

Outcome ByChunks(const std::string& bytes, const Knobs& k) {
  Outcome parts;
  ChunkByChunkHTTPResponseReceiver::ConstructionParams params(
      [&](const std::string& key, const std::string& value) { parts.headers.emplace_back(key, value); },
      [&](const std::string& chunk) { parts.chunks.push_back(chunk); },
      [&]() { parts.done = true; });
  Outcome o = Run<GenericHTTPRequestData<ChunkByChunkHTTPResponseReceiver>>(
      bytes, k, params, [](const GenericHTTPRequestData<ChunkByChunkHTTPResponseReceiver>&, Outcome&) {});
  o.headers = parts.headers;
  o.chunks = parts.chunks;
  o.done = parts.done;
  return o;
}

void Describe(pbt::Src& s, const std::string& bytes, const Knobs& k) {
  if (s.Describing()) {
    std::string cuts;
    for (size_t c : k.cuts) cuts += ' ' + std::to_string(c);
    s.Note("bytes: " + pbt::Esc(bytes));
    s.Note("cuts:" + (cuts.size() > 200 ? cuts.substr(0, 200) + "..." : cuts) + (k.signals ? " with signals" : "") + ", buffer " + std::to_string(k.buffer) + " x" + std::to_string(k.growth));
  }
}

}  // namespace

PBT_PROP(parse_any_segmentation, o.weight = 6; o.hang_s = 20; o.hang_is_violation = true) {
  Message m = SomeMessage(s);
  if (s.Chance(1, 4)) m.bytes += s.Chance(1, 2) ? SomeMessage(s).bytes : s.Bytes(20);
  const Knobs k = SomeKnobs(s, m.bytes.size());
  Describe(s, m.bytes, k);
  if (s.Chance(1, 3) && m.kind == 2) {
    const Outcome o = ByChunks(m.bytes, k);
    s.Check(o.parsed, "refused", [&] { return "a complete message is refused: " + o.error; });
    s.Check(o.done, "done", [&] { return "the end of the chunked body is not reported"; });
    std::vector<std::string> got = o.chunks;
    s.Eq(m.chunks.size(), got.size(), "number-of-chunks");
    for (size_t i = 0; i < got.size(); ++i) s.Eq(m.chunks[i], got[i], "chunk");
    s.Label("chunk by chunk");
  } else {
    const Outcome o = Plain(m.bytes, k);
    s.Check(o.parsed, "refused", [&] { return "a complete message is refused: " + o.error; });
    s.Eq(m.method, o.method, "method");
    s.Eq(m.path, o.path, "path");
    s.Eq(m.body, o.body, "body");
    std::vector<std::pair<std::string, std::string>> got;
    for (const auto& h : o.headers) {
      const std::string c = Canonical(h.first);
      if (c != "content-length" && c != "transfer-encoding") got.push_back(h);
    }
    s.Eq(m.headers.size(), got.size(), "number-of-headers");
    for (size_t i = 0; i < got.size(); ++i) {
      s.Eq(m.headers[i].first, got[i].first, "header-name");
      s.Eq(m.headers[i].second, got[i].second, "header-value");
    }
    s.Eq(std::string(), o.sent, "sent-something");
  }
  s.Label(m.kind == 0 ? "no body" : m.kind == 1 ? "plain" : "chunked");
  s.LabelIf(k.signals, "interrupted");
  if (!m.body.empty() && k.cuts.size() >= 2) s.NonTrivial(pbt::Hash(m.bytes));
}

PBT_PROP(truncated_is_refused, o.weight = 3; o.hang_s = 20; o.hang_is_violation = true) {
  Message m = SomeMessage(s);
  const std::string bytes = m.bytes.substr(0, s.Draw(m.complete_at - 1));
  const Knobs k = SomeKnobs(s, m.bytes.size());
  Describe(s, bytes, k);
  const Outcome o = Plain(bytes, k);
  s.Check(!o.parsed, "taken-for-complete", [&] { return "a message cut short is taken for a complete one: " + o.AsString(); });
  if (m.kind == 2) {
    const Outcome o2 = ByChunks(bytes, k);
    s.Check(!o2.parsed, "taken-for-complete", [&] { return "a message cut short is taken for a complete one"; });
    s.Check(!o2.done, "done-early", [&] { return "the end of a body cut short is reported"; });
    s.Check(o2.chunks.size() <= m.chunks.size(), "extra-chunk");
    for (size_t i = 0; i < o2.chunks.size(); ++i) s.Eq(m.chunks[i], o2.chunks[i], "chunk");
  }
  s.NonTrivial(pbt::Hash(bytes));
}

PBT_PROP(malformed_is_refused, o.weight = 3; o.hang_s = 20; o.hang_is_violation = true) {
  // One field is not what it should be, the rest is fine.
  std::string bytes = s.Pick({"POST", "PUT"}) + " /path HTTP/1.1\r\nHost: x\r\n";
  int code = 0;
  switch (s.Draw(4)) {
    case 0: {  // Not a length.
      const std::string bad = s.Pick({"-1", "-5", "abc", "5x", "0x5", "5 5", "5,5", "1e1", "+5", "", "5.0", "--", "7x7", "five"});
      bytes += "Content-Length: " + bad + "\r\n\r\n" + s.Bytes(10) + "0123456789";
      code = 400;
      s.Label("bad length");
      break;
    }
    case 1: {  // Too large a length.
      const std::string bad = s.Pick({"16777217", "4294967301", "18446744073709551621", "99999999999999999999999999999", "2147483648", "4294967295", "9223372036854775808", "100000000"});
      bytes += "Content-Length: " + bad + "\r\n\r\n" + s.Bytes(10) + "0123456789";
      code = 413;
      s.Label("large length");
      break;
    }
    case 2: {  // Not a chunk size.
      const std::string bad = s.Pick({"-1", "-5", "xyz", "5x", "0x5", "+5", "g", ";", "-0", "5-", "0x0", "0g"});
      bytes += "Transfer-Encoding: chunked\r\n\r\n" + std::string(s.Bool() ? "3\r\nabc\r\n" : "") + bad + "\r\n01234\r\n0\r\n\r\n";
      code = 400;
      s.Label("bad chunk size");
      break;
    }
    case 3: {  // Too large a chunk.
      const std::string bad = s.Pick({"80000000", "ffffffff", "100000000", "100000005", "ffffffffffffffff", "8000000000000005", "10000000000000005", "fffffffffffffffffffffffff"});
      bytes += "Transfer-Encoding: chunked\r\n\r\n" + std::string(s.Bool() ? "3\r\nabc\r\n" : "") + bad + "\r\n01234\r\n0\r\n\r\n";
      code = 413;
      s.Label("large chunk");
      break;
    }
    default:  // No length.
      bytes += "\r\nbody";
      code = 411;
      s.Label("no length");
  }
  const Knobs k = SomeKnobs(s, bytes.size());
  Describe(s, bytes, k);
  const Outcome o = Plain(bytes, k);
  s.Check(!o.parsed, "malformed-accepted", [&] { return "a malformed message is accepted: " + o.AsString(); });
  if (!k.write_fails) {
    const httpc::Reply r = httpc::Parse(o.sent, true);
    s.Eq(code, r.code, "reply-code");
    s.Check(r.complete, "reply-incomplete");
  }
  s.NonTrivial(pbt::Hash(bytes));
}

// However corrupted, the message means the same in any segmentation and with any buffer, and never crashes the parser.
PBT_PROP(corrupted_in_any_segmentation, o.weight = 5; o.hang_s = 20; o.hang_is_violation = true) {
  Message m = SomeMessage(s);
  std::string b = m.bytes;
  const size_t n = 1 + s.Draw(4);
  for (size_t i = 0; i < n; ++i) {
    const size_t at = s.Draw(b.size());
    switch (s.Draw(6)) {
      case 0: if (at < b.size()) b[at] = char(s.Draw(255)); break;
      case 1: b.insert(at, s.Bytes(4)); break;
      case 2: b.erase(at, 1 + s.Draw(10)); break;
      case 3: b.insert(at, b.substr(s.Draw(b.size()), s.Draw(20))); break;
      case 4: b.insert(at, s.Pick({"\r\n", "\r", "\n", ":", "0", "\r\n\r\n", "\r\n0\r\n"})); break;
      case 5: b.insert(at, std::string(1, '\0')); break;
      default: if (at < b.size() && isdigit(b[at])) b[at] = char('0' + s.Draw(9)); break;
    }
  }
  const Knobs k = SomeKnobs(s, b.size());
  Describe(s, b, k);
  const Outcome whole = Plain(b, Knobs());
  const Outcome split = Plain(b, k);
  s.Eq(whole.AsString(), split.AsString(), "segmentation-matters");
  s.LabelIf(whole.parsed, "still parsed");
  s.NonTrivial(pbt::Hash(b));
}

PBT_PROP(garbage, o.weight = 1; o.hang_s = 20; o.hang_is_violation = true) {
  std::string b = s.Pick({"", "GET / HTTP/1.1\r\n", "POST /x HTTP/1.1\r\nContent-Length: ", "PUT / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"}) + s.Bytes(300);
  const Knobs k = SomeKnobs(s, b.size());
  Describe(s, b, k);
  const Outcome whole = Plain(b, Knobs());
  const Outcome split = Plain(b, k);
  s.Eq(whole.AsString(), split.AsString(), "segmentation-matters");
  if (b.size() >= 10) s.NonTrivial(pbt::Hash(b));
}

// Over the loopback.
namespace {

using codes_t = current::net::HTTPResponseCodeValue;

struct Exchange {
  // What to reply.
  bool chunked = false;
  int cache = 0;
  int style = 0;
  int code = 200;
  std::string content_type = "text/plain";
  std::vector<std::pair<std::string, std::string>> headers;
  std::map<std::string, std::pair<std::string, std::map<std::string, std::string>>> cookies;
  std::string body;
  std::vector<std::pair<std::string, bool>> chunks;
  // What was received.
  int calls = 0;
  std::string method, path, request_body;
  std::vector<std::pair<std::string, std::string>> request_headers;
  std::map<std::string, std::string> request_cookies;
  std::map<std::string, std::string> params;
};
std::mutex exchange_mutex;
Exchange* exchange = nullptr;
std::map<int, std::string>* redirects = nullptr;

template <uint64_t CACHE>
void ReplyChunked(Request& r, const Exchange& e, const current::net::http::Headers& h) {
  auto sender = r.SendChunkedResponse<CACHE>(static_cast<codes_t>(e.code), h, e.content_type);
  for (const auto& c : e.chunks) {
    sender.Send(c.first, c.second ? current::net::ChunkFlush::Flush : current::net::ChunkFlush::NoFlush);
  }
}

void Handle(Request r) {
  std::lock_guard<std::mutex> lock(exchange_mutex);
  Exchange& e = *exchange;
  ++e.calls;
  e.method = r.method;
  e.path = r.url.path;
  e.request_body = r.body;
  e.params = r.url.query.AsImmutableMap();
  for (const auto& h : r.headers) e.request_headers.emplace_back(h.header, h.value);
  for (const auto& c : r.headers.cookies) e.request_cookies[c.first] = c.second.value;
  current::net::http::Headers h;
  for (const auto& x : e.headers) h.Set(x.first, x.second);
  for (const auto& c : e.cookies) h.SetCookie(c.first, c.second.first, c.second.second);
  const auto code = static_cast<codes_t>(e.code);
  if (e.chunked) {
    switch (e.cache) {
      case 0: ReplyChunked<16>(r, e, h); break;
      case 1: ReplyChunked<100>(r, e, h); break;
      case 2: ReplyChunked<1000>(r, e, h); break;
      default: ReplyChunked<1024 * 1024>(r, e, h);
    }
  } else if (e.style == 0) {
    r(e.body, code, h, e.content_type);
  } else if (e.style == 1) {
    r(Response(e.body, code, e.content_type, h).DisableCORS());
  } else if (e.style == 2) {
    Response response;
    response.Headers({{"Gone", "yes"}});
    response = Response(e.body).Code(code).ContentType(e.content_type).Headers(h).DisableCORS();
    r(response);
  } else {
    r(std::vector<char>(e.body.begin(), e.body.end()), code, h, e.content_type);
  }
}

int Port() {
  static int port = 0;
  static HTTPRoutesScope* scope = nullptr;
  if (!port) {
    auto reserved = current::net::ReserveLocalPort();
    port = reserved;
    auto& server = HTTP(std::move(reserved));
    scope = new HTTPRoutesScope(server.Register("/x", URLPathArgs::CountMask::Any, Handle));
    *scope += server.Register("/redirect", URLPathArgs::CountMask::One, [](Request r) {
      std::lock_guard<std::mutex> lock(exchange_mutex);
      const int n = atoi(r.url_path_args[0].c_str());
      const auto it = redirects->find(n);
      if (it == redirects->end()) {
        r("arrived at " + r.url_path_args[0]);
      } else {
        r("", HTTPResponseCode.Found, current::net::http::Headers({{"Location", it->second}}));
      }
    });
  }
  return port;
}

Exchange SomeExchange(pbt::Src& s) {
  Exchange e;
  static const std::vector<int> codes{200, 201, 202, 203, 400, 401, 403, 404, 405, 409, 410, 422, 500, 501, 503, 504, 299};
  e.code = s.OneOf(codes);
  e.content_type = s.Pick({"text/plain", "application/json; charset=utf-8", "image/png", "x/y"});
  e.headers = SomeHeaders(s, 4);
  for (size_t i = s.Len(3); i; --i) {
    auto& c = e.cookies[s.FromN("abcdefgXYZ019_-", 1, 6)];
    c.first = s.From("abcXYZ019=+/_-. %&", 12);
    while (!c.first.empty() && c.first.front() == ' ') c.first.erase(0, 1);
    while (!c.first.empty() && c.first.back() == ' ') c.first.pop_back();
    if (s.Chance(1, 3)) c.second["Path"] = "/" + s.From("abc", 4);
    if (s.Chance(1, 3)) c.second["HttpOnly"] = "";
    if (s.Chance(1, 3)) c.second["Max-Age"] = std::to_string(s.Draw(1000));
  }
  e.chunked = s.Chance(1, 2);
  e.style = int(s.Draw(3));
  e.cache = int(s.Draw(3));
  if (e.chunked) {
    for (size_t i = s.Len(10); i; --i) {
      e.chunks.emplace_back(SomeBody(s), s.Chance(1, 3));
      e.body += e.chunks.back().first;
    }
  } else {
    e.body = SomeBody(s);
  }
  return e;
}

template <typename R>
void CheckHeaders(pbt::Src& s, const Exchange& e, const R& headers) {
  std::vector<std::pair<std::string, std::string>> got;
  for (const auto& h : headers) {
    const std::string c = Canonical(h.header);
    if (c != "content-length" && c != "transfer-encoding" && c != "connection" && c != "content-type") got.emplace_back(h.header, h.value);
  }
  s.Eq(e.headers.size(), got.size(), "number-of-reply-headers");
  for (size_t i = 0; i < got.size(); ++i) {
    s.Eq(e.headers[i].first, got[i].first, "reply-header-name");
    s.Eq(e.headers[i].second, got[i].second, "reply-header-value");
  }
  s.Eq(e.content_type, headers.Get("Content-Type"), "content-type");
  s.Eq(e.cookies.size(), headers.cookies.size(), "number-of-cookies");
  for (const auto& c : e.cookies) {
    const auto it = headers.cookies.find(c.first);
    s.Check(it != headers.cookies.end(), "cookie-lost", [&] { return c.first; });
    s.Eq(c.second.first, it->second.value, "cookie-value");
    s.Check(c.second.second == it->second.params, "cookie-params", [&] { return c.first; });
  }
}

}  // namespace

PBT_PROP(reply_over_the_wire, o.weight = 3; o.hang_s = 30; o.hang_is_violation = true) {
  Exchange e = SomeExchange(s);
  {
    std::lock_guard<std::mutex> lock(exchange_mutex);
    exchange = &e;
  }
  const auto guard = current::MakeScopeGuard([] {
    std::lock_guard<std::mutex> lock(exchange_mutex);
    exchange = nullptr;
  });
  const int port = Port();
  const std::string url = "http://localhost:" + std::to_string(port) + "/x";
  if (s.Describing()) s.Note(std::string(e.chunked ? "chunked " : "plain ") + std::to_string(e.code) + " " + pbt::Esc(e.body));
  const auto how = s.Draw(e.chunked ? 3 : 1);
  if (how == 0) {
    const httpc::Reply r = httpc::Request(port, "GET", "/x");
    s.Check(r.complete && !r.malformed, "raw-reply-malformed");
    s.Eq(e.code, r.code, "raw-code");
    s.Eq(e.body, r.body, "raw-body");
    s.Eq(std::string(), r.rest, "raw-extra");
    s.Eq(e.content_type, r.Header("Content-Type"), "raw-content-type");
    for (const auto& h : e.headers) s.Eq(h.second, r.Header(h.first, "(none)"), "raw-header");
    s.Eq(e.cookies.size(), r.HeaderCount("Set-Cookie"), "raw-cookies");
    s.Label("raw client");
  } else if (how == 1) {
    const auto r = HTTP(GET(url));
    s.Eq(e.code, int(r.code), "code");
    s.Eq(e.body, r.body, "body");
    CheckHeaders(s, e, r.headers);
    s.Label("client");
  } else {
    std::string body, lines;
    int done = 0;
    std::vector<std::string> got;
    ChunkedGET get(url);
    bool by_lines = how == 3;
    if (by_lines && s.Bool()) get.OnLine([&](const std::string& line) { lines += line + '\n'; s.Check(!done, "line-after-done"); }).OnDone([&] { ++done; });
    else if (by_lines) get.OnDone([&] { ++done; }).OnLine([&](const std::string& line) { lines += line + '\n'; s.Check(!done, "line-after-done"); });
    else get.OnDone([&] { ++done; }).OnChunk([&](const std::string& c) { body += c; got.push_back(c); s.Check(!done, "chunk-after-done"); });
    const auto code = HTTP(get);
    s.Eq(e.code, int(code), "code");
    s.Eq(1, done, "done");
    if (by_lines) {
      std::string expected = e.body;
      if (!expected.empty() && expected.back() != '\n') expected += '\n';
      s.Eq(expected, lines, "lines");
    } else {
      s.Eq(e.body, body, "body");
      std::vector<std::string> expected;
      for (const auto& c : e.chunks) if (!c.first.empty()) expected.push_back(c.first);
      s.Check(expected == got, "chunks");
    }
    s.Label("chunked client");
  }
  s.Eq(1, e.calls, "calls");
  if ((!e.body.empty() && !(e.headers.empty() && e.cookies.empty())) || e.chunks.size() > 1) s.NonTrivial(pbt::Hash(e.body));
}

PBT_PROP(request_over_the_wire, o.weight = 2; o.hang_s = 30; o.hang_is_violation = true) {
  Exchange e;
  e.body = s.Bytes(10);
  {
    std::lock_guard<std::mutex> lock(exchange_mutex);
    exchange = &e;
  }
  const auto guard = current::MakeScopeGuard([] {
    std::lock_guard<std::mutex> lock(exchange_mutex);
    exchange = nullptr;
  });
  const int port = Port();
  std::string path = "/x";
  for (size_t i = s.Len(3); i; --i) path += "/" + s.FromN("abcXYZ019-_.~", 1, 5);
  std::map<std::string, std::string> params;
  std::string query;
  for (size_t i = s.Len(3); i; --i) {
    const std::string k = s.FromN("abcXYZ", 1, 4), v = s.From("abc019-_.", 5);
    if (params.emplace(k, v).second) query += (query.empty() ? "?" : "&") + k + "=" + v;
  }
  const std::string url = "http://localhost:" + std::to_string(port) + path + query;
  const auto headers = SomeHeaders(s, 4);
  std::map<std::string, std::string> cookies;
  for (size_t i = s.Len(3); i; --i) cookies[s.FromN("abcXYZ", 1, 4)] = s.From("abc=+/09.-", 8);
  const std::string body = SomeBody(s);
  const std::string content_type = s.Pick({"", "text/plain", "x/y; z=1"});
  const auto Tune = [&](auto request) {
    for (const auto& h : headers) request.SetHeader(h.first, h.second);
    for (const auto& c : cookies) request.SetCookie(c.first, c.second);
    return HTTP(request);
  };
  std::string method, expected_body;
  std::string reply;
  codes_t code = HTTPResponseCode.InvalidCode;
  const auto Take = [&](const std::string& m, const std::string& b, const auto& r) {
    method = m;
    expected_body = b;
    reply = r.body;
    code = r.code;
  };
  switch (s.Draw(4)) {
    case 0: Take("GET", "", Tune(GET(url))); break;
    case 1: Take("DELETE", "", Tune(DELETE(url))); break;
    case 2: Take("POST", body, Tune(POST(url, body, content_type))); break;
    case 3: Take("PUT", body, Tune(PUT(url, body, content_type))); break;
    default: Take("PATCH", body, Tune(PATCH(url, body, content_type))); break;
  }
  if (s.Describing()) s.Note(method + " " + url + " " + pbt::Esc(expected_body));
  s.Eq(1, e.calls, "calls");
  s.Eq(200, int(code), "code");
  s.Eq(e.body, reply, "reply");
  s.Eq(method, e.method, "request-method");
  s.Eq(expected_body, e.request_body, "request-body");
  s.Check(params == e.params, "request-params", [&] { return query; });
  s.Check(cookies == e.request_cookies, "request-cookies");
  std::vector<std::pair<std::string, std::string>> got;
  std::string got_type;
  for (const auto& h : e.request_headers) {
    const std::string c = Canonical(h.first);
    if (c == "content-type") got_type = h.second;
    else if (c != "content-length" && c != "host" && c != "user-agent") got.push_back(h);
  }
  s.Check(got == headers, "request-headers");
  if (method != "GET" && method != "DELETE") s.Eq(content_type.empty() ? std::string("text/plain") : content_type, got_type, "request-content-type");
  s.Label(method.c_str());
  if (!expected_body.empty() && (!headers.empty() || !cookies.empty())) s.NonTrivial(pbt::Hash(expected_body));
}

PBT_PROP(redirects_are_followed, o.weight = 1; o.hang_s = 30; o.hang_is_violation = true) {
  const int port = Port();
  const std::string base = "http://localhost:" + std::to_string(port);
  std::map<int, std::string> to;
  std::map<int, int> next;
  const size_t n = 2 + s.Draw(5);
  for (size_t i = 0; i < n; ++i) {
    if (s.Chance(3, 4)) {
      next[int(i)] = int(s.Draw(n - 1));
      to[int(i)] = (s.Bool() ? base : std::string()) + "/redirect/" + std::to_string(next[int(i)]);
    }
  }
  {
    std::lock_guard<std::mutex> lock(exchange_mutex);
    redirects = &to;
  }
  const auto guard = current::MakeScopeGuard([] {
    std::lock_guard<std::mutex> lock(exchange_mutex);
    redirects = nullptr;
  });
  int at = 0;
  std::set<int> seen;
  bool loop = false;
  while (next.count(at)) {
    if (!seen.insert(at).second) {
      loop = true;
      break;
    }
    at = next[at];
  }
  const bool allow = !s.Chance(1, 5);
  try {
    const auto r = HTTP(GET(base + "/redirect/0").AllowRedirects(allow));
    s.Check(!loop, "loop-not-noticed");
    s.Check(allow || seen.empty(), "redirect-not-allowed");
    s.Eq("arrived at " + std::to_string(at), r.body, "destination");
    s.Eq(base + "/redirect/" + std::to_string(at), r.url, "final-url");
  } catch (const current::net::HTTPRedirectLoopException&) {
    s.Check(loop && allow, "not-a-loop");
  } catch (const current::net::HTTPRedirectNotAllowedException&) {
    s.Check(!allow && (loop || !seen.empty()), "redirect-refused");
  }
  if (!seen.empty()) s.NonTrivial(pbt::Mix(seen.size(), at));
}
