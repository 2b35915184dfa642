// A minimal, independent HTTP/1.1 client for the harnesses: raw sockets, explicit segmentation, incremental reading.
#pragma once
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <chrono>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace httpc {

inline std::string Lower(std::string s) {
  for (char& c : s) {
    if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
  }
  return s;
}

struct Reply {
  bool headers_done = false;
  bool complete = false;   // The whole body is there, by its length or by the terminating chunk.
  bool malformed = false;
  bool eof = false;        // The peer has closed the connection.
  bool chunked = false;
  int code = 0;
  std::string status_line;
  std::vector<std::pair<std::string, std::string>> headers;
  std::string body;
  std::vector<std::string> chunks;
  std::string rest;  // After the complete reply.
  std::string Header(const std::string& name, const std::string& otherwise = "") const {
    for (const auto& h : headers) {
      if (Lower(h.first) == Lower(name)) return h.second;
    }
    return otherwise;
  }
  size_t HeaderCount(const std::string& name) const {
    size_t n = 0;
    for (const auto& h : headers) n += Lower(h.first) == Lower(name);
    return n;
  }
};

// Parses as much of the reply as there is.
inline Reply Parse(const std::string& raw, bool eof, bool no_body = false) {
  Reply r;
  r.eof = eof;
  const size_t end = raw.find("\r\n\r\n");
  if (end == std::string::npos) {
    return r;
  }
  size_t p = raw.find("\r\n");
  r.status_line = raw.substr(0, p);
  if (r.status_line.compare(0, 9, "HTTP/1.1 ") != 0 && r.status_line.compare(0, 9, "HTTP/1.0 ") != 0) {
    r.malformed = true;
    return r;
  }
  r.code = atoi(r.status_line.c_str() + 9);
  p += 2;
  while (p < end + 2) {
    const size_t q = raw.find("\r\n", p);
    const std::string line = raw.substr(p, q - p);
    const size_t c = line.find(':');
    if (c == std::string::npos) {
      r.malformed = true;
      return r;
    }
    size_t v = c + 1;
    while (v < line.size() && line[v] == ' ') ++v;
    r.headers.emplace_back(line.substr(0, c), line.substr(v));
    p = q + 2;
  }
  p = end + 4;
  r.headers_done = true;
  if (no_body) {
    r.complete = true;
    r.rest = raw.substr(p);
    return r;
  }
  r.chunked = Lower(r.Header("Transfer-Encoding")) == "chunked";
  if (r.chunked) {
    while (true) {
      const size_t q = raw.find("\r\n", p);
      if (q == std::string::npos) return r;
      const std::string hex = raw.substr(p, q - p);
      if (hex.empty() || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
        r.malformed = true;
        return r;
      }
      const size_t n = strtoull(hex.c_str(), nullptr, 16);
      if (raw.size() < q + 2 + n + 2) return r;
      if (raw.compare(q + 2 + n, 2, "\r\n") != 0) {
        r.malformed = true;
        return r;
      }
      p = q + 2 + n + 2;
      if (!n) {
        r.complete = true;
        r.rest = raw.substr(p);
        return r;
      }
      r.chunks.push_back(raw.substr(q + 2, n));
      r.body += r.chunks.back();
    }
  }
  const std::string cl = r.Header("Content-Length");
  if (!cl.empty()) {
    const size_t n = strtoull(cl.c_str(), nullptr, 10);
    r.body = raw.substr(p, n);
    if (r.body.size() == n) {
      r.complete = true;
      r.rest = raw.substr(p + n);
    }
  } else {
    r.body = raw.substr(p);
    r.complete = eof;
  }
  return r;
}

class Conn {
 public:
  explicit Conn(int port, int from = 0) {
    fd_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (from) {  // From 127.0.0.`from`.
      int on = 1;
      setsockopt(fd_, IPPROTO_IP, IP_BIND_ADDRESS_NO_PORT, &on, sizeof(on));
      sockaddr_in b;
      memset(&b, 0, sizeof(b));
      b.sin_family = AF_INET;
      b.sin_addr.s_addr = htonl(0x7f000000u + uint32_t(from));
      bind(fd_, reinterpret_cast<sockaddr*>(&b), sizeof(b));
    }
    sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_port = htons(uint16_t(port));
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    for (int i = 0; i < 50; ++i) {
      if (!connect(fd_, reinterpret_cast<sockaddr*>(&a), sizeof(a))) {
        ok_ = true;
        break;
      }
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
    }
    int one = 1;
    setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
  }
  ~Conn() { Close(); }
  Conn(const Conn&) = delete;
  bool Connected() const { return ok_; }
  void Close() {
    if (fd_ >= 0) close(fd_);
    fd_ = -1;
  }
  void Reset() {  // Close with RST.
    linger l{1, 0};
    setsockopt(fd_, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
    Close();
  }
  void ShutdownWrite() { shutdown(fd_, SHUT_WR); }
  bool Send(const std::string& s) {
    size_t p = 0;
    while (p < s.size()) {
      const ssize_t n = send(fd_, s.data() + p, s.size() - p, MSG_NOSIGNAL);
      if (n <= 0) return false;
      p += size_t(n);
    }
    return true;
  }
  // Reads what is there, waiting for up to `ms` for something to come. False: nothing came.
  bool Pump(int ms) {
    if (eof_) return false;
    pollfd p{fd_, POLLIN, 0};
    if (poll(&p, 1, ms) <= 0) return false;
    char buf[65536];
    const ssize_t n = recv(fd_, buf, sizeof(buf), 0);
    if (n <= 0) {
      eof_ = true;
      return n == 0;
    }
    raw.append(buf, size_t(n));
    return true;
  }
  bool Eof() const { return eof_; }
  // Reads until the reply is complete, or the deadline.
  Reply ReadReply(double seconds = 15, bool no_body = false) {
    const auto deadline = std::chrono::steady_clock::now() + std::chrono::microseconds(int64_t(seconds * 1e6));
    while (true) {
      Reply r = Parse(raw, eof_, no_body);
      if (r.complete || r.malformed || eof_) return r;
      if (std::chrono::steady_clock::now() > deadline) return r;
      Pump(200);
    }
  }
  // Reads until `f(reply)`, the end of the reply, or the deadline.
  template <typename F>
  Reply ReadUntil(F&& f, double seconds = 15) {
    const auto deadline = std::chrono::steady_clock::now() + std::chrono::microseconds(int64_t(seconds * 1e6));
    while (true) {
      Reply r = Parse(raw, eof_);
      if (r.complete || r.malformed || eof_ || f(r)) return r;
      if (std::chrono::steady_clock::now() > deadline) return r;
      Pump(200);
    }
  }
  std::string raw;

 private:
  int fd_ = -1;
  bool ok_ = false;
  bool eof_ = false;
};

inline Reply Request(int port, const std::string& method, const std::string& url, const std::string& body = "", const std::string& headers = "", bool has_body = false, int from = 0) {
  Conn c(port, from);
  std::string q = method + " " + url + " HTTP/1.1\r\nHost: localhost\r\n" + headers;
  if (has_body || !body.empty()) q += "Content-Length: " + std::to_string(body.size()) + "\r\n";
  q += "\r\n" + body;
  c.Send(q);
  return c.ReadReply(15, method == "HEAD");
}

}  // namespace httpc
