// P24: encodings and digests match their standards on every input.
#include "../lib/pbt.h"

#include <atomic>
#include <random>
#include <thread>

#include "bricks/util/base64.h"
#include "bricks/util/crc32.h"
#include "bricks/util/random.h"
#include "bricks/util/rol.h"
#include "bricks/util/sha256.h"

PBT_CHECK("P24", "exploration",
          "a case is non-trivial if the input is of at least four bytes (a block, for the digests), the encoded text has a malformed byte past its beginning, the range of the random number has at least two and less than all of the values of its type, or the bits do wrap around");

namespace {

std::string Input(pbt::Src& s) {
  switch (s.Weighted({4, 2, 1})) {
    case 0: return s.Bytes(12);
    case 1: {
      // Around the boundaries of the blocks.
      const size_t n = size_t(64 * s.Draw(3)) + size_t(s.Draw(20)) + 50;
      std::string r(n, char(s.Draw(255)));
      for (size_t k = s.Len(4); k; --k) r[s.Draw(n - 1)] = char(s.Draw(255));
      return r;
    }
    default: {
      std::string r(size_t(s.Draw(3000)), '\0');
      uint64_t x = s.U64();
      for (char& c : r) x = x * 6364136223846793005ull + 1442695040888963407ull, c = char(x >> 56);
      return r;
    }
  }
}

std::string RefEncode(const std::string& in, bool url) {
  std::string alphabet;
  for (char c = 'A'; c <= 'Z'; ++c) alphabet += c;
  for (char c = 'a'; c <= 'z'; ++c) alphabet += c;
  for (char c = '0'; c <= '9'; ++c) alphabet += c;
  alphabet += url ? "-_" : "+/";
  std::string bits, r;
  for (unsigned char c : in) for (int b = 7; b >= 0; --b) bits += (c >> b) & 1 ? '1' : '0';
  while (bits.size() % 6) bits += '0';
  for (size_t i = 0; i < bits.size(); i += 6) r += alphabet[std::stoi(bits.substr(i, 6), nullptr, 2)];
  while (r.size() % 4) r += '=';
  return r;
}

std::string RefSHA256(std::string m) {
  // The constants are the fractional parts of the roots of the primes, by definition.
  static uint32_t k[64], h0[8];
  static bool ready = false;
  if (!ready) {
    int found = 0;
    for (int p = 2; found < 64; ++p) {
      bool prime = true;
      for (int q = 2; q * q <= p; ++q) prime = prime && p % q;
      if (!prime) continue;
      // The integer root of `p * 2^(32 * degree)`, the low 32 bits of which are the fraction.
      const auto root = [p](int degree) {
        uint64_t lo = 0, hi = 1ull << 40;
        while (lo + 1 < hi) {
          const unsigned __int128 x = (lo + hi) / 2;
          unsigned __int128 power = x * x, target = (unsigned __int128)p << (32 * degree);
          if (degree == 3) power *= x;
          if (power <= target) lo = uint64_t(x); else hi = uint64_t(x);
        }
        return uint32_t(lo);
      };
      k[found] = root(3);
      if (found < 8) h0[found] = root(2);
      ++found;
    }
    ready = true;
  }
  const uint64_t bits = uint64_t(m.size()) * 8;
  m += '\x80';
  while (m.size() % 64 != 56) m += '\0';
  for (int b = 7; b >= 0; --b) m += char(bits >> (8 * b));
  uint32_t h[8];
  memcpy(h, h0, sizeof(h));
  const auto rotr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  for (size_t block = 0; block < m.size(); block += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; ++i) {
      w[i] = 0;
      for (int b = 0; b < 4; ++b) w[i] = (w[i] << 8) | uint8_t(m[block + i * 4 + b]);
    }
    for (int i = 16; i < 64; ++i) {
      w[i] = w[i - 16] + w[i - 7] + (rotr(w[i - 15], 7) ^ rotr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + (rotr(w[i - 2], 17) ^ rotr(w[i - 2], 19) ^ (w[i - 2] >> 10));
    }
    uint32_t v[8];
    memcpy(v, h, sizeof(v));
    for (int i = 0; i < 64; ++i) {
      const uint32_t t1 = v[7] + (rotr(v[4], 6) ^ rotr(v[4], 11) ^ rotr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
      const uint32_t t2 = (rotr(v[0], 2) ^ rotr(v[0], 13) ^ rotr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j; --j) v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  std::string r;
  char buf[10];
  for (int i = 0; i < 8; ++i) snprintf(buf, sizeof(buf), "%08x", h[i]), r += buf;
  return r;
}

uint32_t RefCRC32(const std::string& in) {
  uint32_t crc = ~0u;
  for (unsigned char c : in) {
    crc ^= c;
    for (int b = 0; b < 8; ++b) crc = (crc >> 1) ^ (crc & 1 ? 0xedb88320u : 0u);
  }
  return ~crc;
}

}  // namespace

PBT_PROP(base64, o.weight = 4) {
  const std::string in = Input(s);
  const std::string canonical = RefEncode(in, false), url = RefEncode(in, true);
  s.Eq(canonical, current::Base64Encode(in), "encode");
  s.Eq(canonical, current::Base64Encode(in.data(), in.size()), "encode-range");
  s.Eq(canonical, current::Base64Encode(reinterpret_cast<const uint8_t*>(in.data()), in.size()), "encode-bytes");
  s.Eq(url, current::Base64URLEncode(in), "url-encode");
  s.Eq(url, current::Base64URLEncode(in.data(), in.size()), "url-encode-range");
  s.Eq(url, current::Base64URLEncode(reinterpret_cast<const uint8_t*>(in.data()), in.size()), "url-encode-bytes");
  s.Eq(in, current::Base64Decode(canonical), "decode");
  s.Eq(in, current::Base64URLDecode(url), "url-decode");
  // Exactly the size of the text in the heap, for AddressSanitizer.
  std::unique_ptr<char[]> exact(new char[canonical.size()]);
  memcpy(exact.get(), canonical.data(), canonical.size());
  s.Eq(in, current::Base64Decode(exact.get(), canonical.size()), "decode-range");
  // The placeholder may hold anything.
  std::string placeholder = s.Bytes(20);
  s.Eq(canonical, std::string(current::Base64EncodeInto(in, placeholder)), "encode-into");
  placeholder = s.Bytes(20);
  s.Eq(in, std::string(current::Base64DecodeInto(canonical, placeholder)), "decode-into");
  // The padding may be omitted.
  std::string bare = url;
  while (!bare.empty() && bare.back() == '=') bare.pop_back();
  s.Eq(in, current::Base64URLDecode(bare), "url-decode-bare");
  if (in.size() >= 4) s.NonTrivial(pbt::Hash(in));
}

PBT_PROP(base64_malformed, o.weight = 3) {
  const bool url = s.Bool();
  const std::string valid = RefEncode(s.Bytes(9), url);
  std::string text = valid;
  const size_t at = s.Draw(text.size());
  std::string bad;
  do {
    bad = s.Chance(1, 2) ? s.From(std::string("+/-_ \n.\0\x80\xff,", 11), 1) : s.Bytes(1);
    if (bad.empty()) bad = "!";
  } while (bad == "=" || isalnum((unsigned char)bad[0]) || (url ? bad == "-" || bad == "_" : bad == "+" || bad == "/"));
  text.insert(at, bad);
  if (s.Describing()) s.Note(std::string(url ? "URL " : "") + pbt::Esc(text));
  bool refused = false;
  std::string got;
  try {
    got = url ? current::Base64URLDecode(text) : current::Base64Decode(text);
  } catch (const current::Base64DecodeException&) {
    refused = true;
  }
  s.Check(refused, "malformed-decoded", [&] { return pbt::Esc(text) + " into " + pbt::Esc(got); });
  if (at) s.NonTrivial(pbt::Hash(text));
}

PBT_PROP(base64_garbage, o.weight = 2) {
  // Whatever the text is, it is either refused, or is decoded into no more than what it may hold.
  const std::string text = s.Bool() ? s.From("ABab09+/-_==", 12) : s.Bytes(8);
  std::unique_ptr<char[]> exact(new char[text.size()]);
  memcpy(exact.get(), text.data(), text.size());
  try {
    const std::string got = s.Bool() ? current::Base64Decode(exact.get(), text.size()) : current::Base64URLDecode(exact.get(), text.size());
    s.Check(got.size() <= text.size() * 3 / 4, "too-long");
  } catch (const current::Base64DecodeException&) {
  }
  if (text.size() >= 4) s.NonTrivial(pbt::Hash(text));
}

PBT_PROP(digests, o.weight = 4) {
  const std::string in = Input(s);
  s.Eq(RefSHA256(in), current::SHA256(in), "sha256");
  sha256_impl_by_StephanBrumme::SHA256 pieces;
  uint32_t crc = 0;
  for (size_t i = 0; i < in.size();) {
    const size_t n = std::min(in.size() - i, size_t(s.Draw(70)) + 1);
    const std::string piece = in.substr(i, n);
    pieces.add(piece.data(), n);
    crc = current::CRC32(crc, piece.data(), n);
    i += n;
  }
  s.Eq(RefSHA256(in), pieces.getHash(), "sha256-pieces");
  s.Eq(RefCRC32(in), current::CRC32(in), "crc32");
  s.Eq(RefCRC32(in), crc, "crc32-pieces");
  if (in.find('\0') == std::string::npos) s.Eq(RefCRC32(in), current::CRC32(in.c_str()), "crc32-c");
  if (in.size() >= 55) s.NonTrivial(pbt::Hash(in));
}

PBT_PROP(rotation, o.weight = 1) {
  const uint64_t x = s.Integer<uint64_t>();
  const size_t n = s.Bool() ? s.Draw(130) : size_t(s.Integer<uint64_t>());
  uint64_t expected = x;
  for (size_t i = n % 64; i; --i) expected = expected << 1 | expected >> 63;
  s.Eq(expected, current::ROL64(x, n), "rol");
  if (n % 64 && x != expected) s.NonTrivial(pbt::Mix(x, n));
}

namespace {

template <typename T, typename F>
void InRange(pbt::Src& s, F&& f, const char* tag) {
  T a = s.Integer<T>(), b = s.Integer<T>();
  if (s.Chance(1, 3)) b = T(a + T(s.Draw(3)));
  if (b < a) std::swap(a, b);
  for (int i = 0; i < 8; ++i) {
    const T x = f(a, b);
    s.Check(a <= x && x <= b, tag, [&] { return std::to_string(x) + " not within " + std::to_string(a) + " .. " + std::to_string(b); });
  }
  if (a != b) s.NonTrivial(pbt::Mix(uint64_t(a), uint64_t(b)));
}

}  // namespace

PBT_PROP(random_within_range, o.weight = 1) {
  namespace r = current::random;
  switch (s.Draw(13)) {
    case 0: InRange<int>(s, r::RandomInt, "int"); break;
    case 1: InRange<unsigned int>(s, r::RandomUInt, "uint"); break;
    case 2: InRange<long>(s, r::RandomLong, "long"); break;
    case 3: InRange<unsigned long>(s, r::RandomULong, "ulong"); break;
    case 4: InRange<int64_t>(s, r::RandomInt64, "int64"); break;
    case 5: InRange<uint64_t>(s, r::RandomUInt64, "uint64"); break;
    case 6: InRange<int>(s, r::CSRandomInt, "cs-int"); break;
    case 7: InRange<unsigned int>(s, r::CSRandomUInt, "cs-uint"); break;
    case 8: InRange<long>(s, r::CSRandomLong, "cs-long"); break;
    case 9: InRange<unsigned long>(s, r::CSRandomULong, "cs-ulong"); break;
    case 10: InRange<int64_t>(s, r::CSRandomInt64, "cs-int64"); break;
    case 11: InRange<uint64_t>(s, r::CSRandomUInt64, "cs-uint64"); break;
    case 12: InRange<int16_t>(s, r::RandomIntegral<int16_t>, "int16"); break;
    default: {
      double a = double(s.Int(-1000000, 1000000)) / 1024, b = a + double(s.Int(1, 1000000)) / 1024;
      for (int i = 0; i < 8; ++i) {
        const double x = s.Bool() ? r::RandomDouble(a, b) : r::CSRandomDouble(a, b);
        const float y = s.Bool() ? r::RandomFloat(float(a), float(b)) : r::CSRandomFloat(float(a), float(b));
        s.Check(a <= x && x <= b, "double");
        s.Check(float(a) <= y && y <= float(b), "float");
      }
      s.NonTrivial(uint64_t(a * 1024));
    }
  }
}

PBT_PROP(random_by_seed, o.weight = 1) {
  // The generator is per thread: seeded as told before it is used first, the others do not affect it.
  const size_t seed = size_t(s.Integer<uint64_t>());
  const size_t n = 1 + s.Draw(10);
  std::vector<uint64_t> got[2];
  std::thread threads[2];
  for (int t = 0; t < 2; ++t) {
    threads[t] = std::thread([&, t] {
      current::random::SetRandomSeed(seed + t);
      for (size_t i = 0; i < n; ++i) got[t].push_back(current::random::RandomUInt64(0, ~uint64_t(0)));
    });
  }
  for (auto& t : threads) t.join();
  for (int t = 0; t < 2; ++t) {
    std::mt19937_64 reference(seed + t);
    for (size_t i = 0; i < n; ++i) s.Eq(uint64_t(reference()), got[t][i], "seeded");
  }
  s.NonTrivial(seed);
}
