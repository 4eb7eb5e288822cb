// P12: Base64 against an independent bit-string encoder; memory safety on malformed text.
#include "trap.hpp"

#include <arc_utilities/base64_helpers.hpp>
typedef std::vector<uint8_t> Bytes;
static const char* ABC = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string reference(const Bytes& b) {
  std::string o;
  uint32_t acc = 0;
  int bits = 0;
  for (uint8_t x : b) {
    acc = acc << 8 | x;
    bits += 8;
    while (bits >= 6) o += ABC[acc >> (bits -= 6) & 63];
  }
  if (bits) o += ABC[acc << (6 - bits) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
static void check(mc::Run& r, const Bytes& b, bool variants = false) {
  const std::string want = reference(b), got = Base64Helpers::Encode(b);
  if (got != want) r.fail(mc::cat("encoding of ", mc::str(b), " is ", got, ", standard text ", want));
  const Bytes back = Base64Helpers::Decode(got);
  if (back != b) r.fail(mc::cat("decoding of ", got, " is ", mc::str(back), ", original ", mc::str(b)));
  if (!variants) return;
  std::string u = got;
  while (!u.empty() && u.back() == '=') u.pop_back();
  if (Base64Helpers::Decode(u) != b) r.fail(mc::cat("decoding of the unpadded text ", u, " is ", mc::str(Base64Helpers::Decode(u))));
  std::string url = got;
  for (char& c : url) c = c == '+' ? '-' : c == '/' ? '_' : c;
  if (Base64Helpers::Decode(url) != b) r.fail(mc::cat("decoding of the URL-safe text ", url, " is ", mc::str(Base64Helpers::Decode(url))));
}
MC_SCENARIO(short_strings, "every byte string of length 0 to 3", 2) {
  const int len = r.choose(4, "length");
  const int first = len ? r.choose(256, "first byte") : 0;
  if (len < 2) {
    check(r, Bytes((size_t)len, (uint8_t)first), true);
    r.step();
    r.state(mc::cat(len, first));
    return;
  }
  Bytes b((size_t)len, 0);
  b[0] = (uint8_t)first;
  for (int x = 0; x < 256; x++) {
    b[1] = (uint8_t)x;
    for (int y = 0; y < (len == 3 ? 256 : 1); y++) {
      if (len == 3) b[2] = (uint8_t)y;
      check(r, b, len == 2 || y % 64 == 62);
      r.step();
    }
    r.state(mc::cat(len, first, x));
  }
}
MC_SCENARIO(long_strings, "every length 4..300 with four fill patterns and every single byte value at the first, middle and last position", 2) {
  const int len = 4 + r.choose(297, "length"), pat = r.choose(4, "pattern");
  Bytes b;
  for (int i = 0; i < len; i++) b.push_back((uint8_t)(pat == 0 ? 0 : pat == 1 ? 255 : pat == 2 ? i * 37 + 11 : 0xFB - (i % 3)));
  const size_t pos[] = {0, (size_t)len / 2, (size_t)len - 1};
  for (size_t p : pos) {
    const uint8_t keep = b[p];
    for (int v = 0; v < 256; v += r.thorough() ? 1 : 15) {
      b[p] = (uint8_t)v;
      check(r, b, v % 4 == 3);
      r.step();
    }
    b[p] = keep;
  }
  r.state(mc::cat(len, pat));
}
static void decode_any(mc::Run& r, const std::string& tail, size_t prefix) {
  // an exactly sized heap buffer, so that any access past the text is caught
  std::string s(prefix, 'Q');
  s += tail;
  s.shrink_to_fit();
  r.step();
  const Bytes b = Base64Helpers::Decode(s);
  const Bytes again = Base64Helpers::Decode(std::string(s.data(), s.size()));
  MC_CHECK(b == again, "decoding the same text twice differs");
  MC_CHECK(b.size() <= (s.size() + 3) / 4 * 3, mc::cat("decoding ", s.size(), " characters gave ", b.size(), " bytes"));
}
MC_SCENARIO(malformed_classes, "every tail of up to 6 characters from {A,/,=,NUL,space,~,127,128,255} after empty, short and long prefixes", 2) {
  static const char C[] = {'A', '/', '=', 0, ' ', '~', 127, (char)128, (char)255};
  static const size_t P[] = {0, 16, 20, 64};
  const size_t p = P[r.choose(4, "prefix")];
  const int len = r.choose(r.bound(6, 7), "length");
  std::string t;
  for (int i = 0; i < len; i++) t += C[r.choose(9, "character")];
  decode_any(r, t, p);
  r.state(mc::cat(p, t));
}
MC_SCENARIO(malformed_bytes, "every byte value at every position of valid texts of length 4..64, and every truncation of them", 2) {
  const int n = 1 + r.choose(48, "bytes");
  const std::string s = reference(Bytes((size_t)n, 0xA7));
  const int p = r.choose((int)s.size(), "position");
  for (int v = 0; v < 256; v++) {
    std::string t = s;
    t[(size_t)p] = (char)v;
    decode_any(r, t, 0);
  }
  decode_any(r, s.substr(0, (size_t)p), 0);
  r.state(mc::cat(n, p));
}
