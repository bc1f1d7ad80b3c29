// RFC 4648 base64: reference encoder and decoder.
#pragma once
#include <string>
namespace spec {
// RFC 4648, table 1 (and table 2 for the URL-safe alphabet)
static inline char sym(int v, bool url) {
  if (v < 26) return (char)('A' + v);
  if (v < 52) return (char)('a' + (v - 26));
  if (v < 62) return (char)('0' + (v - 52));
  if (v == 62) return url ? '-' : '+';
  return url ? '_' : '/';
}
static inline int byte(const std::string& s, size_t i) { return (unsigned char)s[i]; }
static inline std::string spec_encode(const std::string& s, bool url) {
  std::string r;
  size_t n = s.size();
  for (size_t q = 0; q < n / 3; ++q) {
    int a = byte(s, 3 * q), b = byte(s, 3 * q + 1), c = byte(s, 3 * q + 2);
    r.push_back(sym(a / 4, url));
    r.push_back(sym((a % 4) * 16 + b / 16, url));
    r.push_back(sym((b % 16) * 4 + c / 64, url));
    r.push_back(sym(c % 64, url));
  }
  if (n % 3 == 1) {
    int a = byte(s, n - 1);
    r.push_back(sym(a / 4, url)); r.push_back(sym((a % 4) * 16, url)); r.push_back('='); r.push_back('=');
  }
  if (n % 3 == 2) {
    int a = byte(s, n - 2), b = byte(s, n - 1);
    r.push_back(sym(a / 4, url)); r.push_back(sym((a % 4) * 16 + b / 16, url)); r.push_back(sym((b % 16) * 4, url)); r.push_back('=');
  }
  return r;
}
static inline int val(char c) {
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == '+') return 62;
  if (c == '/') return 63;
  return -1;
}
// number of padding characters, -1 if the text is not base64
static inline int spec_pad(const std::string& s) {
  size_t n = s.size();
  if (n % 4 != 0) return -1;
  if (n == 0) return 0;
  int pad = 0;
  if (s[n - 1] == '=') pad = s[n - 2] == '=' ? 2 : 1;
  for (size_t i = 0; i < n - pad; ++i) if (val(s[i]) < 0) return -1;
  return pad;
}
static inline std::string spec_decode(const std::string& s, int pad) {
  std::string r;
  size_t n = s.size();
  if (n == 0) return r;
  size_t full = pad ? n / 4 - 1 : n / 4;
  for (size_t q = 0; q < full; ++q) {
    int a = val(s[4 * q]), b = val(s[4 * q + 1]), c = val(s[4 * q + 2]), d = val(s[4 * q + 3]);
    r.push_back((char)(a * 4 + b / 16)); r.push_back((char)((b % 16) * 16 + c / 4)); r.push_back((char)((c % 4) * 64 + d));
  }
  if (pad) {
    int a = val(s[n - 4]), b = val(s[n - 3]);
    r.push_back((char)(a * 4 + b / 16));
    if (pad == 1) { int c = val(s[n - 2]); r.push_back((char)((b % 16) * 16 + c / 4)); }
  }
  return r;
}
}
