#include "h.h"
#include <stdexcept>
#include "prometheus/detail/base64.h"
#include "b64.h"
using namespace prometheus::detail;
static void enc(const std::string& s) {
  now("encode " + show(s)); std::string e = base64_encode(s);
  if (!expect(e == spec::spec_encode(s, false), "base64_encode is the RFC 4648 encoding", show(s) + " gives " + show(e))) return;
  std::string u = base64url_encode(s); if (!expect(u == spec::spec_encode(s, true), "base64url_encode is the URL-safe RFC 4648 encoding", show(s) + " gives " + show(u))) return;
  bool threw = false; std::string d; try { d = base64_decode(e); } catch (const std::exception&) { threw = true; }
  expect(!threw && d == s, "decoding an encoding gives back the original", show(s) + " decoded as " + (threw ? "an exception" : show(d)));
}
static void dec(const std::string& s) {
  now("decode " + show(s)); int pad = spec::spec_pad(s); bool threw = false; std::string d;
  char* heap = (char*)malloc(s.size() + 1); (void)heap; free(heap);
  try { d = base64_decode(s); } catch (const std::exception&) { threw = true; }
  if (!expect(threw == (pad < 0), "base64_decode rejects exactly the texts that are not base64", show(s) + (threw ? " rejected" : " accepted"))) return;
  if (pad >= 0) expect(d == spec::spec_decode(s, pad), "base64_decode returns the encoded bytes", show(s) + " gives " + show(d));
}
void run() {
  enc(""); dec("");
  for (int a = 0; a < 256; ++a) { enc(std::string(1, a)); for (int b = 0; b < 256; ++b) { enc(std::string{(char)a, (char)b}); enc(std::string{(char)a, 'x', (char)b}); enc(std::string{(char)a, (char)b, 'x', 'y'}); enc(std::string{'q', (char)a, (char)b}); } }
  for (int pos = 0; pos < 8; ++pos) for (int a = 0; a < 256; ++a) { std::string s = "QUJDREVG"; s[pos] = a; dec(s); s = "QUJDREU="; s[pos] = a; dec(s); s = "QUJDRA=="; s[pos] = a; dec(s); for (int p2 = 0; p2 < 8; ++p2) for (char c : {'=', 'A', '-', '/'}) { std::string t = s; t[p2] = c; dec(t); } }
  const char al[] = {'A', '=', '/', '-', 'z'};
  for (int len = 0; len <= 8; ++len) { long tot = 1; for (int i = 0; i < len; ++i) tot *= 5; for (long c = 0; c < tot; ++c) { std::string s; long x = c; for (int i = 0; i < len; ++i, x /= 5) s += al[x % 5]; dec(s); if (h::fails) return; } }
  for (long i = 0; i < (h::thorough ? 800000 : 60000) && !h::fails; ++i) { std::string s = h::str(coin(30) ? 5000 : 40); enc(s); std::string e = spec::spec_encode(s, false); dec(e); if (!e.empty()) { e[below(e.size())] = coin() ? '=' : (char)below(256); dec(e); if (coin()) e.erase(below(e.size()), 1); else e += "="; dec(e); } dec(h::str(16, "ABCDabcz019+/=", !coin(4))); }
}
