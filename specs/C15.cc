#include "env.h"
#include <stdexcept>
#include "prometheus/detail/base64.h"
#include "b64.h"
using namespace spec;
using namespace prometheus::detail;

ENTRY(t_encode) {
  std::string& s = any<std::string>("s");
  std::string r = base64_encode(s);
  check_eq(r, spec_encode(s, false), "base64_encode is the RFC 4648 encoding");
}
ENTRY(t_encode_url) {
  std::string& s = any<std::string>("s");
  std::string r = base64url_encode(s);
  check_eq(r, spec_encode(s, true), "base64url_encode is the URL-safe RFC 4648 encoding");
}
ENTRY(t_decode) {
  std::string& s = any<std::string>("s");
  int pad = spec_pad(s);
  bool threw = false; std::string r;
  try { r = base64_decode(s); } catch (...) { threw = true; }
  check(threw == (pad < 0), "base64_decode rejects exactly the texts that are not base64");
  if (!threw && pad >= 0) check_eq(r, spec_decode(s, pad), "base64_decode returns the encoded bytes");
}
// lemma: the decoding specification inverts the encoding specification
static void roundtrip(size_t rest) {
  std::string& s = any<std::string>("s");
  __v_assume(s.size() % 3 == rest);
  std::string e = spec_encode(s, false);
  int pad = rest == 0 ? 0 : rest == 1 ? 2 : 1;
  check(e.size() % 4 == 0, "an encoding has a length that is a multiple of four");
  check(spec_pad(e) == pad, "an encoding is valid base64");
  check_eq(spec_decode(e, pad), s, "decoding an encoding gives back the original");
}
ENTRY(t_roundtrip0) { roundtrip(0); }
ENTRY(t_roundtrip1) { roundtrip(1); }
ENTRY(t_roundtrip2) { roundtrip(2); }
