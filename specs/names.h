// The name grammar of the Prometheus data model, as documented.
#pragma once
#include <string>
namespace spec {
static inline bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static inline bool digit(char c) { return c >= '0' && c <= '9'; }
static inline bool name(const std::string& s, bool colon) {
  if (s.size() == 0) return false;
  if (digit(s[0])) return false;
  if (s.size() >= 2 && s[0] == '_' && s[1] == '_') return false;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (!(letter(c) || digit(c) || c == '_' || (colon && c == ':'))) return false;
  }
  return true;
}
// t: 0 counter 1 gauge 2 summary 3 untyped 4 histogram 5 info, reserved: the name the type keeps for itself
static inline bool label(const std::string& s, bool is_histogram, bool is_summary) {
  if (is_histogram && s == "le") return false;
  if (is_summary && s == "quantile") return false;
  return name(s, false);
}
}
