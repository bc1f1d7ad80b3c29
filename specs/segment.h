// how a label is written in a push URL
#pragma once
// RFC 3986 section 2.3
static bool unreserved(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~'; }
static bool plain(const std::string& v) { if (v.empty() || v == "." || v == "..") return false; for (size_t i = 0; i < v.size(); ++i) if (!unreserved(v[i])) return false; return true; }
static void segment(std::string& out, const std::string& name, const std::string& v) {
  out += "/"; out += name;
  if (v.empty()) out += "@base64/=";
  else if (plain(v)) { out += "/"; out += v; }
  else { out += "@base64/"; out += b64url(v); }
}
