#include "env.h"
#include <limits>
#include <vector>
#include "text.h"
// how one byte is written
static std::string token(char c, bool quote) { std::string r; spec::esc(r, std::string(1, c), quote); return r; }
// one step of reading an escaped text at its start: the byte it stands for and how much it used; 0 = not readable
static size_t step(const std::string& s, bool quote, char& c) {
  if (s.size() == 0 || s[0] == '\n' || (quote && s[0] == '"')) return 0;
  if (s[0] != '\\') { c = s[0]; return 1; }
  if (s.size() < 2) return 0;
  if (s[1] == 'n') { c = '\n'; return 2; }
  if (s[1] == '\\' || (quote && s[1] == '"')) { c = s[1]; return 2; }
  return 0;
}
// every byte is read back from its text whatever follows, and never ends the value or the line
static void reads_back(bool quote) {
  char c = (char)__v_any_i32("byte"); std::string rest = any<std::string>("rest"); std::string t = token(c, quote);
  check(t.size() == 1 || t.size() == 2, "a byte is written as one or two bytes");
  char d = 0; size_t n = step(t + rest, quote, d);
  check(n == t.size(), "reading an escaped byte uses exactly its own text"); check(d == c, "reading an escaped byte gives the byte back");
  check(t[0] != '\n' && (t.size() == 1 || t[1] != '\n'), "no byte is written as a line break");
  if (quote) check(t[0] != '"', "no byte is written as a closing quote");
  check(t[0] != '\\' || t.size() == 2, "a backslash always starts a pair");
}
ENTRY(t_byte_label) { reads_back(true); }
ENTRY(t_byte_help) { reads_back(false); }
// distinct bytes have texts that differ, neither being the start of the other
ENTRY(t_distinct) {
  char a = (char)__v_any_i32("a"), b = (char)__v_any_i32("b"); __v_assume(a != b);
  std::string s = token(a, true), t = token(b, true);
  check(s[0] != t[0] || (s.size() == 2 && t.size() == 2 && s[1] != t[1]), "distinct bytes are written differently, neither as the start of the other");
}
static std::string text(const MetricFamily& f) { std::vector<MetricFamily> fs; fs.push_back(f); std::ostringstream os; TextSerializer().Serialize(os, fs); return os.str(); }
static MetricFamily family(MetricType t) { MetricFamily f; f.name = any<std::string>("name"); f.type = t; f.metric.resize(1); f.metric[0].counter.value = f.metric[0].gauge.value = f.metric[0].info.value = f.metric[0].untyped.value = std::numeric_limits<double>::quiet_NaN(); return f; }
static void set(MetricFamily& f, const std::string& l, const std::string& v) { ClientMetric::Label a; a.name = l; a.value = v; f.metric[0].label.push_back(a); }
// what is written for a label value is the texts of its bytes one after the other, in an unchanging frame
static void label(MetricType t, const char* suffix, bool second) {
  std::string l = any<std::string>("label"), v = any<std::string>("value");
  MetricFamily empty = family(t), full = family(t); if (second) { set(empty, "a", "b"); set(full, "a", "b"); } set(empty, l, ""); set(full, l, v);
  std::string frame = text(empty), before = "# TYPE " + full.name + " " + spec::type(t) + "\n" + full.name + suffix + (second ? "{a=\"b\"," : "{") + l + "=\"";
  check_eq_soft(frame.substr(0, before.size()), before, "the value follows the name of its label");
  std::string want = before; spec::esc(want, v, true);
  check_eq(text(full), want + frame.substr(before.size()), "a label value is written as the texts of its bytes and nothing else changes");
}
ENTRY(t_counter) { label(MetricType::Counter, "", false); }
ENTRY(t_gauge) { label(MetricType::Gauge, "", false); }
ENTRY(t_info) { label(MetricType::Info, "_info", false); }
ENTRY(t_untyped) { label(MetricType::Untyped, "", false); }
ENTRY(t_second) { label(MetricType::Counter, "", true); }
// the types with several lines: when the frame is as specified, so is the text with the value in place
static void lines(MetricType t) {
  std::string l = any<std::string>("label"), v = any<std::string>("value");
  MetricFamily empty = family(t), full = family(t); set(empty, l, ""); set(full, l, v);
  full.metric[0].histogram.sample_sum = empty.metric[0].histogram.sample_sum = full.metric[0].summary.sample_sum = empty.metric[0].summary.sample_sum = std::numeric_limits<double>::infinity();
  std::string we, wf; spec::preamble(we, empty); spec::metric(we, t, empty.name, empty.metric[0]); spec::preamble(wf, full); spec::metric(wf, t, full.name, full.metric[0]);
  if (!(text(empty) == we)) { __v_limit("the frame is not the specified one"); return; }
  check_eq(text(full), wf, "a label value is written as the texts of its bytes on every line");
}
ENTRY(t_summary) { lines(MetricType::Summary); }
ENTRY(t_histogram) { lines(MetricType::Histogram); }
ENTRY(t_help) {
  MetricFamily without = family(MetricType::Counter), with = family(MetricType::Counter); std::string h = any<std::string>("help"); __v_assume(!h.empty()); with.help = h;
  std::string want = "# HELP " + with.name + " "; spec::esc(want, h, false); want += "\n";
  check_eq(text(with), want + text(without), "a help text is written as the texts of its bytes on one line of its own");
}
