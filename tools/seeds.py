S = []
def seed(id, prop, edits, demo, needs, breaks, **k): S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
H = '#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#include <thread>\n#include <limits>\n#include <cmath>\n#include <sstream>\n#include <cstring>\n#include <functional>\n#include <memory>\n'
seed('C01-lost-increment', 'C01', [('core/src/counter.cc', '  gauge_.Increment(val);', '  gauge_.Set(gauge_.Value() + val);')],
 H + '''#include "prometheus/counter.h"
int main() { for (int r = 0; r < 20; ++r) { prometheus::Counter c; std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&] { for (int k = 0; k < 50000; ++k) c.Increment(2.0); }); for (auto& x : t) x.join(); if (c.Value() != 800000.0) { printf("lost %f\\n", c.Value()); return 1; } } }''',
 'two threads incrementing the same counter by an amount at the same time', 'an increment by an amount reads and stores the value in two steps, so concurrent increments get lost')
seed('C02-reload-between', 'C02', [('core/src/gauge.cc', 'current + value)) {', 'value_.load() + value)) {')],
 H + '''#include "prometheus/gauge.h"
int main() { for (int r = 0; r < 40; ++r) { prometheus::Gauge c; std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&c, i] { for (int k = 0; k < 100000; ++k) { if (i & 1) c.Increment(1.0); else c.Decrement(1.0); } }); for (auto& x : t) x.join(); if (c.Value() != 0.0) { printf("got %f\\n", c.Value()); return 1; } } }''',
 'another thread changing the gauge between the reload and the comparison and changing it back before (ABA), from three or more updates racing', 'the value written is computed from a second load, so the exchange can succeed although the gauge changed in between')
seed('C03-narrow-total', 'C03', [('core/src/histogram.cc', 'auto cumulative_count = 0ULL;', 'auto cumulative_count = 0U;')],
 H + '''#include "prometheus/histogram.h"
int main() { prometheus::Histogram h{{1, 2}}; h.ObserveMultiple({3e9, 3e9, 0}, 1); auto m = h.Collect().histogram; return m.sample_count == 6000000000ULL && m.bucket[2].cumulative_count == m.sample_count && m.bucket[1].cumulative_count >= m.bucket[0].cumulative_count ? 0 : 1; }''',
 'more than 2^32 observations in total', 'the running total wraps at 2^32, so cumulative counts decrease')
seed('C04-sum-first', 'C04', [('core/src/histogram.cc', '''  if (bucket_increments.size() != bucket_counts_.size()) {
    throw''', '''  if (!bucket_increments.empty()) {
    sum_.Increment(sum_of_values);
  }
  if (bucket_increments.size() != bucket_counts_.size()) {
    throw'''), ('core/src/histogram.cc', '''  std::lock_guard<std::mutex> lock(mutex_);
  sum_.Increment(sum_of_values);
''', '''  std::lock_guard<std::mutex> lock(mutex_);
''')],
 H + '''#include "prometheus/histogram.h"
int main() { prometheus::Histogram h{{1, 2}}; h.ObserveMultiple({1, 1, 1}, 5); try { h.ObserveMultiple({1, 1}, 7); return 2; } catch (const std::exception&) {} return h.Collect().histogram.sample_sum == 5 ? 0 : 1; }''',
 'a rejected bulk observation with a non-zero sum followed by a collection', 'the sum is updated before the size is checked')
seed('C08-name-with-nul', 'C08', [('core/src/check_names.cc', '''  auto mismatch =
      std::find_if_not(std::begin(name), std::end(name), validLabelCharacters);
  return mismatch == std::end(name);''', '''  const char* end = name.c_str() + std::char_traits<char>::length(name.c_str());
  auto mismatch = std::find_if_not(name.c_str(), end, validLabelCharacters);
  return mismatch == end;''')],
 H + '''#include "prometheus/check_names.h"
using namespace prometheus;
int main() { return CheckLabelName(std::string("a\\0\\"} 1\\n", 7), MetricType::Counter) || !CheckLabelName("abc", MetricType::Counter); }''',
 'a label name with an embedded NUL byte', 'everything after the NUL byte is accepted unchecked')
seed('C08-le-colon', 'C08', [('core/src/check_names.cc', 'return isLocaleIndependentAlphaNumeric(c) || c == \'_\';', 'return isLocaleIndependentAlphaNumeric(c) || (c >= \'[\' && c <= \'_\' && c != \'\\\\\' && c != \']\' && c != \'[\');')],
 H + '''#include "prometheus/check_names.h"
using namespace prometheus;
int main() { return CheckLabelName("a^b", MetricType::Counter) ? 1 : 0; }''', 'a label name containing ^', 'the character class is off by one character')
seed('C17-trailing', 'C17', [('pull/src/basic_auth.cc', 'auto password = decoded.substr(splitPos + 1);', "auto password = decoded.substr(splitPos + 1, decoded.find('\\n', splitPos) - splitPos - 1);")],
 H + '''#include "prometheus/exposer.h"
#include "prometheus/detail/base64.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
using namespace prometheus;
static std::string ask(int port, const std::string& head) { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr("127.0.0.1"); if (connect(s, (sockaddr*)&a, sizeof a)) return "no"; std::string q = "GET /metrics HTTP/1.0\\r\\n" + head + "\\r\\n\\r\\n"; send(s, q.data(), q.size(), 0); std::string r; char b[4096]; int n; while ((n = recv(s, b, sizeof b, 0)) > 0) r.append(b, n); close(s); return r; }
int main() { Exposer e("127.0.0.1:0"); std::string seen; e.RegisterAuth([&](const std::string& u, const std::string& p) { seen = p; return u == "u" && p == "secret"; }, "r"); int port = e.GetListeningPorts()[0];
 auto r = ask(port, "Authorization: Basic " + detail::base64_encode("u:secret\\nmore")); return r.compare(0, 12, "HTTP/1.1 401") == 0 && seen == "secret\\nmore" ? 0 : 1; }''', 'a password with a line feed in it', 'the callback is asked about a shortened password', mods='pull')
seed('C20-max-status', 'C20', [('push/src/gateway.cc', '        final_status_code = status_code;', '        final_status_code = std::max(final_status_code, status_code);')],
 H + '''#include "fakecurl.h"
#include "prometheus/gateway.h"
#include "prometheus/registry.h"
using namespace prometheus;
int main() { fc::plan = {{CURLE_OK, 200}, {CURLE_COULDNT_CONNECT, 0}, {CURLE_OK, 200}}; Gateway g("h", "1", "job"); auto r = std::make_shared<Registry>(); g.RegisterCollectable(r); g.RegisterCollectable(r); g.RegisterCollectable(r); return g.AsyncPush().get() == 200 ? 1 : 0; }''', 'an asynchronous push of which a request fails at the transfer level (negative status)', 'the negative status loses against 200', mods='push')
seed('C21-body-size', 'C21', [('push/src/detail/curl_wrapper.cc', '    curl_easy_setopt(curl_, CURLOPT_POSTFIELDSIZE, body.size());\n', '')],
 H + '''#include "fakecurl.h"
#include "curl_wrapper.h"
using namespace prometheus::detail;
int main() { CurlWrapper w([](CURL*) {}); w.performHttpRequest(HttpMethod::Post, "u", std::string("a\\0b", 3)); return fc::log[0].body == std::string("a\\0b", 3) ? 0 : 1; }''', 'a body with a NUL byte in it (a label value may hold one)', 'the body is taken to end at the first NUL byte', mods='push')
seed('C21-header-list', 'C21', [('push/src/detail/curl_wrapper.cc', '''  auto updated_header = curl_slist_append(optHttpHeader_, header.c_str());
  if (!updated_header) {
    return false;
  }

  optHttpHeader_ = updated_header;
  return true;''', '''  optHttpHeader_ = curl_slist_append(optHttpHeader_, header.c_str());
  return optHttpHeader_ != nullptr;''')],
 H + '''#include "fakecurl.h"
#include "curl_wrapper.h"
using namespace prometheus::detail;
int main() { CurlWrapper w([](CURL*) {}); w.addHttpHeader("A: b"); fc::fail_append = 1; if (w.addHttpHeader("C: d")) return 2; fc::fail_append = 0; w.performHttpRequest(HttpMethod::Post, "u", "x"); return fc::log[0].headers.size() == 2 ? 0 : 1; }''', 'curl running out of memory while a header is added', 'the configured headers are lost', mods='push')
seed('C15-bracket', 'C15', [('util/include/prometheus/detail/base64.h', '*it <= 0x7A', '*it <= 0x7B')],
 H + '''#include "prometheus/detail/base64.h"
using namespace prometheus::detail;
int main() { try { base64_decode("ab{d"); return 1; } catch (const std::exception&) { return 0; } }''', 'a text with { in it', 'a character that is not base64 is accepted')
seed('C09-rollback', 'C09', [('core/src/family.cc', '''        metrics_.erase(insert_result.first);
        throw std::invalid_argument("Duplicate label name");''', '''        throw std::invalid_argument("Duplicate label name");''')],
 H + '''#include "prometheus/family.h"
#include "prometheus/counter.h"
using namespace prometheus;
int main() { Family<Counter> f("n", "", {{"c", "1"}}); try { f.Add({{"c", "2"}}); return 2; } catch (const std::exception&) {} return f.Has({{"c", "2"}}) ? 1 : 0; }''', 'adding a label set with a name of a constant label, catching the exception and looking at the family', 'the rejected label set stays in the family')
seed('C09-rollback-one', 'C09', [('core/src/family.cc', '''      if (!CheckLabelName(label_name, T::metric_type)) {
        metrics_.erase(insert_result.first);
        throw''', '''      if (!CheckLabelName(label_name, T::metric_type)) {
        metrics_.erase(metrics_.begin());
        throw''')],
 H + '''#include "prometheus/family.h"
#include "prometheus/gauge.h"
using namespace prometheus;
int main() { int lost = 0; for (int k = 0; k < 30; ++k) { Family<Gauge> f("n", "", {}); for (int i = 0; i < k; ++i) f.Add({{"a", std::to_string(i)}}); try { f.Add({{"1bad", "2"}}); return 2; } catch (const std::exception&) {} if (f.Has({{"1bad", "2"}})) ++lost; for (int i = 0; i < k; ++i) if (!f.Has({{"a", std::to_string(i)}})) ++lost; } return lost ? 1 : 0; }''', 'rejecting a label set in a family whose table does not hold the new entry first', 'another metric is removed in place of the rejected one')
seed('C10-unlabelled', 'C10', [('core/src/family.cc', '''  for (const auto& m : metrics_) {
    family.metric.push_back''', '''  for (const auto& m : metrics_) {
    if (m.first.empty() && metrics_.size() > 1 && !constant_labels_.empty()) {
      continue;
    }
    family.metric.push_back''')],
 H + '''#include "prometheus/family.h"
#include "prometheus/gauge.h"
using namespace prometheus;
int main() { Family<Gauge> f("n", "", {{"c", "1"}}); f.Add({}); f.Add({{"a", "1"}}); return f.Collect()[0].metric.size() == 2 ? 0 : 1; }''', 'a family with constant labels holding a metric without labels and one with labels', 'the metric without own labels is left out')
seed('C11-merge-count', 'C11', [('core/src/registry.cc', '''      if ((*it)->GetConstantLabels() == labels) {''', '''      const auto& known = (*it)->GetConstantLabels();
      if (known.size() == labels.size() &&
          std::equal(known.begin(), known.end(), labels.begin(),
                     [](const Labels::value_type& a,
                        const Labels::value_type& b) {
                       return a.first == b.first &&
                              a.second.compare(0, b.second.size(), b.second) ==
                                  0;
                     })) {''')],
 H + '''#include "prometheus/registry.h"
#include "prometheus/counter.h"
using namespace prometheus;
int main() { Registry r(Registry::InsertBehavior::Merge); r.Add<Counter>("a", "", {{"k", "value"}}); try { r.Add<Counter>("a", "", {{"k", "val"}}); return 1; } catch (const std::exception&) {} try { r.Add<Counter>("a", "", {{"k", "value"}}); } catch (const std::exception&) { return 2; } return 0; }''', 'merging with a constant label whose value is the beginning of the known one', 'a family with other constant labels is returned')
seed('C12-by-name', 'C12', [('core/src/registry.cc', '''    return &family == in.get();''', '''    return family.GetName() == in->GetName();''')],
 H + '''#include "prometheus/registry.h"
#include "prometheus/counter.h"
using namespace prometheus;
int main() { Registry a, b; auto& x = a.Add<Counter>("n", "", {}); auto& y = b.Add<Counter>("n", "", {}); x.Add({}); y.Add({}); bool said = a.Remove(y); return said || a.Collect().size() != 1 ? 1 : 0; }''', 'removing a family of another registry that has the same name', 'the registry removes its own family of that name')
seed('C12-swap', 'C12', [('core/src/registry.cc', '''  families.erase(it);''', '''  std::swap(*it, families.back());
  families.pop_back();''')],
 H + '''#include "prometheus/registry.h"
#include "prometheus/counter.h"
using namespace prometheus;
int main() { Registry a; auto& x = a.Add<Counter>("a", "", {}); a.Add<Counter>("b", "", {}).Add({}); a.Add<Counter>("c", "", {}).Add({}); a.Remove(x); auto r = a.Collect(); return r.size() == 2 && r[0].name == "b" && r[1].name == "c" ? 0 : 1; }''', 'removing a family that has two or more after it', 'the order of the remaining families changes')
seed('C13-signed', 'C13', [('core/src/text_serializer.cc', '''      case '"':
        out << '\\\\' << c;
        break;

      default:
        out << c;
        break;
    }
  }
}

// Write a help''', '''      case '"':
        out << '\\\\' << c;
        break;

      default:
        if (c != 127) {
          out << c;
        }
        break;
    }
  }
}

// Write a help''')],
 H + '''#include "prometheus/text_serializer.h"
using namespace prometheus;
int main() { MetricFamily f; f.name = "n"; f.type = MetricType::Counter; f.metric.resize(1); f.metric[0].label.resize(1); f.metric[0].label[0].name = "l"; f.metric[0].label[0].value = "a\\177b"; return TextSerializer().Serialize({f}).find("a\\177b") != std::string::npos ? 0 : 1; }''', 'a label value with a DEL character', 'the character is lost')
seed('C14-inf-dup', 'C14', [('core/src/text_serializer.cc', '''    last = b.upper_bound;
''', '''    last = std::max(last, b.upper_bound);
    if (b.cumulative_count == hist.sample_count) {
      last = std::numeric_limits<double>::infinity();
    }
''')],
 H + '''#include "prometheus/text_serializer.h"
using namespace prometheus;
int main() { MetricFamily f; f.name = "n"; f.type = MetricType::Histogram; f.metric.resize(1); auto& h = f.metric[0].histogram; h.sample_count = 3; h.bucket.resize(1); h.bucket[0].upper_bound = 5; h.bucket[0].cumulative_count = 3; return TextSerializer().Serialize({f}).find("le=\\"+Inf\\"} 3\\n") != std::string::npos ? 0 : 1; }''', 'a histogram handed to the serializer whose last finite bucket already holds all samples', 'the +Inf bucket is missing')
seed('C14-locale', 'C14', [('core/src/text_serializer.cc', '''  out.imbue(saved_locale);
  out.precision(saved_precision);''', '''  out.precision(saved_precision);
  if (!metrics.empty()) {
    out.imbue(saved_locale);
  }''')],
 H + '''#include "prometheus/text_serializer.h"
#include <locale>
using namespace prometheus;
struct P : std::numpunct<char> { char do_decimal_point() const override { return ','; } };
int main() { std::ostringstream o; o.imbue(std::locale(std::locale::classic(), new P)); TextSerializer().Serialize(o, {}); o << 1.5; return o.str() == "1,5" ? 0 : 1; }''', 'serializing an empty list into a stream with its own locale', 'the stream keeps the classic locale')
seed('C16-percent', 'C16', [('push/src/detail/label_encoder.cc', "c == '_' || c == '~') {", "c == '_' || c == '~' ||\n      c == '%') {")],
 H + '''#include "fakecurl.h"
#include "detail/label_encoder.h"
#include <sstream>
using namespace prometheus;
int main() { std::ostringstream o; detail::encodeLabel(o, {"a", "x%2Fy"}); return o.str() == "/a@base64/eCUyRnk=" ? 0 : 1; }''', 'a label value with a percent sign and no other character that needs encoding', 'the gateway decodes the escape and sees another value', mods='push')
seed('C16-order', 'C16', [('push/src/gateway.cc', '''  uri << jobUri_ << labels_ << collectable.second;''', '''  if (collectable.second.compare(0, labels_.size(), labels_) == 0) {
    uri << jobUri_ << collectable.second;
  } else {
    uri << jobUri_ << labels_ << collectable.second;
  }''')],
 H + '''#include "fakecurl.h"
#include "prometheus/gateway.h"
#include "prometheus/registry.h"
using namespace prometheus;
int main() { fc::plan = {{CURLE_OK, 200}}; Gateway g("h", "1", "job", {{"a", "1"}}); auto r = std::make_shared<Registry>(); Labels l{{"a", "12"}}; g.RegisterCollectable(r, &l); g.Push(); return fc::log.size() == 1 && fc::log[0].url == "h:1/metrics/job/job/a/1/a/12" ? 0 : 1; }''', 'grouping labels of a collectable that begin like those of the gateway', 'the labels of the gateway are left out of the path', mods='push')
