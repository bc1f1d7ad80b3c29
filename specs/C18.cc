#include "civet.h"
#include <zlib.h>
#include <vector>
#include "handler.h"
#include "metrics_collector.h"
#include "prometheus/text_serializer.h"
using namespace prometheus; using detail::MetricsHandler;
typedef std::vector<MetricFamily> Families; typedef std::vector<std::weak_ptr<Collectable> > Collectables;
// contract of CollectMetrics (decided in C18c.cc): some list of families; of Serialize (decided as C14): a text of that list
Families ct_collect(const Collectables& c) __asm__("__ct__ZN10prometheus6detail14CollectMetricsERKSt6vectorISt8weak_ptrINS_11CollectableEESaIS4_EE");
Families ct_collect(const Collectables& c) { Families f; __v_fn_vec(&f, "collected", __v_vecid(&c, sizeof(std::weak_ptr<Collectable>)), 0, sizeof(MetricFamily)); return f; }
static std::string* text_;
std::string ct_serialize(const Serializer*, const Families& f) __asm__("__ct__ZNK10prometheus10Serializer9SerializeERKSt6vectorINS_12MetricFamilyESaIS2_EE");
std::string ct_serialize(const Serializer*, const Families& f) { std::string r; __v_fn_str(&r, "text", __v_vecid(&f, sizeof(MetricFamily)), 0); return r; }
// contract of zlib: deflate with Z_FINISH hands out the compressed form of the input piece by piece, or fails at any call
static bool init_fails; static int streams;
static std::string gz(const std::string& in) { std::string g; __v_fn_str(&g, "gzip", __v_strid(&in), 0); return g; }
static bool fails_at(unsigned long p) { return __v_fn_bool("deflate fails", (long)p, 0); }
extern "C" int deflateInit2_(z_streamp s, int level, int method, int bits, int mem, int strategy, const char*, int) {
  check(bits > 16 + 8 && bits <= 16 + 15, "the compressed format is gzip"); check(method == Z_DEFLATED && level >= -1 && level <= 9 && mem >= 1 && mem <= 9 && strategy >= 0 && strategy <= 4, "the compressor is given valid parameters");
  if (init_fails) return Z_MEM_ERROR; streams++; s->total_in = s->total_out = 0; return Z_OK;
}
extern "C" int deflate(z_streamp s, int flush) {
  check(streams == 1, "the compressor is used between its start and its end"); if (flush != Z_FINISH) __v_limit("deflate without Z_FINISH");
  std::string g = gz(std::string((const char*)s->next_in, s->avail_in)); size_t p = s->total_out, left = g.size() - p;
  __v_assume(p < g.size());
  if (fails_at(p)) return Z_STREAM_ERROR;
  if (left > s->avail_out) { std::string piece = g.substr(p, s->avail_out); __v_put_bytes(s->next_out, &piece); s->next_out += s->avail_out; s->total_out += s->avail_out; s->avail_out = 0; return Z_OK; }
  std::string piece = g.substr(p, left); __v_put_bytes(s->next_out, &piece); s->next_out += left; s->total_out += left; s->avail_out -= left; return Z_STREAM_END;
}
extern "C" int deflateEnd(z_streamp) { check(streams == 1, "the compressor is ended once"); streams--; return Z_OK; }
// contracts of the endpoint's own metrics (decided as C01 and C05): recorded
static MetricsHandler* h_; static double bytes_; static int bytes_calls, scrapes_;
static void grow(Counter* c, double v) { if (c == &h_->bytes_transferred_) { bytes_ = v; bytes_calls++; } else if (c == &h_->num_scrapes_) { check(v == 1.0, "the scrape counter grows by one"); scrapes_++; } else check(false, "only the endpoint's own counters grow"); }
void ct_inc(Counter* c) __asm__("__ct__ZN10prometheus7Counter9IncrementEv"); void ct_inc(Counter* c) { grow(c, 1.0); }
void ct_add(Counter* c, double v) __asm__("__ct__ZN10prometheus7Counter9IncrementEd"); void ct_add(Counter* c, double v) { grow(c, v); }
void ct_observe(Summary* s, double) __asm__("__ct__ZN10prometheus7Summary7ObserveEd"); void ct_observe(Summary* s, double) { check(s == &h_->request_latencies_, "only the endpoint's own summary is used"); }
static const char* head = "HTTP/1.1 200 OK\r\nContent-Type: text/plain; charset=utf-8\r\n";
static std::string lengthed(const std::string& b) { std::string t = "Content-Length: ", n; __v_fmt_int(&n, b.size()); return t + n + "\r\n\r\n" + b; }
// answering one scrape; asks: the request mentions gzip
static void scrape(bool present) {
  MetricsHandler& h = any<MetricsHandler>("handler"); h_ = &h; __v_assume(__v_ref(&h.bytes_transferred_) != __v_ref(&h.num_scrapes_)); bytes_calls = scrapes_ = 0; streams = 0; init_fails = __v_any_bool("deflateInit fails");
  std::string& enc = any<std::string>("encodings"); __v_nonul(&enc); web::request("accept-encoding", present, enc);
  Families f = ct_collect(h.collectables_); std::string body = ct_serialize(nullptr, f); std::string g = gz(body); __v_assume(g.size() > 0 && g.size() < (1UL << 62));
  bool r = h.MetricsHandler::handleGet(nullptr, web::conn());
  check(r, "the request is answered"); check(__v_locks_held() == 0, "no lock stays held"); check(streams == 0, "the compressor is released");
  bool asks = present && std::strstr(enc.c_str(), "gzip") != nullptr;
  std::string plain = head + lengthed(body), packed = head + ("Content-Encoding: gzip\r\n" + lengthed(g));
  check(scrapes_ == 1, "the scrape counter grows by one"); check(bytes_calls == 1, "the byte counter grows once");
  if (!asks) { check_eq(*web::out, plain, "without gzip asked for, one complete plain response"); check(same(bytes_, (double)body.size()), "the byte counter grows by the body size"); return; }
  bool is_packed = (*web::out)[strlen(head) + 8] == 'E';
  if (is_packed) { __v_reach("compressed"); check_eq(*web::out, packed, "a compressed response is one complete gzip response"); check(same(bytes_, (double)g.size()), "the byte counter grows by the body size sent"); }
  else { __v_reach("plain"); check_eq(*web::out, plain, "a response not compressed is one complete plain response"); check(same(bytes_, (double)body.size()), "the byte counter grows by the body size"); }
}
ENTRY(t_no_header) { scrape(false); }
ENTRY(t_header) { scrape(true); }
