#include "h.h"
#include "fakecivet.h"
#include <zlib.h>
#include <thread>
#include "handler.h"
#include "prometheus/text_serializer.h"
#include "prometheus/registry.h"
using namespace prometheus;
static bool fail_init = false; static int fail_deflate = 0; static long inits = 0;
// deflate may be made to fail
extern "C" int __real_deflateInit2_(z_streamp, int, int, int, int, int, const char*, int); extern "C" int __real_deflate(z_streamp, int);
extern "C" int __wrap_deflateInit2_(z_streamp s, int a, int b, int c, int d, int e, const char* v, int n) { ++inits; if (fail_init) return Z_MEM_ERROR; return __real_deflateInit2_(s, a, b, c, d, e, v, n); }
extern "C" int __wrap_deflate(z_streamp s, int f) { if (fail_deflate && --fail_deflate == 0) return Z_STREAM_ERROR; return __real_deflate(s, f); }
static bool gunzip(const std::string& in, std::string& out) { z_stream z{}; if (inflateInit2(&z, 16 + MAX_WBITS) != Z_OK) return false; z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); char b[65536]; int r; do { z.next_out = (Bytef*)b; z.avail_out = sizeof b; r = inflate(&z, Z_NO_FLUSH); out.append(b, sizeof b - z.avail_out); } while (r == Z_OK); bool ok = r == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); return ok; }
struct Coll : Collectable { int id; std::string payload; int fams = 1; mutable int calls = 0; std::vector<MetricFamily> Collect() const override { ++calls; std::vector<MetricFamily> r(fams); for (int i = 0; i < fams; ++i) { r[i].name = "m" + std::to_string(id) + "_" + std::to_string(i); r[i].help = payload; r[i].type = MetricType::Gauge; r[i].metric.resize(1); r[i].metric[0].gauge.value = id; } return r; } };
static double counter(Registry& r, const char* n) { for (auto& f : r.Collect()) if (f.name == n && f.metric.size() == 1) return f.metric[0].counter.value; return -1; }
static const char* encs[] = {nullptr, "gzip", "deflate", "", "gzip, deflate", "deflate, gzip;q=0.5", "identity", "br", "GZIPX", "x-gzip", "gzi", "*", "deflate,gzip"};
static void one(bool big) {
  Registry reg; detail::MetricsHandler hd(reg); std::vector<std::shared_ptr<Coll>> all; std::vector<int> order; std::string hist = "collectables"; int n = below(5);
  for (int i = 0; i < n; ++i) { auto c = std::make_shared<Coll>(); c->id = i; c->fams = below(3); if (big) { int len = coin() ? 32768 * (1 + below(4)) + (int)below(3) - 1 : below(300000); c->payload.resize(len); for (auto& ch : c->payload) ch = 'a' + below(26); } else c->payload = h::str(10, "help ", false); all.push_back(c); hd.RegisterCollectable(c); order.push_back(i); hist += " " + std::to_string(i) + "(" + std::to_string(c->fams) + "x" + std::to_string(c->payload.size()) + ")"; if (coin(6)) { hd.RegisterCollectable(c); order.push_back(i); hist += " twice"; } if (coin(5)) { all[below(i + 1)].reset(); hist += " one dies"; } }
  if (n && coin(3)) { all[below(n)].reset(); hist += " one dies"; }
  for (int k = 0; k < 4; ++k) {
    std::vector<MetricFamily> fams; std::map<int, int> times; for (int i : order) if (all[i]) { auto f = all[i]->Collect(); fams.insert(fams.end(), f.begin(), f.end()); times[i]++; } std::string want = TextSerializer().Serialize(fams);
    const char* enc = encs[below(13)]; mg_connection c; if (enc) c.req["Accept-Encoding"] = enc; fail_init = coin(8); fail_deflate = coin(8) ? 1 + below(2) : 0; for (auto& a : all) if (a) a->calls = 0; std::string id = hist + " accept-encoding " + (enc ? show(std::string(enc)) : "none") + (fail_init ? " deflateInit fails" : fail_deflate ? " deflate fails" : ""); now(id);
    double b0 = counter(reg, "exposer_transferred_bytes_total"), s0 = counter(reg, "exposer_scrapes_total"); bool r = hd.handleGet(nullptr, &c); double b1 = counter(reg, "exposer_transferred_bytes_total"), s1 = counter(reg, "exposer_scrapes_total"); fail_init = false; fail_deflate = 0;
    Resp q = parse(c.out); if (!expect(r && q.ok && q.status.compare(0, 12, "HTTP/1.1 200") == 0, "a scrape sends one 200 response", id + " wrote " + show(c.out))) return;
    const std::string* l = q.get("Content-Length"); if (!expect(l && q.count("Content-Length") == 1 && std::to_string(q.body.size()) == *l, "Content-Length equals the number of body bytes", id + " declared " + (l ? *l : "nothing") + " sent " + std::to_string(q.body.size()))) return;
    const std::string* ce = q.get("Content-Encoding"); std::string plain = q.body; if (!expect(!ce || *ce == "gzip", "the content encoding is gzip or none", id)) return;
    if (ce) { if (!expect(enc && strstr(enc, "gzip"), "the body is gzip encoded only if Accept-Encoding mentions gzip", id)) return; plain.clear(); if (!expect(gunzip(q.body, plain), "a compressed body is complete gzip data", id)) return; }
    if (!expect(plain == want, "the body is the serialisation of all live collectables in registration order", id + " want " + std::to_string(want.size()) + " bytes got " + std::to_string(plain.size()) + " " + show(plain.substr(0, 200)))) return;
    const std::string* ct = q.get("Content-Type"); if (!expect(ct && ct->compare(0, 10, "text/plain") == 0, "the response has the text format's content type", id)) return;
    if (b0 >= 0 && !expect(b1 - b0 == (double)q.body.size(), "the transferred-bytes counter grows by exactly the body size", id + " grew by " + show(b1 - b0) + " body " + std::to_string(q.body.size()))) return; if (s0 >= 0 && !expect(s1 - s0 == 1, "the scrape counter grows by one", id)) return;
  }
}
void run() { for (long i = 0; i < (h::thorough ? 20000 : 2000) && !h::fails; ++i) one(false); for (long i = 0; i < (h::thorough ? 600 : 60) && !h::fails; ++i) one(true); 
  { Registry reg; detail::MetricsHandler hd(reg); mg_connection c; hd.handleGet(nullptr, &c); bool f1 = counter(reg, "exposer_transferred_bytes_total") >= 0, f2 = counter(reg, "exposer_scrapes_total") >= 0; now("the endpoint's own counters"); expect(f1 && f2, "the endpoint keeps its own counters"); } }
