#include "h.h"
#include "fakecurl.h"
#include <functional>
#include <map>
#include "curl_wrapper.h"
using namespace prometheus::detail;
static const char* mn(HttpMethod m) { return m == HttpMethod::Post ? "POST" : m == HttpMethod::Put ? "PUT" : "DELETE"; }
static void history() {
  long tmo = 0; bool pre = coin(); std::string up; fc::fail_append = 0; fc::log.clear(); fc::plan.clear(); fc::plan_i = 0;
  CurlWrapper c(pre ? std::function<void(CURL*)>([&](CURL* h) { curl_easy_setopt(h, CURLOPT_TIMEOUT, tmo); if (!up.empty()) curl_easy_setopt(h, CURLOPT_USERPWD, up.c_str()); }) : std::function<void(CURL*)>());
  std::vector<std::string> added; std::vector<std::string> base; std::string hist = pre ? "with presetup:" : "plain:";
  for (int i = 0; i < 10; ++i) {
    if (coin(3)) { std::string hd = "X-" + h::str(4, "abc", false) + ": " + std::to_string(i); bool f = coin(3); fc::fail_append = f; bool r = c.addHttpHeader(hd); fc::fail_append = 0; hist += f ? " header fails" : " header"; if (!expect(r == !f, "adding a header reports whether it succeeded", hist)) return; if (!f) added.push_back(hd); }
    HttpMethod m = below(3) == 0 ? HttpMethod::Post : coin() ? HttpMethod::Put : HttpMethod::Delete; std::string uri = "http://h/" + h::str(6, "ab/"); for (auto& ch : uri) if (!ch) ch = 'x'; std::string body = coin(3) ? "" : h::str(coin(10) ? 5000 : 10, "m 1\n"); bool nobody = coin(4); if (nobody) body.clear(); tmo = below(5); up = coin() ? "u:p" + std::to_string(i) : "";
    CURLcode rc = coin(4) ? (CURLcode)(1 + below(60)) : CURLE_OK; long st = coin(10) ? 0 : 100 + below(500); fc::plan = {{rc, st}}; fc::plan_i = 0; fc::log.clear(); hist += std::string(" ") + mn(m) + " " + show(uri) + " body " + show(body).substr(0, 60) + " reply " + std::to_string(rc) + "/" + std::to_string(st); now(hist);
    int r = nobody ? c.performHttpRequest(m, uri) : c.performHttpRequest(m, uri, body);
    if (!expect(fc::log.size() == 1, "one transfer per request", hist)) return; auto& q = fc::log[0];
    if (!expect(q.method == mn(m), "the request has the method asked for", hist + " sent " + q.method)) return; if (!expect(q.url == uri, "the request has exactly its own URL", hist + " sent " + show(q.url))) return;
    if (!expect(q.body == body, "the request carries exactly its own body bytes", hist + " sent " + show(q.body))) return;
    if (base.empty()) { base = q.headers; if (base.size() < added.size() || base.size() - added.size() != 1) { expect(false, "the configured headers are sent", hist); return; } base.resize(base.size() - added.size()); std::string ct = base[0]; if (!expect(ct.find("text/plain") != std::string::npos, "the content type is sent", hist)) return; }
    std::vector<std::string> want = base; want.insert(want.end(), added.begin(), added.end()); if (!expect(q.headers == want, "the request carries the configured headers", hist)) return;
    if (!expect(q.timeout == (pre ? tmo : 0) && q.userpwd == (pre ? up : ""), "nothing of an earlier request leaks into it", hist)) return;
    if (rc) { if (!expect(r < 0, "a failed transfer gives a negative number", hist + " returned " + std::to_string(r))) return; } else if (!expect(r == st, "the response code is returned", hist + " returned " + std::to_string(r))) return;
  }
}
void run() {
  for (long i = 0; i < (h::thorough ? 60000 : 6000) && !h::fails; ++i) history();
  fc::plan.clear(); fc::log.clear(); fc::overlaps = 0; fc::delay_us = 50;
  { CurlWrapper c(nullptr); now("8 threads share a connection"); std::vector<std::thread> ts; std::atomic<int> bad{0}; fc::decide = [](const fc::Req& r) { return std::make_pair(CURLE_OK, 200l + (long)(r.url.size() % 50)); };
    for (int t = 0; t < 8; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 200; ++i) { std::string u = "u" + std::string(t * 3 + i % 3, 'x'); std::string b(t + 1, 'a' + t); if (c.performHttpRequest(t % 2 ? HttpMethod::Post : HttpMethod::Put, u, b) != 200 + (int)(u.size() % 50)) ++bad; if (t == 3 && i % 20 == 0) c.addHttpHeader("h: v"); } });
    for (auto& t : ts) t.join(); expect(!fc::overlaps, "requests sharing a connection never overlap"); expect(!bad, "a request returns its own response code"); expect(fc::log.size() == 1600, "every request is sent");
    for (auto& q : fc::log) { int t = q.body.empty() ? -1 : q.body[0] - 'a'; if (!expect(t >= 0 && t < 8 && q.body == std::string(t + 1, 'a' + t) && q.url.size() >= 1 + t * 3u && q.url.size() <= 3 + t * 3u && q.method == (t % 2 ? "POST" : "PUT"), "concurrent requests mix", show(q.url) + show(q.body))) break; } fc::decide = nullptr; }
}
