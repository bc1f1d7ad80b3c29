#include "fam.h"
#include <list>
template <class T> bool fam_ok(const MetricFamily& mf, const std::string& name, const std::string& help, const Labels& cl, const std::map<Labels, double>& vals, const std::string& hist) {
  if (!expect(mf.name == name && mf.help == help && mf.type == T::metric_type, "a family record carries the family's name, help and type", hist)) return false;
  if (!expect(mf.metric.size() == vals.size(), "exactly one sample per present label set", hist)) return false;
  std::map<Labels, int> seen;
  for (auto& m : mf.metric) {
    Labels own; size_t i = 0; bool ok = m.label.size() >= cl.size();
    if (ok) for (auto& p : cl) { ok = ok && m.label[i].name == p.first && m.label[i].value == p.second; ++i; }
    if (!expect(ok, "a sample starts with the constant labels", hist)) return false;
    for (; i < m.label.size(); ++i) { own[m.label[i].name] = m.label[i].value; }
    if (!expect(own.size() + cl.size() == m.label.size(), "no label is repeated", hist)) return false;
    size_t j = cl.size(); for (auto& p : own) { if (!expect(m.label[j].name == p.first && m.label[j].value == p.second, "a sample's own labels follow in order", hist)) return false; ++j; }
    auto it = vals.find(own); if (!expect(it != vals.end() && ++seen[own] == 1, "samples have the labels of the present metrics, each once", hist)) return false;
    if (!expect(it->second == K<T>::get(m), "a sample has the current value of its own metric", hist + " at " + h::showm(own))) return false;
    if (!expect(m.timestamp_ms == 0, "no timestamp", hist)) return false;
  }
  return true;
}
struct Base { virtual ~Base() {} virtual void mutate(std::string&) = 0; virtual bool check(const std::vector<MetricFamily>&, size_t& pos, const std::string&) = 0; virtual bool self(const std::string&) = 0; int kind; };
template <class T> struct F : Base {
  Family<T>& f; std::string name, help; Labels cl; std::map<Labels, std::pair<T*, double>> ms;
  F(Family<T>& f, std::string n, std::string h, Labels c, int k) : f(f), name(n), help(h), cl(c) { kind = k; }
  std::map<Labels, double> vals() { std::map<Labels, double> r; for (auto& p : ms) r[p.first] = p.second.second; return r; }
  void mutate(std::string& hist) override {
    Labels l; int n = below(3); for (int i = 0; i < n; ++i) l[lnames[below(3)]] = h::str(2, "xy");
    for (auto& p : cl) l.erase(p.first);
    hist += " " + name; auto it = ms.find(l);
    if (it != ms.end() && coin(3)) { f.Remove(it->second.first); ms.erase(it); hist += " remove"; return; }
    T& m = K<T>::add(f, l); double v = K<T>::valued ? (double)below(1000) : K<T>::get(m.Collect()); if (K<T>::valued) K<T>::set(m, v); ms[l] = {&m, v}; hist += " set " + h::showm(l) + "=" + show(v);
  }
  bool check(const std::vector<MetricFamily>& r, size_t& pos, const std::string& hist) override {
    if (ms.empty()) return true;
    if (!expect(pos < r.size(), "every non-empty family is collected exactly once", hist)) return false;
    return fam_ok<T>(r[pos++], name, help, cl, vals(), hist);
  }
  bool self(const std::string& hist) override { auto r = f.Collect(); size_t pos = 0; if (ms.empty()) return expect(r.empty(), "an empty family yields nothing", hist); return expect(r.size() == 1, "a non-empty family yields one record", hist) && check(r, pos, hist); }
};
static void one() {
  Registry reg; std::vector<std::unique_ptr<Base>> fs; std::string hist; int n = below(8);
  for (int i = 0; i < n; ++i) {
    std::string name = "f" + std::to_string(i), help = h::str(5, "help \n"); Labels cl; if (coin()) cl = Labels{{coin() ? "c" : "a", "k"}}; if (coin(4)) cl["zz"] = "q"; hist += " family " + name; int k = below(5);
    switch (k) { case 0: fs.emplace_back(new F<Counter>(BuildCounter().Name(name).Help(help).Labels(cl).Register(reg), name, help, cl, k)); break; case 1: fs.emplace_back(new F<Gauge>(BuildGauge().Name(name).Help(help).Labels(cl).Register(reg), name, help, cl, k)); break; case 2: fs.emplace_back(new F<Histogram>(BuildHistogram().Name(name).Help(help).Labels(cl).Register(reg), name, help, cl, k)); break; case 3: fs.emplace_back(new F<Info>(BuildInfo().Name(name).Help(help).Labels(cl).Register(reg), name, help, cl, k)); break; case 4: fs.emplace_back(new F<Summary>(BuildSummary().Name(name).Help(help).Labels(cl).Register(reg), name, help, cl, k)); }
  }
  for (int s = 0; s < 8; ++s) {
    if (n && s) fs[below(n)]->mutate(hist); now(hist);
    for (int rep = 0; rep < 2; ++rep) {
      auto r = reg.Collect(); std::map<std::string, int> at; for (size_t i = 0; i < r.size(); ++i) at[r[i].name]++;
      size_t total = 0; for (auto& f : fs) { for (size_t i = 0; i < r.size(); ++i) { size_t p = i; std::vector<MetricFamily>& rr = r; struct Nm { static std::string of(Base* b) { if (auto* x = dynamic_cast<F<Counter>*>(b)) return x->name; if (auto* x = dynamic_cast<F<Gauge>*>(b)) return x->name; if (auto* x = dynamic_cast<F<Histogram>*>(b)) return x->name; if (auto* x = dynamic_cast<F<Info>*>(b)) return x->name; return dynamic_cast<F<Summary>*>(b)->name; } };
          if (rr[i].name == Nm::of(f.get())) { ++total; size_t q = p; if (!f->check(r, q, hist) || !expect(q == p + 1, "an empty family yields nothing", hist)) return; break; } else if (i + 1 == r.size()) { size_t q = r.size(); if (!f->check(r, q, hist)) return; } }
        if (r.empty()) { size_t q = 0; if (!f->check(r, q, hist)) return; } }
      if (!expect(total == r.size(), "a registry collects nothing but its families, each once", hist)) return;
    }
    for (auto& f : fs) if (!f->self(hist)) return;
  }
}
void run() { for (long i = 0; i < (h::thorough ? 60000 : 6000) && !h::fails; ++i) one();
  { Family<Histogram> f("h", "", {}); now("histogram and summary samples in a family"); auto& hg = f.Add({{"a", "b"}}, Histogram::BucketBoundaries{1, 2}); hg.Observe(1.5); auto r = f.Collect(); expect(r.size() == 1 && r[0].metric.size() == 1 && r[0].metric[0].histogram.bucket.size() == 3 && r[0].metric[0].histogram.bucket[1].cumulative_count == 1 && r[0].metric[0].histogram.bucket[0].cumulative_count == 0, "a histogram sample carries its buckets"); }
  { Family<Counter> f("m", "", {{"k", "v"}}); now("3000 metrics"); std::map<Labels, double> v; for (int i = 0; i < 3000; ++i) { Labels l{{"i", std::to_string(i)}}; f.Add(l).Increment(i); v[l] = i; } auto r = f.Collect(); if (expect(r.size() == 1, "one record")) fam_ok<Counter>(r[0], "m", "", {{"k", "v"}}, v, "3000 metrics"); }
}
