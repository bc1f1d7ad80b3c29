#include "fam.h"
template <class T> struct Run {
  static void go(long N) { for (long i = 0; i < N && !h::fails; ++i) one(); }
  static std::map<Labels, double> snap(Family<T>& f, std::map<Labels, T*>*) {
    std::map<Labels, double> r; for (auto& mf : f.Collect()) for (auto& m : mf.metric) { Labels l; for (auto& x : m.label) l[x.name] = x.value; if (r.count(l)) fail("a label set is collected twice"); r[l] = K<T>::get(m); } return r; }
  static void one() {
    Labels cl; if (coin()) cl = randlabels(2, coin(4) ? 15 : 3);
    std::string fname = below(6) ? "fam" : coin() ? h::str(3, "a_:9") : "__x";
    std::string hist = std::string(K<T>::n()) + " family " + show(fname) + " constant " + h::showm(cl); now(hist);
    bool want = spec::name(fname, true); for (auto& p : cl) want = want && okname<T>(p.first);
    bool ok = true; std::unique_ptr<Family<T>> fp;
    try { fp.reset(new Family<T>(fname, "help", cl)); } catch (const std::exception&) { ok = false; }
    if (!expect(ok == want, "a family is constructed iff its name and constant label names are valid", hist)) return;
    if (!ok) return;
    Family<T>& f = *fp; if (!expect(f.GetName() == fname && f.GetConstantLabels() == cl, "a family keeps its name and constant labels", hist)) return;
    std::map<Labels, T*> model; std::map<Labels, double> vals; std::vector<T*> gone; int pool = coin(3) ? 15 : coin() ? 7 : 3; double tick = 0;
    int n = 1 + below(14);
    for (int k = 0; k < n; ++k) {
      switch (below(5)) {
        case 0: { T* p; if (model.empty() || coin(4)) { static typename std::aligned_storage<sizeof(T)>::type dummy; p = coin() ? nullptr : (T*)&dummy; hist += " remove unknown"; } else { auto it = model.begin(); std::advance(it, below(model.size())); p = it->second; hist += " remove " + h::showm(it->first); vals.erase(it->first); model.erase(it); } now(hist); f.Remove(p); break; }
        default: {
          Labels l = randlabels(3, pool); if (!model.empty() && coin(3)) { auto it = model.begin(); std::advance(it, below(model.size())); l = it->first; }
          hist += " add " + h::showm(l); now(hist); bool w = true; for (auto& p : l) w = w && okname<T>(p.first) && !cl.count(p.first);
          T* p = nullptr; bool threw = false; try { p = &K<T>::add(f, l); } catch (const std::exception&) { threw = true; }
          if (!expect(threw == !w, "adding throws iff a label name is invalid, reserved or a constant label", hist)) return;
          if (threw) break;
          auto it = model.find(l);
          if (it != model.end()) { if (!expect(it->second == p, "adding an existing label set returns the same metric", hist)) return; }
          else { for (auto& m : model) if (!expect(m.second != p, "adding a new label set creates a new metric", hist)) return; model[l] = p; if (K<T>::valued) { tick += 1; K<T>::set(*p, tick); vals[l] = tick; } else vals[l] = 0; }
        } }
      for (auto& m : model) if (!expect(f.Has(m.first), "Has reports every present label set", hist)) return;
      for (int j = 0; j < 3; ++j) { Labels l = randlabels(3, pool); if (!expect(f.Has(l) == (model.count(l) > 0), "Has reports exactly the present label sets", hist + " query " + h::showm(l))) return; }
      auto s = snap(f, &model); if (!expect(s.size() == model.size(), "exactly the present metrics are kept", hist)) return;
      for (auto& m : model) { Labels l = m.first; l.insert(cl.begin(), cl.end()); auto it = s.find(l); if (!expect(it != s.end(), "exactly the present metrics are kept", hist + " missing " + h::showm(l))) return; if (K<T>::valued && !expect(it->second == vals[m.first], "adding or removing leaves all other metrics untouched", hist)) return; }
    }
  }
};
void run() { long k = h::thorough ? 10 : 1; Run<Counter>::go(6000 * k); Run<Gauge>::go(6000 * k); Run<Histogram>::go(5000 * k); Run<Info>::go(5000 * k); Run<Summary>::go(3000 * k);
  { Family<Counter> f("many", "", {}); std::map<std::string, Counter*> m; now("5000 label sets"); for (int i = 0; i < 5000; ++i) { std::string v = std::to_string(i); m[v] = &f.Add({{"l", v}}); m[v]->Increment(i); } for (auto& p : m) { expect(&f.Add({{"l", p.first}}) == p.second, "adding an existing label set returns the same metric"); } std::set<Counter*> u; for (auto& p : m) u.insert(p.second); expect(u.size() == 5000, "one metric per label set");
    for (int i = 0; i < 5000; i += 2) f.Remove(m[std::to_string(i)]); for (int i = 0; i < 5000; ++i) expect(f.Has({{"l", std::to_string(i)}}) == (i % 2 == 1), "Remove removes exactly that metric"); expect(f.Collect()[0].metric.size() == 2500, "Remove removes exactly that metric"); }
  // label sets whose concatenations coincide must stay distinct
  { Family<Gauge> f("x", "", {}); now("similar label sets"); std::vector<Labels> ls{{{"a", "b"}}, {{"a", ""}, {"b", ""}}, {{"ab", ""}}, {{"a", "b"}, {"b", "a"}}, {{"a", "a"}, {"b", "b"}}, {{"b", "a"}}, {}, {{"a", ""}}, {{"a", std::string("\0", 1)}}, {{"a", std::string("\0\0", 2)}}, {{"a", "a,b=c"}}, {{"a", "a"}, {"b", "c"}}};
    std::set<Gauge*> u; for (auto& l : ls) u.insert(&f.Add(l)); expect(u.size() == ls.size(), "distinct label sets have distinct metrics"); for (auto& l : ls) expect(f.Has(l), "Has"); }
}
