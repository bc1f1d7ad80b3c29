#pragma once
// a registry against a list of (name, type, help, labels, address)
struct Ent { std::string name; int kind; std::string help; Labels cl; void* addr; };
static const MetricType mts[] = {MetricType::Counter, MetricType::Gauge, MetricType::Histogram, MetricType::Info, MetricType::Summary};
static const char* kn[] = {"counter", "gauge", "histogram", "info", "summary"};
template <class T> void touch(Family<T>& f) { K<T>::add(f, {}); }
template <class T> void* reg_add(Registry& r, const std::string& n, const std::string& h, const Labels& l);
template <> void* reg_add<Counter>(Registry& r, const std::string& n, const std::string& h, const Labels& l) { auto& f = BuildCounter().Name(n).Help(h).Labels(l).Register(r); touch(f); return &f; }
template <> void* reg_add<Gauge>(Registry& r, const std::string& n, const std::string& h, const Labels& l) { auto& f = BuildGauge().Name(n).Help(h).Labels(l).Register(r); touch(f); return &f; }
template <> void* reg_add<Histogram>(Registry& r, const std::string& n, const std::string& h, const Labels& l) { auto& f = BuildHistogram().Name(n).Help(h).Labels(l).Register(r); touch(f); return &f; }
template <> void* reg_add<Info>(Registry& r, const std::string& n, const std::string& h, const Labels& l) { auto& f = BuildInfo().Name(n).Help(h).Labels(l).Register(r); touch(f); return &f; }
template <> void* reg_add<Summary>(Registry& r, const std::string& n, const std::string& h, const Labels& l) { auto& f = BuildSummary().Name(n).Help(h).Labels(l).Register(r); touch(f); return &f; }
static void* do_add(Registry& r, int k, const std::string& n, const std::string& h, const Labels& l) { switch (k) { case 0: return reg_add<Counter>(r, n, h, l); case 1: return reg_add<Gauge>(r, n, h, l); case 2: return reg_add<Histogram>(r, n, h, l); case 3: return reg_add<Info>(r, n, h, l); } return reg_add<Summary>(r, n, h, l); }
static bool do_remove(Registry& r, int k, void* p) { switch (k) { case 0: return r.Remove(*(Family<Counter>*)p); case 1: return r.Remove(*(Family<Gauge>*)p); case 2: return r.Remove(*(Family<Histogram>*)p); case 3: return r.Remove(*(Family<Info>*)p); } return r.Remove(*(Family<Summary>*)p); }
static bool reg_same(Registry& r, std::vector<Ent>& model, const std::string& hist) {
  auto c = r.Collect();
  if (!expect(c.size() == model.size(), "the registry holds exactly the registered families", hist + " want " + std::to_string(model.size()) + " got " + std::to_string(c.size()))) return false;
  for (int k = 0; k < 5; ++k) { // within a type, registration order
    std::vector<Ent*> want; for (auto& e : model) if (e.kind == k) want.push_back(&e); size_t i = 0;
    for (auto& mf : c) if (mf.type == mts[k]) {
      if (!expect(i < want.size() && mf.name == want[i]->name, "the families of a type keep their registration order", hist)) return false;
      if (!expect(mf.help == want[i]->help, "a family has the requested help", hist)) return false;
      if (!expect(mf.metric.size() == 1 && mf.metric[0].label.size() == want[i]->cl.size(), "a family has the requested labels", hist)) return false;
      size_t j = 0; for (auto& p : want[i]->cl) { if (!expect(mf.metric[0].label[j].name == p.first && mf.metric[0].label[j].value == p.second, "a family has the requested labels", hist)) return false; ++j; } ++i; }
    if (!expect(i == want.size(), "the registry holds exactly the registered families", hist)) return false;
  }
  std::set<std::string> names; for (auto& mf : c) if (!expect(names.insert(mf.name).second, "no two families share a name", hist)) return false;
  return true;
}
static void regrun(bool removing) {
  bool merge = coin(); Registry r(merge ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw), other;
  std::vector<Ent> model; std::string hist = merge ? "merge:" : "throw:"; int n = 1 + below(14); int names = 1 + below(6);
  Family<Gauge>& foreign = BuildGauge().Name("n0").Register(other);
  for (int s = 0; s < n; ++s) {
    if (!model.empty() && coin(removing ? 2 : 6)) {
      if (coin(4)) { hist += " remove foreign"; now(hist); if (!expect(!r.Remove(foreign), "removing a family of another registry returns false", hist)) return; }
      else { size_t i = below(model.size()); hist += " remove " + model[i].name; now(hist); if (!expect(do_remove(r, model[i].kind, model[i].addr), "removing a registered family returns true", hist)) return; model.erase(model.begin() + i); }
    } else {
      Ent e; e.kind = below(5); e.name = coin(15) ? "9bad" : "n" + std::to_string(below(names)); e.help = coin() ? "h" : "other"; if (coin(12)) e.name = coin(3) ? "n" : coin() ? "N0" : "n00"; static const char* vals[] = {"1", "2", "12", "", "1 ", "value"}; if (coin(3)) e.cl["l"] = vals[below(6)]; if (coin(6)) e.cl["a"] = vals[below(6)];
      // labels that nearly are those of a family already there
      if (!model.empty() && coin(3)) { auto& b = model[below(model.size())]; e.name = b.name; if (coin()) e.kind = b.kind; e.cl = b.cl; for (auto& p : b.cl) switch (below(8)) { case 0: e.cl.erase(p.first); break; case 1: e.cl[p.first] = p.second.substr(0, p.second.size() / 2); break; case 2: e.cl[p.first] = p.second + "2"; break; case 3: e.cl[p.first] = ""; break; case 4: e.cl.erase(p.first); e.cl[p.first + "x"] = p.second; break; case 5: e.cl["z"] = p.second; break; } }
      if (coin(20)) e.cl["__bad"] = "x"; if (coin(20)) e.cl["m"] = "1";
      hist += std::string(" add ") + kn[e.kind] + " " + e.name + h::showm(e.cl); now(hist); Ent* ex = nullptr; for (auto& m : model) if (m.name == e.name) ex = &m;
      bool threw = false; e.addr = nullptr; try { e.addr = do_add(r, e.kind, e.name, e.help, e.cl); } catch (const std::exception&) { threw = true; }
      if (ex) {
        bool ok = merge && ex->kind == e.kind && ex->cl == e.cl;
        if (!expect(threw == !ok, ok ? "merging registration returns the existing family" : "registering a name in use throws", hist)) return;
        if (ok && !expect(e.addr == ex->addr, "merging registration returns the existing family", hist)) return;
      } else {
        bool ok = spec::name(e.name, true); for (auto& p : e.cl) ok = ok && p.first.compare(0, 2, "__") != 0;
        if (!expect(threw == !ok, ok ? "registering a fresh valid name succeeds" : "an invalid registration throws", hist)) return;
        if (ok) model.push_back(e);
      }
    }
    if (!reg_same(r, model, hist)) return;
  }
}
