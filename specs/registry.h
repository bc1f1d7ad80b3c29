// Registries as the contracts see them: any number of families of every type, none null.
#pragma once
#include "env.h"
#include <stdexcept>
#include "prometheus/registry.h"
#include "prometheus/counter.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/summary.h"
using namespace prometheus;
typedef std::vector<void*> Ps;
template <class T> static std::vector<std::unique_ptr<Family<T> > >& of(Registry& r);
template <> std::vector<std::unique_ptr<Family<Counter> > >& of<Counter>(Registry& r) { return r.counters_; }
template <> std::vector<std::unique_ptr<Family<Gauge> > >& of<Gauge>(Registry& r) { return r.gauges_; }
template <> std::vector<std::unique_ptr<Family<Histogram> > >& of<Histogram>(Registry& r) { return r.histograms_; }
template <> std::vector<std::unique_ptr<Family<Info> > >& of<Info>(Registry& r) { return r.infos_; }
template <> std::vector<std::unique_ptr<Family<Summary> > >& of<Summary>(Registry& r) { return r.summaries_; }
template <class T> static Ps list(Registry& r) { Ps p; for (size_t i = 0; i < of<T>(r).size(); ++i) p.push_back(of<T>(r)[i].get()); return p; }
template <class T> static void sane(Registry& r) { std::vector<std::unique_ptr<Family<T> > >& fs = of<T>(r); assume_all(0, fs.size(), [&](size_t i) { return fs[i].get() != nullptr; }); }
static Registry& a_registry() { Registry& r = any<Registry>("registry"); sane<Counter>(r); sane<Gauge>(r); sane<Histogram>(r); sane<Info>(r); sane<Summary>(r); return r; }
template <class T> static bool named(Registry& r, const std::string& n) { std::vector<std::unique_ptr<Family<T> > >& fs = of<T>(r); for (size_t i = 0; i < fs.size(); ++i) if (fs[i]->name_ == n) return true; return false; }
struct All { Ps c, g, h, i, s; };
static All all(Registry& r) { All a; a.c = list<Counter>(r); a.g = list<Gauge>(r); a.h = list<Histogram>(r); a.i = list<Info>(r); a.s = list<Summary>(r); return a; }
static void same_all(const All& a, const All& b, const char* what) { check_vec(a.c, b.c, what); check_vec(a.g, b.g, what); check_vec(a.h, b.h, what); check_vec(a.i, b.i, what); check_vec(a.s, b.s, what); }
template <class T> static Ps& pick(All& a);
template <> Ps& pick<Counter>(All& a) { return a.c; }
template <> Ps& pick<Gauge>(All& a) { return a.g; }
template <> Ps& pick<Histogram>(All& a) { return a.h; }
template <> Ps& pick<Info>(All& a) { return a.i; }
template <> Ps& pick<Summary>(All& a) { return a.s; }
// a family that is destroyed: what its destructor does is no concern of these contracts
extern "C" void __v_virtual_1(void*) {}
