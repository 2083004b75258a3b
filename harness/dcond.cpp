// Conditional probability tables and the models built on them
#include "h.h"
#include "pdf/discreteconditionalpdf.h"
#include "model/discretesystemmodel.h"
#include "model/measurementmodel.h"
using namespace BFL; using namespace std;

typedef MeasurementModel<int, int> Meas;
struct TObj { unique_ptr<DiscreteConditionalPdf> p; vector<int> dims; map<vector<int>, map<int, bool> > known; };
struct SObj { unique_ptr<DiscreteSystemModel> s; unique_ptr<Meas> m; ConditionalPdf<int, int>* pdf() { return s ? s->SystemPdfGet() : m->MeasurementPdfGet(); } };
struct DCond : World {
  vector<TObj> o; vector<SObj> ms;
  int find(SObj& y) { for (size_t k = 0; k < o.size(); k++) if (o[k].p.get() == y.pdf()) return k; return -1; }
  void put(TObj& t, double v, int s, const vector<int>& x) { t.p->ProbabilitySet(v, s, x); t.known[x][s] = true; }
  json obs(TObj& t) {
    json r; vector<int> x;
    Ob()([&] { r["n"] = t.p->NumStatesGet(); })([&] { r["na"] = t.p->NumConditionalArgumentsGet(); })
        ([&] { r["x"] = t.p->ConditionalArgumentsGet(); })
        ([&] { x = t.p->ConditionalArgumentsGet(); json q = json::array();
               for (int s = 0; s < (int)t.p->NumStatesGet(); s++) if (t.known[x][s]) q.push_back(num(pv(t.p->ProbabilityGet(s)))); else q.push_back("none");
               r["row"] = q; }).run();
    return r;
  }
  json step(const string& op, const json& a) {
    json r;
    TObj* t = a.contains("k") ? &o[a["k"].get<int>() - 1] : 0;
    SObj* y = a.contains("j") ? &ms[a["j"].get<int>() - 1] : 0;
    int pk = a.contains("p") ? a["p"].get<int>() - 1 : -1;
    rngscript::clear();
    if (op == "new") {
      TObj n; n.dims = a["dims"].get<vector<int> >(); vector<int> d = n.dims;
      n.p.reset(new DiscreteConditionalPdf(a["n"].get<int>(), d.size(), d.data()));
      fill(d.begin(), d.end(), 77);
      o.push_back(move(n));
    } else if (op == "copy") {
      TObj n; n.dims = t->dims; n.known = t->known;
      n.p.reset(a["how"] == "copy" ? new DiscreteConditionalPdf(*t->p) : t->p->Clone());
      o.push_back(move(n));
    } else if (op == "set") put(*t, a["v"].get<double>(), a["s"].get<int>(), a["x"].get<vector<int> >());
    else if (op == "setrow") { int s = 0; for (auto& v : a["r"]) put(*t, v.get<double>(), s++, a["x"].get<vector<int> >()); }
    else if (op == "fill") { for (size_t c = 0; c < a["t"].size(); c++) { int s = 0; for (auto& v : a["t"][c]) put(*t, v.get<double>(), s++, a["xs"][c].get<vector<int> >()); } }
    else if (op == "arg") t->p->ConditionalArgumentSet(a["i"].get<int>() - 1, a["v"].get<int>());
    else if (op == "args") t->p->ConditionalArgumentsSet(a["x"].get<vector<int> >());
    else if (op == "sample") {
      rngscript::uniforms(dvec(a["z"])); Pdf<int>& p = *t->p; unsigned n = a["n"].get<unsigned>(); json out = json::array();
      if (n == 0) { Sample<int> s; r["ret"] = p.SampleFrom(s, SampleMthd::DEFAULT, NULL); out.push_back(s.ValueGet()); }
      else { vector<Sample<int> > l(a["pre"].get<int>()); r["ret"] = p.SampleFrom(l, n, SampleMthd::DEFAULT, NULL); for (auto& s : l) out.push_back(s.ValueGet()); }
      r["s"] = out;
    } else if (op == "mnew") {
      SObj n; if (a["t"] == "sys") n.s.reset(new DiscreteSystemModel(o[pk].p.get())); else n.m.reset(new Meas(o[pk].p.get()));
      ms.push_back(move(n));
    } else if (op == "mcopy") {
      SObj n; if (y->s) n.s.reset(new DiscreteSystemModel(*y->s)); else n.m.reset(new Meas(*y->m));
      ms.push_back(move(n));
    } else if (op == "mset") { if (y->s) y->s->SystemPdfSet(o[pk].p.get()); else y->m->MeasurementPdfSet(o[pk].p.get()); }
    else if (op == "mprob" || op == "msim") {
      vector<int> x = a["x"].get<vector<int> >(); bool two = x.size() == 2;
      if (op == "mprob") { int s = a["s"].get<int>();
        r["p"] = num(pv(y->s ? (two ? y->s->ProbabilityGet(s, x[0], x[1]) : y->s->ProbabilityGet(s, x[0])) : (two ? y->m->ProbabilityGet(s, x[0], x[1]) : y->m->ProbabilityGet(s, x[0]))));
      } else { rngscript::uniforms(dvec(a["z"]));
        SampleMthd d = SampleMthd::DEFAULT;
        r["s"] = y->s ? (two ? y->s->Simulate(x[0], x[1], d) : y->s->Simulate(x[0], d)) : (two ? y->m->Simulate(x[0], x[1], d) : y->m->Simulate(x[0], d));
      }
    } else throw runtime_error("unknown op " + op);
    if (look.skip) return r;
    json ob = json::array(), mo = json::array();
    auto fp = [&] { for (auto& q : o) ob.push_back(obs(q)); };
    auto fm = [&] { for (auto& q : ms) mo.push_back({{"plain", q.s ? q.s->SystemWithoutInputs() : q.m->SystemWithoutSensorParams()}, {"p", find(q) + 1}, {"ns", q.s ? (int)q.s->NumStatesGet() : 0}}); };
    Ob()(fp)(fm).run();
    r["obs"] = ob; r["mod"] = mo;
    return r;
  }
};
FAMILY("dcond", DCond)
