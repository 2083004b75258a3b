// Conditional Gaussian pdfs, system and measurement models
#include "h.h"
#include "quad.h"
#include "model/linearanalyticsystemmodel_gaussianuncertainty.h"
#include "model/linearanalyticmeasurementmodel_gaussianuncertainty.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;

static SampleMthd method(const string& s) {
  return s == "CHOLESKY" ? SampleMthd::CHOLESKY : s == "BOXMULLER" ? SampleMthd::BOXMULLER : s == "RIPLEY" ? SampleMthd::RIPLEY : SampleMthd::DEFAULT;
}
typedef AnalyticConditionalGaussianAdditiveNoise Acg;
typedef SystemModel<ColumnVector> Sys;
typedef MeasurementModel<ColumnVector, ColumnVector> Meas;
typedef ConditionalGaussianAdditiveNoise Cga;
struct PObj { unique_ptr<ConditionalGaussian> p; bool lin, plain = false; vector<bool> set;
  Acg* an() const { return dynamic_cast<Acg*>(p.get()); }
  Cga* cg() const { return dynamic_cast<Cga*>(p.get()); }
  ColumnVector mu() const { return plain ? cg()->AdditiveNoiseMuGet() : an()->AdditiveNoiseMuGet(); }
  SymmetricMatrix sig() const { return plain ? cg()->AdditiveNoiseSigmaGet() : an()->AdditiveNoiseSigmaGet(); }
  LinearAnalyticConditionalGaussian* L() const { return dynamic_cast<LinearAnalyticConditionalGaussian*>(p.get()); } };
struct MObj { unique_ptr<Sys> s; unique_ptr<Meas> m; string cls;
  ConditionalPdf<ColumnVector, ColumnVector>* pdf() const { return s ? s->SystemPdfGet() : m->MeasurementPdfGet(); } };
struct CondG : World {
  vector<PObj> o; vector<MObj> ms;
  int find(const MObj& y) { for (size_t k = 0; k < o.size(); k++) if ((ConditionalPdf<ColumnVector, ColumnVector>*)o[k].p.get() == y.pdf()) return k; return -1; }
  json obs(const PObj& y) {
    json r; ConditionalGaussian& p = *y.p; unsigned n = p.NumConditionalArgumentsGet();
    bool ready = true; for (bool b : y.set) ready = ready && b;
    Ob()([&] { r["d"] = p.DimensionGet(); })([&] { r["n"] = n; })
        ([&] { r["mu"] = jv(y.mu()); })([&] { r["sig"] = jm(y.sig()); })
        ([&] { json q = json::array(); for (unsigned i = 0; i < n; i++) q.push_back(i % 2 == 0 ? jv(p.ConditionalArgumentGet(i)) : jv(p.ConditionalArgumentsGet()[i])); r["x"] = q; })
        ([&] { json q = json::array(); if (y.lin) for (unsigned i = 0; i < n; i++) q.push_back(jm(y.L()->MatrixGet(i))); r["m"] = q; })
        ([&] { if (ready) r["mean"] = jv(p.ExpectedValueGet()); })
        ([&] { if (ready) r["cov"] = jm(p.CovarianceGet()); })
        ([&] { if (ready) { json q = json::array(); for (unsigned i = 0; !y.plain && i < n; i++) q.push_back(jm(y.an()->dfGet(i))); r["df"] = q; } }).run();
    return r;
  }
  json obsm(MObj& y) {
    json r;
    Ob()([&] { r["size"] = y.s ? y.s->StateSizeGet() : y.m->MeasurementSizeGet(); })
        ([&] { r["plain"] = y.s ? y.s->SystemWithoutInputs() : y.m->SystemWithoutSensorParams(); })
        ([&] { r["p"] = find(y) + 1; })
        ([&] { if (y.cls != "lin") return;
          json q = json::array(); bool two = y.pdf()->NumConditionalArgumentsGet() == 2;
          if (y.s) { auto* l = (LinearAnalyticSystemModelGaussianUncertainty*)y.s.get(); q.push_back(jm(l->AGet())); if (two) q.push_back(jm(l->BGet())); }
          else { auto* l = (LinearAnalyticMeasurementModelGaussianUncertainty*)y.m.get(); q.push_back(jm(l->HGet())); if (two) q.push_back(jm(l->JGet())); }
          r["m"] = q; }).run();
    return r;
  }
  json step(const string& op, const json& a) {
    json r;
    PObj* x = a.contains("k") ? &o[a["k"].get<int>() - 1] : 0;
    MObj* y = a.contains("j") ? &ms[a["j"].get<int>() - 1] : 0;
    int pk = a.contains("p") ? a["p"].get<int>() - 1 : -1;
    rngscript::clear();
    if (op == "new") {
      PObj n; n.lin = a["t"] == "lin"; n.plain = a["t"] == "plain"; n.set.assign(a["dims"].size(), n.lin);
      if (n.lin) {
        Gaussian g(cv(a["mu"]), sym(a["q"]));
        if (a["one"].get<bool>()) n.p.reset(new LinearAnalyticConditionalGaussian(mat(a["m"][0]), g));
        else { vector<Matrix> v; for (auto& q : a["m"]) v.push_back(mat(q)); n.p.reset(new LinearAnalyticConditionalGaussian(v, g)); }
      } else {
        json m = {{"a", a["m"][0]}, {"c", a["c"]}, {"mu", a["mu"]}, {"q", a["q"]}, {"g", a["g"]}, {"nu", (int)a["dims"].size() - 1}};
        if (a["dims"].size() > 1) m["b"] = a["m"][1];
        bool late = a["late"];
        if (n.plain) n.p.reset(late ? new PlainPdf(m, true) : new PlainPdf(m)); else n.p.reset(late ? new QuadPdf(m, true) : new QuadPdf(m));
      }
      o.push_back(move(n));
    } else if (op == "copy") {
      PObj n; n.lin = x->lin; n.plain = x->plain; n.set = x->set;
      if (a["how"] == "clone") n.p.reset(dynamic_cast<ConditionalGaussian*>(((Pdf<ColumnVector>*)x->p.get())->Clone()));
      else if (x->lin) n.p.reset(new LinearAnalyticConditionalGaussian(*x->L()));
      else if (x->plain) n.p.reset(new PlainPdf(dynamic_cast<PlainPdf&>(*x->p)));
      else n.p.reset(new QuadPdf(dynamic_cast<QuadPdf&>(*x->p)));
      o.push_back(move(n));
    } else if (op == "assign") {
      PObj& f = o[a["from"].get<int>() - 1];
      if (x->lin) *x->L() = *f.L(); else if (x->plain) dynamic_cast<PlainPdf&>(*x->p) = dynamic_cast<PlainPdf&>(*f.p); else dynamic_cast<QuadPdf&>(*x->p) = dynamic_cast<QuadPdf&>(*f.p);
      x->set = f.set;
    } else if (op == "arg") { int i = a["i"].get<int>() - 1; x->p->ConditionalArgumentSet(i, cv(a["v"])); x->set[i] = true; }
    else if (op == "args") { vector<ColumnVector> v; for (auto& q : a["v"]) v.push_back(cv(q)); x->p->ConditionalArgumentsSet(v); x->set.assign(x->set.size(), true); }
    else if (op == "mat") x->L()->MatrixSet(a["i"].get<int>() - 1, mat(a["m"]));
    else if (op == "lend") {
      PObj& f = o[a["from"].get<int>() - 1]; int i = a["i"].get<int>() - 1, b = a["b"].get<int>() - 1; string w = a["what"];
      if (w == "arg") { x->p->ConditionalArgumentSet(i, f.p->ConditionalArgumentGet(b)); x->set[i] = true; }
      else if (w == "args") { x->p->ConditionalArgumentsSet(f.p->ConditionalArgumentsGet()); x->set = f.set; }
      else if (w == "mat") x->L()->MatrixSet(i, f.L()->MatrixGet(b));
      else if (w == "mu") { const ColumnVector& v = f.plain ? f.cg()->AdditiveNoiseMuGet() : f.an()->AdditiveNoiseMuGet(); if (x->plain) x->cg()->AdditiveNoiseMuSet(v); else x->an()->AdditiveNoiseMuSet(v); }
      else { const SymmetricMatrix& v = f.plain ? f.cg()->AdditiveNoiseSigmaGet() : f.an()->AdditiveNoiseSigmaGet(); if (x->plain) x->cg()->AdditiveNoiseSigmaSet(v); else x->an()->AdditiveNoiseSigmaSet(v); }
    }
    else if (op == "nargs") {
      size_t n = a["n"].get<size_t>(), k = n - a["m"].size();
      ConditionalPdf<ColumnVector, ColumnVector>& c = *x->p; c.NumConditionalArgumentsSet(n);
      for (size_t i = k; i < n; i++) { x->L()->MatrixSet(i, mat(a["m"][i - k])); x->p->ConditionalArgumentSet(i, cv(a["x"][i - k])); }
      x->set.resize(n, true);
    }
    else if (op == "mu") { if (x->plain) x->cg()->AdditiveNoiseMuSet(cv(a["v"])); else x->an()->AdditiveNoiseMuSet(cv(a["v"])); }
    else if (op == "sigma") { if (x->plain) x->cg()->AdditiveNoiseSigmaSet(sym(a["q"])); else x->an()->AdditiveNoiseSigmaSet(sym(a["q"])); }
    else if (op == "prob") r["p"] = num(pv(x->p->ProbabilityGet(cv(a["y"]))));
    else if (op == "sample") {
      unsigned d = x->p->DimensionGet(), n = a["n"].get<unsigned>(); SampleMthd m = method(a["how"]);
      rngscript::normals(dvec(a["z"]));
      Pdf<ColumnVector>& q = *x->p;
      json out = json::array();
      if (n == 0) { Sample<ColumnVector> s(d); r["ret"] = q.SampleFrom(s, m, NULL); out.push_back(jv(s.ValueGet())); }
      else { vector<Sample<ColumnVector> > l(a["pre"].get<int>(), Sample<ColumnVector>(d)); r["ret"] = q.SampleFrom(l, n, m, NULL); for (auto& s : l) out.push_back(jv(s.ValueGet())); }
      r["s"] = out;
    } else if (op == "refused") {
      vector<Sample<ColumnVector> > l; Sample<ColumnVector> s(x->p->DimensionGet());
      Pdf<ColumnVector>& q = *x->p; SampleMthd m = method(a["how"]);
      r["ret"] = a["list"].get<bool>() ? q.SampleFrom(l, 2, m, NULL) : q.SampleFrom(s, m, NULL);
    } else if (op == "mnew") {
      MObj n; n.cls = a["cls"]; Acg* p = o[pk].an(); ConditionalGaussian* cp = o[pk].p.get();
      if (a["t"] == "sys") n.s.reset(n.cls == "lin" ? new LinearAnalyticSystemModelGaussianUncertainty(o[pk].L()) : n.cls == "ana" ? new AnalyticSystemModelGaussianUncertainty(p) : new Sys(cp));
      else n.m.reset(n.cls == "lin" ? new LinearAnalyticMeasurementModelGaussianUncertainty(o[pk].L()) : n.cls == "ana" ? new AnalyticMeasurementModelGaussianUncertainty(p) : new Meas(cp));
      ms.push_back(move(n));
    } else if (op == "mcopy") {
      MObj n; n.cls = y->cls;
      if (y->s) n.s.reset(n.cls == "lin" ? new LinearAnalyticSystemModelGaussianUncertainty(*(LinearAnalyticSystemModelGaussianUncertainty*)y->s.get())
            : n.cls == "ana" ? new AnalyticSystemModelGaussianUncertainty(*(AnalyticSystemModelGaussianUncertainty*)y->s.get()) : new Sys(*y->s));
      else n.m.reset(n.cls == "lin" ? new LinearAnalyticMeasurementModelGaussianUncertainty(*(LinearAnalyticMeasurementModelGaussianUncertainty*)y->m.get())
            : n.cls == "ana" ? new AnalyticMeasurementModelGaussianUncertainty(*(AnalyticMeasurementModelGaussianUncertainty*)y->m.get()) : new Meas(*y->m));
      ms.push_back(move(n));
    } else if (op == "mset") { if (y->s) y->s->SystemPdfSet(o[pk].p.get()); else y->m->MeasurementPdfSet(o[pk].p.get()); }
    else if (op == "mmat") {
      bool first = a["i"].get<int>() == 1; Matrix m = mat(a["m"]);
      if (y->s) { auto* l = (LinearAnalyticSystemModelGaussianUncertainty*)y->s.get(); if (first) l->ASet(m); else l->BSet(m); }
      else { auto* l = (LinearAnalyticMeasurementModelGaussianUncertainty*)y->m.get(); if (first) l->HSet(m); else l->JSet(m); }
    } else if (op == "pred" || op == "mcov" || op == "mdf") {
      ColumnVector xx = cv(a["x"]), u = cv(a["u"]); mark(*y);
      if (y->s) { auto* l = (AnalyticSystemModelGaussianUncertainty*)y->s.get(); r["r"] = op == "pred" ? jv(l->PredictionGet(u, xx)) : op == "mcov" ? jm(l->CovarianceGet(u, xx)) : jm(l->df_dxGet(u, xx)); }
      else { auto* l = (AnalyticMeasurementModelGaussianUncertainty*)y->m.get(); r["r"] = op == "pred" ? jv(l->PredictionGet(u, xx)) : op == "mcov" ? jm(l->CovarianceGet(u, xx)) : jm(l->df_dxGet(u, xx)); }
    } else if (op == "mprob") {
      ColumnVector z = cv(a["y"]), x0 = cv(a["x"][0]); bool two = a["x"].size() == 2; mark(*y);
      r["p"] = num(pv(y->s ? (two ? y->s->ProbabilityGet(z, x0, cv(a["x"][1])) : y->s->ProbabilityGet(z, x0)) : (two ? y->m->ProbabilityGet(z, x0, cv(a["x"][1])) : y->m->ProbabilityGet(z, x0))));
    } else if (op == "msim") {
      ColumnVector x0 = cv(a["x"][0]); bool two = a["x"].size() == 2; SampleMthd m = method(a["how"]); mark(*y);
      rngscript::normals(dvec(a["z"]));
      r["s"] = jv(y->s ? (two ? y->s->Simulate(x0, cv(a["x"][1]), m) : y->s->Simulate(x0, m)) : (two ? y->m->Simulate(x0, cv(a["x"][1]), m) : y->m->Simulate(x0, m)));
    } else throw runtime_error("unknown op " + op);
    if (look.skip) return r;
    json ob = json::array(), mo = json::array();
    auto fp = [&] { for (auto& q : o) ob.push_back(obs(q)); };
    auto fm = [&] { for (auto& q : ms) mo.push_back(obsm(q)); };
    Ob()(fp)(fm).run();
    r["obs"] = ob; r["mod"] = mo;
    return r;
  }
  void mark(MObj& y) { int k = find(y); if (k >= 0) o[k].set.assign(o[k].set.size(), true); }
};
FAMILY("condg", CondG)
