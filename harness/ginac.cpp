// Symbolic conditional Gaussians and their models
#include "h.h"
#include "pdf/nonlinearanalyticconditionalgaussian_ginac.h"
#include "model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h"
#include "model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;
typedef NonLinearAnalyticConditionalGaussian_Ginac Gp;
typedef AnalyticSystemModelGaussianUncertainty Sys;
typedef AnalyticMeasurementModelGaussianUncertainty Meas;
struct Sym { GiNaC::matrix f; vector<GiNaC::symbol> x, u, c; };
static bool eq(const vector<GiNaC::symbol>& a, const vector<GiNaC::symbol>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!a[i].is_equal(b[i])) return false;
  return true;
}
static SampleMthd method(const string& s) { return s == "CHOLESKY" ? SampleMthd::CHOLESKY : SampleMthd::DEFAULT; }
struct PObj { unique_ptr<Gp> p; Sym s; bool x = false, u = false; };
struct MObj { unique_ptr<Sys> s; unique_ptr<Meas> m; unique_ptr<Gp> own; Sym y; bool gin, x = false, u = false;
  Gp* pdf() const { return dynamic_cast<Gp*>(s ? s->SystemPdfGet() : m->MeasurementPdfGet()); } };
struct GinacW : World {
  vector<PObj> o; vector<MObj> ms;
  json obs(Gp& p, bool ready) {
    json r;
    Ob()([&] { r["d"] = p.DimensionGet(); })([&] { r["n"] = p.NumConditionalArgumentsGet(); })
        ([&] { r["mu"] = jv(p.AdditiveNoiseMuGet()); })([&] { r["sig"] = jm(p.AdditiveNoiseSigmaGet()); })
        ([&] { if (ready) { r["x"] = jv(p.ConditionalArgumentGet(0)); r["u"] = jv(p.ConditionalArgumentGet(1)); } })
        ([&] { if (ready) r["mean"] = jv(p.ExpectedValueGet()); })
        ([&] { if (ready) r["cov"] = jm(p.CovarianceGet()); })
        ([&] { if (ready) r["df"] = jm(p.dfGet(0)); }).run();
    return r;
  }
  template <class A> json same(A& q, const Sym& s) {
    json r;
    Ob()([&] { GiNaC::matrix f = q.FunctionGet(); bool ok = f.rows() == s.f.rows() && f.cols() == 1;
           for (unsigned i = 0; ok && i < f.rows(); i++) ok = f(i, 0).is_equal(s.f(i, 0)); r["f"] = ok; })
        ([&] { r["x"] = eq(q.StateGet(), s.x); })([&] { r["u"] = eq(q.InputGet(), s.u); }).run();
    return r;
  }
  json step(const string& op, const json& a) {
    json r;
    PObj* x = a.contains("k") ? &o[a["k"].get<int>() - 1] : 0;
    MObj* y = a.contains("j") ? &ms[a["j"].get<int>() - 1] : 0;
    rngscript::clear();
    if (op == "new") {
      PObj n; int nx = a["nx"], nu = a["nu"], nf = a["f"].size();
      for (int i = 0; i < nx; i++) n.s.x.push_back(GiNaC::symbol("x" + to_string(i)));
      for (int i = 0; i < nu; i++) n.s.u.push_back(GiNaC::symbol("u" + to_string(i)));
      for (auto& c : a["cond"]) n.s.c.push_back(n.s.u[c.get<int>() - 1]);
      n.s.f = GiNaC::matrix(nf, 1);
      for (int i = 0; i < nf; i++) {
        GiNaC::ex e = 0;
        for (auto& m : a["f"][i]) {
          GiNaC::ex t = GiNaC::numeric(m["c"].get<double>());
          for (int k = 0; k < nx + nu; k++) t *= GiNaC::pow(k < nx ? n.s.x[k] : n.s.u[k - nx], m["e"][k].get<int>());
          e += t;
        }
        n.s.f(i, 0) = e;
      }
      Gaussian g(cv(a["mu"]), sym(a["q"]));
      if (n.s.c.empty()) n.p.reset(new Gp(n.s.f, n.s.u, n.s.x, g)); else n.p.reset(new Gp(n.s.f, n.s.u, n.s.x, g, n.s.c));
      o.push_back(move(n));
    } else if (op == "copy") {
      PObj n; n.s = x->s; n.x = x->x; n.u = x->u;
      if (a["how"] == "clone") n.p.reset(dynamic_cast<Gp*>(((Pdf<ColumnVector>*)x->p.get())->Clone())); else n.p.reset(new Gp(*x->p));
      if (!n.p) throw runtime_error("the clone is of another class");
      o.push_back(move(n));
    } else if (op == "assign") {
      PObj& f = o[a["from"].get<int>() - 1];
      *x->p = *f.p; x->s = f.s; x->x = f.x; x->u = f.u;
    } else if (op == "x") { x->p->ConditionalArgumentSet(0, cv(a["v"])); x->x = true; }
    else if (op == "u") { x->p->ConditionalArgumentSet(1, cv(a["v"])); x->u = true; }
    else if (op == "xu") { vector<ColumnVector> v; v.push_back(cv(a["x"])); v.push_back(cv(a["u"])); x->p->ConditionalArgumentsSet(v); x->x = x->u = true; }
    else if (op == "mu") x->p->AdditiveNoiseMuSet(cv(a["v"]));
    else if (op == "sigma") x->p->AdditiveNoiseSigmaSet(sym(a["q"]));
    else if (op == "prob") r["p"] = num((double)x->p->ProbabilityGet(cv(a["y"])));
    else if (op == "sample") {
      unsigned d = x->p->DimensionGet(), n = a["n"].get<unsigned>(); SampleMthd m = method(a["how"]);
      vector<double> z; for (auto& q : a["z"]) for (auto& w : q) z.push_back(w.get<double>());
      rngscript::normals(z);
      Pdf<ColumnVector>& q = *x->p; json out = json::array();
      if (n == 0) { Sample<ColumnVector> s(d); r["ret"] = q.SampleFrom(s, m, NULL); out.push_back(jv(s.ValueGet())); }
      else { vector<Sample<ColumnVector> > l(a["pre"].get<int>(), Sample<ColumnVector>(d)); r["ret"] = q.SampleFrom(l, n, m, NULL); for (auto& s : l) out.push_back(jv(s.ValueGet())); }
      r["s"] = out;
    } else if (op == "get") { r["same"] = same(*x->p, x->s); r["same"]["c"] = eq(x->p->ConditionalGet(), x->s.c); }
    else if (op == "mnew") {
      PObj& p = o[a["p"].get<int>() - 1]; MObj n; n.y = p.s; n.gin = a["cls"] == "ginac"; n.x = p.x; n.u = p.u;
      if (!n.gin) n.own.reset(new Gp(*p.p));
      if (a["t"] == "sys") n.s.reset(n.gin ? new NonLinearAnalyticSystemModelGaussianUncertainty_Ginac(p.p.get()) : new Sys(n.own.get()));
      else n.m.reset(n.gin ? new NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac(p.p.get()) : new Meas(n.own.get()));
      ms.push_back(move(n));
    } else if (op == "mget") {
      if (y->s) r["same"] = same(*(NonLinearAnalyticSystemModelGaussianUncertainty_Ginac*)y->s.get(), y->y);
      else { auto* m = (NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac*)y->m.get(); r["same"] = same(*m, y->y); r["same"]["c"] = eq(m->ConditionalGet(), y->y.c); }
      if (y->s) r["same"]["c"] = true;
    } else if (op == "mnoise") { y->pdf()->AdditiveNoiseMuSet(cv(a["mu"])); y->pdf()->AdditiveNoiseSigmaSet(sym(a["q"])); }
    else {
      ColumnVector xx = cv(a["x"]), u = cv(a["u"]); y->x = y->u = true;
      if (op == "pred") r["r"] = y->s ? jv(y->s->PredictionGet(u, xx)) : jv(y->m->PredictionGet(u, xx));
      else if (op == "mcov") r["r"] = y->s ? jm(y->s->CovarianceGet(u, xx)) : jm(y->m->CovarianceGet(u, xx));
      else if (op == "mdf") r["r"] = y->s ? jm(y->s->df_dxGet(u, xx)) : jm(y->m->df_dxGet(u, xx));
      else if (op == "mprob") r["p"] = num((double)(y->s ? y->s->ProbabilityGet(cv(a["y"]), xx, u) : y->m->ProbabilityGet(cv(a["y"]), xx, u)));
      else if (op == "msim") {
        rngscript::normals(dvec(a["z"]));
        r["s"] = y->s ? jv(y->s->Simulate(xx, u, method(a["how"]))) : jv(y->m->Simulate(xx, u, method(a["how"])));
      } else throw runtime_error("unknown op " + op);
    }
    if (look.skip) return r;
    json ob = json::array(), md = json::array();
    for (auto& p : o) ob.push_back(obs(*p.p, p.x && p.u));
    for (auto& m : ms) { json q = obs(*m.pdf(), m.x && m.u); q["size"] = m.s ? m.s->StateSizeGet() : m.m->MeasurementSizeGet(); q["plain"] = m.s ? m.s->SystemWithoutInputs() : m.m->SystemWithoutSensorParams(); md.push_back(q); }
    r["obs"] = ob; r["mod"] = md;
    return r;
  }
};
FAMILY("ginac", GinacW)
