// Mixtures
#include "h.h"
#include "pdf/gaussian.h"
#include "pdf/uniform.h"
#include "pdf/discretepdf.h"
#include "pdf/mixture.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;

static vector<Probability> probs(const json& j) { vector<Probability> v; for (auto& x : j) v.push_back(Probability(x.get<double>())); return v; }
static SampleMthd method(const string& s) { return s == "CHOLESKY" ? SampleMthd::CHOLESKY : s == "BOXMULLER" ? SampleMthd::BOXMULLER : SampleMthd::RIPLEY; }
template <class T> struct K;
template <> struct K<ColumnVector> {
  static ColumnVector in(const json& j) { return cv(j); }
  static json out(const ColumnVector& v) { return jv(v); }
  static Pdf<ColumnVector>* make(const json& c) {
    if (c["t"] == "g") return new Gaussian(cv(c["a"]), sym(c["b"]));
    return new Uniform(cv(c["a"]), cv(c["b"][0]));
  }
  static json show(Pdf<ColumnVector>* p) {
    json r;
    if (Gaussian* g = dynamic_cast<Gaussian*>(p)) { r["t"] = "g"; r["a"] = jv(g->ExpectedValueGet()); r["b"] = jm(g->CovarianceGet()); }
    else { Uniform* u = dynamic_cast<Uniform*>(p); r["t"] = "u"; r["a"] = jv(u->CenterGet()); r["b"] = json::array({jv(u->WidthGet())}); }
    return r;
  }
  static void touch(Pdf<ColumnVector>* p, const json& c) {
    if (Gaussian* g = dynamic_cast<Gaussian*>(p)) { g->ExpectedValueSet(cv(c["a"])); g->CovarianceSet(sym(c["b"])); }
    else dynamic_cast<Uniform*>(p)->UniformSet(cv(c["a"]), cv(c["b"][0]));
  }
  static bool gauss(Pdf<ColumnVector>* p) { return dynamic_cast<Gaussian*>(p) != 0; }
};
template <> struct K<int> {
  static int in(const json& j) { return j.get<int>() - 1; }
  static json out(int v) { return v; }
  static Pdf<int>* make(const json& c) { DiscretePdf* d = new DiscretePdf(c["p"].size()); vector<Probability> v = probs(c["p"]); d->ProbabilitiesSet(v); return d; }
  static json show(Pdf<int>* p) {
    json r; r["t"] = "d"; r["d"] = 1; json a = json::array();
    for (auto& x : dynamic_cast<DiscretePdf*>(p)->ProbabilitiesGet()) a.push_back(num((double)x));
    r["p"] = a; return r;
  }
  static void touch(Pdf<int>* p, const json& c) { vector<Probability> v = probs(c["p"]); dynamic_cast<DiscretePdf*>(p)->ProbabilitiesSet(v); }
  static bool gauss(Pdf<int>* p) { return true; }
};
// a density over numbers, as a user of the library may write one
struct Real : Pdf<double> {
  Gaussian g; mutable Sample<ColumnVector> s;
  Real(const json& c) : Pdf<double>(1), g(cv(c["a"]), sym(c["b"])), s(1) {}
  Real* Clone() const { return new Real(*this); }
  static ColumnVector v(double x) { ColumnVector r(1); r(1) = x; return r; }
  Probability ProbabilityGet(const double& x) const { return g.ProbabilityGet(v(x)); }
  bool SampleFrom(vector<Sample<double> >& l, const unsigned n, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const { return Pdf<double>::SampleFrom(l, n, m, a); }
  bool SampleFrom(Sample<double>& x, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const { bool r = g.SampleFrom(s, m, a); x.ValueSet(s.ValueGet()(1)); return r; }
  double ExpectedValueGet() const { return g.ExpectedValueGet()(1); }
};
template <> struct K<double> {
  static double in(const json& j) { return j[0].get<double>(); }
  static json out(double v) { return json::array({num(v)}); }
  static Pdf<double>* make(const json& c) { return new Real(c); }
  static json show(Pdf<double>* p) { Real* g = dynamic_cast<Real*>(p); return {{"t", "g"}, {"a", jv(g->g.ExpectedValueGet())}, {"b", jm(g->g.CovarianceGet())}}; }
  static void touch(Pdf<double>* p, const json& c) { Real* g = dynamic_cast<Real*>(p); g->g.ExpectedValueSet(cv(c["a"])); g->g.CovarianceSet(sym(c["b"])); }
  static bool gauss(Pdf<double>*) { return true; }
};
struct AnyMix { virtual ~AnyMix() {} virtual AnyMix* dup(bool) = 0; virtual json obs() = 0; virtual json step(const string&, const json&) = 0; };
template <class T> struct Mx : AnyMix {
  unique_ptr<Mixture<T> > m; unsigned d; bool ok = true;
  Mx(Mixture<T>* p, unsigned dim) : m(p), d(dim) {}
  AnyMix* dup(bool clone) { return new Mx(clone ? m->Clone() : new Mixture<T>(*m), d); }
  json obs() {
    json r; unsigned n = m->NumComponentsGet(); r["n"] = n;
    json c = json::array(); bool allg = true;
    if (n) {
      vector<Pdf<T>*> all = m->ComponentsGet();
      for (unsigned i = 0; i < n; i++) {
        Pdf<T>* p = m->ComponentGet(i); allg = allg && K<T>::gauss(p); c.push_back(K<T>::show(p));
        if (all.size() != n || all[i] != p) c.push_back("ComponentsGet differs");
      }
    }
    r["comp"] = c;
    if (n && ok) {
      json w = json::array();
      Ob()([&] { vector<Probability> ws = m->WeightsGet();
             for (unsigned i = 0; i < ws.size(); i++) { w.push_back(num((double)ws[i])); if ((double)m->WeightGet(i) != (double)ws[i]) w.push_back("WeightGet differs"); } })
          ([&] { r["top_any"] = json::array({m->MostProbableComponentGet()}); })
          ([&] { if (allg) { r["mean"] = K<T>::out(m->ExpectedValueGet()); r["mean_any"] = json::array({r["mean"]}); } }).run();
      r["w"] = w;
    }
    return r;
  }
  json step(const string& op, const json& a) {
    json r;
    if (op == "add" || op == "addw") {
      unique_ptr<Pdf<T> > p(K<T>::make(a["c"]));
      r["ret"] = op == "add" ? m->AddComponent(*p) : m->AddComponent(*p, Probability(a["w"].get<double>()));
    } else if (op == "del") r["ret"] = m->DeleteComponent(a["i"].get<int>() - 1);
    else if (op == "wset") r["ret"] = m->WeightSet(a["i"].get<int>() - 1, Probability(a["w"].get<double>()));
    else if (op == "wsets") { vector<Probability> v = probs(a["w"]); r["ret"] = ok = m->WeightsSet(v); }
    else if (op == "touch") K<T>::touch(a["all"].get<bool>() ? m->ComponentsGet()[a["i"].get<int>() - 1] : m->ComponentGet(a["i"].get<int>() - 1), a["c"]);
    else if (op == "prob") r["p"] = num((double)m->ProbabilityGet(K<T>::in(a["x"])));
    else if (op == "refused") {
      rngscript::clear(); Sample<T> s(d); vector<Sample<T> > l(1, Sample<T>(d));
      r["ret"] = a["list"].get<bool>() ? m->SampleFrom(l, 2, method(a["how"])) : m->SampleFrom(s, method(a["how"]));
    } else {
      rngscript::uniforms(dvec(a["u"])); rngscript::normals(dvec(a["z"]));
      json s = json::array();
      if (op == "sample") { Sample<T> x(d); r["ret"] = m->SampleFrom(x); s.push_back(K<T>::out(x.ValueGet())); }
      else {
        vector<Sample<T> > l(a["pre"].get<int>(), Sample<T>(d));
        r["ret"] = m->SampleFrom(l, a["n"].get<unsigned>(), op == "ripley" ? SampleMthd::RIPLEY : SampleMthd::DEFAULT);
        for (auto& x : l) s.push_back(K<T>::out(x.ValueGet()));
      }
      r["s"] = s;
    }
    return r;
  }
  static AnyMix* make(const json& a, unsigned d) {
    vector<Pdf<T>*> v;
    for (auto& c : a["c"]) v.push_back(K<T>::make(c));
    Mixture<T>* m = v.empty() ? new Mixture<T>(d) : new Mixture<T>(v);
    for (auto p : v) delete p;
    return new Mx(m, d);
  }
};
struct Mix : World {
  vector<unique_ptr<AnyMix> > o;
  json step(const string& op, const json& a) {
    json r;
    if (op == "new") o.emplace_back(a["t"] == "cv" ? Mx<ColumnVector>::make(a, a["d"]) : a["t"] == "real" ? Mx<double>::make(a, 1) : Mx<int>::make(a, 1));
    else if (op == "copy") o.emplace_back(o[a["k"].get<int>() - 1]->dup(a["how"] == "clone"));
    else r = o[a["k"].get<int>() - 1]->step(op, a);
    if (look.skip) return r;
    json ob = json::array(); for (auto& x : o) ob.push_back(x->obs());
    r["obs"] = ob;
    return r;
  }
};
FAMILY("mix", Mix)
