// Gaussian and uniform pdfs
#include "h.h"
#include "pdf/gaussian.h"
#include "pdf/uniform.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;

static SampleMthd method(const string& s) {
  return s == "CHOLESKY" ? SampleMthd::CHOLESKY : s == "BOXMULLER" ? SampleMthd::BOXMULLER : s == "RIPLEY" ? SampleMthd::RIPLEY : SampleMthd::DEFAULT;
}
struct CObj { unique_ptr<Pdf<ColumnVector> > p; bool g, a = false, b = false;
  Gaussian* G() const { return (Gaussian*)p.get(); } Uniform* U() const { return (Uniform*)p.get(); } };
struct Cont : World {
  vector<CObj> o;
  json obs(const CObj& x) {
    json r;
    Ob()([&] { r["d"] = x.p->DimensionGet(); })
        ([&] { if (x.g && x.a) r["mean"] = jv(x.p->ExpectedValueGet()); else if (x.a) r["center"] = jv(x.U()->CenterGet()); })
        ([&] { if (x.g && x.b) r["cov"] = jm(x.p->CovarianceGet()); else if (!x.g && x.a) r["width"] = jv(x.U()->WidthGet()); }).run();
    return r;
  }
  json step(const string& op, const json& a) {
    json r;
    CObj* x = a.contains("k") ? &o[a["k"].get<int>() - 1] : 0;
    if (op == "new") {
      CObj n; n.g = a["t"] == "g"; n.a = n.b = a["how"] == "full";
      if (n.g) n.p.reset(a["how"] == "full" ? new Gaussian(cv(a["a"]), sym(a["b"])) : a["how"] == "dim" ? new Gaussian(a["d"].get<int>()) : new Gaussian());
      else n.p.reset(a["how"] == "full" ? new Uniform(cv(a["a"]), cv(a["b"][0])) : a["how"] == "dim" ? new Uniform(a["d"].get<int>()) : new Uniform());
      o.push_back(move(n));
    } else if (op == "copy") {
      CObj n; n.g = x->g; n.a = x->a; n.b = x->b;
      if (a["how"] == "clone") n.p.reset(x->p->Clone());
      else n.p.reset(x->g ? (Pdf<ColumnVector>*)new Gaussian(*x->G()) : (Pdf<ColumnVector>*)new Uniform(*x->U()));
      o.push_back(move(n));
    } else if (op == "assign") {
      CObj& y = o[a["from"].get<int>() - 1];
      if (x->g) *x->G() = *y.G(); else *x->U() = *y.U();
      x->a = y.a; x->b = y.b;
    } else if (op == "mset") { x->G()->ExpectedValueSet(cv(a["a"])); x->a = true; }
    else if (op == "cset") { x->G()->CovarianceSet(sym(a["b"])); x->b = true; }
    else if (op == "dset") { x->p->DimensionSet(a["d"].get<unsigned>()); x->a = x->b = false; }
    else if (op == "uset") { x->U()->UniformSet(cv(a["a"]), cv(a["b"][0])); x->a = x->b = true; }
    else if (op == "prob") { double p = pv(x->p->ProbabilityGet(cv(a["x"]))); r["p"] = num(p); r["lnp"] = num(log(p)); }
    else if (op == "sample" || op == "samples" || op == "refused") {
      unsigned d = x->p->DimensionGet();
      SampleMthd m = method(a["how"]);
      if (op == "refused") {
        rngscript::clear();
        vector<Sample<ColumnVector> > l; Sample<ColumnVector> s(d);
        r["ret"] = a["list"].get<bool>() ? x->p->SampleFrom(l, 2, m) : x->p->SampleFrom(s, m);
      } else {
        rngscript::clear();
        if (x->g) rngscript::normals(dvec(a["z"])); else rngscript::uniforms(dvec(a["z"]));
        json out = json::array();
        if (op == "sample") {
          Sample<ColumnVector> s(d); r["ret"] = x->p->SampleFrom(s, m); out.push_back(jv(s.ValueGet()));
        } else {
          vector<Sample<ColumnVector> > l(a["pre"].get<int>(), Sample<ColumnVector>(d));
          r["ret"] = x->p->SampleFrom(l, a["n"].get<unsigned>(), m);
          for (auto& s : l) out.push_back(jv(s.ValueGet()));
        }
        r["s"] = out;
      }
    } else throw runtime_error("unknown op " + op);
    if (look.skip) return r;
    json ob = json::array(); for (auto& y : o) ob.push_back(obs(y));
    r["obs"] = ob;
    return r;
  }
};
FAMILY("cont", Cont)
