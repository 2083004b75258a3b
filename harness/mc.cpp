// Monte Carlo pdfs
#include "h.h"
#include "pdf/mcpdf.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;

static SampleMthd method(const string& s) { return s == "CHOLESKY" ? SampleMthd::CHOLESKY : s == "BOXMULLER" ? SampleMthd::BOXMULLER : SampleMthd::RIPLEY; }
template <class T> struct Val;
template <> struct Val<ColumnVector> {
  static ColumnVector in(const json& j) { return cv(j); }
  static json out(const ColumnVector& v) { return jv(v); }
};
template <> struct Val<unsigned int> {
  static unsigned in(const json& j) { return (unsigned)(j[0].get<double>() + 0.5); }
  static json out(unsigned v) { return json::array({(double)v}); }
};
struct Any { virtual ~Any() {} virtual Any* dup(bool clone) = 0; virtual json obs(bool ok) = 0; virtual json step(const string&, const json&) = 0; virtual json from(Any*, const string&, const json&) = 0; bool ok = false; };
template <class T> struct Obj : Any {
  MCPdf<T>* p; unsigned d;
  Obj(MCPdf<T>* q, unsigned dim) : p(q), d(dim) {}
  ~Obj() { delete p; }
  Any* dup(bool clone) { Obj* o = new Obj(clone ? p->Clone() : new MCPdf<T>(*p), d); o->ok = ok; return o; }
  json obs(bool ok) {
    json r; r["n"] = p->NumSamplesGet();
    if (!ok) return r;
    json v = json::array(), w = json::array(), c = json::array();
    const vector<WeightedSample<T> >& l = p->ListOfSamplesGet();
    for (unsigned i = 0; i < l.size(); i++) {
      v.push_back(Val<T>::out(l[i].ValueGet())); w.push_back(num(l[i].WeightGet()));
      if (Val<T>::out(p->SampleGet(i).ValueGet()) != v.back() || p->SampleGet(i).WeightGet() != l[i].WeightGet()) v.push_back("SampleGet differs");
    }
    r["v"] = v; r["w"] = w;
    Ob()([&] { for (double x : p->CumulativePDFGet()) c.push_back(num(x)); })
        ([&] { r["mean"] = Val<T>::out(p->ExpectedValueGet()); })
        ([&] { SymmetricMatrix s = p->CovarianceGet(); r["cov"] = jm(s); }).run();
    r["cum"] = c;
    return r;
  }
  json from(Any* q, const string& op, const json& a) {
    json r; MCPdf<T>* s = static_cast<Obj<T>*>(q)->p;
    if (op == "assign") *p = *s;
    else r["ret"] = a["upd"].get<bool>() ? p->ListOfSamplesUpdate(s->ListOfSamplesGet()) : p->ListOfSamplesSet(s->ListOfSamplesGet());
    ok = true;
    return r;
  }
  json step(const string& op, const json& a) {
    json r;
    if (op == "setw" || op == "updw") {
      vector<WeightedSample<T> > l(a["v"].size(), WeightedSample<T>(d));
      for (unsigned i = 0; i < l.size(); i++) { l[i].ValueSet(Val<T>::in(a["v"][i])); l[i].WeightSet(a["w"][i].get<double>()); }
      bool ret = op == "setw" ? p->ListOfSamplesSet(l) : p->ListOfSamplesUpdate(l);
      r["ret"] = ret; ok = ret;
    } else if (op == "setu" || op == "updu") {
      vector<Sample<T> > l(a["v"].size(), Sample<T>(d));
      for (unsigned i = 0; i < l.size(); i++) l[i].ValueSet(Val<T>::in(a["v"][i]));
      r["ret"] = op == "setu" ? p->ListOfSamplesSet(l) : p->ListOfSamplesUpdate(l);
      ok = true;
    } else if (op == "resize") { p->NumSamplesSet(a["n"].get<unsigned>()); ok = false; }
    else if (op == "sample") {
      rngscript::uniforms({a["u"].get<double>()});
      Sample<T> s(d); r["ret"] = p->SampleFrom(s);
      r["s"] = json::array({Val<T>::out(s.ValueGet())});
    } else if (op == "samples" || op == "ripley") {
      rngscript::uniforms(dvec(a["u"]));
      vector<Sample<T> > l(a["pre"].get<int>(), Sample<T>(d));
      r["ret"] = p->SampleFrom(l, a["u"].size(), op == "ripley" ? SampleMthd::RIPLEY : SampleMthd::DEFAULT);
      json s = json::array(); for (auto& x : l) s.push_back(Val<T>::out(x.ValueGet()));
      r["s"] = s;
    } else if (op == "refused") {
      rngscript::clear(); Sample<T> s(d); vector<Sample<T> > l(1, Sample<T>(d));
      r["ret"] = a["list"].get<bool>() ? p->SampleFrom(l, 2, method(a["how"])) : p->SampleFrom(s, method(a["how"]));
    } else throw runtime_error("unknown op " + op);
    return r;
  }
};
struct Mc : World {
  vector<unique_ptr<Any> > o;
  json step(const string& op, const json& a) {
    json r;
    if (op == "new") {
      unsigned n = a["n"], d = a["d"];
      if (a["t"] == "cv") o.emplace_back(new Obj<ColumnVector>(new MCPdf<ColumnVector>(n, d), d));
      else o.emplace_back(new Obj<unsigned>(new MCPdf<unsigned>(n, 1), 1));
    } else if (op == "copy") o.emplace_back(o[a["k"].get<int>() - 1]->dup(a["how"] == "clone"));
    else if (op == "assign" || op == "from") r = o[a["k"].get<int>() - 1]->from(o[a["from"].get<int>() - 1].get(), op, a);
    else r = o[a["k"].get<int>() - 1]->step(op, a);
    if (look.skip) return r;
    json ob = json::array();
    for (auto& x : o) ob.push_back(x->obs(x->ok));
    r["obs"] = ob;
    return r;
  }
};
FAMILY("mc", Mc)
