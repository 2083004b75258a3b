// Values and conditional pdfs of the particle filter harnesses
#pragma once
#include "h.h"
#include "pdf/mcpdf.h"
#include "pdf/linearanalyticconditionalgaussian.h"
#include "pdf/discreteconditionalpdf.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;
template <class T> struct V;
template <> struct V<ColumnVector> {
  static ColumnVector in(const json& j) { return cv(j); }
  static json out(const ColumnVector& v) { return jv(v); }
  static ConditionalPdf<ColumnVector, ColumnVector>* pdf(const json& m, int, int) {
    Gaussian g(cv(m["mu"]), sym(m["q"]));
    if (m["nu"].get<int>() == 0) return new LinearAnalyticConditionalGaussian(mat(m["a"]), g);
    vector<Matrix> r; r.push_back(mat(m["a"])); r.push_back(mat(m["b"]));
    return new LinearAnalyticConditionalGaussian(r, g);
  }
  static void edit(ConditionalPdf<ColumnVector, ColumnVector>* q, const json& e) {
    LinearAnalyticConditionalGaussian* p = (LinearAnalyticConditionalGaussian*)q; string w = e["w"];
    if (w == "a") p->MatrixSet(0, mat(e["v"]));
    else if (w == "b") p->MatrixSet(1, mat(e["v"]));
    else if (w == "mu") p->AdditiveNoiseMuSet(cv(e["v"]));
    else p->AdditiveNoiseSigmaSet(sym(e["v"]));
  }
  static void mean(json& r, MCPdf<ColumnVector>* p) { r["mean"] = jv(p->ExpectedValueGet()); }
};
template <> struct V<int> {
  static int in(const json& j) { return (int)lround(j[0].get<double>()); }
  static json out(int v) { return json::array({(double)v}); }
  static ConditionalPdf<int, int>* pdf(const json& m, int nx, int ny) {
    int nu = m["nu"], dims[2] = {nx, nu};
    DiscreteConditionalPdf* p = new DiscreteConditionalPdf(ny, nu ? 2 : 1, dims);
    for (int u = 0; u < (int)m["t"].size(); u++) for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++) {
      vector<int> c(1, x); if (nu) c.push_back(u);
      p->ProbabilitySet(m["t"][u][x][y].get<double>(), y, c);
    }
    return p;
  }
  static void edit(ConditionalPdf<int, int>* p, const json& e) {
    vector<int> c(1, e["x"].get<int>()); if (e["m"]["nu"].get<int>()) c.push_back(e["u"]);
    for (int y = 0; y < (int)e["v"].size(); y++) ((DiscreteConditionalPdf*)p)->ProbabilitySet(e["v"][y].get<double>(), y, c);
  }
  static void mean(json&, MCPdf<int>*) {}
};
template <class T> vector<WeightedSample<T> > samples(const json& a, int dim) {
  int n = a["v"].size();
  vector<WeightedSample<T> > l(n, WeightedSample<T>(dim));
  for (int i = 0; i < n; i++) { l[i].ValueSet(V<T>::in(a["v"][i])); l[i].WeightSet(a["w"][i].get<double>()); }
  return l;
}
// other contents for an existing density
template <class T> void refill(MCPdf<T>* p, const json& a, int dim) {
  vector<WeightedSample<T> > l = samples<T>(a, dim);
  if (l.size() == p->NumSamplesGet()) p->ListOfSamplesUpdate(l); else p->ListOfSamplesSet(l);
}
template <class T> MCPdf<T>* mclist(const json& a, int dim) {
  int n = a["v"].size();
  MCPdf<T>* p = new MCPdf<T>(n, dim);
  p->ListOfSamplesSet(samples<T>(a, dim));
  return p;
}
template <class T> json particles(MCPdf<T>* p) {
  json r, v = json::array(), w = json::array();
  for (auto& x : p->ListOfSamplesGet()) { v.push_back(V<T>::out(x.ValueGet())); w.push_back(num(x.WeightGet())); }
  r["v"] = v; r["w"] = w; return r;
}
