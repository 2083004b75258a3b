// Histogram filter
#include "h.h"
#include "filter/histogramfilter.h"
#include "pdf/discreteconditionalpdf.h"
#include "model/measurementmodel.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;

// A continuous measurement of a discrete state: z(1) selects a column.
struct TabPdf : ConditionalPdf<ColumnVector, int> {
  json t;
  TabPdf(const json& tab, int nargs) : ConditionalPdf<ColumnVector, int>(1, nargs), t(tab) {}
  TabPdf* Clone() const { return new TabPdf(*this); }
  Probability ProbabilityGet(const ColumnVector& z) const {
    int s = NumConditionalArgumentsGet() > 1 ? ConditionalArgumentGet(1) : 0;
    return t[s][ConditionalArgumentGet(0)][(int)(z(1) + 0.5)].get<double>();
  }
};
static DiscreteConditionalPdf* sysPdf(const json& t, int nu, int n) {
  int dims[2] = {n, nu};
  DiscreteConditionalPdf* p = new DiscreteConditionalPdf(n, nu ? 2 : 1, dims);
  for (int u = 0; u < (int)t.size(); u++) for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) {
    vector<int> c(1, x); if (nu) c.push_back(u);
    p->ProbabilitySet(t[u][x][y].get<double>(), y, c);
  }
  return p;
}
template <class MV> struct Z;
template <> struct Z<int> {
  static int z(int k) { return k; }
  static ConditionalPdf<int, int>* pdf(const json& m, int n) {
    int ns = m["ns"], dims[2] = {n, ns};
    DiscreteConditionalPdf* p = new DiscreteConditionalPdf(m["nz"].get<int>(), ns ? 2 : 1, dims);
    for (int s = 0; s < (int)m["t"].size(); s++) for (int x = 0; x < n; x++) for (int z = 0; z < m["nz"].get<int>(); z++) {
      vector<int> c(1, x); if (ns) c.push_back(s);
      p->ProbabilitySet(m["t"][s][x][z].get<double>(), z, c);
    }
    return p;
  }
  static void edit(ConditionalPdf<int, int>* p, const json& m, int s, int x, const json& v) {
    vector<int> c(1, x); if (m["ns"].get<int>()) c.push_back(s);
    for (int z = 0; z < (int)v.size(); z++) ((DiscreteConditionalPdf*)p)->ProbabilitySet(v[z].get<double>(), z, c);
  }
};
template <> struct Z<ColumnVector> {
  static ColumnVector z(int k) { ColumnVector v(1); v(1) = k; return v; }
  static ConditionalPdf<ColumnVector, int>* pdf(const json& m, int) { return new TabPdf(m["t"], m["ns"].get<int>() ? 2 : 1); }
  static void edit(ConditionalPdf<ColumnVector, int>* p, const json&, int s, int x, const json& v) { ((TabPdf*)p)->t[s][x] = v; }
};

template <class MV> struct HW : World {
  unique_ptr<DiscretePdf> prior, old; unique_ptr<HistogramFilter<MV> > f;
  vector<DiscreteSystemModel*> sys; vector<MeasurementModel<MV, int>*> meas; json st;
  json probs(DiscretePdf* p) { json v = json::array(); for (auto& x : p->ProbabilitiesGet()) v.push_back(num((double)x)); return v; }
  json step(const string& op, const json& a) {
    json r;
    if (op == "setup") {
      st = a; int n = a["n"];
      prior.reset(new DiscretePdf(n));
      vector<Probability> v; for (auto& x : a["prior"]) v.push_back(x.get<double>());
      prior->ProbabilitiesSet(v);
      f.reset(new HistogramFilter<MV>(prior.get()));
      for (auto& m : a["sys"]) {
        sys.push_back(new DiscreteSystemModel(sysPdf(m["t"], m["nu"], n)));
      }
      for (auto& m : a["meas"]) meas.push_back(new MeasurementModel<MV, int>(Z<MV>::pdf(m, n)));
    } else if (op == "reset") {
      DiscretePdf* p = new DiscretePdf(st["n"].get<int>());
      vector<Probability> v; for (auto& x : a["v"]) v.push_back(x.get<double>());
      p->ProbabilitiesSet(v);
      f->Reset(p); old = std::move(prior); prior.reset(p);
    } else if (op == "priorset" || op == "postset") {
      vector<Probability> v; for (auto& x : a["v"]) v.push_back(x.get<double>());
      (op == "priorset" ? prior.get() : f->PostGet())->ProbabilitiesSet(v);
    } else if (op == "retune") {
      int i = a["i"].get<int>() - 1, u = a["u"], x = a["x"], n = st["n"]; bool fresh = a["how"] == "replace";
      if (a["kind"] == "sys") {
        int nu = st["sys"][i]["nu"];
        if (fresh) sys[i]->SystemPdfSet(sysPdf(a["t"], nu, n));
        else for (int y = 0; y < n; y++) {
          vector<int> c(1, x); if (nu) c.push_back(u);
          ((DiscreteConditionalPdf*)sys[i]->SystemPdfGet())->ProbabilitySet(a["v"][y].get<double>(), y, c);
        }
      } else {
        json m = st["meas"][i]; m["t"] = a["t"];
        if (fresh) meas[i]->MeasurementPdfSet(Z<MV>::pdf(m, n));
        else Z<MV>::edit(meas[i]->MeasurementPdfGet(), m, u, x, a["v"]);
      }
      r["ret"] = 0;
    } else if (op == "upd") {
      SystemModel<int>* s = a["s"].get<int>() ? sys[a["s"].get<int>() - 1] : 0;
      MeasurementModel<MV, int>* m = a["m"].get<int>() ? meas[a["m"].get<int>() - 1] : 0;
      int u = a["u"], sp = a["sp"]; MV z = Z<MV>::z(a["z"]);
      bool wu = a["wu"], ws = a["ws"], ret;
      if (s && m) ret = wu ? (ws ? f->Update(s, u, m, z, sp) : f->Update(s, u, m, z)) : (ws ? f->Update(s, m, z, sp) : f->Update(s, m, z));
      else if (s) ret = wu ? f->Update(s, u) : f->Update(s);
      else ret = ws ? f->Update(m, z, sp) : f->Update(m, z);
      r["ret"] = ret;
    } else if (op == "query") {
      int n = st["n"], u = a["u"], sp = a["sp"], i = a["s"].get<int>() - 1, j = a["m"].get<int>() - 1;
      json t = json::array(), l = json::array();
      for (int x = 0; x < n; x++) {
        json row = json::array();
        for (int y = 0; y < n; y++) row.push_back(num((double)(sys[i]->SystemWithoutInputs() ? sys[i]->ProbabilityGet(y, x) : sys[i]->ProbabilityGet(y, x, u))));
        t.push_back(row); row = json::array();
        for (int z = 0; z < st["meas"][j]["nz"].get<int>(); z++)
          row.push_back(num((double)(meas[j]->SystemWithoutSensorParams() ? meas[j]->ProbabilityGet(Z<MV>::z(z), x) : meas[j]->ProbabilityGet(Z<MV>::z(z), x, sp))));
        l.push_back(row);
      }
      r["sys"] = t; r["meas"] = l;
    } else throw runtime_error("unknown op " + op);
    if (look.skip) return r;
    r["post"] = probs(f->PostGet());
    r["prior"] = probs(prior.get());
    return r;
  }
};
struct HistW : World {
  unique_ptr<World> w;
  json step(const string& op, const json& a) {
    if (op == "setup") { if (a["kind"] == "int") w.reset(new HW<int>); else w.reset(new HW<ColumnVector>); }
    return w->step(op, a);
  }
};
FAMILY("hist", HistW)
