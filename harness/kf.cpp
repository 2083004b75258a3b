// Kalman filters and the Rauch-Tung-Striebel smoother
#include "h.h"
#include "filter/extendedkalmanfilter.h"
#include "filter/iteratedextendedkalmanfilter.h"
#include "smoother/rauchtungstriebel.h"
#include "model/linearanalyticsystemmodel_gaussianuncertainty.h"
#include "model/linearanalyticmeasurementmodel_gaussianuncertainty.h"
#include "filter/SRiteratedextendedkalmanfilter.h"
#include "model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h"
#include "quad.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;

// A measurement model as the square root filter takes it: everything is
// computed for the arguments of df_dxGet.
struct Implicit : LinearAnalyticMeasurementModelGaussianUncertainty_Implicit {
  AnalyticMeasurementModelGaussianUncertainty* in; ColumnVector y; SymmetricMatrix R; Matrix H, sr; int ident;
  Implicit(LinearAnalyticConditionalGaussian* p, AnalyticMeasurementModelGaussianUncertainty* i, int id)
    : LinearAnalyticMeasurementModelGaussianUncertainty_Implicit(p), in(i), ident(id) {}
  void at(const ColumnVector& s, const ColumnVector& x) {
    y = in->PredictionGet(s, x); R = in->CovarianceGet(s, x); H = in->df_dxGet(s, x);
    unsigned n = R.rows(); Matrix l(n, n);
    for (unsigned i = 1; i <= n; i++) for (unsigned j = 1; j <= n; j++) {
      double v = R(i, j); for (unsigned k = 1; k < j && j <= i; k++) v -= l(i, k) * l(j, k);
      l(i, j) = j > i ? 0 : i == j ? sqrt(v) : v / l(j, j);
    }
    sr = l.transpose();
  }
  const ColumnVector& fGet() const { return y; }
  const int TypeGet() const { return 0; }
  Matrix& dfGet(int) { return H; }
  Matrix df_dxGet(const ColumnVector& z, const ColumnVector& x) { at(z, x); return H; }
  Matrix& df_dzGet(const ColumnVector&, const ColumnVector&) { return H; }
  ColumnVector PredictionGet(const ColumnVector& z, const ColumnVector& x) { at(z, x); return y; }
  ColumnVector ExpectedValueGet() { return y; }
  SymmetricMatrix& CovarianceGet() { return R; }
  SymmetricMatrix CovarianceGet(const ColumnVector& z, const ColumnVector& x) { at(z, x); return R; }
  void Calculate(const ColumnVector& x, const ColumnVector& z, const Matrix&) { at(z, x); }
  const Matrix& SRCovariance() const { return sr; }
  const int& Is_Identity() const { return ident; }
};
struct Kf : World {
  unique_ptr<Gaussian> prior, old; unique_ptr<KalmanFilter> f; unique_ptr<InnovationCheck> inn;
  ExtendedKalmanFilter* ekf = 0; SRIteratedExtendedKalmanFilter* srf = 0; vector<Implicit*> imp;
  vector<AnalyticSystemModelGaussianUncertainty*> sys; vector<AnalyticMeasurementModelGaussianUncertainty*> meas;
  json held;   // what the system models hold
  json g(Pdf<ColumnVector>* p) { json r; Ob()([&] { r["mean"] = jv(p->ExpectedValueGet()); })([&] { r["cov"] = jm(p->CovarianceGet()); }).run(); return r; }
  json step(const string& op, const json& a) {
    json r;
    if (op == "setup") {
      prior.reset(new Gaussian(cv(a["mu"]), sym(a["p"])));
      held = a["sys"];
      for (auto& m : a["sys"]) {
        if (m["lin"].get<bool>()) sys.push_back(new LinearAnalyticSystemModelGaussianUncertainty(linpdf(m)));
        else sys.push_back(new AnalyticSystemModelGaussianUncertainty(new QuadPdf(m)));
      }
      for (auto& m : a["meas"]) {
        if (m["lin"].get<bool>()) meas.push_back(new LinearAnalyticMeasurementModelGaussianUncertainty(linpdf(m)));
        else meas.push_back(new AnalyticMeasurementModelGaussianUncertainty(new QuadPdf(m)));
      }
      vector<unsigned> al; for (auto& x : a["alloc"]) al.push_back(x.get<unsigned>());
      if (a["ft"] == "ekf") {
        f.reset(ekf = new ExtendedKalmanFilter(prior.get()));
        if (al.size()) { ekf->AllocateMeasModelExt(al); ekf->AllocateMeasModelExt(al[0]); }
      } else if (a["ft"] == "sr") {
        f.reset(srf = new SRIteratedExtendedKalmanFilter(prior.get(), a["it"].get<unsigned>()));
        for (size_t i = 0; i < meas.size(); i++) imp.push_back(new Implicit(linpdf(a["meas"][i]), meas[i], i % 2));
      } else {
        if (a["inn"].is_number()) inn.reset(new InnovationCheck(a["inn"].get<double>()));
        IteratedExtendedKalmanFilter* q = new IteratedExtendedKalmanFilter(prior.get(), a["it"].get<unsigned>(), inn.get());
        f.reset(q);
        if (al.size()) { q->AllocateMeasModelIExt(al); q->AllocateMeasModelIExt(al[0]); }
      }
      if (al.size()) { f->AllocateMeasModel(al); f->AllocateMeasModel(al[0]); }
    } else if (op == "upd") {
      int i = a["s"], j = a["m"];
      SystemModel<ColumnVector>* s = i ? sys[i - 1] : 0;
      MeasurementModel<ColumnVector, ColumnVector>* m = !j ? 0 : srf ? (MeasurementModel<ColumnVector, ColumnVector>*)imp[j - 1] : meas[j - 1];
      ColumnVector u = cv(a["u"]), sp = cv(a["sp"]), z = cv(a["z"]);
      bool wu = a["wu"], ws = a["ws"], ret;
      if (s && m) ret = wu ? (ws ? f->Update(s, u, m, z, sp) : f->Update(s, u, m, z)) : (ws ? f->Update(s, m, z, sp) : f->Update(s, m, z));
      else if (s) ret = wu ? f->Update(s, u) : f->Update(s);
      else ret = ws ? f->Update(m, z, sp) : f->Update(m, z);
      r["ret"] = ret;
    } else if (op == "nis") {
      r["nis"] = num(ekf->NisGet(meas[a["m"].get<int>() - 1], cv(a["z"])));
    } else if (op == "retune") {
      retune(sys, meas, a);
      if (a["kind"] == "sys") held[a["i"].get<int>() - 1] = a["m"];
    } else if (op == "write") {
      Gaussian* g = a["post"].get<bool>() ? f->PostGet() : prior.get();
      if (a["part"] != "cov") g->ExpectedValueSet(cv(a["mu"]));
      if (a["part"] != "mean") g->CovarianceSet(sym(a["p"]));
    } else if (op == "reset") {
      Gaussian* n = new Gaussian(cv(a["mu"]), sym(a["p"]));
      f->Reset(n); old = std::move(prior); prior.reset(n);
    } else if (op == "priorset") {
      ColumnVector x = cv(a["mu"]); SymmetricMatrix p = sym(a["p"]);
      srf->PriorSet(x, p);
      if (a["how"] != "none") srf->SRCovarianceSet(mat(a["l"]));
    } else if (op == "smooth") {
      Gaussian given(f->PostGet()->ExpectedValueGet(), f->PostGet()->CovarianceGet()), other(given);
      other.ExpectedValueSet(given.ExpectedValueGet() * 3.0);
      RauchTungStriebel b(a["re"].get<bool>() ? &other : &given);
      if (a["re"].get<bool>()) b.Reset(&given);
      json out = json::array(), now = held; bool ret = true;
      for (auto& e : a["steps"]) {
        int i = e["s"].get<int>() - 1;
        if (e["m"] != held[i]) { setall(sys[i], e["m"]); held[i] = e["m"]; }
        Gaussian filtered(cv(e["mu"]), sym(e["p"]));
        ret = (e["wu"].get<bool>() ? b.Update(sys[e["s"].get<int>() - 1], cv(e["u"]), &filtered) : b.Update(sys[e["s"].get<int>() - 1], &filtered)) && ret;
        out.push_back(g(b.PostGet()));
      }
      for (size_t i = 0; i < sys.size(); i++) if (held[i] != now[i]) setall(sys[i], held[i] = now[i]);
      r["sm"] = out; r["ret"] = ret; r["given"] = g(&given);
    } else throw runtime_error("unknown op " + op);
    if (look.skip) return r;
    r.update(g(f->PostGet()));
    if (srf) { Matrix l = srf->SRCovarianceGet(); r["sq"] = jm(Matrix(l * l.transpose())); }
    r["prior"] = g(prior.get());
    return r;
  }
};
FAMILY("kf", Kf)
