// Models of the Kalman specifications
#pragma once
#include "h.h"
#include "model/linearanalyticsystemmodel_gaussianuncertainty.h"
#include "model/linearanalyticmeasurementmodel_gaussianuncertainty.h"
#include "pdf/linearanalyticconditionalgaussian.h"
#include "pdf/analyticconditionalgaussian_additivenoise.h"
#include "pdf/conditionalgaussian_additivenoise.h"
// x' = A x + C x^2 + B u + mu, noise covariance (1 + g x_1^2) q
template <class Base> struct QuadOf : Base {
  MatrixWrapper::Matrix A, C, B; double gg;
  QuadOf(const json& m)
    : Base(BFL::Gaussian(cv(m["mu"]), sym(m["q"])), m["nu"].get<int>() ? 2 : 1)
    , A(mat(m["a"])), C(mat(m["c"])), gg(m["g"].get<double>()) { if (m["nu"].get<int>()) B = mat(m["b"]); }
  // the noise is given afterwards
  QuadOf(const json& m, bool)
    : Base(m["mu"].size(), m["nu"].get<int>() ? 2 : 1)
    , A(mat(m["a"])), C(mat(m["c"])), gg(m["g"].get<double>()) { if (m["nu"].get<int>()) B = mat(m["b"]); this->AdditiveNoiseMuSet(cv(m["mu"])); this->AdditiveNoiseSigmaSet(sym(m["q"])); }
  QuadOf* Clone() const { return new QuadOf(*this); }
  MatrixWrapper::ColumnVector ExpectedValueGet() const {
    MatrixWrapper::ColumnVector x = this->ConditionalArgumentGet(0), y = this->AdditiveNoiseMuGet();
    for (unsigned i = 1; i <= A.rows(); i++) for (unsigned j = 1; j <= A.columns(); j++) y(i) = y(i) + A(i, j) * x(j) + C(i, j) * x(j) * x(j);
    if (this->NumConditionalArgumentsGet() == 2) {
      MatrixWrapper::ColumnVector u = this->ConditionalArgumentGet(1);
      for (unsigned i = 1; i <= B.rows(); i++) for (unsigned j = 1; j <= B.columns(); j++) y(i) = y(i) + B(i, j) * u(j);
    }
    return y;
  }
  MatrixWrapper::Matrix dfGet(unsigned k) const {
    if (k) return B;
    MatrixWrapper::ColumnVector x = this->ConditionalArgumentGet(0);
    MatrixWrapper::Matrix J(A.rows(), A.columns());
    for (unsigned i = 1; i <= A.rows(); i++) for (unsigned j = 1; j <= A.columns(); j++) J(i, j) = A(i, j) + 2 * C(i, j) * x(j);
    return J;
  }
  MatrixWrapper::SymmetricMatrix CovarianceGet() const {
    if (gg == 0) return Base::CovarianceGet();
    MatrixWrapper::SymmetricMatrix s = this->AdditiveNoiseSigmaGet();
    double x = this->ConditionalArgumentGet(0)(1), f = 1 + gg * x * x;
    for (unsigned i = 1; i <= s.rows(); i++) for (unsigned j = 1; j <= i; j++) { double v = this->AdditiveNoiseSigmaGet()(i, j) * f; s(i, j) = v; s(j, i) = v; }
    return s;
  }
};
typedef QuadOf<BFL::AnalyticConditionalGaussianAdditiveNoise> QuadPdf;
typedef QuadOf<BFL::ConditionalGaussianAdditiveNoise> PlainPdf;
inline BFL::LinearAnalyticConditionalGaussian* linpdf(const json& m) {
  BFL::Gaussian g(cv(m["mu"]), sym(m["q"]));
  if (m["nu"].get<int>() == 0) return new BFL::LinearAnalyticConditionalGaussian(mat(m["a"]), g);
  std::vector<MatrixWrapper::Matrix> r; r.push_back(mat(m["a"])); r.push_back(mat(m["b"]));
  return new BFL::LinearAnalyticConditionalGaussian(r, g);
}
// all of a system model's contents
inline void setall(BFL::AnalyticSystemModelGaussianUncertainty* s, const json& m) {
  using namespace BFL;
  AnalyticConditionalGaussianAdditiveNoise* n = dynamic_cast<AnalyticConditionalGaussianAdditiveNoise*>(s->SystemPdfGet()); bool b = m["nu"].get<int>() > 0;
  n->AdditiveNoiseMuSet(cv(m["mu"])); n->AdditiveNoiseSigmaSet(sym(m["q"]));
  if (m["lin"].get<bool>()) {
    LinearAnalyticSystemModelGaussianUncertainty* l = dynamic_cast<LinearAnalyticSystemModelGaussianUncertainty*>(s);
    l->ASet(mat(m["a"])); if (b) l->BSet(mat(m["b"]));
  } else { QuadPdf* q = dynamic_cast<QuadPdf*>(n); q->A = mat(m["a"]); q->C = mat(m["c"]); if (b) q->B = mat(m["b"]); q->gg = m["g"].get<double>(); }
}
// a part of one of the models changes (spec: Retune)
inline void retune(std::vector<BFL::AnalyticSystemModelGaussianUncertainty*>& sys, std::vector<BFL::AnalyticMeasurementModelGaussianUncertainty*>& meas, const json& a) {
  using namespace BFL; using namespace MatrixWrapper; using std::string;
  int i = a["i"].get<int>() - 1; string w = a["w"]; bool lin = a["m"]["lin"];
      auto pdf = [&]() -> AnalyticConditionalGaussian* { if (lin) return linpdf(a["m"]); return new QuadPdf(a["m"]); };
      auto edit = [&](ConditionalPdf<ColumnVector, ColumnVector>* p) {
        AnalyticConditionalGaussianAdditiveNoise* n = dynamic_cast<AnalyticConditionalGaussianAdditiveNoise*>(p); QuadPdf* q = dynamic_cast<QuadPdf*>(p);
        if (w == "q") n->AdditiveNoiseSigmaSet(sym(a["v"])); else if (w == "mu") n->AdditiveNoiseMuSet(cv(a["v"]));
        else if (w == "a") q->A = mat(a["v"]); else if (w == "b") q->B = mat(a["v"]); else if (w == "c") q->C = mat(a["v"]); else q->gg = a["v"].get<double>();
      };
      if (a["kind"] == "sys") {
        if (a["how"] == "replace") sys[i]->SystemPdfSet(pdf());
        else if (lin && (w == "a" || w == "b")) {
          LinearAnalyticSystemModelGaussianUncertainty* m = dynamic_cast<LinearAnalyticSystemModelGaussianUncertainty*>(sys[i]);
          if (w == "a") m->ASet(mat(a["v"])); else m->BSet(mat(a["v"]));
        } else edit(sys[i]->SystemPdfGet());
      } else {
        if (a["how"] == "replace") meas[i]->MeasurementPdfSet(pdf());
        else if (lin && (w == "a" || w == "b")) {
          LinearAnalyticMeasurementModelGaussianUncertainty* m = dynamic_cast<LinearAnalyticMeasurementModelGaussianUncertainty*>(meas[i]);
          if (w == "a") m->HSet(mat(a["v"])); else m->JSet(mat(a["v"]));
        } else edit(meas[i]->MeasurementPdfGet());
      }
}
