// Particle filter with an extended Kalman filter as proposal; the proposal density
#include "pfv.h"
#include "quad.h"
#include "filter/EKparticlefilter.h"
#include "pdf/EKF_proposaldensity.h"
#include "model/linearanalyticsystemmodel_gaussianuncertainty.h"
#include "model/linearanalyticmeasurementmodel_gaussianuncertainty.h"
typedef ColumnVector CVec;
struct Ekpf : World {
  unique_ptr<MCPdf<CVec> > prior, given; unique_ptr<EKParticleFilter> f; unique_ptr<EKFProposalDensity> q; int d; bool late;
  vector<AnalyticSystemModelGaussianUncertainty*> sys; vector<AnalyticMeasurementModelGaussianUncertainty*> meas; int qi, qj;
  json step(const string& op, const json& a) {
    json r;
    if (op == "setup") {
      d = a["d"]; late = a["late"]; qi = qj = -1;
      prior.reset(mclist<CVec>(a, d));
      for (auto& m : a["sys"]) sys.push_back(m["lin"].get<bool>() ? new LinearAnalyticSystemModelGaussianUncertainty(linpdf(m)) : new AnalyticSystemModelGaussianUncertainty(new QuadPdf(m)));
      for (auto& m : a["meas"]) meas.push_back(m["lin"].get<bool>() ? new LinearAnalyticMeasurementModelGaussianUncertainty(linpdf(m)) : new AnalyticMeasurementModelGaussianUncertainty(new QuadPdf(m)));
      f.reset(new EKParticleFilter(prior.get(), a["period"].get<int>(), a["thr"].get<double>()));
    } else if (op == "reset") { MCPdf<CVec>* p = mclist<CVec>(a, d); f->Reset(p); given.reset(p); }
    else if (op == "retune") retune(sys, meas, a);
    else if (op == "priorset") refill<CVec>(a["g"].get<bool>() ? given.get() : prior.get(), a, d);
    else if (op == "postset") refill<CVec>(f->PostGet(), a, d);
    else if (op == "upd") {
      int i = a["s"].get<int>() - 1, j = a["m"].get<int>() - 1; bool wu = a["wu"], ws = a["ws"];
      CVec u = cv(a["u"]), s = cv(a["sp"]), z = cv(a["z"]);
      vector<double> us = dvec(a["us1"]), u2 = dvec(a["us2"]), zz; us.insert(us.end(), u2.begin(), u2.end());
      for (auto& x : a["zs"]) for (auto& y : x) zz.push_back(y.get<double>());
      rngscript::uniforms(us); rngscript::normals(zz);
      r["ret"] = wu ? (ws ? f->Update(sys[i], u, meas[j], z, s) : f->Update(sys[i], u, meas[j], z)) : (ws ? f->Update(sys[i], meas[j], z, s) : f->Update(sys[i], meas[j], z));
    } else if (op == "ask") {
      int i = a["s"].get<int>() - 1, j = a["m"].get<int>() - 1;
      if (!q) { if (late) q.reset(new EKFProposalDensity(0, 0)); else { q.reset(new EKFProposalDensity(sys[i], meas[j])); qi = i; qj = j; } }
      if (qi != i) q->SystemModelSet(sys[i]);
      if (qj != j) q->MeasurementModelSet(meas[j]);
      qi = i; qj = j;
      SymmetricMatrix c = sym(a["c"]);
      if (!a["kc"].get<bool>()) q->SampleCovSet(c);
      int nu = sys[i]->SystemWithoutInputs() ? 0 : 1, ns = meas[j]->SystemWithoutSensorParams() ? 0 : 1;
      if (!a["kx"].get<bool>()) q->ConditionalArgumentSet(0, cv(a["x"]));
      if (!a["ka"].get<bool>()) { if (nu) q->ConditionalArgumentSet(1, cv(a["u"])); if (ns) q->ConditionalArgumentSet(2 + nu, cv(a["sp"])); }
      if (!a["kz"].get<bool>()) q->ConditionalArgumentSet(1 + nu, cv(a["z"]));
      rngscript::normals(dvec(a["xi"]));
      Ob()([&] { Sample<CVec> s(d); q->SampleFrom(s, SampleMthd::DEFAULT, NULL); r["draw"] = jv(s.ValueGet()); })
          ([&] { r["dprob"] = num(pv(q->ProbabilityGet(cv(a["y"])))); })([&] { r["dmean"] = jv(q->ExpectedValueGet()); })
          ([&] { r["dcov"] = jm(q->CovarianceGet()); }).run();
    } else throw runtime_error("unknown op " + op);
    r["ts"] = f->TimeStepGet();
    if (look.skip) return r;
    Ob()([&] { r.update(particles(f->PostGet())); })([&] { r["mean"] = jv(f->PostGet()->ExpectedValueGet()); })([&] { r["prior"] = particles(prior.get()); })
        ([&] { if (given) r["given"] = particles(given.get()); }).run();
    return r;
  }
};
FAMILY("ekpf", Ekpf)
