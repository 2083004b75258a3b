// Particle filters over mixtures
#include "pfv.h"
#include "filter/mixtureBootstrapFilter.h"
#include "filter/mixtureParticleFilter.h"
#include "model/systemmodel.h"
#include "model/measurementmodel.h"

// the user's mixture maintenance, added to a filter class
template <class T, class F> struct Kept : F {
  string plan; int most; bool act = false, called = false;
  template <class... A> Kept(const json& st, A... a) : F(a...), plan(st["plan"].template get<string>()), most(st["most"].template get<int>()) { this->_proposal_depends_on_meas = false; }
  bool MaintainMixture() {
    called = true;
    if (!act) return true;
    Mixture<T>* m = this->PostGet();
    if (plan == "split" && (int)m->NumComponentsGet() < most) {
      MCPdf<T> c(*dynamic_cast<MCPdf<T>*>(m->ComponentGet(0)));
      Probability w = 0.25;
      return m->AddComponent(c, w);
    }
    if (plan == "grow") {
      MCPdf<T>* c = dynamic_cast<MCPdf<T>*>(m->ComponentGet(0));
      vector<WeightedSample<T> > l = c->ListOfSamplesGet();
      if (l.size() >= 9) return true;
      l.push_back(WeightedSample<T>(l[0]));
      return c->ListOfSamplesSet(l);
    }
    if (plan == "drop" && m->NumComponentsGet() > 1 && (double)m->WeightGet(0) < 0.9) return m->DeleteComponent(0);
    return true;
  }
};
template <class T> struct MW : World {
  typedef Kept<T, MixtureBootstrapFilter<T, T> > Boot; typedef Kept<T, MixtureParticleFilter<T, T> > Gen;
  unique_ptr<Mixture<T> > prior, given; unique_ptr<Boot> boot; unique_ptr<Gen> gen; MixtureParticleFilter<T, T>* f = 0;
  vector<SystemModel<T>*> sys; vector<MeasurementModel<T, T>*> meas; vector<ConditionalPdf<T, T>*> prop;
  int dim, d; bool tab;
  Mixture<T>* mix(const json& a) {
    vector<Pdf<T>*> c; vector<Probability> w;
    for (auto& x : a["cs"]) c.push_back(mclist<T>(x, dim));
    for (auto& x : a["mw"]) w.push_back(x.get<double>());
    Mixture<T>* m = new Mixture<T>(c);
    m->WeightsSet(w);
    for (auto* p : c) delete p;
    return m;
  }
  json show(Mixture<T>* m) {
    json r, c = json::array(), w = json::array();
    for (unsigned i = 0; i < m->NumComponentsGet(); i++) { c.push_back(particles(dynamic_cast<MCPdf<T>*>(m->ComponentGet(i)))); w.push_back(num((double)m->WeightGet(i))); }
    r["cs"] = c; r["mw"] = w; return r;
  }
  json step(const string& op, const json& a) {
    json r;
    if (op == "setup") {
      int per = a["period"], mper = a["mper"]; double thr = a["thr"];
      d = a["d"]; tab = a["kind"] == "table"; dim = tab ? 1 : d;
      prior.reset(mix(a));
      for (auto& m : a["sys"]) sys.push_back(new SystemModel<T>(V<T>::pdf(m, d, d)));
      for (auto& m : a["prop"]) prop.push_back(V<T>::pdf(m, d, d));
      for (auto& m : a["meas"]) meas.push_back(new MeasurementModel<T, T>(V<T>::pdf(m, d, tab ? m["nz"].get<int>() : d)));
      if (a["ft"] == "gen") { gen.reset(new Gen(a, prior.get(), prop[0], per, thr, DEFAULT_RS, mper)); f = gen.get(); }
      else { boot.reset(new Boot(a, prior.get(), per, thr, DEFAULT_RS, mper)); f = boot.get(); }
    } else if (op == "reset") {
      Mixture<T>* m = mix(a);
      if (a["base"].get<bool>()) static_cast<Filter<T, T>*>(f)->Reset(m); else f->Reset(m);
      given.reset(m);
    } else if (op == "priorset" || op == "postset") {
      Mixture<T>* m = op == "postset" ? f->PostGet() : a["g"].get<bool>() ? given.get() : prior.get();
      refill<T>(dynamic_cast<MCPdf<T>*>(m->ComponentGet(a["c"].get<int>())), a, dim);
    } else if (op == "retune") {
      int i = a["i"].get<int>() - 1, ny = tab && a["kind"] == "meas" ? a["m"]["nz"].get<int>() : d; bool fresh = a["how"] == "replace";
      if (a["kind"] == "sys") { if (fresh) sys[i]->SystemPdfSet(V<T>::pdf(a["m"], d, d)); else V<T>::edit(sys[i]->SystemPdfGet(), a); }
      else if (a["kind"] == "prop") { if (fresh) prop[i] = V<T>::pdf(a["m"], d, d); else V<T>::edit(prop[i], a); }
      else { if (fresh) meas[i]->MeasurementPdfSet(V<T>::pdf(a["m"], d, ny)); else V<T>::edit(meas[i]->MeasurementPdfGet(), a); }
    } else if (op == "upd") {
      int i = a["s"], j = a["m"];
      SystemModel<T>* s = i ? sys[i - 1] : 0;
      MeasurementModel<T, T>* m = j ? meas[j - 1] : 0;
      if (gen && i && f->ProposalGet() != prop[i - 1]) f->ProposalSet(prop[i - 1]);
      vector<double> un, nn;
      auto add = [](vector<double>& v, const json& x) { for (auto& y : x) v.push_back(y.template get<double>()); };
      for (auto& c : a["us1"]) add(un, c);
      for (auto& c : a["zs"]) for (auto& x : c) add(std::is_same<T, int>::value ? un : nn, x);
      for (auto& c : a["us2"]) add(un, c);
      rngscript::uniforms(un); rngscript::normals(nn);
      T u = V<T>::in(a["u"]), sp = V<T>::in(a["sp"]), z = V<T>::in(a["z"]);
      bool wu = a["wu"], ws = a["ws"], ret, act = a["act"];
      if (gen) { gen->act = act; gen->called = false; } else { boot->act = act; boot->called = false; }
      if (s && m) ret = wu ? (ws ? f->Update(s, u, m, z, sp) : f->Update(s, u, m, z)) : (ws ? f->Update(s, m, z, sp) : f->Update(s, m, z));
      else if (s) ret = wu ? f->Update(s, u) : f->Update(s);
      else ret = ws ? f->Update(m, z, sp) : f->Update(m, z);
      r["ret"] = ret; r["maint"] = gen ? gen->called : boot->called;
    } else throw runtime_error("unknown op " + op);
    r["ts"] = f->TimeStepGet();
    if (look.skip || (r["ret"].is_boolean() && !r["ret"].get<bool>())) return r;
    Ob()([&] { r.update(show(f->PostGet())); })([&] { mean(r, f->PostGet()); })([&] { r["prior"] = show(prior.get()); })([&] { if (given) r["given"] = show(given.get()); }).run();
    return r;
  }
  void mean(json&, Mixture<int>*) {}
  void mean(json& r, Mixture<ColumnVector>* m) { r["mean"] = jv(m->ExpectedValueGet()); }
};
struct Mpf : World {
  unique_ptr<World> w;
  json step(const string& op, const json& a) {
    if (op == "setup") { if (a["kind"] == "table") w.reset(new MW<int>); else w.reset(new MW<ColumnVector>); }
    return w->step(op, a);
  }
};
FAMILY("mpf", Mpf)
