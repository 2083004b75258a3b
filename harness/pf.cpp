// Particle filters
#include "pfv.h"
#include "filter/bootstrapfilter.h"
#include "filter/particlefilter.h"
#include "model/systemmodel.h"
#include "model/measurementmodel.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;

template <class T> struct GenPF : ParticleFilter<T, T> {
  GenPF(MCPdf<T>* prior, ConditionalPdf<T, T>* q, int per, double thr) : ParticleFilter<T, T>(prior, q, per, thr) { this->_proposal_depends_on_meas = false; }
  GenPF(MCPdf<T>* prior, MCPdf<T>* post, ConditionalPdf<T, T>* q, int per, double thr) : ParticleFilter<T, T>(prior, post, q, per, thr) { this->_proposal_depends_on_meas = false; }
};
template <class T> struct PW : World {
  unique_ptr<MCPdf<T> > prior, post, given; unique_ptr<ParticleFilter<T, T> > f;
  vector<SystemModel<T>*> sys; vector<MeasurementModel<T, T>*> meas; vector<ConditionalPdf<T, T>*> prop;
  bool gen, tab; int dim, d;
  json step(const string& op, const json& a) {
    json r;
    if (op == "setup") {
      int n = a["n"], per = a["period"]; double thr = a["thr"];
      d = a["d"]; tab = a["kind"] == "table"; dim = tab ? 1 : d;
      gen = a["ft"] == "gen";
      prior.reset(mclist<T>(a, dim));
      for (auto& m : a["sys"]) sys.push_back(new SystemModel<T>(V<T>::pdf(m, d, d)));
      for (auto& m : a["prop"]) prop.push_back(V<T>::pdf(m, d, d));
      for (auto& m : a["meas"]) meas.push_back(new MeasurementModel<T, T>(V<T>::pdf(m, d, tab ? m["nz"].get<int>() : d)));
      if (a["userpost"].get<bool>()) {
        post.reset(new MCPdf<T>(n, dim));
        if (gen) f.reset(new GenPF<T>(prior.get(), post.get(), prop[0], per, thr));
        else f.reset(new BootstrapFilter<T, T>(prior.get(), post.get(), per, thr));
      } else {
        if (gen) f.reset(new GenPF<T>(prior.get(), prop[0], per, thr));
        else f.reset(new BootstrapFilter<T, T>(prior.get(), per, thr));
      }
    } else if (op == "reset") {
      MCPdf<T>* p = mclist<T>(a, dim); f->Reset(p); given.reset(p);
    } else if (op == "priorset") refill<T>(a["g"].get<bool>() ? given.get() : prior.get(), a, dim);
    else if (op == "postset") refill<T>(f->PostGet(), a, dim);
    else if (op == "retune") {
      int i = a["i"].get<int>() - 1, ny = tab && a["kind"] == "meas" ? a["m"]["nz"].get<int>() : d; bool fresh = a["how"] == "replace";
      if (a["kind"] == "sys") { if (fresh) sys[i]->SystemPdfSet(V<T>::pdf(a["m"], d, d)); else V<T>::edit(sys[i]->SystemPdfGet(), a); }
      else if (a["kind"] == "prop") { if (fresh) prop[i] = V<T>::pdf(a["m"], d, d); else V<T>::edit(prop[i], a); }
      else { if (fresh) meas[i]->MeasurementPdfSet(V<T>::pdf(a["m"], d, ny)); else V<T>::edit(meas[i]->MeasurementPdfGet(), a); }
    } else if (op == "upd") {
      int i = a["s"], j = a["m"];
      SystemModel<T>* s = i ? sys[i - 1] : 0;
      MeasurementModel<T, T>* m = j ? meas[j - 1] : 0;
      if (gen && i && f->ProposalGet() != prop[i - 1]) f->ProposalSet(prop[i - 1]);
      vector<double> u1 = dvec(a["us1"]), u2 = dvec(a["us2"]), zz;
      for (auto& x : a["zs"]) for (auto& y : x) zz.push_back(y.get<double>());
      if (std::is_same<T, int>::value) { u1.insert(u1.end(), zz.begin(), zz.end()); zz.clear(); }
      u1.insert(u1.end(), u2.begin(), u2.end());
      rngscript::uniforms(u1); rngscript::normals(zz);
      T u = V<T>::in(a["u"]), sp = V<T>::in(a["sp"]), z = V<T>::in(a["z"]);
      bool wu = a["wu"], ws = a["ws"], ret;
      if (s && m) ret = wu ? (ws ? f->Update(s, u, m, z, sp) : f->Update(s, u, m, z)) : (ws ? f->Update(s, m, z, sp) : f->Update(s, m, z));
      else if (s) ret = wu ? f->Update(s, u) : f->Update(s);
      else ret = ws ? f->Update(m, z, sp) : f->Update(m, z);
      r["ret"] = ret;
    } else throw runtime_error("unknown op " + op);
    r["ts"] = f->TimeStepGet();
    bool fine = r["ret"].is_null() || r["ret"].get<bool>();
    if (look.skip) return r;
    Ob()([&] { r.update(particles(f->PostGet())); })([&] { if (fine) V<T>::mean(r, f->PostGet()); })([&] { r["prior"] = particles(prior.get()); })([&] { if (given) r["given"] = particles(given.get()); }).run();
    return r;
  }
};
struct Pf : World {
  unique_ptr<World> w;
  json step(const string& op, const json& a) {
    if (op == "setup") { if (a["kind"] == "table") w.reset(new PW<int>); else w.reset(new PW<ColumnVector>); }
    return w->step(op, a);
  }
};
FAMILY("pf", Pf)
