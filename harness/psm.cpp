// Particle smoother
#include "pfv.h"
#include "smoother/particlesmoother.h"
#include "model/systemmodel.h"
using namespace BFL; using namespace std; using namespace MatrixWrapper;
template <class T> struct PS : World {
  unique_ptr<MCPdf<T> > prior, given; unique_ptr<ParticleSmoother<T> > f; vector<SystemModel<T>*> sys; int dim, d;
  json step(const string& op, const json& a) {
    json r; unique_ptr<MCPdf<T> > filt;
    if (op == "setup") {
      d = a["d"]; dim = a["kind"] == "table" ? 1 : d;
      prior.reset(mclist<T>(a, dim));
      for (auto& m : a["sys"]) sys.push_back(new SystemModel<T>(V<T>::pdf(m, d, d)));
      f.reset(new ParticleSmoother<T>(prior.get()));
    } else if (op == "reset") { MCPdf<T>* p = mclist<T>(a, dim); f->Reset(p); given.reset(p); }
    else if (op == "priorset") refill<T>(a["g"].get<bool>() ? given.get() : prior.get(), a, dim);
    else if (op == "postset") refill<T>((MCPdf<T>*)f->PostGet(), a, dim);
    else if (op == "retune") {
      SystemModel<T>* s = sys[a["i"].get<int>() - 1];
      if (a["how"] == "replace") s->SystemPdfSet(V<T>::pdf(a["m"], d, d)); else V<T>::edit(s->SystemPdfGet(), a);
    } else if (op == "upd") {
      filt.reset(mclist<T>(a["f"], dim));
      SystemModel<T>* s = sys[a["s"].get<int>() - 1];
      r["ret"] = a["wu"].get<bool>() ? f->Update(s, V<T>::in(a["u"]), filt.get()) : f->Update(s, filt.get());
    } else throw runtime_error("unknown op " + op);
    if (look.skip) return r;
    Ob()([&] { r.update(particles((MCPdf<T>*)f->PostGet())); })([&] { r["prior"] = particles(prior.get()); })
        ([&] { if (given) r["given"] = particles(given.get()); })([&] { if (filt) r["filt"] = particles(filt.get()); }).run();
    return r;
  }
};
struct Psm : World {
  unique_ptr<World> w;
  json step(const string& op, const json& a) {
    if (op == "setup") { if (a["kind"] == "table") w.reset(new PS<int>); else w.reset(new PS<ColumnVector>); }
    return w->step(op, a);
  }
};
FAMILY("psm", Psm)
