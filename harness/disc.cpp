// Discrete pdfs
#include "h.h"
#include "pdf/discretepdf.h"
using namespace BFL; using namespace std;

static SampleMthd method(const string& s) { return s == "CHOLESKY" ? SampleMthd::CHOLESKY : s == "BOXMULLER" ? SampleMthd::BOXMULLER : SampleMthd::RIPLEY; }
struct Disc : World {
  vector<DiscretePdf*> o;
  ~Disc() { for (auto p : o) delete p; }
  json obs() {
    json probs = json::array(), n = json::array(), mps = json::array(), one = json::array();
    for (auto p : o) {
      json v = json::array(), w = json::array();
      Ob()([&] { vector<Probability> all = p->ProbabilitiesGet(); for (auto& x : all) v.push_back(num((double)x)); })
          ([&] { for (unsigned i = 0; i < p->NumStatesGet(); i++) w.push_back(num((double)p->ProbabilityGet((int)i))); })
          ([&] { mps.push_back(p->MostProbableStateGet()); }).run();
      probs.push_back(v); one.push_back(w);
      n.push_back(p->NumStatesGet());
    }
    return {{"probs", probs}, {"n", n}, {"mps_any", mps}, {"single", one}};
  }
  json step(const string& op, const json& a) {
    json r;
    if (op == "new") o.push_back(new DiscretePdf(a["n"].get<unsigned>()));
    else if (op == "copy") {
      DiscretePdf* p = o[a["k"].get<int>() - 1];
      o.push_back(a["how"] == "copy" ? new DiscretePdf(*p) : p->Clone());
    } else {
      DiscretePdf* p = o[a["k"].get<int>() - 1];
      if (op == "set1") r["ret"] = p->ProbabilitySet(a["s"].get<int>(), Probability(a["p"].get<double>()));
      else if (op == "setall") {
        vector<Probability> v; for (auto& x : a["v"]) v.push_back(Probability(x.get<double>()));
        r["ret"] = p->ProbabilitiesSet(v);
      } else if (op == "sample") {
        rngscript::uniforms({a["u"].get<double>()});
        Sample<int> s; r["ret"] = p->SampleFrom(s);
        r["s"] = json::array({s.ValueGet()});
      } else if (op == "samples" || op == "ripley") {
        rngscript::uniforms(dvec(a["u"]));
        vector<Sample<int> > l(a["pre"].get<int>());
        r["ret"] = p->SampleFrom(l, a["u"].size(), op == "ripley" ? SampleMthd::RIPLEY : SampleMthd::DEFAULT);
        json s = json::array(); for (auto& x : l) s.push_back(x.ValueGet());
        r["s"] = s;
      } else if (op == "refused") {
        rngscript::clear(); Sample<int> s; vector<Sample<int> > l(1);
        r["ret"] = a["list"].get<bool>() ? p->SampleFrom(l, 2, method(a["how"])) : p->SampleFrom(s, method(a["how"]));
      } else throw runtime_error("unknown op " + op);
    }
    if (!look.skip) r["obs"] = obs();
    return r;
  }
};
FAMILY("disc", Disc)
