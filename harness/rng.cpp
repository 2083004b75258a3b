// The library's random number generators
#include "h.h"
#include "wrappers/rng/rng.h"
#include <set>
using namespace std;
struct Rng : World {
  set<double> seen; size_t uniforms = 0;
  struct Pass { Pass() { rngscript::passthrough(true); } ~Pass() { rngscript::passthrough(false); } };
  json step(const string& op, const json& a) {
    if (op != "block") throw runtime_error("unknown op " + op);
    Pass pass; int R = a["rounds"], n = a["gens"].size(); json r; bool inside = true;
    vector<vector<double> > x(n, vector<double>(R)), at; vector<string> kind; vector<double> p, q;
    for (int i = 0; i < n; i++) { kind.push_back(a["gens"][i]["kind"]); p.push_back(a["gens"][i]["p"]); q.push_back(a["gens"][i]["q"]); at.push_back(dvec(a["at"][i])); }
    for (int t = 0; t < R; t++) for (int i = 0; i < n; i++) {
      double v = kind[i] == "norm" ? BFL::rnorm(p[i], q[i]) : kind[i] == "unif" ? BFL::runif(p[i], q[i]) : BFL::runif();
      if (kind[i] != "norm" && !(v >= p[i] && v < q[i])) inside = false;
      if (v != v) inside = false;
      if (kind[i] == "std" && t < 2000) { seen.insert(v); uniforms++; }
      x[i][t] = v;
    }
    r["inside"] = inside; r["new"] = uniforms ? (double)seen.size() / uniforms : 1;
    r["below"] = r["next"] = r["cross"] = r["mean"] = r["var"] = json::array();
    for (int i = 0; i < n; i++) {
      json b = json::array(); double m = 0, s = 0, sc = kind[i] == "norm" ? 1 / q[i] : 1 / (q[i] - p[i]);
      for (double c : at[i]) { int k = 0; for (double v : x[i]) k += v < c; b.push_back(k / (double)R); }
      for (double v : x[i]) m += (v - p[i]) * sc / R;
      for (double v : x[i]) s += ((v - p[i]) * sc - m) * ((v - p[i]) * sc - m) / R;
      r["below"].push_back(b); r["mean"].push_back(num(m)); r["var"].push_back(num(s));
      for (int w = 0; w < 2; w++) {
        json J = json::array();
        if (w == 0 || i + 1 < n) for (double c : at[i]) {
          json row = json::array(); int o = w ? i + 1 : i;
          for (double e : at[o]) { int k = 0; for (int t = 0; t + 1 < R; t++) k += x[i][t] < c && x[o][w ? t : t + 1] < e; row.push_back(k / (double)(R - 1)); }
          J.push_back(row);
        }
        r[w ? "cross" : "next"].push_back(J);
      }
    }
    return r;
  }
};
FAMILY("rng", Rng)
