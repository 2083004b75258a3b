// Replay harness: executes operation scripts (behaviours of the TLA+
// specifications) against the real library through its public interface.
#pragma once
#include <nlohmann/json.hpp>
#include <vector>
#include <string>
#include <map>
#include <memory>
#include <functional>
#include <stdexcept>
#include <iostream>
#include <cmath>
#include "wrappers/matrix/matrix_wrapper.h"
#include "wrappers/matrix/vector_wrapper.h"
#include "bfl_constants.h"

using nlohmann::json;

struct World {
  virtual ~World() {}
  virtual json step(const std::string& op, const json& a) = 0;
};
typedef std::function<World*()> Factory;
std::map<std::string, Factory>& registry();
struct Register { Register(const char* n, Factory f) { registry()[n] = f; } };
#define FAMILY(name, cls) static Register reg_##cls(name, [] { return (World*)new cls; });

// Which observations are made after a step varies over steps and behaviours:
// none at all (the last step of a behaviour is always observed), in order, or
// in reverse order, so that looking cannot hide a dependence on having looked.
struct Look { bool skip, rev; };
extern Look look;
struct Ob {
  std::vector<std::function<void()> > q;
  Ob& operator()(std::function<void()> f) { q.push_back(f); return *this; }
  void run() { if (look.rev) for (size_t i = q.size(); i-- > 0;) q[i](); else for (auto& f : q) f(); }
};

// scripted source of randomness -------------------------------------------
namespace rngscript {
  void uniforms(const std::vector<double>& u);   // following uniform draws
  void normals(const std::vector<double>& z);    // following standard normal draws
  void passthrough(bool on);
  size_t left_u(); size_t left_z();
  void clear();
}
inline std::vector<double> dvec(const json& j) { return j.get<std::vector<double> >(); }

// numbers ---------------------------------------------------------------
inline json num(double d) {
  if (std::isnan(d)) return "nan";
  if (std::isinf(d)) return d > 0 ? "inf" : "-inf";
  return d;
}
inline MatrixWrapper::ColumnVector cv(const json& j) {
  MatrixWrapper::ColumnVector v((int)j.size());
  for (size_t i = 0; i < j.size(); i++) v(i + 1) = j[i].get<double>();
  return v;
}
inline MatrixWrapper::RowVector rv(const json& j) {
  MatrixWrapper::RowVector v((int)j.size());
  for (size_t i = 0; i < j.size(); i++) v(i + 1) = j[i].get<double>();
  return v;
}
inline MatrixWrapper::Matrix mat(const json& j) {
  int r = j.size(), c = r ? j[0].size() : 0;
  MatrixWrapper::Matrix m(r, c);
  for (int i = 0; i < r; i++) for (int k = 0; k < c; k++) m(i + 1, k + 1) = j[i][k].get<double>();
  return m;
}
inline MatrixWrapper::SymmetricMatrix sym(const json& j) {
  int r = j.size();
  MatrixWrapper::SymmetricMatrix m(r);
  for (int i = 0; i < r; i++) for (int k = 0; k < r; k++) m(i + 1, k + 1) = j[i][k].get<double>();
  return m;
}
inline json jv(const MatrixWrapper::ColumnVector& v) {
  json r = json::array(); for (unsigned i = 1; i <= v.rows(); i++) r.push_back(num(v(i))); return r;
}
inline json jrv(const MatrixWrapper::RowVector& v) {
  json r = json::array(); for (unsigned i = 1; i <= v.columns(); i++) r.push_back(num(v(i))); return r;
}
template <class M> json jm(const M& m) {
  json r = json::array();
  for (unsigned i = 1; i <= m.rows(); i++) {
    json q = json::array();
    for (unsigned k = 1; k <= m.columns(); k++) q.push_back(num(m(i, k)));
    r.push_back(q);
  }
  return r;
}
inline double pv(BFL::Probability p) { return (double)p; }
