#include "h.h"
using namespace MatrixWrapper;
struct Mats : World {
  struct R { char t; Matrix M; SymmetricMatrix S; ColumnVector C; RowVector V; };
  std::vector<R> rs;
  static json col(const ColumnVector& v) { json o = json::array(); for (unsigned i = 1; i <= v.rows(); i++) o.push_back(json::array({num(i % 2 ? v(i) : v[i - 1])})); return o; }
  static json show(const R& r) {
    switch (r.t) {
      case 'M': return {{"r", r.M.rows()}, {"c", r.M.columns()}, {"v", jm(r.M)}};
      case 'S': return {{"r", r.S.rows()}, {"c", r.S.columns()}, {"v", jm(r.S)}};
      case 'C': return {{"r", r.C.rows()}, {"c", r.C.columns()}, {"v", col(r.C)}};
      default:  return {{"r", r.V.rows()}, {"c", r.V.columns()}, {"v", json::array({jrv(r.V)})}};
    }
  }
  // results are assigned to the destination, so that assignment over other sizes is exercised too
  R& dst(const json& a) {
    size_t k = a["dst"]; char t = a["t"].get<std::string>()[0];
    if (k > rs.size()) { R r; r.t = t; rs.push_back(r); }
    if (rs[k - 1].t != t) throw std::runtime_error("harness: type");
    return rs[k - 1];
  }
  R& at(const json& k) { return rs.at(k.get<int>() - 1); }
  static void make(R& r, const json& v) {
    switch (r.t) { case 'M': r.M = mat(v); break; case 'S': r.S = sym(v); break; case 'C': r.C = cv(v); break; default: r.V = rv(v); }
  }
  template <class X, class Y> static Matrix op3(const std::string& o, const X& x, const Y& y) {
    return o == "+" ? Matrix(x + y) : o == "-" ? Matrix(x - y) : Matrix(x * y);
  }
  template <class X> static X sc(const std::string& o, const X& x, double c) {
    return o == "+" ? X(x + c) : o == "-" ? X(x - c) : o == "*" ? X(x * c) : X(x / c);
  }
  template <class X> static void isc(const std::string& o, X& x, double c) {
    if (o == "+") x += c; else if (o == "-") x -= c; else if (o == "*") x *= c; else if (o == "/") x /= c; else x = c;
  }
  template <class X> static void ib(const std::string& o, X& x, const X& y) { if (o == "+") x += y; else x -= y; }
  json step(const std::string& op, const json& a) {
    json out;
    rs.reserve(64);
    if (op == "start") {
      for (auto& r : a["regs"]) { R n; n.t = r["t"].get<std::string>()[0]; make(n, r["v"]); rs.push_back(n); }
    } else if (op == "new") make(dst(a), a["v"]);
    else if (op == "fill") {
      R& d = dst(a);
      if (d.t == 'C') d.C = ColumnVector(a["n"].get<int>(), a["x"].get<double>()); else d.V = RowVector(a["n"].get<int>(), a["x"].get<double>());
    } else if (op == "repeat") {
      R& d = dst(a); d.M = Matrix(a["n"].get<int>(), at(a["j"]).V);
    } else if (op == "join") {
      R& d = dst(a); R& x = at(a["x"]); R& y = at(a["y"]);
      if (a["how"] == "ctor") d.C = ColumnVector(x.C, y.C);
      else if (d.t == 'C') d.C = x.C.vectorAdd(y.C); else d.V = x.V.vectorAdd(y.V);
    } else if (op == "copy") {
      bool fresh = a["dst"].get<size_t>() > rs.size();
      if (fresh) { R n(at(a["x"])); rs.push_back(n); }
      else { R& d = dst(a); R& x = at(a["x"]); if (d.t == 'M') d.M = x.M; else if (d.t == 'S') d.S = x.S; else if (d.t == 'C') d.C = x.C; else d.V = x.V; }
    } else if (op == "fromsym") { R& d = dst(a); d.M = at(a["x"]).S; }
    else if (op == "tosym") { R& d = dst(a); out["conv"] = at(a["x"]).M.convertToSymmetricMatrix(d.S); }
    else if (op == "bin") {
      R& d = dst(a); R& x = at(a["x"]); R& y = at(a["y"]); std::string o = a["o"];
      if (x.t == 'M' && y.t == 'M') d.M = op3(o, x.M, y.M);
      else if (x.t == 'S' && y.t == 'M') d.M = op3(o, x.S, y.M);
      else if (x.t == 'S' && y.t == 'S') { if (o == "+") d.S = x.S + y.S; else if (o == "-") d.S = x.S - y.S; else d.M = x.S * y.S; }
      else if (x.t == 'M' && y.t == 'C') d.C = x.M * y.C;
      else if (x.t == 'S' && y.t == 'C') d.C = x.S * y.C;
      else if (x.t == 'C' && y.t == 'C') { if (o == "+") d.C = x.C + y.C; else d.C = x.C - y.C; }
      else if (x.t == 'R' && y.t == 'R') { if (o == "+") d.V = x.V + y.V; else d.V = x.V - y.V; }
      else if (x.t == 'C' && y.t == 'R') d.M = x.C * y.V;
      else throw std::runtime_error("harness: bin");
    } else if (op == "ibin") {
      R& x = dst(a); R& y = at(a["y"]); std::string o = a["o"];
      if (x.t == 'M') ib(o, x.M, y.M); else if (x.t == 'S' && y.t == 'M') { if (o == "+") x.S += y.M; else x.S -= y.M; } else if (x.t == 'S') ib(o, x.S, y.S); else if (x.t == 'C') ib(o, x.C, y.C); else ib(o, x.V, y.V);
    } else if (op == "scal") {
      R& d = dst(a); R& x = at(a["x"]); std::string o = a["o"]; double c = a["c"];
      if (x.t == 'M') d.M = sc(o, x.M, c); else if (x.t == 'S') d.S = sc(o, x.S, c); else if (x.t == 'C') d.C = sc(o, x.C, c); else d.V = sc(o, x.V, c);
    } else if (op == "iscal") {
      R& x = dst(a); std::string o = a["o"]; double c = a["c"];
      if (x.t == 'M') isc(o, x.M, c); else if (x.t == 'S') isc(o, x.S, c); else if (x.t == 'C') isc(o, x.C, c); else isc(o, x.V, c);
    } else if (op == "T") {
      R& d = dst(a); R& x = at(a["x"]);
      if (x.t == 'M') d.M = x.M.transpose(); else if (x.t == 'S') d.S = x.S.transpose(); else if (x.t == 'C') d.V = x.C.transpose(); else d.C = x.V.transpose();
    } else if (op == "sub") {
      R& d = dst(a); R& x = at(a["x"]); std::vector<int> i = a["i"];
      if (x.t == 'M') d.M = x.M.sub(i[0], i[1], i[2], i[3]); else if (x.t == 'S') d.M = x.S.sub(i[0], i[1], i[2], i[3]);
      else if (x.t == 'C') d.C = x.C.sub(i[0], i[1]); else d.V = x.V.sub(i[2], i[3]);
    } else if (op == "row") { R& d = dst(a); R& x = at(a["x"]); int i = a["i"]; d.V = x.t == 'M' ? x.M.rowCopy(i) : x.S.rowCopy(i); }
    else if (op == "col") { R& d = dst(a); d.C = at(a["x"]).M.columnCopy(a["i"].get<int>()); }
    else if (op == "write") {
      R& x = dst(a); int i = a["i"], j = a["j"]; double c = a["c"];
      if (x.t == 'M') x.M(i, j) = c; else if (x.t == 'S') { x.S(i, j) = c; x.S(j, i) = c; }
      else if (x.t == 'C') { if (i % 2) x.C(i) = c; else x.C[i - 1] = c; } else x.V(j) = c;
    } else if (op == "write1") { R& x = at(a["x"]); x.S(a["i"].get<int>(), a["j"].get<int>()) = a["c"].get<double>(); }
    else if (op == "resize") {
      R& x = dst(a); int n = a["a"], m = a["b"], pr = a["pr"], pc = a["pc"]; double c = a["c"]; bool keep = a["keep"];
      if (x.t == 'M') { if (keep) x.M.resize(n, m); else x.M.resize(n, m, false); } else if (x.t == 'S') { if (keep) x.S.resize(n); else x.S.resize(n, false); }
      else if (x.t == 'C') x.C.resize(n); else x.V.resize(m);
      for (int i = 1; i <= n; i++) for (int j = 1; j <= m; j++) if (!keep || i > pr || j > pc) {
        if (x.t == 'M') x.M(i, j) = c; else if (x.t == 'S') x.S(i, j) = c; else if (x.t == 'C') x.C(i) = c; else x.V(j) = c;
      }
    } else if (op == "vassign") { R& x = dst(a); if (x.t == 'C') x.C.assign(a["n"].get<int>(), a["c"].get<double>()); else x.V.assign(a["n"].get<int>(), a["c"].get<double>()); }
    else if (op == "eq") {
      R& x = at(a["x"]); R& y = at(a["y"]);
      bool e = x.t == 'M' ? x.M == y.M : x.t == 'S' ? x.S == y.S : x.t == 'C' ? x.C == y.C : x.V == y.V;
      out["q"] = e;
    } else if (op == "dot") out["q"] = num(at(a["x"]).V * at(a["y"]).C);
    else if (op == "mult") { ColumnVector r(at(a["x"]).S.rows()); at(a["x"]).S.multiply(at(a["y"]).C, r); out["q"] = jv(r); }
    else if (op == "det") { R& x = at(a["x"]); out["q"] = num(x.t == 'M' ? x.M.determinant() : x.S.determinant()); }
    else if (op == "inv") { R& x = at(a["x"]); if (x.t == 'M') out["q"] = jm(x.M.inverse()); else out["q"] = jm(x.S.inverse()); }
    else if (op == "chol") {
      Matrix L; bool ok = at(a["x"]).S.cholesky_semidefinite(L); bool low = true, diag = true;
      for (unsigned i = 1; i <= L.rows(); i++) { if (!(L(i, i) > 0)) diag = false; for (unsigned j = i + 1; j <= L.columns(); j++) if (L(i, j) != 0) low = false; }
      out["ok"] = ok; out["low"] = low; out["diag"] = diag; out["sq"] = jm(L * L.transpose());
    } else if (op == "svd") {
      ColumnVector w; Matrix U, V; const Matrix A = at(a["x"]).M;
      out["ok"] = A.SVD(w, U, V); out["n"] = w.rows();
      Matrix D(w.rows(), w.rows()); D = 0.0; bool pos = true;
      for (unsigned i = 1; i <= w.rows(); i++) { D(i, i) = w(i); if (!(w(i) >= 0)) pos = false; }
      out["pos"] = pos; out["usv"] = jm(U * D * V.transpose()); out["vv"] = jm(V.transpose() * V);
      // columns of U that belong to non zero singular values are orthonormal
      bool uu = true; Matrix G = U.transpose() * U;
      for (unsigned i = 1; i <= w.rows(); i++) for (unsigned j = 1; j <= w.rows(); j++)
        if (w(i) > 1e-3 && w(j) > 1e-3 && std::fabs(G(i, j) - (i == j ? 1.0 : 0.0)) > 1e-8) uu = false;
      out["uu"] = uu;
    } else if (op == "pinv") { Matrix A = at(a["x"]).M * at(a["y"]).M; out["q"] = jm(A.pseudoinverse()); }
    else throw std::runtime_error("harness: op " + op);
    if (look.skip) return out;
    json o = json::array();
    for (auto& r : rs) o.push_back(show(r));
    out["obs"] = o;
    return out;
  }
};
FAMILY("mat", Mats)
