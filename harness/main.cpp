#include "h.h"
#include <unistd.h>
#include <dlfcn.h>
#include <deque>
#include <cstdio>

std::map<std::string, Factory>& registry() { static std::map<std::string, Factory> r; return r; }

Look look;
namespace rngscript {
  static std::deque<double> U, Z;
  static bool pass = true;
  struct Exhausted : std::runtime_error { Exhausted(const char* w) : std::runtime_error(w) {} };
  void uniforms(const std::vector<double>& u) { U.assign(u.begin(), u.end()); pass = false; }
  void normals(const std::vector<double>& z) { Z.assign(z.begin(), z.end()); pass = false; }
  void passthrough(bool on) { pass = on; U.clear(); Z.clear(); }
  size_t left_u() { return U.size(); }
  size_t left_z() { return Z.size(); }
  void clear() { U.clear(); Z.clear(); }
  double nu() { if (U.empty()) throw Exhausted("more uniform draws than the behaviour provides"); double d = U.front(); U.pop_front(); return d; }
  double nz() { if (Z.empty()) throw Exhausted("more normal draws than the behaviour provides"); double d = Z.front(); Z.pop_front(); return d; }
}
// The library's generator functions, interposed (see DESIGN.md): scripted
// draws when a behaviour supplies them, the library's own code otherwise.
namespace BFL {
  double runif() {
    if (!rngscript::pass) return rngscript::nu();
    static double (*real)() = (double (*)())dlsym(RTLD_NEXT, "_ZN3BFL5runifEv");
    return real();
  }
  double runif(const double& a, const double& b) {
    if (!rngscript::pass) return a + (b - a) * rngscript::nu();
    static double (*real)(const double&, const double&) = (double (*)(const double&, const double&))dlsym(RTLD_NEXT, "_ZN3BFL5runifERKdS1_");
    return real(a, b);
  }
  double rnorm(const double& m, const double& s) {
    if (!rngscript::pass) return m + s * rngscript::nz();
    static double (*real)(const double&, const double&) = (double (*)(const double&, const double&))dlsym(RTLD_NEXT, "_ZN3BFL5rnormERKdS1_");
    return real(m, s);
  }
}

static void emit(const json& j) {
  std::string s = j.dump(); s += "\n";
  fputs(s.c_str(), stdout); fflush(stdout);
}

int main(int argc, char** argv) {
  // Results go to the original stdout; whatever the library prints goes away.
  int keep = dup(1);
  if (!getenv("H_VERBOSE")) { if (!freopen("/dev/null", "w", stderr)) return 3; }
  FILE* out = fdopen(keep, "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json t = json::parse(line);
    json res = json::array();
    rngscript::passthrough(false);
    std::string fam = t["fam"];
    auto it = registry().find(fam);
    if (it == registry().end()) { fprintf(out, "{\"id\":%d,\"err\":\"no family %s\"}\n", t["id"].get<int>(), fam.c_str()); fflush(out); return 4; }
    {
      std::unique_ptr<World> w(it->second());
      int k = 0;
      fprintf(out, "{\"begin\":%d}\n", t["id"].get<int>()); fflush(out);
      try {
        for (auto& s : t["steps"]) {
          rngscript::clear();
          unsigned hsh = (unsigned)(t["id"].get<int>() * 2654435761u + k * 40503u); hsh ^= hsh >> 13; hsh *= 0x5bd1e995u; hsh ^= hsh >> 15;
          look.skip = k + 1 < (int)t["steps"].size() && hsh % 4 == 0; look.rev = (hsh >> 4) % 2;
          json o = w->step(s["op"], s["a"]);
          if (look.skip) o["~"] = true;
          fprintf(out, "{\"id\":%d,\"k\":%d,\"o\":%s}\n", t["id"].get<int>(), k, o.dump().c_str());
          fflush(out);
          k++;
        }
      } catch (json::exception& e) {
        fprintf(out, "{\"id\":%d,\"harness\":%s}\n", t["id"].get<int>(), json(e.what()).dump().c_str()); fflush(out);
      } catch (std::exception& e) {
        fprintf(out, "{\"id\":%d,\"k\":%d,\"exc\":%s}\n", t["id"].get<int>(), k, json(e.what()).dump().c_str()); fflush(out);
      }
    }
    fprintf(out, "{\"end\":%d}\n", t["id"].get<int>()); fflush(out);
  }
  fflush(out);
  _exit(0);
}
