// vconf: the configuration map and the module factories, driven by a scenario file; one event per line of the scenario.
//   vconf <scenario> <trace>
#include <mpi.h>
#include <unistd.h>
#include <cstring>
#include <cxxabi.h>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "DyabloSession.hpp"
#include "utils/config/ConfigMap.h"
#include "DyabloTimeLoop.h"

namespace vc {
using namespace dyablo;
int rank_, np_;
FILE* out = nullptr;
std::string unhex(const std::string& h) { std::string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16); return r; }
std::string codes(const std::string& s) { std::string r = "["; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string((int)(unsigned char)s[i]); return r + "]"; }
std::string lines(const std::string& s) { std::string r = "["; std::istringstream is(s); std::string l; bool f = true; while (std::getline(is, l)) { r += (f ? "" : ",") + codes(l); f = false; } return r + "]"; }
// the results of all processes, as a JSON list
std::string all(const std::string& mine) {
  int n = mine.size(); std::vector<int> sz(np_), off(np_);
  MPI_Gather(&n, 1, MPI_INT, sz.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
  int tot = 0; if (rank_ == 0) for (int i = 0; i < np_; i++) { off[i] = tot; tot += sz[i]; }
  std::string b(tot, ' ');
  MPI_Gatherv(mine.data(), n, MPI_CHAR, &b[0], sz.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
  std::string r = "[";
  if (rank_ == 0) for (int i = 0; i < np_; i++) r += (i ? "," : "") + b.substr(off[i], sz[i]);
  return r + "]";
}
void emit(const std::string& op, const std::string& rest) { if (rank_ == 0) { fprintf(out, "{\"op\":\"%s\"%s%s}\n", op.c_str(), rest.empty() ? "" : ",", rest.c_str()); fflush(out); } }

// ---- values
// b: the exact value, as hexadecimal digits
struct Res { bool ok = false; std::vector<std::string> v, b; std::string json() const { std::string s = std::string("{\"ok\":") + (ok ? "1" : "0") + ",\"v\":["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + codes(v[i]); s += "],\"b\":["; for (size_t i = 0; i < b.size(); i++) s += (i ? ",\"" : "\"") + b[i] + "\""; return s + "]}"; } };
template <typename T> std::string exact(const T&) { return ""; }
template <> std::string exact(const double& d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
template <> std::string exact(const float& d) { char b[64]; snprintf(b, 64, "%a", (double)d); return b; }
std::string show(const std::string& s) { return s; }
std::string show(bool b) { return b ? "1" : "0"; }
std::string show(double d) { char b[64]; snprintf(b, 64, "%.14e", d); return b; }
std::string show(float d) { char b[64]; snprintf(b, 64, "%.5e", d); return b; }
std::string show(int v) { return std::to_string(v); }
std::string show(uint32_t v) { return std::to_string(v); }
std::string show(int64_t v) { return std::to_string(v); }
std::string show(uint64_t v) { return std::to_string(v); }
std::string show(BoundaryConditionType v) { return std::to_string((int)v); }
template <typename T> T tok(const std::string& s);
template <> std::string tok(const std::string& s) { return s; }
template <> bool tok(const std::string& s) { return s == "1"; }
template <> double tok(const std::string& s) { return strtod(s.c_str(), nullptr); }
template <> float tok(const std::string& s) { return strtof(s.c_str(), nullptr); }
template <> int tok(const std::string& s) { return (int)strtol(s.c_str(), nullptr, 10); }
template <> uint32_t tok(const std::string& s) { return (uint32_t)strtoul(s.c_str(), nullptr, 10); }
template <> int64_t tok(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }
template <> uint64_t tok(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }
template <> BoundaryConditionType tok(const std::string& s) { return (BoundaryConditionType)atoi(s.c_str()); }
template <typename T> Res get1(ConfigMap& c, const std::string& s, const std::string& n, bool hasd, const std::vector<std::string>& d) {
  Res r;
  try { T x = hasd ? c.getValue<T>(s, n, tok<T>(d[0])) : c.getValue<T>(s, n); r.ok = true; r.v.push_back(show(x)); r.b.push_back(exact<T>(x)); } catch (const std::exception&) {}
  return r;
}
template <typename T> Res getv(ConfigMap& c, const std::string& s, const std::string& n, bool hasd, const std::vector<std::string>& d) {
  Res r; std::vector<T> dv; for (auto& x : d) dv.push_back(tok<T>(x));
  try { std::vector<T> x = hasd ? c.getValue<std::vector<T>>(s, n, dv) : c.getValue<std::vector<T>>(s, n); r.ok = true; for (auto y : x) { r.v.push_back(show((T)y)); r.b.push_back(exact<T>((T)y)); } } catch (const std::exception&) {}
  return r;
}
Res get(ConfigMap& c, const std::string& ty, const std::string& s, const std::string& n, bool hasd, const std::vector<std::string>& d) {
#define TY(N, T) if (ty == N) return get1<T>(c, s, n, hasd, d); if (ty == "v" N) return getv<T>(c, s, n, hasd, d);
  TY("string", std::string) TY("double", double) TY("float", float) TY("int", int) TY("uint32", uint32_t) TY("int64", int64_t) TY("uint64", uint64_t) TY("enum", BoundaryConditionType)
  if (ty == "bool") return get1<bool>(c, s, n, hasd, d);
  fprintf(stderr, "type %s\n", ty.c_str()); MPI_Abort(MPI_COMM_WORLD, 3); return Res();
}

// ---- factories of toys
template <int F> struct Base { virtual ~Base() {} virtual int kind() = 0; int a = 0; int* p = nullptr; std::string s; };
template <int F, int K> struct Toy : Base<F> { Toy(int a, int& r, const std::string& s) { this->a = a; this->p = &r; this->s = s; } int kind() override { return K; } };
template <int F> using Fac = RegisteringFactory<Base<F>, int, int&, const std::string&>;
struct Dyn { virtual bool reg(const std::string& id, int k) = 0; virtual std::string make(const std::string& id, int a, const std::string& s) = 0; virtual std::vector<std::string> ids() = 0; };
template <int F> struct DynF : Dyn {
  bool reg(const std::string& id, int k) override {
    try { switch (k) { case 0: return Fac<F>::template register_class<Toy<F, 0>>(id); case 1: return Fac<F>::template register_class<Toy<F, 1>>(id); case 2: return Fac<F>::template register_class<Toy<F, 2>>(id); default: return Fac<F>::template register_class<Toy<F, 3>>(id); } }
    catch (const std::exception&) { return false; }
  }
  std::string make(const std::string& id, int a, const std::string& s) override {   // "x" refused, "n" null, otherwise kind and whether the arguments arrived
    try { int ref = 0; auto p = Fac<F>::make_instance(id, a, ref, s); if (!p) return "n"; return std::to_string(p->kind()) + (p->a == a && p->p == &ref && p->s == s ? "" : "!"); } catch (const std::exception&) { return "x"; }
  }
  std::vector<std::string> ids() override { return Fac<F>::get_available_ids(); }
};
#define NF 24
template <int F> struct Tab { static void fill(std::vector<std::unique_ptr<Dyn>>& v) { Tab<F - 1>::fill(v); v.emplace_back(new DynF<F - 1>()); } };
template <> struct Tab<0> { static void fill(std::vector<std::unique_ptr<Dyn>>&) {} };
}
#define I(F) template <> bool vc::Fac<F>::init() { return true; }
I(0) I(1) I(2) I(3) I(4) I(5) I(6) I(7) I(8) I(9) I(10) I(11) I(12) I(13) I(14) I(15) I(16) I(17) I(18) I(19) I(20) I(21) I(22) I(23)
#undef I
namespace vc {
// ---- the real factories
template <typename P> std::string tname(const P& p) { if (!p) return "null"; int st; char* n = abi::__cxa_demangle(typeid(*p).name(), nullptr, nullptr, &st); std::string s = n; free(n); return s; }
struct Env { std::unique_ptr<ConfigMap> cm; std::unique_ptr<AMRmesh> m; std::unique_ptr<ForeachCell> fc; std::unique_ptr<Timers> t; } env;
void need_env(const std::string& ini) {
  env.cm.reset(new ConfigMap(ini));
  if (env.m) return;
  auto p = AMRmesh::parse_parameters(*env.cm);
  env.m.reset(new AMRmesh(p.dim, p.dim, p.periodic, p.level_min, p.level_max, p.coarse_grid_size));
  env.fc.reset(new ForeachCell(*env.m, *env.cm));
  env.t.reset(new Timers());
}
std::vector<std::string> rids(const std::string& f) {
#define F(N) if (f == #N) return N##Factory::get_available_ids();
  F(GravitySolver) F(ParticleUpdate) F(ParabolicUpdate) F(HydroUpdate) F(InitialConditions) F(IOManager) F(MapUserData) F(Compute_dt) F(RefineCondition) F(CoolingUpdate)
#undef F
  return {"?"};
}
std::string rmake(const std::string& f, const std::string& id, const std::string& ini) {   // the dynamic type, "null" or "refused"
  need_env(ini);
  try {
#define F(N) if (f == #N) { auto p = N##Factory::make_instance(id, *env.cm, *env.fc, *env.t); return tname(p); }
    F(GravitySolver) F(ParticleUpdate) F(HydroUpdate) F(InitialConditions) F(IOManager) F(MapUserData) F(Compute_dt) F(RefineCondition) F(CoolingUpdate)
#undef F
    if (f == "ParabolicUpdate") { auto p = ParabolicUpdateFactory::make_instance(id, *env.cm, *env.fc, *env.t, PARABOLIC_VISCOSITY); return tname(p); }
  } catch (const std::exception& e) { if (getenv("VC_WHY")) fprintf(stderr, "%s %s: %s\n", f.c_str(), id.c_str(), e.what()); return "refused"; }
  return "?";
}
}

int main(int argc, char* argv[]) {
  using namespace vc;
  dyablo::DyabloSession session(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &np_);
  if (rank_ == 0) out = fopen(argv[2], "w");
  std::ifstream f(argv[1]); std::string l, saved;
  std::vector<std::unique_ptr<Dyn>> facs; Tab<NF>::fill(facs);
  std::unique_ptr<ConfigMap> cm;
  int nfile = 0;
  while (std::getline(f, l)) {
    std::istringstream is(l); std::string op; if (!(is >> op)) continue;
    alarm(60);
    auto arg = [&]() { std::string x; is >> x; return unhex(x); };
    if (op == "init") { cm.reset(new ConfigMap(std::string())); saved.clear(); emit("init", "\"np\":" + std::to_string(np_)); }
    else if (op == "parse" || op == "bcast") {
      std::string t = arg(); bool ok = true; std::unique_ptr<ConfigMap> n;
      if (op == "parse") { try { n.reset(new ConfigMap(t)); } catch (const std::exception&) { ok = false; } }
      else {
        std::string p = std::string(argv[2]) + "." + std::to_string(nfile++) + ".ini";
        if (rank_ == 0) { std::ofstream o(p, std::ios::binary); o << t; }
        MPI_Barrier(MPI_COMM_WORLD);
        try { n.reset(new ConfigMap(ConfigMap::broadcast_parameters(rank_ == 0 ? p : std::string("/nonexistent/file")))); } catch (const std::exception&) { ok = false; }
        MPI_Barrier(MPI_COMM_WORLD);
        if (rank_ == 0) unlink(p.c_str());
      }
      if (ok) cm = std::move(n);
      std::string r = all(ok ? "1" : "0"); emit("parse", "\"t\":" + lines(t) + ",\"how\":\"" + op + "\",\"res\":" + r);
    }
    else if (op == "has") { std::string s = arg(), n = arg(); std::string r = all(cm->hasValue(s, n) ? "1" : "0"); emit("has", "\"s\":" + codes(s) + ",\"n\":" + codes(n) + ",\"res\":" + r); }
    else if (op == "get") {
      std::string ty; is >> ty; std::string s = arg(), n = arg(), d; std::vector<std::string> dv; std::string jd; bool hasd = (bool)(is >> d);
      if (hasd && d != "empty") { std::istringstream ds(d); std::string x; while (std::getline(ds, x, ',')) { dv.push_back(unhex(x)); jd += (jd.empty() ? "" : ",") + codes(unhex(x)); } }
      std::string r = all(get(*cm, ty, s, n, hasd, dv).json());
      emit("get", "\"ty\":\"" + ty + "\",\"s\":" + codes(s) + ",\"n\":" + codes(n) + (hasd ? ",\"d\":[" + jd + "]" : "") + ",\"res\":" + r);
    }
    else if (op == "save") { std::ostringstream o; cm->output(o); saved = o.str(); std::string r = all(lines(saved)); emit("save", "\"res\":" + r); }
    else if (op == "reload") { bool ok = true; try { std::unique_ptr<ConfigMap> n(new ConfigMap(saved)); cm = std::move(n); } catch (const std::exception&) { ok = false; } std::string r = all(ok ? "1" : "0"); emit("reload", "\"res\":" + r); }
    else if (op == "reg") { int k, fa; is >> fa; std::string id = arg(); is >> k; std::string r = all(facs[fa]->reg(id, k) ? "1" : "0"); emit("reg", "\"f\":" + std::to_string(fa) + ",\"id\":" + codes(id) + ",\"k\":" + std::to_string(k) + ",\"res\":" + r); }
    else if (op == "make") { int fa; is >> fa; std::string id = arg(); int a; is >> a; std::string s = arg(); std::string r = all("\"" + facs[fa]->make(id, a, s) + "\""); emit("make", "\"f\":" + std::to_string(fa) + ",\"id\":" + codes(id) + ",\"res\":" + r); }
    else if (op == "ids") { int fa; is >> fa; auto v = facs[fa]->ids(); std::string j; for (auto& x : v) j += (j.empty() ? "" : ",") + codes(x); std::string r = all("[" + j + "]"); emit("ids", "\"f\":" + std::to_string(fa) + ",\"res\":" + r); }
    else if (op == "rids") { std::string fa; is >> fa; auto v = rids(fa); std::string j; for (auto& x : v) j += (j.empty() ? "" : ",") + ("\"" + x + "\""); std::string r = all("[" + j + "]"); emit("rids", "\"f\":\"" + fa + "\",\"res\":" + r); }
    else if (op == "rmake") { std::string fa, id; is >> fa >> id; std::string ini = arg(); std::string r = all("\"" + rmake(fa, id, ini) + "\""); emit("rmake", "\"f\":\"" + fa + "\",\"id\":\"" + id + "\",\"res\":" + r); }
    else if (op == "loop") {   // <module key> <name> <ini>: is a simulation with this module accepted
      // a refusal in the middle of the construction ends the program (destructors throw): this is the last line of a scenario file
      static std::string key, name; is >> key >> name; std::string t = arg(); std::string r = "1";
      std::set_terminate([]() { std::string x = all("0"); emit("loop", "\"key\":\"" + key + "\",\"id\":\"" + name + "\",\"res\":" + x); emit("end", ""); if (rank_ == 0) fclose(out); MPI_Finalize(); _exit(0); });
      try { ConfigMap c(t); DyabloTimeLoop tl(c); } catch (const std::exception& e) { if (getenv("VC_WHY")) fprintf(stderr, "%s: %s\n", name.c_str(), e.what()); r = "0"; }
      r = all(r); emit("loop", "\"key\":\"" + key + "\",\"id\":\"" + name + "\",\"res\":" + r);
    }
    else { fprintf(stderr, "op %s\n", op.c_str()); MPI_Abort(MPI_COMM_WORLD, 2); }
  }
  env.t.reset(); env.fc.reset(); env.m.reset(); env.cm.reset();
  emit("end", "");
  if (rank_ == 0) fclose(out);
  return 0;
}
