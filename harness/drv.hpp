// Shared by the conformance drivers: commands in (JSON lines), observations out (JSON lines).
#ifndef VP_DRV_HPP
#define VP_DRV_HPP
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "picojson.h"
#include "vp.hpp"
#include "gomp.hpp"
#include "defines.hpp"
#include "loguru.hpp"
#include "msg.hpp"
#include "cfg.hpp"
#include "algo/common.hpp"
#include "algo/grid.hpp"
#include "SMB.hpp"
#include "specieP.hpp"
#include "beamP.hpp"

#include <random>
#include <atomic>
#include <cstdlib>
// random numbers of the code under test follow the seed of the check
#ifndef VP_NO_RANDOM_DEVICE
namespace drv { inline std::atomic<unsigned> devices{0}; }
std::random_device::result_type std::random_device::_M_getval() {
  const char *s = std::getenv("VERIF_SEED");
  return 2654435761u * (unsigned)(s ? std::atoi(s) : 0) + 40503u * drv::devices++;
}
#endif

namespace drv {
typedef picojson::value V;
inline bool next(std::istream &in, V &v) {
  std::string l;
  while (std::getline(in, l)) { if (l.empty()) continue; v = V(); std::string e = picojson::parse(v, l); if (!e.empty()) { std::cerr << "bad command: " << e << "\n"; exit(97); } return true; }
  return false;
}
inline bool has(const V &v, const char *k) { return v.is<picojson::object>() && v.get<picojson::object>().count(k); }
inline double num(const V &v, const char *k, double d = 0) { return has(v, k) ? v.get(k).get<double>() : d; }
inline std::string str(const V &v, const char *k, const std::string &d = "") { return has(v, k) ? v.get(k).get<std::string>() : d; }
inline const picojson::array &arr(const V &v, const char *k) { return v.get(k).get<picojson::array>(); }
inline double at(const V &v, size_t i) { return v.get<picojson::array>()[i].get<double>(); }

struct World { Cfg *cfg; SMB *smb; };
inline World make(const std::string &cfgfile) {
  World w;
  w.cfg = new Cfg(cfgfile);
  w.smb = new SMB(w.cfg, w.cfg->geometry, w.cfg->time, 0, 1);
  return w;
}
inline void each_domain(SMB *s, const std::function<void(unsigned, unsigned, Domain *)> &f) {
  for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned j = 0; j < s->z_domains; ++j) f(i, j, s->domains(i, j));
}
inline void clear(SMB *s) { each_domain(s, [](unsigned, unsigned, Domain *d) { for (auto sp : d->species_p) sp->particles.clear(); }); }
// JSON text helper
struct O { std::string s = "{"; bool f = true;
  O &raw(const std::string &k, const std::string &v) { s += (f ? "\"" : ",\"") + k + "\":" + v; f = false; return *this; }
  O &i(const std::string &k, long v) { return raw(k, std::to_string(v)); }
  O &b(const std::string &k, bool v) { return raw(k, v ? "true" : "false"); }
  O &d(const std::string &k, double v) { char t[40]; snprintf(t, 40, "%.17g", v); return raw(k, std::isfinite(v) ? t : "null"); }
  O &t(const std::string &k, const std::string &v) { return raw(k, picojson::value(v).serialize()); }
  void emit() { std::cout << s << "}" << std::endl; } };
template <class T, class F> std::string jarr(const T &c, F f) { std::string s = "["; bool first = true; for (auto &x : c) { if (!first) s += ","; first = false; s += f(x); } return s + "]"; }
inline std::string jpair(long a, long b) { return "[" + std::to_string(a) + "," + std::to_string(b) + "]"; }
inline std::string dbl(double v) { char t[40]; snprintf(t, 40, "%.17g", v); return std::isfinite(v) ? t : "null"; }
}
#endif
