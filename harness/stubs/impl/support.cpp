// Run-time side of the stand-ins: logging, fatal handling, HDF5 event log.
#include "loguru.hpp"
#include <highfive/H5File.hpp>
#include "picojson.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vp.hpp"

namespace vp {
FatalMode fatal_mode = FATAL_ABORT;
bool verbose = getenv("VP_VERBOSE") != nullptr;
std::vector<std::string> log_lines;
static std::atomic<int> nlog{0};
int log_errors() { return nlog; }
void (*log_hook)(int, const std::string &) = nullptr;
void log_line(int v, const std::string &m) {
  if (log_hook) log_hook(v, m);
  if (v < -1) ++nlog;
  if (verbose) std::cerr << "[" << v << "] " << m << std::endl;
}
void fatal(const std::string &m) {
  if (verbose) std::cerr << "[FATAL] " << m << std::endl;
  if (fatal_mode == FATAL_THROW) throw Fatal(m);
  std::cerr << "FATAL: " << m << std::endl;
  abort();
}
namespace h5 {
bool use_disk = getenv("VP_H5_DISK") != nullptr;
std::map<std::string, std::shared_ptr<Store>> &stores() { static auto *s = new std::map<std::string, std::shared_ptr<Store>>; return *s; }
std::set<const void *> &live() { static auto *s = new std::set<const void *>; return *s; }
std::vector<std::string> &faults() { static auto *s = new std::vector<std::string>; return *s; }
bool (*fail_hook)(const char *) = nullptr;
void (*event_hook)(const std::string &) = nullptr;
static int fd = -2;
void event(const std::string &b) {
  if (fd == -2) { const char *p = getenv("VP_H5_LOG"); fd = p ? ::open(p, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1; }
  if (fd >= 0) { std::string l = "{" + b + "}\n"; if (::write(fd, l.data(), l.size()) < 0) {} }
  if (event_hook) event_hook(b);
}
void fault(const std::string &w) { faults().push_back(w); event("\"e\":\"fault\",\"what\":" + jstr(w)); }
std::string jstr(const std::string &s) { return picojson::value(s).serialize(); }
std::string jvec(const std::vector<size_t> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
bool disk_exists(const std::string &p) { struct stat st; return ::stat(p.c_str(), &st) == 0; }
bool disk_create_excl(const std::string &p) {
  int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644); if (f < 0) return false;
  const char *m = "{\"vp_h5\":\"open\"}\n"; if (::write(f, m, strlen(m)) < 0) {} ::close(f); return true; }
void disk_close(const std::string &p, const Store &s) {
  std::ofstream o(p, std::ios::trunc);
  o << "{\"vp_h5\":\"closed\",\"attrs\":{"; bool f = true;
  for (auto &a : s.attrs) { o << (f ? "" : ",") << jstr(a.first) << ":" << jstr(a.second); f = false; }
  o << "},\"groups\":["; f = true; for (auto &g : s.groups) { o << (f ? "" : ",") << jstr(g); f = false; }
  o << "],\"dsets\":{"; f = true;
  for (auto &d : s.dsets) { o << (f ? "" : ",") << jstr(d.first) << ":{\"dims\":" << jvec(d.second.dims) << ",\"max\":[";
    for (size_t i = 0; i < d.second.maxdims.size(); ++i) o << (i ? "," : "") << (d.second.maxdims[i] == SIZE_MAX ? -1 : (long)d.second.maxdims[i]);
    o << "],\"data\":[";
    char b[40]; for (size_t i = 0; i < d.second.data.size(); ++i) { snprintf(b, 40, "%.17g", d.second.data[i]); o << (i ? "," : "") << (std::isfinite(d.second.data[i]) ? b : "null"); }
    o << "],\"writes\":["; for (size_t i = 0; i < d.second.writes.size(); ++i) o << (i ? "," : "") << d.second.writes[i];
    o << "]}"; f = false; }
  o << "}}\n";
}
bool disk_load(const std::string &p, Store &s) {
  std::ifstream i(p); picojson::value v; i >> v;
  if (!picojson::get_last_error().empty() || !v.is<picojson::object>() || v.get("vp_h5").to_str() != "\"closed\"") return false;
  for (auto &a : v.get("attrs").get<picojson::object>()) s.attrs[a.first] = a.second.get<std::string>();
  for (auto &g : v.get("groups").get<picojson::array>()) s.groups.insert(g.get<std::string>());
  for (auto &d : v.get("dsets").get<picojson::object>()) { Dset x;
    for (auto &e : d.second.get("dims").get<picojson::array>()) x.dims.push_back((size_t)e.get<double>());
    for (auto &e : d.second.get("max").get<picojson::array>()) x.maxdims.push_back(e.get<double>() < 0 ? SIZE_MAX : (size_t)e.get<double>());
    for (auto &e : d.second.get("data").get<picojson::array>()) x.data.push_back(e.is<double>() ? e.get<double>() : NAN);
    for (auto &e : d.second.get("writes").get<picojson::array>()) x.writes.push_back((int)e.get<double>());
    s.dsets[d.first] = x; }
  return true;
}
// HDF5 closes every open file from its atexit handler (H5_term_library)
struct AtExit { ~AtExit() { if (use_disk) { auto l = live(); for (auto f : l) ((HighFive::File *)f)->~File(); } } } at_exit_;
}
}
