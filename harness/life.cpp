// Runs the real program (its main is renamed) and delivers signals at chosen points:
// at HDF5 accesses, log lines, ends and beginnings of parallel regions, and sleeps.
//   life SCHEDULE program-args...      SCHEDULE: lines "<tick> <what>", what = signal number or "remove"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <random>
#include <atomic>
#include "vp.hpp"
#include "gomp.hpp"
#include "loguru.hpp"
#include <highfive/H5File.hpp>

std::random_device::result_type std::random_device::_M_getval() {
  static std::atomic<unsigned> n{0};
  const char *s = std::getenv("VERIF_SEED");
  return 2654435761u * (unsigned)(s ? std::atoi(s) : 0) + 40503u * n++;
}
int picopic_main(int, char **);

struct Entry { long tick; std::string what; };
static std::vector<Entry> sched;
static size_t nextE = 0;
static long ticks = 0, waited = 0;
static bool quiet = false;
static std::string root;

static std::string disk() {
  std::ifstream f(root + "/data.h5");
  if (!f.good()) return "absent";
  std::string l; std::getline(f, l);
  return l.find("{\"vp_h5\":\"closed\"") == 0 ? "closed" : l.find("{\"vp_h5\":\"open\"") == 0 ? "open" : "other";
}
static void say(const std::string &s) { bool q = quiet; quiet = true; vp::h5::event(s); quiet = q; }
static void deliver() {
  Entry e = sched[nextE++];
  if (e.what == "remove") {
    if (disk() != "closed" || !vp::h5::live().empty()) return;
    ::unlink((root + "/data.h5").c_str());
    say("\"e\":\"remove\"");
    return;
  }
  say("\"e\":\"sig\",\"n\":" + e.what + ",\"tick\":" + std::to_string(ticks));
  raise(atoi(e.what.c_str()));
}
static void tick() {
  if (quiet) return;
  ++ticks;
  waited = 0;
  while (nextE < sched.size() && sched[nextE].tick >= 0 && sched[nextE].tick <= ticks) deliver();
}
// the program waits: entries are delivered in their order, whatever their point was
static void nap() {
  if (quiet) return;
  say("\"e\":\"sleep\",\"disk\":\"" + disk() + "\"");
  ++waited;
  if (nextE < sched.size()) { if (waited >= 2 || sched[nextE].tick < 0) { waited = 0; deliver(); } }
  else if (waited > 5) { say("\"e\":\"stuck\""); _exit(77); }
}
extern "C" unsigned sleep(unsigned) { nap(); return 0; }
extern "C" int usleep(useconds_t) { nap(); return 0; }
extern "C" int nanosleep(const struct timespec *, struct timespec *) { nap(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { nap(); return 0; }
extern "C" int pause(void) { nap(); return -1; }

// VP_FAIL=n: the n-th operation on the data file fails;  n+: every one from it on
static long ops = 0, failAt = 0;
static bool failOn = false;
static bool failing(const char *op) {
  ++ops;
  if (!failAt || ops < failAt || (!failOn && ops > failAt)) return false;
  say(std::string("\"e\":\"ioerr\",\"op\":\"") + op + "\"");
  return true;
}
int main(int argc, char **argv) {
  std::ifstream s(argv[1]);
  Entry e;
  while (s >> e.tick >> e.what) sched.push_back(e);
  root = getenv("VP_ROOT");
  if (getenv("VP_THREADS")) vp::omp::num_threads = atoi(getenv("VP_THREADS"));
  if (getenv("VP_ORDER")) vp::omp::order_seed = atoi(getenv("VP_ORDER"));
  vp::h5::event_hook = [](const std::string &) { tick(); };
  vp::log_hook = [](int, const std::string &) { tick(); };
  vp::omp::region_begin = [](int) { tick(); };
  vp::omp::region_end = []() { tick(); };
  if (const char *f = getenv("VP_FAIL")) { failAt = atol(f); failOn = f[strlen(f) - 1] == '+'; }
  vp::h5::fail_hook = failing;
  // fault handlers of the harness itself would hide those of the program
  argv[1] = argv[0];
  int r = picopic_main(argc - 1, argv + 1);
  say("\"e\":\"ticks\",\"n\":" + std::to_string(ticks) + ",\"ops\":" + std::to_string(ops));
  return r;
}
