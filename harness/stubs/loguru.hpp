// Minimal stand-in for emilk/loguru (the submodule is empty in this sandbox).
// LOG_S(FATAL) must not return: it calls vp::fatal(), which the harness decides
// (throw vp::Fatal, or abort() exactly like the real library).
#ifndef VP_LOGURU_HPP
#define VP_LOGURU_HPP
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

namespace vp {
struct Fatal : public std::runtime_error {
  explicit Fatal(const std::string &m) : std::runtime_error(m) {}
};
void fatal(const std::string &msg);                    // does not return
void log_line(int verbosity, const std::string &msg);  // level < 0: warning and worse
}

namespace loguru {
using Verbosity = int;
enum NamedVerbosity : Verbosity {
  Verbosity_INVALID = -10, Verbosity_OFF = -9, Verbosity_FATAL = -3, Verbosity_ERROR = -2,
  Verbosity_WARNING = -1, Verbosity_INFO = 0, Verbosity_0 = 0, Verbosity_1 = 1, Verbosity_2 = 2,
  Verbosity_3 = 3, Verbosity_4 = 4, Verbosity_5 = 5, Verbosity_6 = 6, Verbosity_7 = 7,
  Verbosity_8 = 8, Verbosity_9 = 9, Verbosity_MAX = 9
};
enum FileMode { Truncate, Append };
struct SignalOptions {
  bool unsafe_signal_handler = true, sigabrt = true, sigbus = true, sigfpe = true, sigill = true,
       sigint = true, sigsegv = true, sigterm = true;
  static SignalOptions none() {
    SignalOptions o; o.unsafe_signal_handler = o.sigabrt = o.sigbus = o.sigfpe = o.sigill =
      o.sigint = o.sigsegv = o.sigterm = false; return o; }
};
struct Options {
  const char *verbosity_flag = "-v";
  const char *main_thread_name = "main thread";
  SignalOptions signals;
};
inline Verbosity g_stderr_verbosity = 0;
inline bool g_colorlogtostderr = true, g_preamble = true, g_preamble_verbose = true,
  g_preamble_date = true, g_preamble_time = true, g_preamble_uptime = true,
  g_preamble_thread = true, g_preamble_file = true, g_preamble_pipe = true,
  g_preamble_header = true;
inline unsigned g_flush_interval_ms = 0;
inline void init(int &, char **, const Options & = {}) {}
inline bool add_file(const char *, FileMode, Verbosity) { return true; }
inline bool remove_callback(const char *) { return true; }
inline void set_thread_name(const char *) {}
inline void flush() {}
inline void shutdown() {}

class StreamLogger {
public:
  StreamLogger(Verbosity v) : v_(v) {}
  ~StreamLogger() noexcept(false) {
    if (v_ <= Verbosity_FATAL) vp::fatal(ss_.str());
    else vp::log_line(v_, ss_.str());
  }
  template <typename T> StreamLogger &operator<<(const T &t) { ss_ << t; return *this; }
  StreamLogger &operator<<(std::ostream &(*f)(std::ostream &)) { f(ss_); return *this; }
private:
  Verbosity v_;
  std::ostringstream ss_;
};
struct Voidify { void operator&(const StreamLogger &) {} };
}

#define VLOG_IF_S(verbosity, cond) \
  ((verbosity) > 5 || !(cond)) ? (void)0 : loguru::Voidify() & loguru::StreamLogger(verbosity)
#define LOG_S(name) VLOG_IF_S(loguru::Verbosity_##name, true)
#define LOG_IF_S(name, cond) VLOG_IF_S(loguru::Verbosity_##name, cond)
#define VLOG_S(v) VLOG_IF_S(v, true)
#define DLOG_S(name) LOG_S(name)
#define CHECK_S(cond) VLOG_IF_S(loguru::Verbosity_FATAL, !(cond))
#define CHECK_EQ_S(a, b) CHECK_S((a) == (b))
#define CHECK_NE_S(a, b) CHECK_S((a) != (b))
#define CHECK_LT_S(a, b) CHECK_S((a) < (b))
#define CHECK_LE_S(a, b) CHECK_S((a) <= (b))
#define CHECK_GT_S(a, b) CHECK_S((a) > (b))
#define CHECK_GE_S(a, b) CHECK_S((a) >= (b))
#define LOG_F(name, ...) do { char b_[1024]; snprintf(b_, sizeof b_, __VA_ARGS__); LOG_S(name) << b_; } while (0)
#define LOG_SCOPE_F(name, ...) ((void)0)
#define LOG_SCOPE_FUNCTION(name) ((void)0)
#define CHECK_F(cond, ...) CHECK_S(cond)
#define ABORT_F(...) LOG_F(FATAL, __VA_ARGS__)
#endif
