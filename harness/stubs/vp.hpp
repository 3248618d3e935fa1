#ifndef VP_HPP
#define VP_HPP
#include <string>
#include <vector>
namespace vp {
enum FatalMode { FATAL_ABORT, FATAL_THROW };
extern FatalMode fatal_mode;
extern bool verbose;
int log_errors();
extern void (*log_hook)(int, const std::string &);
namespace h5 {
extern void (*event_hook)(const std::string &);
extern bool (*fail_hook)(const char *);
std::vector<std::string> &faults();
}
}
#endif
