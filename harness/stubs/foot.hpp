#ifndef VP_FOOT_HPP
#define VP_FOOT_HPP
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace vp { namespace foot {
struct Summary { int region; uint64_t r, w, rl, wl; long words; std::string where; };
extern bool enabled;
void install();
std::vector<Summary> &summaries();
}}
#endif
