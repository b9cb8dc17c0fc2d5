// Environment model of roscpp's entry points used by the calibration tools and the data collection node.
#pragma once
#include <functional>
#include <map>
#include <ros/console.h>
#include <ros/node_handle.h>
inline void (*vp_spin)() = nullptr;   // what happens while the node runs
namespace ros {
namespace init_options { enum { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
inline void init(int&, char**, const std::string&, unsigned = 0) {}
inline bool ok() { return true; }
inline void spin() { if (vp_spin) vp_spin(); }
inline void spinOnce() {}
}
