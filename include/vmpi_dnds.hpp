// DNDS's own MPI layer (src/DNDS/MPI.cpp, Profiling.cpp) on top of the MPI contracts of vmpi.hpp.
#pragma once
#include "vc.hpp"
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <iostream>
#include <fstream>
#include <chrono>
#include <thread>
#include <mutex>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <tuple>
#include <array>
#include <memory>
#include <sstream>
#include <string>
#include <algorithm>
#include <functional>
#include "vmpi.hpp"
#include "DNDS/Defines.hpp"
namespace std
{
    inline char *vc_getenv(const char *) { return nullptr; } // no environment variable set
}
#define getenv vc_getenv
#define private public // the strategy flags are set by the contracts directly
#include "DNDS/MPI.hpp"
#undef private
#include "DNDS/MPI.cpp"
#include "DNDS/Profiling.cpp"
#undef getenv
namespace DNDS { std::ostream &log() { return std::cout; } }
