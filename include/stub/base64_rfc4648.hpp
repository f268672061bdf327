// Stand-in for cppcodec (not installed): only lets SerializerJSON.cpp compile, its text codec is not called by any contract.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace cppcodec
{
    struct base64_rfc4648
    {
        static std::string encode(const std::vector<uint8_t> &) { __builtin_trap(); }
        static void decode(std::vector<uint8_t> &, const std::string &) { __builtin_trap(); }
    };
}
