// numbers in text files that are symbolic: "@k" stands for the k-th registered value
#pragma once
#include "hsx.h"
#include <cstdlib>
#include <istream>
#include <string>
#include <vector>
namespace streams {
inline std::vector<double>& values() { static std::vector<double> v; return v; }
inline std::string put(double x) { values().push_back(x); return "@" + std::to_string(values().size() - 1); }
}
extern "C" std::istream* hsx_read_double(std::istream* s, double* x) asm("_ZNSirsERd");
extern "C" std::istream* hsx_read_double(std::istream* s, double* x) {
    std::string t;
    if (!(*s >> t)) return s;
    if (t[0] == '@') *x = streams::values()[std::strtoul(t.c_str() + 1, nullptr, 10)];
    else *x = std::strtod(t.c_str(), nullptr);
    return s;
}
extern "C" std::istream* hsx_extract_double(std::istream* s, double* x) asm("_ZNSi10_M_extractIdEERSiRT_");
extern "C" std::istream* hsx_extract_double(std::istream* s, double* x) { return hsx_read_double(s, x); }
