// Binary data in text form: the text decodes to the bytes that went in.
#include "hsx.h"
#include "Output/base64.h"
#include <string>
#include <vector>
using namespace hpgem;
static int digit(unsigned char c) {  // RFC 4648
    int v = -1;
    for (int k = 0; k < 26; ++k) { v = c == 'A' + k ? k : v; v = c == 'a' + k ? 26 + k : v; }
    for (int k = 0; k < 10; ++k) v = c == '0' + k ? 52 + k : v;
    v = c == '+' ? 62 : v;
    v = c == '/' ? 63 : v;
    return v;
}
static void roundTrip(std::size_t n) {
    std::vector<unsigned char> in(n + 1);
    for (std::size_t i = 0; i < n; ++i) in[i] = hsx_byte(("byte" + std::to_string(i)).c_str());
    std::vector<unsigned char> keep = in;
    std::string t = Output::Detail::toBase64(n ? in.data() : nullptr, n);
    hsx_assert(t.size() == (n + 2) / 3 * 4, "length of the text");
    std::size_t pad = n % 3 == 0 ? 0 : 3 - n % 3;
    for (std::size_t g = 0; 4 * g < t.size(); ++g) {
        std::size_t k = 4 * (g + 1) == t.size() ? pad : 0;
        unsigned bits = 0;
        for (std::size_t j = 0; j < 4; ++j) {
            if (j + k >= 4) { hsx_assert(t[4 * g + j] == '=', "padding"); bits <<= 6; continue; }
            int v = digit(t[4 * g + j]);
            hsx_assert(v >= 0, "only characters of the alphabet");
            bits = bits << 6 | static_cast<unsigned>(v & 63);
        }
        for (std::size_t j = 0; j + k < 3; ++j) hsx_assert((bits >> (16 - 8 * j) & 255) == keep[3 * g + j], "the text decodes to the data");
        for (std::size_t j = 3 - k; j < 3; ++j) hsx_assert((bits >> (16 - 8 * j) & 255) == 0, "unused bits are zero");
    }
    for (std::size_t i = 0; i < n; ++i) hsx_assert(in[i] == keep[i], "the data is left alone");
}
extern "C" {
void hsx_case_base64() { roundTrip(hsx_choice("length", 8)); hsx_reach("end"); }
void hsx_case_base64_order() { hsx_assert(!Output::Detail::isBigEndian(), "byte order of this machine"); hsx_reach("end"); }
void hsx_case_deep_base64() { roundTrip(8 + hsx_choice("length", 17)); hsx_reach("end"); }
}
