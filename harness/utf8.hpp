// reference UTF-8 helpers used by the models (independent of the library)
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace ref {
inline std::string enc(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
inline unsigned lead_len(unsigned char b) { return b < 0x80 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3 : (b & 0xF8) == 0xF0 ? 4 : 0; }
inline bool cont(unsigned char b) { return (b & 0xC0) == 0x80; }
// exactly one structurally well-formed character
inline bool one_char(const std::string& s) {
    if (s.empty()) return false;
    unsigned n = lead_len((unsigned char)s[0]);
    if (!n || s.size() != n) return false;
    for (unsigned i = 1; i < n; ++i) if (!cont((unsigned char)s[i])) return false;
    return true;
}
inline uint32_t dec1(const std::string& s) {
    unsigned char b = (unsigned char)s[0]; unsigned n = lead_len(b);
    uint32_t c = n == 1 ? b : n == 2 ? b & 31 : n == 3 ? b & 15 : b & 7;
    for (unsigned i = 1; i < n; ++i) c = c << 6 | ((unsigned char)s[i] & 63);
    return c;
}
// split into characters; false if malformed
inline bool split(const std::string& s, std::vector<std::string>& out) {
    out.clear();
    for (size_t i = 0; i < s.size();) {
        unsigned n = lead_len((unsigned char)s[i]);
        if (!n || i + n > s.size()) return false;
        for (unsigned k = 1; k < n; ++k) if (!cont((unsigned char)s[i + k])) return false;
        out.push_back(s.substr(i, n)); i += n;
    }
    return true;
}
inline std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x; return r; }
}
