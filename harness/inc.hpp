// Running the real compilers on generated programs.
#pragma once
#include "mc.hpp"
#include <sys/wait.h>
namespace inc {
inline const char* dir() { return MC_REPO "/include"; }
inline int run(mc::Exec& e, const std::string& cmd, std::string& out, size_t cap = 1500) { out.clear(); FILE* p = popen((cmd + " 2>&1").c_str(), "r"); if (!p) return -1; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) { if (out.size() < cap) out.append(b, n); e.beat(); } return pclose(p); }
inline std::string file(const char* name, const std::string& text) { std::string p = std::string(mc::scratch()) + "/" + name; FILE* f = fopen(p.c_str(), "w"); fputs(text.c_str(), f); fclose(f); return p; }
// a compiler that cannot compile a program of the standard library alone says nothing about this library
inline bool usable(mc::Exec& e, const char* cxx, const char* std, const std::string& text = "#include <string>\nint main() {}\n") { std::string o; return run(e, mc::strf("%s -std=%s -fsyntax-only %s", cxx, std, file("empty.cpp", text).c_str()), o) == 0; }
}
