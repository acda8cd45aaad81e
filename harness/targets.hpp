// Targets that clang++ can compile for without a sysroot, and the names of the standard headers (empty files stand in for them).
#pragma once
#include "inc.hpp"
namespace hx {
static const char* const STD[] = {"c++11", "c++14", "c++17", "c++20", "c++23"}; static const long VER[] = {201103, 201402, 201703, 202002, 202300};
struct Target { const char* triple; const char* arch; int bits; const char* os; const char* name; bool unix_; };
static const Target T[] = {
    {"x86_64-linux-gnu", "X86_64", 64, "LINUX", "Linux", true}, {"i386-linux-gnu", "X86", 32, "LINUX", "Linux", true}, {"aarch64-linux-gnu", "ARM64", 64, "LINUX", "Linux", true}, {"arm-linux-gnueabihf", "ARM", 32, "LINUX", "Linux", true},
    {"x86_64-linux-gnux32", "X86_64", 64, "LINUX", "Linux", true}, {"x86_64-apple-darwin", "X86_64", 64, "APPLE", "Apple", true}, {"arm64-apple-darwin", "ARM64", 64, "APPLE", "Apple", true},
    {"x86_64-pc-windows-msvc", "X86_64", 64, "WINDOWS", "Windows", false}, {"i686-pc-windows-msvc", "X86", 32, "WINDOWS", "Windows", false}, {"aarch64-pc-windows-msvc", "ARM64", 64, "WINDOWS", "Windows", false}, {"x86_64-w64-mingw32", "X86_64", 64, "WINDOWS", "Windows", false}, {"i686-w64-mingw32", "X86", 32, "WINDOWS", "Windows", false},
    {"armv7-linux-androideabi", "ARM", 32, "ANDROID", "Android", true}, {"aarch64-linux-android", "ARM64", 64, "ANDROID", "Android", true}, {"x86_64-linux-android", "X86_64", 64, "ANDROID", "Android", true}, {"i686-linux-android", "X86", 32, "ANDROID", "Android", true}};
static const unsigned NT = sizeof T / sizeof *T;
static const char* const STUB[] = {"algorithm","any","array","atomic","barrier","bit","bitset","cassert","cctype","cerrno","cfenv","cfloat","charconv","chrono","cinttypes","climits","clocale","cmath","codecvt","compare","complex","concepts","condition_variable","coroutine","csetjmp","csignal","cstdarg","cstddef","cstdint","cstdio","cstdlib","cstring","ctime","cuchar","cwchar","cwctype","deque","exception","execution","expected","filesystem","flat_map","flat_set","forward_list","format","fstream","functional","future","generator","initializer_list","iomanip","ios","iosfwd","iostream","istream","iterator","latch","limits","list","locale","map","mdspan","memory","memory_resource","mutex","new","numbers","numeric","optional","ostream","print","queue","random","ranges","ratio","regex","scoped_allocator","semaphore","set","shared_mutex","source_location","span","spanstream","sstream","stack","stacktrace","stdexcept","stdfloat","stop_token","streambuf","string","string_view","strstream","syncstream","system_error","thread","tuple","type_traits","typeindex","typeinfo","unordered_map","unordered_set","utility","valarray","variant","vector","version","windows.h","Windows.h","unistd.h","stdint.h","stddef.h","stdlib.h","string.h","stdio.h","limits.h","math.h"};
}
