// sched.hpp - controlled scheduler for real threads of code compiled with clang's -fsanitize=thread instrumentation.
//
// The instrumentation calls are implemented by mc/sched.cpp instead of the ThreadSanitizer runtime: exactly one thread runs
// at a time, every synchronisation operation (atomic, static-initialisation guard, mutex, once) is a point at which the
// explorer may switch threads, atomic loads may return any value the C++11 memory model still allows, and plain accesses
// are checked for data races against vector clocks that follow the memory orders in the source.
#pragma once
#include "mc.hpp"
namespace sched {
constexpr int kThreads = 5;                     // the setting-up thread and up to four more
// start an execution: how many preemptive switches, stale atomic reads and spurious weak CAS failures it may contain
void begin(mc::Exec& e, unsigned preemptions, unsigned stale, unsigned spurious);
void spawn(void (*fn)(void*), void* arg);
void join();                                     // run all spawned threads to their end, in every order
void end(bool leak_check);
void op(const char* label);                      // what the calling thread does next (for messages)
void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
unsigned long long points();                     // synchronisation operations so far
uint64_t schedule_hash();                        // of the order of synchronisation operations
// bookkeeping of the harness that is not part of the program under test
struct Quiet { Quiet(); ~Quiet(); };
// run body in a forked child: function statics start uninitialised in every execution
void isolated(mc::Exec& e, void (*body)(mc::Exec&, void*), void* ctx);
}
