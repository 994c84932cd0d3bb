// Real threads, one running at a time: the tape decides at which memory access the next one takes over.
// Code compiled with -fsanitize=thread calls sim/threads.cpp instead of the sanitizer's runtime; it yields there and
// checks every pair of conflicting accesses for a happens-before order (vector clocks).
#ifndef VERIF_SIM_THREADS_HPP
#define VERIF_SIM_THREADS_HPP
#include "core.hpp"
namespace sim {
void run_threads(const std::vector<std::function<void()>>& bodies);   // returns when all have ended
uint64_t thread_switches();
uint64_t schedule_hash();
}
#endif
