// Controlled scheduling: code compiled with -fsanitize=thread (but linked
// without the sanitizer's runtime) calls the functions of sched.cpp at every
// memory access; exactly one thread runs at a time and a seeded strategy
// decides who goes on.  Mutexes, condition variables, thread creation and
// joining, sleeping and OpenMP constructs are replaced too.
#pragma once
#include <cstdint>
namespace sched {
// strategy: 0 random walk (switch with probability 1/param), 1 PCT (param
// priority change points in an expected length), 2 round robin every param
void begin(uint64_t seed, int strategy, int param, long expectedLength, long maxSteps);
long end();                  // number of scheduling points passed
void point();                // explicit scheduling point
int& tag();                  // of the calling thread, inherited by its threads
void hold(bool);             // accesses of the caller are no scheduling points while true
void relax();                // a scheduling point of a thread that waits
int self();                  // managed thread number, 0 = the caller of begin
long now();                  // logical time
bool active();
// once ranges are watched, only accesses to them (and synchronisation) are
// scheduling points
void watch(const void* p, unsigned long n);
extern long patience;        // steps after which a running thread falls back (strategy 1)
extern int ompThreads;       // team size of OpenMP regions
}
