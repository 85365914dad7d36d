// A scheduler for native runs: the threads of the code under test become fibers of one thread, and every
// interleaving, time-out and spurious wake-up is drawn from a seed.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <cstddef>
#include <cstdint>
extern "C" {
void sched_run(uint64_t seed, void (*f)());       // runs f, then what is left of the other threads
uint32_t sched_rand(uint32_t n);
void sched_point();                               // another thread may run here
int64_t sched_now();                              // virtual clock, ns
void sched_sleep(int64_t ns);
void sched_idle();                                // blocks until every other thread waits for ever or is finished
void sched_mine(bool on);                         // threads created from now on belong to the harness
void sched_dead(const void* p, size_t n);         // nobody uses the mutexes and condition variables there any more
uint32_t sched_threads();                         // the largest number of threads that existed together (harness's excluded)
uint64_t sched_steps();
uint64_t sched_key();                             // of the order in which the threads ran
}
#endif
