#ifndef MC_GOMP_H_
#define MC_GOMP_H_
namespace mc {
void omp_thread_exit();                         // called when a logical thread ends
void rng_thread_start(int party, int worker);   // seeds per-thread randomness
}
#endif
