// Stand-in for the C library's random numbers, the same in every run: the program seeds them with the time of day
// With VT_RAND_TOP set, the largest number comes up often. (C library: any number up to RAND_MAX may come.)
#include <cstdlib>
extern "C" { static unsigned long state = 88172645463325252ul; void srand(unsigned) noexcept {} int rand() noexcept { unsigned long s = __atomic_add_fetch(&state, 0x9E3779B97F4A7C15ul, __ATOMIC_RELAXED); s = (s ^ (s >> 30)) * 0xBF58476D1CE4E5B9ul; s = (s ^ (s >> 27)) * 0x94D049BB133111EBul; static const bool top = getenv("VT_RAND_TOP"); if (top && (s >> 40) % 8 == 0) return RAND_MAX; return (int)((s ^ (s >> 31)) & 0x7fffffff); } }
// The number of processors the program believes to have, from VT_THREADS (0: unknown)
#include <thread>
unsigned std::thread::hardware_concurrency() noexcept { const char* t = getenv("VT_THREADS"); return t ? (unsigned)atoi(t) : 4; }
