// C26: a build without OpenMP behaves like a team of one thread.
#include "vp.h"
#include "ieompp/openmp.hpp"
HARNESS(serial)
{
    // every iteration is done by exactly one thread if they are dealt out by thread number
    const uint64_t n = vp_below("n", 9), i = vp_below("i", 8);
    vp_assume(i < n);
    uint64_t count = 0;
    const uint64_t threads = uint64_t(omp_get_num_threads()), most = uint64_t(omp_get_max_threads());
    vp_assert(omp_get_thread_num() == 0 && threads == 1 && most == 1, "one thread with number 0");
    for(uint64_t k = uint64_t(omp_get_thread_num()); k < n && count < 10; k += threads) {
        count += vp_select_u64(k == i, 1, 0);
    }
    vp_assert(count == 1, "every iteration is done once");
    vp_reach("end");
}
