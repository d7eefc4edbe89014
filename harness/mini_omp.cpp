// Stand-in for libomp used to replay counterexamples: the distribution of the iterations and the order of the
// threads come from the input file.  VP_OMP_SERIAL=1: one thread runs at a time, in the given order between two
// barriers (deterministic replay); otherwise all threads run concurrently (for ThreadSanitizer).
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <map>
#include <string>
#include <utility>
#include <vector>

const char* vp_native_lookup(const char* name);

namespace {
pthread_mutex_t mx   = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t cv    = PTHREAD_COND_INITIALIZER;
bool active = false, serial = false;
int T = 1, region = 0;
std::vector<int> order, status;
int pos = 0, waiting = 0, epoch = 0;
thread_local int me = 0, my_loops = 0;
thread_local bool disp_done = false;
thread_local uint64_t disp[3];
void (*fn)()                = nullptr;
std::vector<void*> args;
uint64_t input(const std::string& n, uint64_t def)
{
    const char* v = vp_native_lookup(n.c_str());
    return v ? strtoull(v, nullptr, 10) : def;
}
void await_turn()
{
    pthread_mutex_lock(&mx);
    while(order[pos] != me) pthread_cond_wait(&cv, &mx);
    pthread_mutex_unlock(&mx);
}
void pass_turn()
{
    pthread_mutex_lock(&mx);
    if(++pos == T) {
        pos = 0;
        ++epoch;
    }
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mx);
}
void call(int32_t tid)
{
    int32_t g = tid, b = tid;
    void** a = args.data();
    typedef int32_t* I;
    typedef void* P;
#define F(...) ((void (*)(I, I, ##__VA_ARGS__))fn)
    switch(args.size()) {
        case 0: F()(&g, &b); break;
        case 1: F(P)(&g, &b, a[0]); break;
        case 2: F(P, P)(&g, &b, a[0], a[1]); break;
        case 3: F(P, P, P)(&g, &b, a[0], a[1], a[2]); break;
        case 4: F(P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3]); break;
        case 5: F(P, P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3], a[4]); break;
        case 6: F(P, P, P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5]); break;
        case 7: F(P, P, P, P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
        case 8: F(P, P, P, P, P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
        case 9: F(P, P, P, P, P, P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
        case 10: F(P, P, P, P, P, P, P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break;
        case 11: F(P, P, P, P, P, P, P, P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); break;
        case 12: F(P, P, P, P, P, P, P, P, P, P, P, P)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
        default: fprintf(stderr, "mini_omp: too many arguments\n"); exit(3);
    }
}
void* worker(void* p)
{
    me = int(intptr_t(p));
    if(serial) await_turn();
    call(me);
    if(serial) pass_turn();
    return nullptr;
}
template <typename U>
bool range(U* lower, U* upper, U inc, U* stride)
{
    const U lb = *lower, ub = *upper;
    uint64_t n = uint64_t(U(ub - lb) / inc) + 1;
    if(int64_t(ub) - int64_t(lb) < 0) n = 0;
    if(sizeof(U) == 8 && int64_t(ub - lb) < 0) n = 0;
    // no locks here: they would order the threads and hide races
    std::vector<uint64_t> sp;
    const int ln  = my_loops++;
    uint64_t prev = 0;
    for(int k = 0; k + 1 < T; ++k) {
        uint64_t v = input("omp_split" + std::to_string(region) + "_" + std::to_string(ln) + "_" + std::to_string(k), n * (k + 1) / T);
        v          = std::min(std::max(v, prev), n);
        sp.push_back(v);
        prev = v;
    }
    const uint64_t b0 = me == 0 ? 0 : sp[me - 1], b1 = me + 1 == T ? n : sp[me];
    if(stride) *stride = U(ub - lb + inc);
    if(b1 <= b0) {
        *lower = U(ub + inc);
        *upper = ub;
        return false;
    }
    *lower = U(lb + b0 * inc);
    *upper = U(lb + b1 * inc - inc);
    return b1 == n;
}
}  // namespace

extern "C" {
int32_t __kmpc_global_thread_num(void*) { return me; }
int omp_get_thread_num(void) { return me; }
int omp_get_num_threads(void) { return active ? T : 1; }
static int pushed = 0, wanted = 0;
static int available()
{
    const char* e = getenv("VP_OMP_THREADS");
    return e ? atoi(e) : 2;
}
int omp_get_max_threads(void) { return wanted ? wanted : available(); }
void omp_set_num_threads(int n) { wanted = n < 1 ? 1 : n; }
void __kmpc_push_num_threads(void*, int32_t, int32_t n) { pushed = n < 1 ? 1 : n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_num_procs(void) { return 1; }
int omp_get_num_devices(void) { return 0; }
int omp_get_max_active_levels(void) { return 1; }
int omp_get_thread_limit(void) { return 2147483647; }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
int omp_get_level(void) { return active; }
int omp_get_active_level(void) { return active; }
int omp_in_parallel(void) { return active; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void*) { pthread_mutex_lock(&crit); }
void omp_unset_lock(void*) { pthread_mutex_unlock(&crit); }
void __kmpc_fork_call(void*, int32_t argc, void* f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::vector<void*> a;
    for(int i = 0; i < argc; ++i) a.push_back(va_arg(ap, void*));
    va_end(ap);
    if(active) {  // nested: executed by the encountering thread
        int32_t z = 0;
        (void)z;
        fprintf(stderr, "mini_omp: nested parallel region\n");
        exit(3);
    }
    T      = std::min(pushed ? pushed : omp_get_max_threads(), available());
    pushed = 0;
    serial = getenv("VP_OMP_SERIAL") != nullptr;
    fn     = (void (*)())f;
    args   = a;
    ++region;
    order.clear();
    for(int i = 0; i < T; ++i) order.push_back(i);
    uint64_t k = input("omp_order" + std::to_string(region), 0);
    for(uint64_t i = 0; i < k; ++i) std::next_permutation(order.begin(), order.end());
    pos = waiting = epoch = 0;
    active = true;
    std::vector<pthread_t> th(T);
    for(int i = 0; i < T; ++i) pthread_create(&th[i], nullptr, worker, (void*)intptr_t(i));
    for(int i = 0; i < T; ++i) pthread_join(th[i], nullptr);
    active = false;
}
void __kmpc_barrier(void*, int32_t)
{
    if(!active) return;
    if(serial) {
        pass_turn();
        await_turn();
        return;
    }
    pthread_mutex_lock(&mx);
    const int e = epoch;
    if(++waiting == T) {
        waiting = 0;
        ++epoch;
        pthread_cond_broadcast(&cv);
    } else
        while(e == epoch) pthread_cond_wait(&cv, &mx);
    pthread_mutex_unlock(&mx);
}
#define SI(S, U)                                                                                                       \
    void __kmpc_for_static_init_##S(void*, int32_t, int32_t, int32_t* last, U* lo, U* up, U* st, U inc, U)             \
    {                                                                                                                  \
        if(!active) {                                                                                                  \
            *last = 1;                                                                                                 \
            return;                                                                                                    \
        }                                                                                                              \
        *last = range<U>(lo, up, inc, st);                                                                             \
    }                                                                                                                  \
    void __kmpc_dispatch_init_##S(void*, int32_t, int32_t, U lb, U ub, U st, U)                                        \
    {                                                                                                                  \
        disp[0] = lb, disp[1] = ub, disp[2] = st;                                                                      \
        disp_done = false;                                                                                             \
    }                                                                                                                  \
    int32_t __kmpc_dispatch_next_##S(void*, int32_t, int32_t* last, U* lo, U* up, U* st)                               \
    {                                                                                                                  \
        if(disp_done) return 0;                                                                                        \
        disp_done = true;                                                                                              \
        *lo = U(disp[0]), *up = U(disp[1]), *st = U(disp[2]);                                                          \
        if(!active) {                                                                                                  \
            *last = 1;                                                                                                 \
            return *lo <= *up;                                                                                         \
        }                                                                                                              \
        U inc = *st, dummy;                                                                                            \
        *last = range<U>(lo, up, inc, &dummy);                                                                         \
        return *lo <= *up;                                                                                             \
    }                                                                                                                  \
    void __kmpc_dispatch_fini_##S(void*, int32_t) {}
SI(4, int32_t)
SI(4u, uint32_t)
SI(8, int64_t)
SI(8u, uint64_t)
void __kmpc_for_static_fini(void*, int32_t) {}
void __kmpc_serialized_parallel(void*, int32_t) {}
void __kmpc_end_serialized_parallel(void*, int32_t) {}
void __kmpc_flush(void*) {}
void __kmpc_critical(void*, int32_t, void*) { pthread_mutex_lock(&crit); }
void __kmpc_critical_with_hint(void*, int32_t, void*, uint32_t) { pthread_mutex_lock(&crit); }
void __kmpc_end_critical(void*, int32_t, void*) { pthread_mutex_unlock(&crit); }
int32_t __kmpc_reduce(void*, int32_t, int32_t, size_t, void*, void*, void*)
{
    pthread_mutex_lock(&crit);
    return 1;
}
int32_t __kmpc_reduce_nowait(void*, int32_t, int32_t, size_t, void*, void*, void*)
{
    pthread_mutex_lock(&crit);
    return 1;
}
void __kmpc_end_reduce(void* l, int32_t g, void*)
{
    pthread_mutex_unlock(&crit);
    __kmpc_barrier(l, g);
}
void __kmpc_end_reduce_nowait(void*, int32_t, void*) { pthread_mutex_unlock(&crit); }
void __kmpc_ordered(void*, int32_t) { pthread_mutex_lock(&crit); }
void __kmpc_end_ordered(void*, int32_t) { pthread_mutex_unlock(&crit); }
void __kmpc_atomic_start(void) { pthread_mutex_lock(&crit); }
void __kmpc_atomic_end(void) { pthread_mutex_unlock(&crit); }
int32_t __kmpc_master(void*, int32_t) { return me == 0; }
void __kmpc_end_master(void*, int32_t) {}
int32_t __kmpc_masked(void*, int32_t, int32_t) { return me == 0; }
void __kmpc_end_masked(void*, int32_t) {}
int32_t __kmpc_single(void*, int32_t) { return me == 0; }
void __kmpc_end_single(void*, int32_t) {}
}
