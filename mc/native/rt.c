/* Run-time of the "traced" build flavour: gcc -fsanitize=thread calls these at every memory access of the compiled
 * interpolators.  A controlled thread (role 1) can be stopped before its n-th access made without the interpreter lock;
 * the accesses of both threads are recorded so that conflicting ones can be found. */
#define _GNU_SOURCE
#include <errno.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <dlfcn.h>

static __thread int role;
static int (*gil_check)(void);

static volatile long stop_at = -1;
static volatile int recording, collecting;
static sem_t reached, resume;
static volatile int initialised;

/* what thread 1 did */
static long count1, count2;
static int had_gil;
#define MAXSECT 100000
static long sect[MAXSECT];
static int nsect;
static long npoints, maxpoints;
static long *points;

/* access flags per 4 bytes: 1 read by A, 2 written by A, 4 read by B, 8 written by B, 16 conflict */
#define NSLOT (1 << 18)
static uintptr_t keys[NSLOT];
static unsigned char *pages[NSLOT];
static uintptr_t last_key;
static unsigned char *last_page;
static long nconflicts;

static unsigned char *page_of(uintptr_t addr, int create)
{
    uintptr_t key = addr >> 12;
    if (key == last_key && last_page)
        return last_page;
    uint64_t h = key * 0x9E3779B97F4A7C15ull;
    unsigned i = (unsigned)(h >> 46);
    while (keys[i] && keys[i] != key)
        i = (i + 1) & (NSLOT - 1);
    if (!keys[i]) {
        if (!create)
            return NULL;
        pages[i] = calloc(1024, 1);
        keys[i] = key;
    }
    last_key = key;
    last_page = pages[i];
    return pages[i];
}

static inline int mark(uintptr_t addr, unsigned size, int flag)
{
    int seen = 0;
    for (uintptr_t a = addr & ~(uintptr_t)3; a < addr + size; a += 4) {
        unsigned char *p = page_of(a, 1) + ((a & 4095) >> 2);
        *p |= flag;
        seen |= *p;
        if (((*p & 2) && (*p & 12)) || ((*p & 8) && (*p & 3))) {
            if (!(*p & 16))
                nconflicts++;
            *p |= 16;
        }
    }
    return seen;
}

static void access_(void *ptr, unsigned size, int write)
{
    if (!role)
        return;
    if (!gil_check)
        return;
    uintptr_t addr = (uintptr_t)ptr;
    if (role == 2) {
        count2++;
        if (recording)
            mark(addr, size, write ? 8 : 4);
        return;
    }
    if (gil_check()) {
        if (!had_gil && nsect < MAXSECT)
            sect[nsect++] = count1;
        had_gil = 1;
        return;
    }
    if (had_gil && nsect < MAXSECT)
        sect[nsect++] = count1;
    had_gil = 0;
    long n = count1++;
    if (n == stop_at) {
        sem_post(&reached);
        while (sem_wait(&resume) && errno == EINTR)
            ;
    }
    if (recording)
        mark(addr, size, write ? 2 : 1);
    if (collecting) {
        unsigned char *pg = page_of(addr, 0);
        if (pg && (pg[(addr & 4095) >> 2] & 16)) {
            if (npoints < maxpoints)
                points[npoints] = n;
            npoints++;
        }
    }
}

/* ---- control */
void mc_reset(long stop, int record, int collect)
{
    if (!initialised) {
        sem_init(&reached, 0, 0);
        sem_init(&resume, 0, 0);
        gil_check = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
        maxpoints = 1 << 20;
        points = malloc(maxpoints * sizeof(long));
        initialised = 1;
    }
    while (!sem_trywait(&reached))
        ;
    while (!sem_trywait(&resume))
        ;
    stop_at = stop;
    recording = record;
    collecting = collect;
    count1 = count2 = 0;
    had_gil = 1;
    nsect = 0;
    npoints = 0;
}
void mc_forget(void)
{
    for (int i = 0; i < NSLOT; i++)
        if (keys[i]) {
            free(pages[i]);
            keys[i] = 0;
            pages[i] = NULL;
        }
    last_key = 0;
    last_page = NULL;
    nconflicts = 0;
}
void mc_role(int r) { role = r; }
int mc_wait_reached(double seconds)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    long ns = t.tv_nsec + (long)((seconds - (long)seconds) * 1e9);
    t.tv_sec += (long)seconds + ns / 1000000000;
    t.tv_nsec = ns % 1000000000;
    int r;
    while ((r = sem_timedwait(&reached, &t)) && errno == EINTR)
        ;
    return r == 0;
}
void mc_finished(void) { sem_post(&reached); }
void mc_resume(void) { stop_at = -1; sem_post(&resume); }
long mc_count(int r) { return r == 1 ? count1 : count2; }
long mc_conflicts(void) { return nconflicts; }
long mc_npoints(void) { return npoints; }
long mc_point(long i) { return points[i]; }
int mc_nsect(void) { return nsect; }
long mc_sect(int i) { return sect[i]; }

/* ---- what gcc -fsanitize=thread calls */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { access_(p, 8, 1); }
void __tsan_vptr_read(void **p) { access_(p, 8, 0); }
#define ACC(n) \
    void __tsan_read##n(void *p) { access_(p, n, 0); } \
    void __tsan_write##n(void *p) { access_(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { access_(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { access_(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { access_(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { access_(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access_(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access_(p, n, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) access_(p, (unsigned)n, 0); }
void __tsan_write_range(void *p, unsigned long n) { if (n) access_(p, (unsigned)n, 1); }
/* atomic operations commute (reference counts): executed, not recorded */
#define ATOM(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type *p, int mo) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile type *p, type v, int mo) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_exchange(volatile type *p, type v, int mo) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int mo) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int mo) { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int mo) { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int mo) { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int mo) { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int mo, int fmo) { return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int mo, int fmo) { return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) {}
