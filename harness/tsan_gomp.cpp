// OpenMP runtime for the thread sanitizer builds.  The system's libgomp synchronises through futexes the sanitizer
// cannot see, so every parallel region would look like a race.  This one runs the same constructs on a pool of
// pthreads and tells the sanitizer exactly the ordering OpenMP promises and nothing more: fork, join, barrier,
// critical, atomic, single.  The dispatch of loop chunks orders nothing, so a race between two iterations stays
// visible even when they happen to run one after the other.  Random yields vary the interleaving.
// Compiled without -fsanitize=thread.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" {
void __tsan_acquire(void *);
void __tsan_release(void *);
}
namespace {
struct Spin { // no ordering the sanitizer would take into account
    std::atomic<int> v{0};
    void lock() {
        int n = 0;
        while (v.exchange(1, std::memory_order_acquire))
            if (++n > 100)
                sched_yield();
    }
    void unlock() { v.store(0, std::memory_order_release); }
};
struct Share { // a loop, sections or single construct
    Spin m;
    bool init = false;
    bool up = true;
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned long long unext = 0, uend = 0, uincr = 1;
    int arrived = 0;
    void *copy = nullptr;
    std::atomic<bool> copied{false};
    char tag = 0;
};
const int NSHARE = 64; // constructs without a barrier in between that a thread may be ahead
struct Team {
    int n = 1;
    bool pre = false; // starts inside its first work share
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    std::atomic<int> arrived{0}, phase{0}, left{0};
    std::atomic<uint64_t> order{0}; // in which order the threads started, took chunks, met and ended
    char forkTag = 0, joinTag = 0, barTag[2] = {0, 0};
    Spin m;
    Share share[NSHARE];
    long shareOf[NSHARE];
};
struct Self {
    Team *team = nullptr;
    int id = 0;
    long ws = -1; // index of the current work share
    Share *cur = nullptr;
    unsigned rng = 12345;
};
thread_local Self self;
int maxThreads = 0;
std::atomic<long> nRegions{0}, nBarriers{0}, nChunks{0}, nLocks{0};
std::unordered_set<uint64_t> orders; // main thread only
void event(Team *t, uint64_t what) {
    if (!t)
        return;
    uint64_t o = t->order.load(std::memory_order_relaxed);
    while (!t->order.compare_exchange_weak(o, (o ^ (what + 1)) * 0x9e3779b97f4a7c15ull + (o >> 29), std::memory_order_relaxed))
        ;
}
Spin critLock, atomicLock;
char critTag, atomicTag;

int defaultThreads() {
    if (maxThreads <= 0) {
        const char *e = getenv("OMP_NUM_THREADS");
        maxThreads = e && atoi(e) > 0 ? atoi(e) : 4;
    }
    return maxThreads;
}
void jitter() {
    self.rng = self.rng * 1664525u + 1013904223u;
    const unsigned x = self.rng >> 16;
    if (x % 16 == 0)
        sched_yield();
    if (x % 2048 == 0)
        usleep(50 + x % 200);
}

Share *enter();
// ---- pool
struct Worker {
    pthread_t t;
    std::atomic<Team *> job{nullptr};
    int id = 0;
    unsigned seed = 0;
};
std::vector<Worker *> pool;
void run(Team *t, int id) {
    self.team = t;
    self.id = id;
    self.ws = -1;
    self.cur = nullptr;
    __tsan_acquire(&t->forkTag);
    jitter();
    if (t->pre)
        enter();
    event(t, id);
    t->fn(t->data);
    event(t, 1000 + id);
    __tsan_release(&t->joinTag);
}
void *loop(void *p) {
    Worker *w = (Worker *)p;
    self.rng = w->seed;
    for (;;) {
        Team *t;
        int n = 0;
        while (!(t = w->job.load(std::memory_order_acquire)))
            if (++n > 200)
                n < 2000 ? (void)sched_yield() : (void)usleep(100);
        w->job.store(nullptr, std::memory_order_relaxed);
        run(t, w->id);
        self.team = nullptr;
        t->left.fetch_sub(1, std::memory_order_acq_rel);
    }
    return nullptr;
}
void fork(void (*fn)(void *), void *data, unsigned want, long preStart = 0, long preEnd = 0, long incr = 0, long chunk = 0) {
    const Self outer = self;
    int n = want ? (int)want : defaultThreads();
    if (outer.team) // nested regions run on one thread
        n = 1;
    while ((int)pool.size() < n - 1) {
        Worker *w = new Worker;
        w->id = (int)pool.size() + 1;
        w->seed = 777u * w->id + (unsigned)getpid();
        pthread_create(&w->t, nullptr, loop, w);
        pool.push_back(w);
    }
    Team *t = new Team;
    t->n = n;
    t->fn = fn;
    t->data = data;
    for (int k = 0; k < NSHARE; k++)
        t->shareOf[k] = -1;
    if (chunk) { // combined parallel loop: the first work share is ready
        Share &s = t->share[0];
        s.init = true;
        s.next = preStart, s.end = preEnd, s.incr = incr, s.chunk = chunk, s.up = incr > 0;
        t->shareOf[0] = 0;
        t->pre = true;
    }
    t->left.store(n - 1);
    __tsan_release(&t->forkTag);
    for (int k = 1; k < n; k++)
        pool[k - 1]->job.store(t, std::memory_order_release);
    run(t, 0);
    int c = 0;
    while (t->left.load(std::memory_order_acquire) > 0)
        if (++c > 100)
            sched_yield();
    __tsan_acquire(&t->joinTag);
    if (n > 1) {
        nRegions++;
        if (orders.size() < 200000)
            orders.insert(t->order.load() ^ (uint64_t)(uintptr_t)fn * 0x2545f4914f6cdd1dull);
    }
    delete t;
    const unsigned r = self.rng;
    self = outer;
    self.rng = r;
}
void barrier() {
    Team *t = self.team;
    if (!t || t->n == 1)
        return;
    nBarriers++;
    event(t, 2000 + self.id);
    const int ph = t->phase.load(std::memory_order_acquire);
    __tsan_release(&t->barTag[ph & 1]);
    if (t->arrived.fetch_add(1, std::memory_order_acq_rel) + 1 == t->n) {
        t->arrived.store(0);
        t->phase.store(ph + 1, std::memory_order_release);
    } else {
        int c = 0;
        while (t->phase.load(std::memory_order_acquire) == ph)
            if (++c > 100)
                sched_yield();
    }
    __tsan_acquire(&t->barTag[ph & 1]);
    jitter();
}
// ---- work shares.  Without a team (orphaned outside a region) a private one is used.
thread_local Share *lone = nullptr;
Share *enter() {
    Team *t = self.team;
    if (!t) {
        delete lone;
        lone = new Share;
        return self.cur = lone;
    }
    const long w = ++self.ws;
    const int k = w % NSHARE;
    Share *s = &t->share[k];
    t->m.lock();
    if (t->shareOf[k] != w) {
        // the slot is free again when everybody has entered and left the construct that used it
        while (t->shareOf[k] >= 0 && s->arrived < t->n) {
            t->m.unlock();
            sched_yield();
            t->m.lock();
            if (t->shareOf[k] == w)
                break;
        }
        if (t->shareOf[k] != w) {
            s->init = false;
            s->arrived = 0;
            s->copied.store(false);
            t->shareOf[k] = w;
        }
    }
    t->m.unlock();
    jitter();
    return self.cur = s;
}
void leave() { // this thread takes nothing more from the construct
    Team *t = self.team;
    if (!t || !self.cur)
        return;
    t->m.lock();
    self.cur->arrived++;
    t->m.unlock();
    self.cur = nullptr;
}
bool take(long *a, long *b) {
    Share *s = self.cur;
    if (!s)
        return false;
    jitter();
    s->m.lock();
    const bool ok = s->up ? s->next < s->end : s->next > s->end;
    if (ok) {
        *a = s->next;
        long e = s->next + s->incr * s->chunk;
        if (s->up ? e > s->end : e < s->end)
            e = s->end;
        *b = e;
        s->next = e;
        nChunks++;
        event(self.team, 3000 + self.id);
    }
    s->m.unlock();
    return ok;
}
bool takeU(unsigned long long *a, unsigned long long *b) {
    Share *s = self.cur;
    if (!s)
        return false;
    jitter();
    s->m.lock();
    const bool ok = s->up ? s->unext < s->uend : s->unext > s->uend;
    if (ok) {
        *a = s->unext;
        const unsigned long long left = s->up ? s->uend - s->unext : s->unext - s->uend, st = (s->up ? s->uincr : -s->uincr) * (unsigned long long)s->chunk;
        *b = left <= st ? s->uend : s->up ? s->unext + st : s->unext - st;
        s->unext = *b;
        nChunks++;
        event(self.team, 3000 + self.id);
    }
    s->m.unlock();
    return ok;
}
bool startLoop(long a, long b, long inc, long chunk, long *x, long *y) {
    Share *s = enter();
    s->m.lock();
    if (!s->init) {
        s->next = a, s->end = b, s->incr = inc, s->chunk = chunk > 0 ? chunk : 1, s->up = inc > 0;
        s->init = true;
    }
    s->m.unlock();
    return take(x, y);
}
bool startLoopU(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long chunk, unsigned long long *x, unsigned long long *y) {
    Share *s = enter();
    s->m.lock();
    if (!s->init) {
        s->unext = a, s->uend = b, s->uincr = inc, s->chunk = chunk > 0 ? (long)chunk : 1, s->up = up;
        s->init = true;
    }
    s->m.unlock();
    return takeU(x, y);
}
int nthr() { return self.team ? self.team->n : 1; }
// static and runtime schedules come in chunks too: whole ranges split over the threads
long fair(long a, long b, long inc, long chunk) {
    if (chunk > 0)
        return chunk;
    const long n = inc > 0 ? (b - a + inc - 1) / inc : (a - b - inc - 1) / -inc;
    const long c = (n + nthr() - 1) / nthr();
    return c > 0 ? c : 1;
}
Spin namedLock;
char namedTag;
struct Named {
    void **p;
    Spin s;
    char tag;
};
std::vector<Named *> named;
Named *lookup(void **p) {
    namedLock.lock();
    Named *r = nullptr;
    for (auto *x : named)
        if (x->p == p)
            r = x;
    if (!r) {
        r = new Named;
        r->p = p;
        named.push_back(r);
    }
    namedLock.unlock();
    return r;
}
} // namespace

extern "C" {
void vf_omp_stats(long *r) { r[0] = nRegions, r[1] = nBarriers, r[2] = nChunks, r[3] = nLocks, r[4] = (long)orders.size(); }
int omp_get_max_threads() { return defaultThreads(); }
int omp_get_num_threads() { return nthr(); }
int omp_get_thread_num() { return self.team ? self.id : 0; }
void omp_set_num_threads(int n) { maxThreads = n > 0 ? n : 1; }
int omp_in_parallel() { return self.team && self.team->n > 1; }
int omp_get_level() { return self.team != nullptr; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_num_procs() { return 8; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_cancellation() { return 0; }
void omp_init_lock(int *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
void omp_destroy_lock(int *) {}
void omp_set_lock(int *l) {
    jitter();
    while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE))
        sched_yield();
    __tsan_acquire(l);
}
void omp_unset_lock(int *l) {
    __tsan_release(l);
    __atomic_store_n(l, 0, __ATOMIC_RELEASE);
}
int omp_test_lock(int *l) {
    if (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE))
        return 0;
    __tsan_acquire(l);
    return 1;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { fork(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) {
    fork(fn, data, n);
    return n ? n : defaultThreads();
}
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() {
    barrier();
    return false;
}
void GOMP_critical_start() {
    jitter();
    critLock.lock();
    nLocks++;
    event(self.team, 4000 + self.id);
    __tsan_acquire(&critTag);
}
void GOMP_critical_end() {
    __tsan_release(&critTag);
    critLock.unlock();
}
void GOMP_critical_name_start(void **p) {
    jitter();
    Named *n = lookup(p);
    n->s.lock();
    nLocks++;
    event(self.team, 4000 + self.id);
    __tsan_acquire(&n->tag);
}
void GOMP_critical_name_end(void **p) {
    Named *n = lookup(p);
    __tsan_release(&n->tag);
    n->s.unlock();
}
void GOMP_atomic_start() {
    atomicLock.lock();
    __tsan_acquire(&atomicTag);
}
void GOMP_atomic_end() {
    __tsan_release(&atomicTag);
    atomicLock.unlock();
}
bool GOMP_single_start() {
    Share *s = enter();
    s->m.lock();
    const bool first = !s->init;
    s->init = true;
    s->m.unlock();
    leave();
    return first;
}
void *GOMP_single_copy_start() {
    Share *s = enter();
    s->m.lock();
    const bool first = !s->init;
    s->init = true;
    s->m.unlock();
    if (first)
        return nullptr; // leaves in copy_end
    while (!s->copied.load(std::memory_order_acquire))
        sched_yield();
    __tsan_acquire(&s->tag);
    void *r = s->copy;
    leave();
    barrier();
    return r;
}
void GOMP_single_copy_end(void *p) {
    Share *s = self.cur;
    s->copy = p;
    __tsan_release(&s->tag);
    s->copied.store(true, std::memory_order_release);
    leave();
    barrier();
}
void GOMP_loop_end() {
    leave();
    barrier();
}
void GOMP_loop_end_nowait() { leave(); }
bool GOMP_loop_end_cancel() {
    leave();
    barrier();
    return false;
}
#define NEXT(name)                                                                                                     \
    bool GOMP_loop_##name##_next(long *a, long *b) { return take(a, b); }                                              \
    bool GOMP_loop_ull_##name##_next(unsigned long long *a, unsigned long long *b) { return takeU(a, b); }
#define LOOP(name)                                                                                                     \
    bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *x, long *y) {                                  \
        return startLoop(a, b, i, fair(a, b, i, c), x, y);                                                             \
    }                                                                                                                  \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i,       \
                                      unsigned long long c, unsigned long long *x, unsigned long long *y) {            \
        return startLoopU(up, a, b, i, c, x, y);                                                                       \
    }                                                                                                                  \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) { \
        fork(fn, d, n, a, b, i, c > 0 ? c : 1);                                                                        \
    }                                                                                                                  \
    NEXT(name)
#define LOOPR(name)                                                                                                    \
    bool GOMP_loop_##name##_start(long a, long b, long i, long *x, long *y) { return startLoop(a, b, i, 1, x, y); }    \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) {        \
        fork(fn, d, n, a, b, i, 1);                                                                                    \
    }                                                                                                                  \
    NEXT(name)
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
// sections
unsigned GOMP_sections_start(unsigned n) {
    long a, b;
    return startLoop(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next() {
    long a, b;
    return take(&a, &b) ? (unsigned)a : 0;
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { fork(fn, d, n, 1, (long)c + 1, 1, 1); }
void GOMP_sections_end() {
    leave();
    barrier();
}
void GOMP_sections_end_nowait() { leave(); }
bool GOMP_sections_end_cancel() {
    leave();
    barrier();
    return false;
}
// tasks run at once
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (cpyfn) {
        char *buf = (char *)malloc(size + align);
        char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
        cpyfn(arg, data);
        fn(arg);
        free(buf);
    } else
        fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
void GOMP_ordered_start() { GOMP_critical_start(); }
void GOMP_ordered_end() { GOMP_critical_end(); }
}
