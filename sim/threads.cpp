#include "threads.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <signal.h>
#include <link.h>
#include <cstring>
#include <cerrno>

namespace hx {
struct Th { pthread_t t; sem_t go; bool done; const std::function<void()> *body; int id; };
static Th g_th[MAX_THREADS];
static int g_n, g_running = -1, g_left;
static sem_t g_main;
static Schedule g_sched;
static size_t g_pos[SW_KINDS];
static int64_t g_count[SW_KINDS];
static uint64_t g_blocked_row, g_since;
static thread_local int tl_self = -1;
int sched_self() { return tl_self; }
bool sched_active() { return tl_self >= 0; }

static void hand_to(int t) {
    int me = tl_self;
    g_running = t;
    g_since = 0;
    g_sh->switches++;
    ev(0x5357000000ull + (uint64_t)t);
    sem_post(&g_th[t].go);
    if (!g_th[me].done) while (sem_wait(&g_th[me].go) != 0) {}
}
// k-th other thread that is not finished
static int other(int64_t k) {
    int c[MAX_THREADS], n = 0;
    for (int i = 1; i <= g_n; i++) { int t = (tl_self + i) % g_n; if (t != tl_self && !g_th[t].done) c[n++] = t; }
    if (!n) return -1;
    int64_t m = k % n;
    return c[m < 0 ? m + n : m];
}
void sched_point(int kind) {
    if (tl_self < 0) return;
    g_sh->choice_points++;
    if (kind != SW_HOT) g_blocked_row = 0;
    if (++g_since > 3000000) { NotSut ns; g_since = 0; int t = other(0); if (t >= 0) { hand_to(t); return; } }   // fairness: nobody spins for ever
    size_t &i = g_pos[kind];
    if (i >= g_sched.q[kind].size()) return;
    const Switch &s = g_sched.q[kind][i];
    if (++g_count[kind] <= s.delta) return;
    g_count[kind] = 0; i++;
    NotSut ns;
    int t = other(s.target);
    if (t < 0) return;
    g_sh->fired[FK_PREEMPT]++;
    hand_to(t);
}
static void wait_blocked(const char *what) {
    if (tl_self < 0) { usleep(100); return; }
    NotSut ns;
    if (++g_blocked_row > 10000) violation("deadlock", "every thread waits, the last one for %s", what);
    int t = other(0);
    if (t < 0) violation("deadlock", "the last running thread waits for %s", what);
    hand_to(t);
}
static void *entry(void *p) {
    Th *t = (Th *)p;
    tl_self = t->id;
    while (sem_wait(&t->go) != 0) {}
    (*t->body)();
    t->done = true;
    g_left--;
    ev(0x454E440000ull + (uint64_t)t->id);
    if (!g_left) { tl_self = -1; sem_post(&g_main); return nullptr; }
    int64_t k = 0;
    if (g_pos[SW_END] < g_sched.q[SW_END].size()) k = g_sched.q[SW_END][g_pos[SW_END]++].target;
    int n = other(k);
    hand_to(n);
    tl_self = -1;
    return nullptr;
}
static void on_alarm(int) { static const char m[] = "simulated threads made no progress in wall time"; snprintf(g_sh->msg, sizeof g_sh->msg, "%s", m); g_sh->status = 3; _exit(3); }
void run_threads(const std::vector<std::function<void()>> &bodies, const Schedule &s) {
    NotSut ns;
    g_n = (int)bodies.size(); g_left = g_n; g_sched = s; g_blocked_row = 0; g_since = 0;
    for (int k = 0; k < SW_KINDS; k++) { g_pos[k] = 0; g_count[k] = 0; }
    sem_init(&g_main, 0, 0);
    signal(SIGALRM, on_alarm);
    alarm(300);
    for (int i = 0; i < g_n; i++) { Th &t = g_th[i]; t.done = false; t.body = &bodies[(size_t)i]; t.id = i; sem_init(&t.go, 0, 0); if (pthread_create(&t.t, nullptr, entry, &t)) harness_error("pthread_create"); }
    int64_t first = 0;
    if (!g_sched.q[SW_END].empty()) first = g_sched.q[SW_END][g_pos[SW_END]++].target;
    g_running = (int)(((first % g_n) + g_n) % g_n);
    sem_post(&g_th[g_running].go);
    while (sem_wait(&g_main) != 0) {}
    for (int i = 0; i < g_n; i++) pthread_join(g_th[i].t, nullptr);
    alarm(0);
}
Schedule schedule_of(const Plan &p) {
    Schedule s;
    for (auto &op : p.ops) if (op.name == "sw") s.q[op.pick(0, 0, SW_KINDS - 1)].push_back(Switch{std::max<int64_t>(0, op.arg(1)), op.arg(2)});
    return s;
}
void gen_schedule(Plan &p, Rng &r, int threads) {
    p.add("sw", {SW_END, 0, (int64_t)r.below((uint64_t)threads)});
    for (int i = 0; i < threads; i++) p.add("sw", {SW_END, 0, (int64_t)r.below((uint64_t)threads)});
    int style = (int)r.below(5);                    // few far apart switches ... a switch at nearly every access
    int64_t scale = style == 0 ? 20000 : style == 1 ? 3000 : style == 2 ? 400 : style == 3 ? 40 : 5;
    int n = style == 0 ? 6 : style == 1 ? 20 : style == 2 ? 60 : 150;
    int64_t skip = r.chance(1, 2) ? r.range(0, 6000) : 0;
    for (int i = 0; i < n; i++) p.add("sw", {SW_ANY, (i ? 0 : skip) + (int64_t)r.below((uint64_t)(r.chance(1, 3) ? scale * 4 : scale) + 1), (int64_t)r.below((uint64_t)threads)});
    int h = (int)r.range(0, 40), d = (int)r.range(0, 6);
    for (int i = 0; i < h; i++) p.add("sw", {SW_HOT, (int64_t)r.below((uint64_t)d + 1), (int64_t)r.below((uint64_t)threads)});
    int c = (int)r.range(0, 60), e = (int)r.range(0, 8);
    for (int i = 0; i < c; i++) p.add("sw", {SW_CALL, (int64_t)r.below((uint64_t)e + 1), (int64_t)r.below((uint64_t)threads)});
}

// ------------------------------------------------------------------ memory access callbacks
static uint64_t g_static_hits;
struct Range { uintptr_t lo, hi; int kind; const char *what; bool (*may)(const void *, size_t, size_t); };
enum { MAX_RANGES = 512 };
static Range g_range[MAX_RANGES];
static int g_nrange;
static uintptr_t g_rmin = ~(uintptr_t)0, g_rmax;
static void add_range(Range q) {
    if (q.lo == q.hi) return;
    if (g_nrange >= MAX_RANGES) harness_error("too many ranges");
    g_range[g_nrange++] = q;
    if (q.lo < g_rmin) g_rmin = q.lo;
    if (q.hi > g_rmax) g_rmax = q.hi;
}
void readonly_range(const void *p, size_t n, const char *what) { add_range(Range{(uintptr_t)p, (uintptr_t)p + n, 0, what, nullptr}); }
void guarded_range(const void *p, size_t n, bool (*may)(const void *, size_t, size_t)) { add_range(Range{(uintptr_t)p, (uintptr_t)p + n, 1, "", may}); }
void clear_ranges() { g_nrange = 0; g_rmin = ~(uintptr_t)0; g_rmax = 0; }

// writable static memory of the program (not the part that is read only after relocation)
static uintptr_t g_slo[4], g_shi[4], g_relro_lo, g_relro_hi;
static int g_ns = -1;
static int segs(struct dl_phdr_info *info, size_t, void *d) {
    if ((*(int *)d)++) return 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &ph = info->dlpi_phdr[i];
        uintptr_t lo = info->dlpi_addr + ph.p_vaddr;
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W) && g_ns < 4) { g_slo[g_ns] = lo; g_shi[g_ns++] = lo + ph.p_memsz; }
        if (ph.p_type == PT_GNU_RELRO) { g_relro_lo = lo; g_relro_hi = lo + ph.p_memsz; }
    }
    return 0;
}
__attribute__((constructor)) static void find_segs() { g_ns = 0; int n = 0; dl_iterate_phdr(segs, &n); }
__attribute__((no_sanitize("address", "coverage"))) static bool is_static(uintptr_t a) {
    for (int i = 0; i < g_ns; i++) if (a >= g_slo[i] && a < g_shi[i]) return !(a >= g_relro_lo && a < g_relro_hi);
    return false;
}
__attribute__((no_sanitize("address", "coverage"))) static void access(uintptr_t a, size_t n, bool store) {
    if (tl_sut <= 0 || tl_self < 0) return;
    if (store && a < g_rmax && a + n > g_rmin)
        for (int i = 0; i < g_nrange; i++) {
            Range &q = g_range[i];
            if (a + n <= q.lo || a >= q.hi) continue;
            if (q.kind == 0) violation("shared-write", "a thread stores to %s, which other threads read", q.what);
            NotSut ns;
            if (!q.may((const void *)q.lo, a < q.lo ? 0 : a - q.lo, (a + n > q.hi ? q.hi : a + n) - (a < q.lo ? q.lo : a))) violation("outside-store", "a thread stores to the shared buffer outside the region it was given (byte %zu)", (size_t)(a - q.lo));
        }
    if (is_static(a)) { g_static_hits++; sched_point(SW_HOT); }
    sched_point(SW_ANY);
}
}
using namespace hx;
#define NS __attribute__((no_sanitize("address", "coverage")))
#define CB(n, T) extern "C" NS void __sanitizer_cov_load##n(T *p) { access((uintptr_t)p, n, false); } extern "C" NS void __sanitizer_cov_store##n(T *p) { access((uintptr_t)p, n, true); }
CB(1, uint8_t) CB(2, uint16_t) CB(4, uint32_t) CB(8, uint64_t)
extern "C" NS void __sanitizer_cov_load16(__int128 *p) { access((uintptr_t)p, 16, false); }
extern "C" NS void __sanitizer_cov_store16(__int128 *p) { access((uintptr_t)p, 16, true); }

// block operations (the compiler turns copies and fills into these)
extern "C" {
void *__real___asan_memcpy(void *, const void *, size_t);
void *__real___asan_memmove(void *, const void *, size_t);
void *__real___asan_memset(void *, int, size_t);
void *__wrap___asan_memcpy(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } void *r = __real___asan_memcpy(d, s, n); if (n) access((uintptr_t)d, 1, false); return r; }
void *__wrap___asan_memmove(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } void *r = __real___asan_memmove(d, s, n); if (n) access((uintptr_t)d, 1, false); return r; }
void *__wrap___asan_memset(void *d, int c, size_t n) { if (n) access((uintptr_t)d, n, true); void *r = __real___asan_memset(d, c, n); if (n) access((uintptr_t)d, 1, false); return r; }

// locks of the code under test give the baton away instead of blocking
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!sched_active()) return __real_pthread_mutex_lock(m);
    sched_point(SW_HOT);
    for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) { return r; } wait_blocked("a mutex"); }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); if (sched_active()) { g_blocked_row = 0; sched_point(SW_HOT); } return r; }
// initialisation of function-local statics.  Byte 0 of the guard: done; byte 1: in progress
int __wrap___cxa_guard_acquire(uint64_t *g) {
    volatile uint8_t *b = (volatile uint8_t *)g;
    for (;;) {
        if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        wait_blocked("the initialisation of a static");
    }
}
void __wrap___cxa_guard_release(uint64_t *g) { uint8_t *b = (uint8_t *)g; b[1] = 0; __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE); g_blocked_row = 0; }
void __wrap___cxa_guard_abort(uint64_t *g) { ((uint8_t *)g)[1] = 0; g_blocked_row = 0; }
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    volatile int *s = (volatile int *)o;               // 0 fresh, 1 running, 2 done (glibc uses 0, odd, 2)
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; return 0; }
        wait_blocked("a one-time initialisation");
    }
}
}
