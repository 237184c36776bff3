#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <new>
#include <stdexcept>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <link.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <execinfo.h>
#include <errno.h>

extern "C" void __asan_set_error_report_callback(void (*callback)(const char *));
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:max_malloc_fill_size=0:allocator_may_return_null=1:handle_abort=1:handle_sigfpe=1:handle_sigill=1:"
           "exitcode=99:quarantine_size_mb=16:symbolize=0:detect_stack_use_after_return=0:print_legend=0:"
           "malloc_context_size=12:allow_user_segv_handler=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:max_allocation_size_mb=1024";
}

extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); }

namespace hx {
const char *FAULT_NAMES[FK_MAX] = {"none", "alloc_one", "alloc_from", "jvm_refuses", "java_callback_throws",
                                   "short_read", "read_error", "early_eof", "corrupt_byte", "open_fails", "preempt", "gc_move"};
Shared *g_sh = nullptr;
bool g_verbose = false;
static bool g_inchild = false;

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// ------------------------------------------------------------------------------------------------ plan text
std::string plan_to_text(const Plan &p) {
    std::ostringstream o;
    o << "property " << p.prop << "\nseed " << p.seed << "\n";
    for (auto &c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto &op : p.ops) {
        o << "op " << op.name;
        for (auto v : op.a) o << " " << v;
        for (auto &f : op.f) o << " !" << FAULT_NAMES[f.kind] << ":" << f.k;
        o << "\n";
    }
    o << "end\n";
    return o.str();
}
bool plan_from_text(const std::string &text, Plan &p) {
    std::istringstream in(text);
    std::string line;
    p = Plan();
    bool end = false;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#') continue;
        if (w == "property") l >> p.prop;
        else if (w == "seed") l >> p.seed;
        else if (w == "cfg") { std::string k; int64_t v; l >> k >> v; p.cfg[k] = v; }
        else if (w == "op") {
            Op op;
            l >> op.name;
            std::string t;
            while (l >> t) {
                if (t[0] == '!') {
                    size_t c = t.find(':');
                    std::string n = t.substr(1, c - 1);
                    Fault f; f.kind = 0;
                    for (int i = 1; i < FK_MAX; i++) if (n == FAULT_NAMES[i]) f.kind = i;
                    f.k = atoll(t.c_str() + c + 1);
                    op.f.push_back(f);
                } else op.a.push_back(atoll(t.c_str()));
            }
            p.ops.push_back(op);
        } else if (w == "end") { end = true; break; }
    }
    return end && !p.prop.empty();
}

// ------------------------------------------------------------------------------------------------ events
void ev(uint64_t v) { g_sh->hash = mix(g_sh->hash, v); g_sh->nevents++; }
void ev_bytes(const void *p, size_t n) {
    const unsigned char *b = (const unsigned char *)p;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    ev(h); ev(n);
}
void ev_str(const char *s) { ev_bytes(s, strlen(s)); }
void sig(uint64_t v) { g_sh->sig = mix(g_sh->sig, v); }
void logf(const char *fmt, ...) {
    if (!g_verbose) return;
    NotSut ns;
    va_list ap; va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    va_end(ap);
}
static std::vector<std::string> &probe_names() { static std::vector<std::string> v; return v; }
// probe ids are assigned from a fixed hash of the name so that forked children agree
static const char *g_probe_names[MAX_PROBES];
struct ProbeShm { char names[MAX_PROBES][48]; };
static ProbeShm *g_probe_shm;
int probe_id(const char *name) {
    NotSut ns;
    for (int i = 0; i < MAX_PROBES; i++) {
        if (g_probe_shm->names[i][0] == 0) { snprintf(g_probe_shm->names[i], 48, "%s", name); return i; }
        if (!strcmp(g_probe_shm->names[i], name)) return i;
    }
    return MAX_PROBES - 1;
}
void probe_hit(int id) { g_sh->probes[id]++; }

bool known(const char *id, bool happened) {
    NotSut ns;
    const char *e = getenv("HX_KNOWN");
    std::string all = std::string(",") + (e ? e : "") + ",";
    if (all.find(std::string(",") + id + ",") == std::string::npos) return false;
    if (happened) probe_hit(probe_id((std::string("known:") + id).c_str()));
    return true;
}
void violation(const char *cls, const char *fmt, ...) {
    NotSut ns;
    if (g_sh->status == 0) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
        va_end(ap);
        snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
        g_sh->cur_op = tl_op;
        g_sh->status = 2;
    }
    if (g_verbose) fprintf(stderr, "VIOLATION-DETECTED class=%s op=%u: %s\n", g_sh->cls, g_sh->cur_op, g_sh->msg);
    _exit(77);
}
void harness_error(const char *fmt, ...) {
    NotSut ns;
    char b[1000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (g_sh && g_inchild) { snprintf(g_sh->msg, sizeof g_sh->msg, "%s", b); snprintf(g_sh->cls, sizeof g_sh->cls, "HARNESS"); g_sh->status = 3; }
    if (g_verbose || !g_inchild) fprintf(stderr, "HARNESS-ERROR: %s\n", b);
    _exit(3);
}
static void asan_cb(const char *report) {
    tl_sut = 0;
    char type[64] = "unknown", rw[8] = "";
    const char *p = strstr(report, "AddressSanitizer");
    if (p && strncmp(p, "AddressSanitizer:DEADLYSIGNAL", 29) == 0) { const char *q = strstr(p + 29, "ERROR: AddressSanitizer"); if (q) p = q + 7; }
    if (p) {
        p += strlen("AddressSanitizer");
        while (*p == ':' || *p == ' ') p++;
        size_t i = 0;
        while (i < sizeof type - 1 && *p && *p != ' ' && *p != '\n') type[i++] = *p++;
        type[i] = 0;
    }
    if (!strcmp(type, "requested")) snprintf(type, sizeof type, "allocation-size");
    if (!strcmp(type, "attempting")) { // double-free / bad-free
        snprintf(type, sizeof type, strstr(report, "double-free") ? "double-free" : "bad-free");
    }
    if (strstr(report, "\nWRITE of")) snprintf(rw, sizeof rw, ":write");
    else if (strstr(report, "\nREAD of")) snprintf(rw, sizeof rw, ":read");
    if (g_sh->status == 0) {
        g_sh->cur_op = tl_op;
        snprintf(g_sh->cls, sizeof g_sh->cls, "memory:%s%s", type, rw);
        snprintf(g_sh->msg, sizeof g_sh->msg, "AddressSanitizer %s%s", type, rw);
        g_sh->status = 2;
    }
    if (g_verbose) fprintf(stderr, "VIOLATION-DETECTED class=%s op=%u\n", g_sh->cls, g_sh->cur_op);
    _exit(77);
}

// ------------------------------------------------------------------------------------------------ allocator
thread_local int tl_sut = 0;
thread_local AllocState g_alloc = {0, -1, false, 0};
uint64_t g_max_alloc = 1ull << 28;
static uint64_t g_fill = 0xA5;
struct Blk { uintptr_t p; uint64_t size; uint64_t seq; uint8_t kind; uint8_t mark; };
enum { TAB = 1 << 16 };
static Blk *g_tab;
static uint64_t g_live, g_live_bytes, g_seq;
static void (*g_on_alloc)(void *, size_t), (*g_on_free)(void *, size_t);
void alloc_range_hook(void (*a)(void *, size_t), void (*f)(void *, size_t)) { g_on_alloc = a; g_on_free = f; }

static uint32_t slot_of(uintptr_t p) { uint64_t h = (uint64_t)(p >> 4) * 0x9E3779B97F4A7C15ull; return (uint32_t)(h >> 48); }
static void tab_init() {
    if (g_tab) return;
    g_tab = (Blk *)mmap(nullptr, sizeof(Blk) * TAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
static void tab_add(void *p, size_t n, uint8_t kind) {
    if (g_live > TAB / 2) harness_error("allocation table full");
    uint32_t i = slot_of((uintptr_t)p) & (TAB - 1);
    while (g_tab[i].p) i = (i + 1) & (TAB - 1);
    g_tab[i] = Blk{(uintptr_t)p, n, ++g_seq, kind, 0};
    g_live++; g_live_bytes += n;
}
static bool tab_del(void *p, Blk &out) {
    if (!g_tab) return false;
    uint32_t i = slot_of((uintptr_t)p) & (TAB - 1);
    while (g_tab[i].p && g_tab[i].p != (uintptr_t)p) i = (i + 1) & (TAB - 1);
    if (!g_tab[i].p) return false;
    out = g_tab[i];
    g_tab[i].p = 0;
    uint32_t j = i;
    for (;;) { // backward shift deletion
        j = (j + 1) & (TAB - 1);
        if (!g_tab[j].p) break;
        uint32_t h = slot_of(g_tab[j].p) & (TAB - 1);
        bool move = (i <= j) ? (h <= i || h > j) : (h <= i && h > j);
        if (move) { g_tab[i] = g_tab[j]; g_tab[j].p = 0; i = j; }
    }
    g_live--; g_live_bytes -= out.size;
    return true;
}
static bool tab_size(void *p, uint64_t &size) {
    if (!g_tab || !g_live) return false;
    uint32_t i = slot_of((uintptr_t)p) & (TAB - 1);
    while (g_tab[i].p && g_tab[i].p != (uintptr_t)p) i = (i + 1) & (TAB - 1);
    size = g_tab[i].size;
    return g_tab[i].p != 0;
}
static void *sut_alloc(size_t n, uint8_t kind) {
    int64_t idx = g_alloc.count++;
    if (g_alloc.fail_at >= 0 && (idx == g_alloc.fail_at || (g_alloc.fail_from && idx >= g_alloc.fail_at))) {
        g_alloc.fired++;
        g_sh->fired[g_alloc.fail_from ? FK_ALLOC_FROM : FK_ALLOC_ONE]++;
        return nullptr;
    }
    if (n > g_max_alloc || g_live_bytes + n > (1ull << 30)) { g_alloc.fired++; return nullptr; }
    void *p = __real_malloc(n ? n : 1);
    if (!p) { g_alloc.fired++; return nullptr; }
    tab_add(p, n, kind);
    if (g_fill <= 255) memset(p, (int)g_fill, n);
    else { Rng r(g_fill + g_seq); unsigned char *b = (unsigned char *)p; for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(r.s += 0x9E37) ^ (unsigned char)(i * 37); }
    if (g_on_alloc) g_on_alloc(p, n);
    return p;
}
static void any_free(void *p, uint8_t kind) {
    if (!p) return;
    Blk b;
    if (g_live && tab_del(p, b)) {
        if (b.kind != kind) {
            static const char *G[3] = {"new", "new[]", "malloc"}, *R[3] = {"delete", "delete[]", "free"};
            violation("memory:alloc-mismatch", "block obtained with %s is released with %s", G[b.kind], R[kind]);
        }
        if (g_on_free) g_on_free(p, b.size);
    }
    __real_free(p);
}
} // namespace
// malloc and its relatives, for every object of the program (--wrap)
extern "C" void *__wrap_malloc(size_t n) {
    if (hx::tl_sut <= 0) return __real_malloc(n);
    void *p = hx::sut_alloc(n, 2);
    if (!p) errno = ENOMEM;
    return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
    if (hx::tl_sut <= 0) return __real_calloc(a, b);
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
    void *p = hx::sut_alloc(a * b, 2);
    if (p) memset(p, 0, a * b); else errno = ENOMEM;
    return p;
}
extern "C" void __wrap_free(void *p) { hx::any_free(p, 2); }
extern "C" void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    uint64_t old;
    if (!hx::tab_size(p, old)) return __real_realloc(p, n);
    if (!n) { hx::any_free(p, 2); return nullptr; }
    void *q = hx::sut_alloc(n, 2);
    if (!q) { errno = ENOMEM; return nullptr; }
    memcpy(q, p, old < n ? old : n);
    hx::any_free(p, 2);
    return q;
}
namespace hx {
uint64_t live_allocs() { return g_live; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t alloc_seq() { return g_seq; }
uint64_t live_since(uint64_t seq, const void *except) {
    uint64_t n = 0;
    for (int i = 0; i < TAB; i++) if (g_tab[i].p && g_tab[i].seq > seq && g_tab[i].p != (uintptr_t)except) n++;
    return n;
}
void forgive_since(uint64_t seq, const void *except) {
    for (int i = 0; i < TAB; i++) if (g_tab[i].p && g_tab[i].seq > seq && g_tab[i].p != (uintptr_t)except) g_tab[i].seq = 0;
}
void set_fill(uint64_t pat) {
    switch (pat % 4) { case 0: g_fill = 0xA5; break; case 1: g_fill = 0; break; case 2: g_fill = 0xFF; break; default: g_fill = 1000 + pat; }
}
void alloc_arm(const std::vector<Fault> &f) {
    g_alloc = AllocState{0, -1, false, 0};
    for (auto &x : f) {
        if (x.kind == FK_ALLOC_ONE) { g_alloc.fail_at = x.k; g_alloc.fail_from = false; }
        if (x.kind == FK_ALLOC_FROM) { g_alloc.fail_at = x.k; g_alloc.fail_from = true; }
    }
}
void alloc_disarm() { g_alloc.fail_at = -1; g_alloc.fail_from = false; }
bool alloc_fault_fired() { return g_alloc.fired > 0; }

__attribute__((no_sanitize("address", "coverage"))) static void mark_range(uintptr_t lo, uintptr_t hi, std::vector<Blk *> &work, const std::map<uintptr_t, Blk *> &blocks) {
    lo = (lo + 7) & ~(uintptr_t)7;
    for (uintptr_t a = lo; a + 8 <= hi; a += 8) {
        uintptr_t v = *(volatile uintptr_t *)a;
        if (v < 0x1000) continue;
        auto it = blocks.upper_bound(v);
        if (it == blocks.begin()) continue;
        --it;
        if (v >= it->first && v < it->first + (it->second->size ? it->second->size : 1) && !it->second->mark) {
            it->second->mark = 1;
            work.push_back(it->second);
        }
    }
}
struct Roots { std::vector<std::pair<uintptr_t, uintptr_t>> r; size_t tls; int n; };
static int phdr_cb(struct dl_phdr_info *info, size_t, void *d) {
    Roots *R = (Roots *)d;
    if (R->n++ > 0) return 0; // main program only
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) R->r.push_back({info->dlpi_addr + ph.p_vaddr, info->dlpi_addr + ph.p_vaddr + ph.p_memsz});
        if (ph.p_type == PT_TLS) R->tls = (ph.p_memsz + 127) & ~63ul;
    }
    return 0;
}
void leak_check(const char *cls, uint64_t baseline) {
    NotSut ns;
    if (!g_live) return;
    std::map<uintptr_t, Blk *> blocks;
    for (int i = 0; i < TAB; i++) if (g_tab[i].p && g_tab[i].seq > baseline) { g_tab[i].mark = 0; blocks[g_tab[i].p] = &g_tab[i]; }
    if (blocks.empty()) return;
    Roots R; R.tls = 0; R.n = 0;
    dl_iterate_phdr(phdr_cb, &R);
    uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
    if (R.tls) R.r.push_back({tp - R.tls, tp});
    std::vector<Blk *> work;
    for (auto &x : R.r) mark_range(x.first, x.second, work, blocks);
    while (!work.empty()) { Blk *b = work.back(); work.pop_back(); mark_range(b->p, b->p + b->size, work, blocks); }
    uint64_t n = 0, bytes = 0, first = 0;
    for (auto &b : blocks) if (!b.second->mark) { n++; bytes += b.second->size; if (!first || b.second->seq < first) first = b.second->seq; }
    if (n) violation(cls, "%llu block(s), %llu bytes, were never released (first is library allocation #%llu of the run)",
                     (unsigned long long)n, (unsigned long long)bytes, (unsigned long long)first);
}

// ------------------------------------------------------------------------------------------------ steps
uint64_t g_step_limit = 200000000ull;
thread_local uint64_t g_steps_op = 0;
thread_local uint32_t tl_op = 0;
void op_begin(uint32_t idx, const Op &op) {
    g_sh->cur_op = tl_op = idx;
    g_steps_op = 0;
    ev(idx); ev_str(op.name.c_str());
    if (g_verbose) {
        std::ostringstream o;
        o << "[" << idx << "] " << op.name;
        for (auto v : op.a) o << " " << v;
        for (auto &f : op.f) o << " !" << FAULT_NAMES[f.kind] << ":" << f.k;
        fprintf(stderr, "%s\n", o.str().c_str());
    }
}
void op_end(bool checked) { g_sh->ops_done++; if (checked) g_sh->ops_checked++; }

Outcome call(const Op &op, const std::function<void()> &fn, std::string *what) {
    Outcome o;
    alloc_arm(op.f);
    {
        Sut s;
        try { fn(); o = OK; }
        catch (const std::bad_alloc &) { o = BAD_ALLOC; }
        catch (const std::exception &e) { NotSut ns; if (what) *what = e.what(); o = REJECTED; logf("    rejected: %s", e.what()); }
        catch (...) { o = OTHER; }
    }
    alloc_disarm();
    sig(mix((uint64_t)o, g_alloc.fired ? 1 : 0));
    { uint64_t h = 0; for (char c : op.name) h = mix(h, (uint64_t)c); sig(h); }
    if (o == BAD_ALLOC) logf("    out of memory reported (faults fired %llu)", (unsigned long long)g_alloc.fired);
    if (o == BAD_ALLOC && !g_alloc.fired) violation("spurious-oom", "operation '%s' reports exhausted memory although none was refused", op.name.c_str());
    return o;
}

static std::vector<World> &worlds() { static std::vector<World> w; return w; }
void register_world(const World &w) { worlds().push_back(w); }
static const World *find_world(const std::string &p) { for (auto &w : worlds()) if (p == w.prop) return &w; return nullptr; }

// ------------------------------------------------------------------------------------------------ one isolated run
struct Result { int status; std::string cls, msg; uint64_t hash, sig; uint32_t op, ops_done, ops_checked; };
static uint32_t g_nguards = 0;
static bool g_keep_stdio = false;

static Result run_plan(const Plan &p, const World &w) {
    uint32_t covn = g_nguards;
    memset(g_sh, 0, offsetof(Shared, cov) + covn + 1);
    g_sh->covn = covn;
    g_sh->hash = mix(p.seed ? 1 : 2, 77);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) harness_error("fork failed");
    if (pid == 0) {
        g_inchild = true;
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        struct itimerval it;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = 60;
        setitimer(ITIMER_PROF, &it, nullptr);
        set_fill((uint64_t)p.conf("fill", 0));
        w.exec(p);
        leak_check("leak");
        g_sh->status = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    Result r;
    r.hash = g_sh->hash; r.sig = g_sh->sig; r.op = g_sh->cur_op; r.ops_done = g_sh->ops_done; r.ops_checked = g_sh->ops_checked;
    if (g_sh->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) { r.status = 1; return r; }
    if (g_sh->status == 2) { r.status = 2; r.cls = g_sh->cls; r.msg = g_sh->msg; return r; }
    if (g_sh->status == 3) { r.status = 3; r.cls = "HARNESS"; r.msg = g_sh->msg; return r; }
    r.status = 2;
    char b[100];
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGPROF) { r.cls = "hang"; r.msg = "operation used its CPU budget without finishing"; }
        else if (WTERMSIG(st) == SIGKILL) { r.status = 3; r.cls = "HARNESS"; r.msg = "killed"; }
        else { snprintf(b, sizeof b, "crash:signal-%d", WTERMSIG(st)); r.cls = b; r.msg = "process ended by a signal"; }
    } else { snprintf(b, sizeof b, "crash:exit-%d", WEXITSTATUS(st)); r.cls = b; r.msg = "process ended by itself"; }
    return r;
}

static uint64_t strhash(const char *s) { uint64_t h = 5; while (*s) h = mix(h, (uint64_t)*s++); return h; }
static Plan make_plan(const World &w, uint64_t seed, uint64_t index) {
    Plan p;
    p.prop = w.prop;
    p.seed = mix(mix(seed, strhash(w.prop)), index) | 1;
    Rng r(p.seed);
    p.cfg["fill"] = (int64_t)r.below(8);
    w.gen(p, r);
    return p;
}

// ------------------------------------------------------------------------------------------------ minimisation
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Plan minimise(Plan best, const World &w, const std::string &cls, double budget_s, int &execs) {
    double t0 = now_s();
    auto bad = [&](const Plan &c) { execs++; Result r = run_plan(c, w); return r.status == 2 && r.cls == cls; };
    auto left = [&]() { return now_s() - t0 < budget_s; };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); chunk >= 1 && left(); chunk /= 2) {
            for (size_t i = 0; i < best.ops.size() && left();) {
                Plan c = best;
                size_t n = std::min(chunk, c.ops.size() - i);
                c.ops.erase(c.ops.begin() + i, c.ops.begin() + i + n);
                if (!c.ops.empty() && bad(c)) { best = c; progress = true; } else i += n;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.ops.size() && left(); i++) {
            for (size_t j = 0; j < best.ops[i].f.size() && left();) {
                Plan c = best;
                c.ops[i].f.erase(c.ops[i].f.begin() + j);
                if (bad(c)) { best = c; progress = true; } else j++;
            }
            for (size_t j = 0; j < best.ops[i].f.size() && left(); j++)
                while (best.ops[i].f[j].k > 0 && left()) {
                    Plan c = best; c.ops[i].f[j].k /= 2;
                    if (bad(c)) { best = c; progress = true; continue; }
                    c = best; c.ops[i].f[j].k -= 1;
                    if (bad(c)) { best = c; progress = true; continue; }
                    break;
                }
            for (size_t j = 0; j < best.ops[i].a.size() && left(); j++) {
                int64_t v = best.ops[i].a[j];
                if (v == 0) continue;
                int64_t tries[4] = {0, v / 2, v - 1, 1};
                for (int t = 0; t < 4; t++) {
                    if (tries[t] == v || (v < 0 && t >= 2)) continue;
                    Plan c = best; c.ops[i].a[j] = tries[t];
                    if (bad(c)) { best = c; progress = true; j--; break; }
                    if (!left()) break;
                }
            }
        }
        for (auto &kv : std::map<std::string, int64_t>(best.cfg)) {
            if (kv.second == 0 || !left()) continue;
            Plan c = best; c.cfg[kv.first] = 0;
            if (bad(c)) { best = c; progress = true; }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
} // namespace hx

using namespace hx;

// ------------------------------------------------------------------------------------------------ coverage callbacks
extern "C" __attribute__((no_sanitize("address", "coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) { if (g_nguards < MAX_GUARDS - 2) ++g_nguards; *x = g_nguards; }
}
extern "C" __attribute__((no_sanitize("address", "coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!g_sh) return;
    uint8_t &c = g_sh->cov[*g];
    if (c != 255) c++;
    g_sh->steps++;
    if (++g_steps_op > g_step_limit) {
        g_steps_op = 0;
        violation("hang", "operation did not finish within %llu simulated steps", (unsigned long long)g_step_limit);
    }
}

// ------------------------------------------------------------------------------------------------ operator new / delete
static inline void *op_new(size_t n, uint8_t kind) {
    if (tl_sut > 0) { void *p = sut_alloc(n, kind); if (!p) throw std::bad_alloc(); return p; }
    void *p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static inline void *op_new_nt(size_t n, uint8_t kind) { if (tl_sut > 0) return sut_alloc(n, kind); return __real_malloc(n ? n : 1); }
void *operator new(size_t n) { return op_new(n, 0); }
void *operator new[](size_t n) { return op_new(n, 1); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new_nt(n, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new_nt(n, 1); }
void operator delete(void *p) noexcept { any_free(p, 0); }
void operator delete[](void *p) noexcept { any_free(p, 1); }
void operator delete(void *p, size_t) noexcept { any_free(p, 0); }
void operator delete[](void *p, size_t) noexcept { any_free(p, 1); }
void operator delete(void *p, const std::nothrow_t &) noexcept { any_free(p, 0); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { any_free(p, 1); }

// ------------------------------------------------------------------------------------------------ command line
int sim_main(int argc, char **argv) {
    std::map<std::string, std::string> A;
    for (int i = 1; i < argc; i++) {
        std::string k = argv[i];
        if (k.compare(0, 2, "--") == 0) {
            if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) { A[k.substr(2)] = argv[i + 1]; i++; } else A[k.substr(2)] = "1";
        }
    }
    tab_init();
    g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_probe_shm = (ProbeShm *)mmap(nullptr, sizeof(ProbeShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    __asan_set_error_report_callback(asan_cb);
    g_verbose = A.count("verbose") != 0;
    if (!g_verbose) {
        int fd = open("/dev/null", O_WRONLY);
        int keep = dup(1);
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
        stdout = fdopen(keep, "w");
        setvbuf(stdout, nullptr, _IONBF, 0);
    }
    if (A.count("list")) { for (auto &w : worlds()) fprintf(stdout, "%s %d %d\n", w.prop, w.quick_runs, w.thorough_runs); return 0; }
    if (A.count("replay") || A.count("minimise")) {
        Plan p;
        std::string file = A.count("replay") ? A["replay"] : A["minimise"];
        if (!plan_from_text(slurp(file.c_str()), p)) { fprintf(stdout, "BADPLAN\n"); return 3; }
        const World *w = find_world(p.prop);
        if (!w) { fprintf(stdout, "NOWORLD\n"); return 3; }
        if (A.count("replay")) {
            Result r = run_plan(p, *w);
            fprintf(stdout, "{\"status\":%d,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"op\":%u}\n", r.status, jstr(r.cls).c_str(), jstr(r.msg).c_str(), (unsigned long long)r.hash, r.op);
            return r.status == 1 ? 0 : r.status == 2 ? 1 : 3;
        }
        int execs = 0;
        Plan b = minimise(p, *w, A["cls"], atof(A.count("budget") ? A["budget"].c_str() : "40"), execs);
        std::ofstream(A["out"]) << plan_to_text(b);
        Result r1 = run_plan(b, *w), r2 = run_plan(b, *w);
        fprintf(stdout, "{\"status\":%d,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"hash2\":\"%016llx\",\"op\":%u,\"execs\":%d}\n", r1.status, jstr(r1.cls).c_str(), jstr(r1.msg).c_str(),
                (unsigned long long)r1.hash, (unsigned long long)r2.hash, r1.op, execs);
        return 0;
    }
    const World *w = find_world(A["prop"]);
    if (!w) { fprintf(stdout, "NOWORLD\n"); return 3; }
    uint64_t seed = strtoull(A["seed"].c_str(), nullptr, 10);
    if (A.count("show")) { fprintf(stdout, "%s", plan_to_text(make_plan(*w, seed, strtoull(A["show"].c_str(), nullptr, 10))).c_str()); return 0; }
    uint64_t start = strtoull(A["start"].c_str(), nullptr, 10), stride = strtoull(A.count("stride") ? A["stride"].c_str() : "1", nullptr, 10);
    uint64_t count = strtoull(A["count"].c_str(), nullptr, 10);
    double budget = atof(A.count("time") ? A["time"].c_str() : "1e9");
    double t0 = now_s();
    std::set<uint64_t> sigs;
    std::vector<std::pair<uint64_t, uint64_t>> hashes;
    uint64_t runs = 0, nontriv = 0, ops = 0, opsc = 0, events = 0, steps = 0, choice = 0, switches = 0, fired[FK_MAX] = {0}, probes[MAX_PROBES] = {0}, firedruns = 0;
    std::vector<uint8_t> cov(MAX_GUARDS, 0);
    struct V { uint64_t index; std::string cls, msg, plan; };
    std::vector<V> viol;
    std::vector<std::string> samples;
    bool timeout = false;
    std::string err;
    uint64_t dettests = 0;
    for (uint64_t i = start; i < count; i += stride) {
        if (now_s() - t0 > budget) { timeout = true; break; }
        Plan p = make_plan(*w, seed, i);
        Result r = run_plan(p, *w);
        runs++;
        ops += r.ops_done; opsc += r.ops_checked; events += g_sh->nevents; steps += g_sh->steps; choice += g_sh->choice_points; switches += g_sh->switches;
        bool anyf = false;
        for (int f = 0; f < FK_MAX; f++) { fired[f] += g_sh->fired[f]; if (g_sh->fired[f]) anyf = true; }
        if (anyf) firedruns++;
        for (int f = 0; f < MAX_PROBES; f++) probes[f] += g_sh->probes[f];
        uint64_t ch = r.sig;
        for (uint32_t g = 0; g <= g_nguards; g++) if (g_sh->cov[g]) {
            cov[g] = 1;
            int b = 0; uint8_t v = g_sh->cov[g];
            while (v >>= 1) b++;
            ch = mix(ch, g * 16 + (uint64_t)b);
        }
        if (r.ops_checked > 0) { nontriv++; sigs.insert(ch); }
        if (i < 256) hashes.push_back({i, r.hash});
        if (r.status == 3) { err = r.msg; break; }
        if (samples.size() < 2 && start == 0) samples.push_back(plan_to_text(p));
        if (r.status == 2) {
            bool known = false;
            for (auto &v : viol) if (v.cls == r.cls) known = true;
            if (!known) viol.push_back(V{i, r.cls, r.msg, plan_to_text(p)});
            if (viol.size() >= 4) break;
            if (budget > now_s() - t0 + 15) budget = now_s() - t0 + 15;
        } else if (runs % 16 == 3) {
            Result q = run_plan(p, *w);
            dettests++;
            if (q.hash != r.hash || q.status != r.status) { err = "nondeterministic run, index " + std::to_string(i); break; }
        }
    }
    uint32_t covered = 0;
    for (auto c : cov) covered += c;
    std::ostringstream o;
    o << "{\"prop\":" << jstr(w->prop) << ",\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"ops\":" << ops << ",\"ops_checked\":" << opsc << ",\"events\":" << events
      << ",\"choice_points\":" << choice << ",\"switches\":" << switches << ",\"fault_runs\":" << firedruns << ",\"determinism_reruns\":" << dettests << ",\"timeout\":" << (timeout ? "true" : "false") << ",\"error\":" << jstr(err) << ",\"edges_total\":" << g_nguards
      << ",\"fired\":{";
    bool first = true;
    for (int f = 1; f < FK_MAX; f++) { o << (first ? "" : ",") << "\"" << FAULT_NAMES[f] << "\":" << fired[f]; first = false; }
    o << "},\"probes\":{";
    first = true;
    for (int i = 0; i < MAX_PROBES; i++) if (g_probe_shm->names[i][0]) { o << (first ? "" : ",") << jstr(g_probe_shm->names[i]) << ":" << probes[i]; first = false; }
    o << "},\"hashes\":{";
    first = true;
    for (auto &h : hashes) { char b[40]; snprintf(b, sizeof b, "\"%llu\":\"%016llx\"", (unsigned long long)h.first, (unsigned long long)h.second); o << (first ? "" : ",") << b; first = false; }
    o << "},\"violations\":[";
    first = true;
    for (auto &v : viol) { o << (first ? "" : ",") << "{\"index\":" << v.index << ",\"cls\":" << jstr(v.cls) << ",\"msg\":" << jstr(v.msg) << ",\"plan\":" << jstr(v.plan) << "}"; first = false; }
    o << "],\"samples\":[";
    first = true;
    for (auto &s : samples) { o << (first ? "" : ",") << jstr(s); first = false; }
    o << "],\"wall\":" << (now_s() - t0) << ",\"rule\":" << jstr(w->rule) << "}\n";
    std::ofstream(A["out"]) << o.str();
    std::ofstream sf(A["out"] + ".sigs", std::ios::binary);
    for (auto s : sigs) sf.write((const char *)&s, 8);
    std::ofstream cf(A["out"] + ".cov", std::ios::binary);
    cf.write((const char *)cov.data(), g_nguards + 1);
    return 0;
}
int main(int argc, char **argv) { return sim_main(argc, argv); }
