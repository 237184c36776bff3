// Deterministic simulation core: seeded plans, allocator seam, event log hash, fork isolated runs,
// minimisation and replay.  See DESIGN.md for the architecture.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace hx {

// ---------------------------------------------------------------- randomness: one integer decides everything
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plans
struct Fault {
    int kind;      // FK_*
    int64_t k;     // which occurrence inside the operation (0 based)
};
enum {
    FK_ALLOC_ONE = 1,   // the k-th allocation of the operation fails
    FK_ALLOC_FROM = 2,  // the k-th and all later allocations of the operation fail
    FK_JVM_NULL = 3,    // the k-th JVM service call that can fail fails (null, exception pending where the JVM would)
    FK_JVM_CALLBACK = 4,// the k-th call back into Java throws
    FK_READ_SHORT = 5,  // k-th read returns fewer bytes
    FK_READ_ERR = 6,    // k-th read fails with EIO
    FK_READ_EOF = 7,    // end of file at byte k
    FK_CORRUPT = 8,     // byte k flipped
    FK_OPEN_FAIL = 9,   // open fails
    FK_PREEMPT = 10,    // schedule: switch thread at the k-th step
    FK_GC_MOVE = 11,    // JVM moves arrays after k-th service call
    FK_MAX = 12
};
extern const char *FAULT_NAMES[FK_MAX];

struct Op {
    std::string name;
    std::vector<int64_t> a;
    std::vector<Fault> f;
    int64_t arg(size_t i) const { return i < a.size() ? a[i] : 0; }
    // total: any integer maps to a legal choice
    int64_t pick(size_t i, int64_t lo, int64_t hi) const {
        int64_t v = arg(i), n = hi - lo + 1;
        if (v >= lo && v <= hi) return v;
        int64_t r = (v - lo) % n;
        if (r < 0) r += n;
        return lo + r;
    }
    // like pick, but 1000000+v asks for the exact size v, beyond the usual range
    int64_t big(size_t i, int64_t lo, int64_t hi, int64_t most) const { int64_t v = arg(i); return v > 1000000 ? std::min(v - 1000000, most) : pick(i, lo, hi); }
};
struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    Op &add(const std::string &name, std::initializer_list<int64_t> args) {
        ops.push_back(Op());
        ops.back().name = name;
        ops.back().a.assign(args.begin(), args.end());
        return ops.back();
    }
    int64_t conf(const char *k, int64_t d = 0) const {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
};
std::string plan_to_text(const Plan &p);
bool plan_from_text(const std::string &text, Plan &p);

// ---------------------------------------------------------------- shared result of one run
enum { MAX_GUARDS = 1 << 16, MAX_PROBES = 64 };
struct Shared {
    uint64_t hash;      // event log hash
    uint64_t nevents;
    uint64_t sig;       // signature of what happened (op outcomes), for counting distinct runs
    uint32_t cur_op;
    uint32_t ops_done, ops_checked;
    uint64_t fired[FK_MAX];
    uint64_t steps;      // coverage callbacks (simulated step count)
    uint64_t probes[MAX_PROBES];
    uint64_t choice_points, switches;
    int status;          // 0 running, 1 done, 2 violation
    char cls[96];
    char msg[4096];
    uint32_t covn;
    uint8_t cov[MAX_GUARDS];
};
extern Shared *g_sh;
extern bool g_verbose;

// events: the recorded history.  Never contains addresses or clock values.
void ev(uint64_t v);
void ev_str(const char *s);
void ev_bytes(const void *p, size_t n);
void sig(uint64_t v);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// names for "this rare condition was hit" probes
int probe_id(const char *name);
void probe_hit(int id);
#define PROBE(name) do { static int _pid = hx::probe_id(name); hx::probe_hit(_pid); } while (0)

[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// is the defect listed in known_findings.txt ("known: property=... id=<id> ...")?  if so and it happened, the run counts it
bool known(const char *id, bool happened = true);
// harness error (not a violation)
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- allocator seam
struct AllocState {
    int64_t count;        // allocations seen since arm()
    int64_t fail_at;      // -1 none
    bool fail_from;
    uint64_t fired;       // failures delivered since arm()
};
extern thread_local int tl_sut;              // >0 while library code runs on this thread
extern thread_local AllocState g_alloc;
void alloc_arm(const std::vector<Fault> &f); // reset the counters, take FK_ALLOC_* faults
void alloc_disarm();
struct Sut {                                  // scope: code under test is running
    Sut() { tl_sut++; }
    ~Sut() { tl_sut--; }
};
struct NotSut {                               // scope: harness code called from code under test
    int saved;
    NotSut() : saved(tl_sut) { tl_sut = 0; }
    ~NotSut() { tl_sut = saved; }
};
uint64_t live_allocs();                       // live allocations made by library code
uint64_t live_bytes();
void leak_check(const char *cls, uint64_t baseline_seq = 0);   // violation when unreachable library allocations remain
uint64_t alloc_seq();
uint64_t live_since(uint64_t seq, const void *except = nullptr);   // library allocations made after seq and still live
void forgive_since(uint64_t seq, const void *except);               // what a known defect has lost
void set_fill(uint64_t pattern_seed);
extern uint64_t g_max_alloc;
void alloc_range_hook(void (*on_alloc)(void *, size_t), void (*on_free)(void *, size_t));

void op_begin(uint32_t idx, const Op &op);    // bookkeeping + step budget reset
void op_end(bool checked);
extern uint64_t g_step_limit;
extern thread_local uint64_t g_steps_op;
extern thread_local uint32_t tl_op;            // operation this thread executes

// ---------------------------------------------------------------- outcomes of one call of library code
enum Outcome { OK = 0, BAD_ALLOC = 1, REJECTED = 2, OTHER = 3 };
// Calls fn as library code with the given faults; never lets an exception escape.
Outcome call(const Op &op, const std::function<void()> &fn, std::string *what = nullptr);
bool alloc_fault_fired();

// ---------------------------------------------------------------- worlds
struct World {
    const char *prop;
    void (*gen)(Plan &, Rng &);
    void (*exec)(const Plan &);
    const char *rule;
    int quick_runs;       // runs of the quick tier
    int thorough_runs;
};
void register_world(const World &w);
struct Reg { Reg(const World &w) { register_world(w); } };
}
int sim_main(int argc, char **argv);
#endif
