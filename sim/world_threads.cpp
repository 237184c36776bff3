// C12 / C13: threads with their own operators and images; threads that own disjoint tiles of shared images.
#include "vision.h"
#include "vision_state.h"
#include "threads.h"
namespace hx { namespace vis {
static World *g_world[MAX_THREADS];
static int g_nw;

// the common images: every type gets a shared buffer, images that own their pixels and views into the buffer
struct Keep { std::vector<std::shared_ptr<void>> v; };
template<class T> static void common_images(Pool<T> &p, Keep &keep, Rng &r) {
    for (int bin = 0; bin < 2; bin++) {
        uint32_t bw = 40, bh = 34;
        auto buf = std::make_shared<std::vector<T>>((size_t)bw * bh);
        content<T>(bin ? 6 + (int)r.below(5) : 11, r.next(), bw, bh, [&](uint32_t x, uint32_t y, T v) { (*buf)[(size_t)y * bw + x] = v; });
        keep.v.push_back(buf);
        readonly_range(buf->data(), buf->size() * sizeof(T), "an image");
        for (int k = 0; k < 3; k++) {
            uint32_t w = (uint32_t)r.range(1, k == 2 ? 6 : 24), h = (uint32_t)r.range(1, k == 2 ? 6 : 24);
            std::shared_ptr<Gray<T>> g;
            if (k == 0) {
                g.reset(new Gray<T>(w, h));
                fill(*g, bin ? 6 + (int)r.below(5) : 11, r.next());
                readonly_range(g->data, sizeof(T) * g->data_length, "an image");
            } else { uint32_t x = (uint32_t)r.below(bw - w + 1), y = (uint32_t)r.below(bh - h + 1); g.reset(new Gray<T>(buf->data(), (uint32_t)buf->size(), w, h, y * bw + x, bw)); }
            readonly_range(g.get(), sizeof *g, "the header of an image");
            p.common[bin].push_back(g);
        }
    }
}
template<class T> static bool may_store(const void *canvas, size_t byte, size_t n) {
    World &w = *g_world[sched_self()];
    Pool<T> &p = w.pool<T>();
    for (size_t e = byte / sizeof(T); e <= (byte + n - 1) / sizeof(T); e++) {
        uint32_t x = (uint32_t)(e % CW), y = (uint32_t)(e / CW);
        bool ok = false;
        for (int i = 0; i < NSLOT && !ok; i++)
            if (p.exempt[i] && p.s[i].img && p.s[i].canvas >= 0 && p.canvas[p.s[i].canvas].data() == canvas && p.s[i].covers(p.own[i].w, p.own[i].h, x, y)) ok = true;
        if (!ok) return false;
    }
    return true;
}
template<class T> static void save_strip(World &w, Pool<T> &p, std::vector<T> *out) {
    for (int c = 0; c < w.shared; c++) { out[c].clear(); if (!viewed(p, c)) continue; for (uint32_t y = w.sy0; y < w.sy1; y++) for (uint32_t x = w.sx0; x < w.sx1; x++) out[c].push_back(p.canvas[c][(size_t)y * CW + x]); }
}
struct Strips { std::tuple<std::vector<U8>[2], std::vector<U16>[2], std::vector<S16>[2], std::vector<S32>[2], std::vector<F32>[2], std::vector<F64>[2]> v; bool have = false; };
template<class T> static std::vector<T> *strip(Strips &s) { return std::get<std::vector<T>[2]>(s.v); }
template<class T> static void cmp_strip(World &w, Pool<T> &p, Strips &s) {
    std::vector<T> now[2];
    save_strip(w, p, now);
    for (int c = 0; c < w.shared; c++) if (now[c].size() == strip<T>(s)[c].size() && memcmp(now[c].data(), strip<T>(s)[c].data(), now[c].size() * sizeof(T))) violation("strip-changed", "pixels of a thread's own region changed while it was not working on them");
}
static void run_tiles(const Plan &p, bool tiles) {
    Schedule sched = schedule_of(p);
    int n = 2 + (int)p.conf("threads") % 2;
    Rng r((uint64_t)p.conf("common") * 7919 + 11);
    Keep keep;
    std::vector<std::vector<size_t>> todo((size_t)n);
    for (size_t i = 0; i < p.ops.size(); i++) {
        const std::string &s = p.ops[i].name;
        if (s.size() > 2 && s[1] == '/') todo[(size_t)((s[0] - '0') % n)].push_back(i);
    }
    g_nw = n;
    for (int t = 0; t < n; t++) {
        World *w = g_world[t] = new World();
        w->threaded = true;
        if (t == 0) { each_pool(*w, [&](auto &q) { common_images(q, keep, r); }); make_common_kernels(*w); }
        else {
            w->common_kernels = g_world[0]->common_kernels;
            std::get<0>(w->pools).common[0] = std::get<0>(g_world[0]->pools).common[0];
#define SHARE(T) for (int k = 0; k < 2; k++) w->pool<T>().common[k] = g_world[0]->pool<T>().common[k];
            SHARE(U8) SHARE(U16) SHARE(S16) SHARE(S32) SHARE(F32) SHARE(F64)
        }
        if (tiles) {
            w->shared = 2;
            if (p.conf("layout") % 2) { w->sx0 = (uint32_t)(CW * t / n); w->sx1 = (uint32_t)(CW * (t + 1) / n); }
            else { w->sy0 = (uint32_t)(CH * t / n); w->sy1 = (uint32_t)(CH * (t + 1) / n); }
#define CANVAS(T) for (int c = 0; c < 2; c++) { if (t) w->pool<T>().canvas[c].v = g_world[0]->pool<T>().canvas[c].v; else { need_canvas(w->pool<T>(), c); guarded_range(w->pool<T>().canvas[c].data(), w->pool<T>().canvas[c].size() * sizeof(T), may_store<T>); } }
            CANVAS(U8) CANVAS(U16) CANVAS(S16) CANVAS(S32) CANVAS(F32) CANVAS(F64)
        }
    }
    readonly_kernels(*g_world[0]);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < n; t++) bodies.push_back([&, t] {
        World &w = *g_world[t];
        Strips strips;
        for (size_t i : todo[(size_t)t]) {
            Op op = p.ops[i];
            op_begin((uint32_t)i, op);
            op.name = op.name.substr(2);
            if (strips.have) each_pool(w, [&](auto &q) { cmp_strip(w, q, strips); });
            bool done = run_op(w, op);
            op_end(done);
            each_pool(w, [&](auto &q) { typedef typename std::decay<decltype(q.canvas[0][0])>::type T; for (int k = 0; k < NSLOT; k++) q.exempt[k] = false; if (w.shared) save_strip(w, q, strip<T>(strips)); });
            strips.have = w.shared > 0;
        }
        tl_op = 0xffff;
        if (strips.have) each_pool(w, [&](auto &q) { cmp_strip(w, q, strips); });
    });
    run_threads(bodies, sched);
    for (int t = n - 1; t >= 0; t--) { each_pool(*g_world[t], [](auto &q) { for (int k = 0; k < NSLOT; k++) if (q.s[k].canvas == -2) q.s[k].img.reset(); }); }
    clear_ranges();
    for (int t = n - 1; t >= 0; t--) { delete g_world[t]; g_world[t] = nullptr; }
}
static void exec12(const Plan &p) { run_tiles(p, false); }
static void exec13(const Plan &p) { run_tiles(p, true); }
static void gen_threads(Plan &p, Rng &r, int which) {
    int n = r.chance(1, 3) ? 3 : 2;
    p.cfg["threads"] = n - 2;
    p.cfg["layout"] = (int64_t)r.below(2);
    p.cfg["common"] = (int64_t)r.below(100000);
    bool same = r.chance(1, 2);                        // all threads run the same kind of operator: collisions are likelier
    Plan first;
    for (int t = 0; t < n; t++) {
        Plan q;
        Rng rr(same && t ? r.next() : r.next());
        gen_ops(q, rr, which);
        if (q.ops.size() > 5) q.ops.resize(5);
        if (same && t && !first.ops.empty()) {
            // same operators in the same order, other images and settings
            for (size_t i = 0; i < first.ops.size(); i++) {
                Op o = first.ops[i];
                for (size_t a = 1; a < o.a.size(); a++) if (rr.chance(1, 3)) o.a[a] = std::max<int64_t>(0, o.a[a] + rr.range(-3, 3));
                if (!o.f.empty() && rr.chance(1, 2)) o.f.clear();
                if (i < q.ops.size()) q.ops[i] = o; else q.ops.push_back(o);
            }
            q.ops.resize(first.ops.size());
        }
        if (t == 0) first = q;
        for (auto &o : q.ops) { Op z = o; z.name = std::string(1, (char)('0' + t)) + "/" + o.name; p.ops.push_back(z); }
    }
    gen_schedule(p, r, n);
}
static void g12(Plan &p, Rng &r) { gen_threads(p, r, 0); }
static void g13(Plan &p, Rng &r) { gen_threads(p, r, 1); }
#define RULE(x) "a run is " x " under one explicit schedule of preemptions at memory accesses; non-trivial = at least one operator ran and its outcome was compared with the reference model"
static Reg r12(hx::World{"C12", g12, exec12, RULE("two or three threads with their own images, kernels, filters and finders"), 16000, 1000000});
static Reg r13(hx::World{"C13", g13, exec13, RULE("two or three threads working on disjoint tiles of shared images"), 16000, 1000000});
}}
