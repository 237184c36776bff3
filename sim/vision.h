// Shared machinery of the vision world: pools of long-lived images (owned or views into canaried canvases),
// whole-memory snapshots around every operator, and helpers to compare outputs with reference models.
#ifndef SIM_VISION_H
#define SIM_VISION_H
#include <tuple>
#include <type_traits>
#include <limits>
#include <cmath>
#include <algorithm>
#include <memory>
#include <cstring>
#include "core.h"
#include "base_types.h"
#include "image_types.h"

namespace hx { namespace vis {
using boofcv::Gray; using boofcv::Interleaved; using boofcv::TypeInfo;
typedef uint8_t U8; typedef uint16_t U16; typedef int16_t S16; typedef int32_t S32; typedef float F32; typedef double F64;

enum { CW = 76, CH = 70, NCANVAS = 3, NSLOT = 6 };

template<class T> struct Img {                    // plain picture used by the reference models
    uint32_t w = 0, h = 0;
    std::vector<T> v;
    Img() {}
    Img(uint32_t w, uint32_t h) : w(w), h(h), v((size_t)w * h) {}
    T &at(uint32_t x, uint32_t y) { return v[(size_t)y * w + x]; }
    const T &at(uint32_t x, uint32_t y) const { return v[(size_t)y * w + x]; }
};

template<class T> struct Canvas {                 // buffer that views are cut from; several worlds may share one
    std::shared_ptr<std::vector<T>> v = std::make_shared<std::vector<T>>();
    bool empty() const { return v->empty(); }
    size_t size() const { return v->size(); }
    void resize(size_t n) { v->resize(n); }
    T *data() { return v->data(); }
    T &operator[](size_t i) { return (*v)[i]; }
};
template<class T> struct SlotG {
    std::shared_ptr<Gray<T>> img;
    int canvas = -1;                              // -1: owns its pixels, -2: a common image nobody may write
    uint32_t x0 = 0, y0 = 0;
    uint32_t pitch = CW;                          // distance between its rows; less than CW when the canvas holds it densely
    bool covers(uint32_t w, uint32_t h, uint32_t x, uint32_t y) const {
        if (!w || !h) return false;
        if (pitch == CW) return x >= x0 && x < x0 + w && y >= y0 && y < y0 + h;
        size_t k = (size_t)y * CW + x, o = (size_t)y0 * CW + x0;
        return k >= o && (k - o) / pitch < h && (k - o) % pitch < w;
    }
};
template<class T> struct Pool {
    Canvas<T> canvas[NCANVAS];
    std::vector<std::shared_ptr<Gray<T>>> common[2];   // read-only images shared by threads: bytes, binary
    SlotG<T> s[NSLOT];
    // snapshot
    std::vector<T> snap[NCANVAS];
    struct Own { bool live = false, view = false; T *data = nullptr; uint32_t w = 0, h = 0, off = 0, stride = 0, len = 0; std::vector<T> px; } own[NSLOT];
    bool exempt[NSLOT];
};

struct World {
    std::tuple<Pool<U8>, Pool<U16>, Pool<S16>, Pool<S32>, Pool<F32>, Pool<F64>> pools;
    template<class T> Pool<T> &pool() { return std::get<Pool<T>>(pools); }
    int shared = 0;                                     // canvases 0..shared-1 belong to several worlds, this one owns the strip
    uint32_t sx0 = 0, sy0 = 0, sx1 = CW, sy1 = CH;
    bool threaded = false;
    std::shared_ptr<void> kernels, common_kernels;
    struct Filters; std::shared_ptr<Filters> filt;      // long lived operators
};
template<class F> void each_pool(World &w, F f) {
    f(std::get<0>(w.pools)); f(std::get<1>(w.pools)); f(std::get<2>(w.pools)); f(std::get<3>(w.pools)); f(std::get<4>(w.pools)); f(std::get<5>(w.pools));
}
static const char *const NOFAULT = "prepare";
inline Op plain() { Op o; o.name = "prepare"; return o; }

// ------------------------------------------------------------------ values
template<class T> struct Lim;
template<> struct Lim<U8> { static constexpr double lo = 0, hi = 255; };
template<> struct Lim<U16> { static constexpr double lo = 0, hi = 65535; };
template<> struct Lim<S16> { static constexpr double lo = -32768, hi = 32767; };
template<> struct Lim<S32> { static constexpr double lo = -100000, hi = 100000; };
template<> struct Lim<F32> { static constexpr double lo = -1000, hi = 1000; };
template<> struct Lim<F64> { static constexpr double lo = -1000, hi = 1000; };
template<class T> T conv(double v) {
    if (std::numeric_limits<T>::is_integer) v = std::floor(v);
    if (v < Lim<T>::lo) v = Lim<T>::lo;
    if (v > Lim<T>::hi) v = Lim<T>::hi;
    return (T)v;
}
// kind: 0 noise over the whole range, 1 constant, 2 narrow noise, 3 gradient, 4 extremes, 5 two levels in patches,
//       6 binary noise, 7 binary dense, 8 binary sparse, 9 binary blobs, 10 binary checkers/rings, 11 bytes 0..255, 12 all ones, 13 all zeros
enum { KINDS = 14 };
template<class T, class P> void content(int kind, uint64_t seed, uint32_t w, uint32_t h, P put) {
    Rng r(seed * 977 + (uint64_t)kind);
    double lo = Lim<T>::lo, hi = Lim<T>::hi, mid = lo + (hi - lo) * r.unit();
    auto flat = [&](double v) { return std::is_floating_point<T>::value ? v : std::floor(v); };
    int px = (int)r.range(1, 6), py = (int)r.range(1, 6);
    uint64_t ps = r.next();
    double a = mid, b = lo + (hi - lo) * r.unit();
    for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) {
        double v = 0;
        switch (kind) {
            case 0: v = flat(lo + (hi - lo + (std::is_floating_point<T>::value ? 0 : 1)) * r.unit()); break;
            case 1: v = a; break;
            case 2: v = a + (double)r.range(-3, 3); break;
            case 3: v = a + ((double)x * 3 - (double)y * 2) * (hi - lo) / 512; break;
            case 4: v = r.chance(1, 2) ? lo : hi; break;
            case 5: v = (mix(ps, (uint64_t)(x / (uint32_t)px) * 131 + y / (uint32_t)py) & 1) ? a : b; break;
            case 6: v = r.chance(1, 2); break;
            case 7: v = r.chance(4, 5); break;
            case 8: v = r.chance(1, 5); break;
            case 9: v = (mix(ps, (uint64_t)(x / (uint32_t)px) * 131 + y / (uint32_t)py) & 1) ^ (r.chance(1, 20) ? 1u : 0u); break;
            case 10: v = px < 3 ? (x + y) % 2 : (std::max(x > w / 2 ? x - w / 2 : w / 2 - x, y > h / 2 ? y - h / 2 : h / 2 - y) % 2); break;
            case 11: v = (double)r.below(256); break;
            case 12: v = 1; break;
            default: v = 0; break;
        }
        put(x, y, conv<T>(v));
    }
}

// ------------------------------------------------------------------ placement
struct Rect { const void *canvas; uint32_t x0, y0, x1, y1; };
inline bool hit(const Rect &a, const Rect &b) { return a.canvas == b.canvas && a.x0 < b.x1 && b.x0 < a.x1 && a.y0 < b.y1 && b.y0 < a.y1; }
struct Busy { std::vector<Rect> r; std::vector<const void *> slots; };
// the whole rows a dense image lies in
inline Rect dense_rect(const void *c, uint32_t x0, uint32_t y0, uint32_t w, uint32_t h, uint32_t pitch) {
    size_t last = (size_t)y0 * CW + x0 + (h ? (size_t)(h - 1) * pitch + w : 0);
    return Rect{c, 0, y0, CW, (uint32_t)((last + CW - 1) / CW)};
}
template<class T> Rect rect_of(Pool<T> &p, SlotG<T> &s) {
    if (s.pitch != CW) return dense_rect(&p.canvas[s.canvas], s.x0, s.y0, s.img->width, s.img->height, s.pitch);
    return Rect{&p.canvas[s.canvas], s.x0, s.y0, s.x0 + s.img->width, s.y0 + s.img->height};
}
template<class T> void take(World &w, int slot, Busy &b) {
    Pool<T> &p = w.pool<T>();
    b.slots.push_back(&p.s[slot]);
    if (p.s[slot].img && p.s[slot].canvas >= 0) b.r.push_back(rect_of(p, p.s[slot]));
}
template<class T> bool clashes(World &w, int slot, const Busy &b) {
    Pool<T> &p = w.pool<T>();
    for (auto q : b.slots) if (q == &p.s[slot]) return true;
    if (p.s[slot].img && p.s[slot].canvas >= 0) for (auto &r : b.r) if (hit(rect_of(p, p.s[slot]), r)) return true;
    return false;
}
template<class T> void need_canvas(Pool<T> &p, int c) {
    if (!p.canvas[c].empty()) return;
    p.canvas[c].resize((size_t)CW * CH);
    content<T>(0, 77 + (uint64_t)c, CW, CH, [&](uint32_t x, uint32_t y, T v) { p.canvas[c][(size_t)y * CW + x] = v; });
}
// places a view of w x h for the slot, away from busy rectangles; false when there is no room
template<class T> bool make_view(World &wd, int slot, uint32_t w, uint32_t h, uint64_t seed, const Busy &b) {
    Pool<T> &p = wd.pool<T>();
    Rng r(seed);
    if (r.chance(1, 3)) {                          // rows that follow each other without a gap, or with an odd one, behind an offset
        for (int tries = 0; tries < 6; tries++) {
            int c = (int)r.below(NCANVAS);
            uint32_t ly = 0, hy = CH, pitch = w + (r.chance(2, 3) ? 0u : (uint32_t)r.range(1, 5));
            if (c < wd.shared) { if (wd.sx0 != 0 || wd.sx1 != CW) continue; ly = wd.sy0; hy = wd.sy1; }
            size_t room = (size_t)(hy - ly) * CW, need = h ? (size_t)(h - 1) * pitch + w : 0;
            if (need > room || pitch == CW) continue;
            size_t o = (size_t)ly * CW + (size_t)r.below((r.chance(1, 2) ? room - need : std::min<size_t>(room - need, 3 * CW)) + 1);
            if (r.chance(1, 8)) o = (size_t)ly * CW + room - need;
            if (o >= (size_t)CW * CH) continue;
            Rect me = dense_rect(&p.canvas[c], (uint32_t)(o % CW), (uint32_t)(o / CW), w, h, pitch);
            bool bad = false;
            for (auto &q : b.r) if (hit(q, me)) bad = true;
            if (bad) continue;
            need_canvas(p, c);
            SlotG<T> &s = p.s[slot];
            s.img.reset(new Gray<T>(p.canvas[c].data(), (uint32_t)p.canvas[c].size(), w, h, (uint32_t)o, pitch));
            s.canvas = c; s.x0 = (uint32_t)(o % CW); s.y0 = (uint32_t)(o / CW); s.pitch = pitch;
            PROBE("dense view");
            return true;
        }
    }
    if (w > CW || h > CH) return false;
    for (int tries = 0; tries < 12; tries++) {
        int c = (int)r.below(NCANVAS);
        uint32_t lx = 0, ly = 0, hx = CW, hy = CH;
        if (c < wd.shared) { lx = wd.sx0; ly = wd.sy0; hx = wd.sx1; hy = wd.sy1; }
        if (w > hx - lx || h > hy - ly) continue;
        uint32_t x0 = lx + (uint32_t)r.below(hx - lx - w + 1), y0 = ly + (uint32_t)r.below(hy - ly - h + 1);
        if (tries < 6 && !b.r.empty()) {           // glue it to an operand: adjacent rows or columns of the same buffer
            const Rect &o = b.r[(size_t)r.below(b.r.size())];
            bool same = false;
            for (int q = 0; q < NCANVAS; q++) if (o.canvas == &p.canvas[q]) { c = q; same = true; }
            if (same) {
                int64_t x = o.x0, y = o.y0;
                switch (r.below(4)) { case 0: x = o.x1; break; case 1: x = (int64_t)o.x0 - w; break; case 2: y = o.y1; break; default: y = (int64_t)o.y0 - h; }
                lx = ly = 0; hx = CW; hy = CH;
                if (c < wd.shared) { lx = wd.sx0; ly = wd.sy0; hx = wd.sx1; hy = wd.sy1; }
                if (x < lx || y < ly || x + w > hx || y + h > hy) continue;
                x0 = (uint32_t)x; y0 = (uint32_t)y;
            }
        }
        Rect me{&p.canvas[c], x0, y0, x0 + w, y0 + h};
        bool bad = false;
        for (auto &o : b.r) if (hit(o, me)) bad = true;
        if (bad) continue;
        need_canvas(p, c);
        SlotG<T> &s = p.s[slot];
        s.img.reset(new Gray<T>(p.canvas[c].data(), (uint32_t)p.canvas[c].size(), w, h, y0 * CW + x0, CW));
        s.canvas = c; s.x0 = x0; s.y0 = y0; s.pitch = CW;
        return true;
    }
    return false;
}
template<class T> void make_owned(World &wd, int slot, uint32_t w, uint32_t h) {
    SlotG<T> &s = wd.pool<T>().s[slot];
    std::string why;
    Outcome o = OK;
    if (s.img && s.canvas != -1) s.img.reset();
    if (!s.img) { s.canvas = -1; s.img.reset(new Gray<T>(0, 0)); }
    o = call(plain(), [&] { s.img->reshape(w, h); }, &why);
    if (o != OK) violation("prepare", "an owned image could not be given the shape %ux%u: %s", w, h, why.c_str());
}
template<class T> void fill(Gray<T> &g, int kind, uint64_t seed) {
    content<T>(kind, seed, g.width, g.height, [&](uint32_t x, uint32_t y, T v) { g.data[g.offset + (size_t)y * g.stride + x] = v; });
}
template<class T> Img<T> grab(const Gray<T> &g) {
    Img<T> r(g.width, g.height);
    for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) r.at(x, y) = g.data[g.offset + (size_t)y * g.stride + x];
    return r;
}
// input operand: args base+0 slot, +1 mode (0 keep, 1 owned, 2 view, 3 keep shape/new pixels), +2 w, +3 h, +4 kind, +5 seed
enum { IN_ARGS = 6, OUT_ARGS = 5 };
// may_ro: the caller only reads it, so in threaded worlds it may be an image other threads read as well
template<class T> int prep_in(World &wd, const Op &op, size_t base, Busy &b, int force_kind = -1, bool may_ro = false) {
    int slot = (int)op.pick(base, 0, NSLOT - 1), mode = (int)op.pick(base + 1, 0, 3);
    uint32_t w = (uint32_t)op.big(base + 2, 0, CW, 70000), h = (uint32_t)op.big(base + 3, 0, CH, 70000);
    if ((uint64_t)w * h > 450000) h = 450000 / w;
    int kind = (int)op.pick(base + 4, 0, KINDS - 1);
    uint64_t seed = (uint64_t)op.arg(base + 5);
    if (force_kind >= 0 && (kind < 6 || kind == 11)) kind = force_kind + (int)(seed % 5);
    Pool<T> &p = wd.pool<T>();
    for (int i = 0; i < NSLOT && clashes<T>(wd, slot, b); i++) slot = (slot + 1) % NSLOT;
    if (clashes<T>(wd, slot, b)) { slot = (int)op.pick(base, 0, NSLOT - 1); p.s[slot].img.reset(); }
    bool have = (bool)p.s[slot].img;
    if (have && p.s[slot].canvas == -2 && !(mode == 0 && may_ro)) have = false;
    auto &cm = p.common[force_kind >= 0];
    if (wd.threaded && may_ro && !cm.empty() && seed % 2) {
        p.s[slot].img = cm[(size_t)(seed / 2 % cm.size())];
        p.s[slot].canvas = -2;
        take<T>(wd, slot, b);
        return slot;
    }
    if (mode == 0 && have) {
        bool usable = true;
        Img<T> c = grab(*p.s[slot].img);
        // results of earlier operators are good inputs while they stay inside the declared pixel range
        for (auto v : c.v) if (force_kind >= 0 ? v != 0 && v != 1 : !((double)v >= Lim<T>::lo && (double)v <= Lim<T>::hi)) usable = false;
        if (usable) { take<T>(wd, slot, b); return slot; }
        if (p.s[slot].canvas == -2) have = false;
    }
    if (!((mode == 3 || mode == 0) && have)) {
        if (!(mode == 2 && make_view<T>(wd, slot, w, h, seed, b))) make_owned<T>(wd, slot, w, h);
    }
    fill(*p.s[slot].img, kind, seed);
    take<T>(wd, slot, b);
    return slot;
}
// output or scratch operand for a w x h result: args base+0 slot, +1 mode (0 keep, 1 owned of some other shape, 2 view, 3 view of a wrong shape,
// 4 owned exact), +2 ow, +3 oh, +4 seed.  fits is false when the operand can not take that shape.
template<class T> int prep_out(World &wd, const Op &op, size_t base, Busy &b, uint32_t w, uint32_t h, bool &fits) {
    int slot = (int)op.pick(base, 0, NSLOT - 1), mode = (int)op.pick(base + 1, 0, 4);
    uint32_t ow = (uint32_t)op.pick(base + 2, 0, CW), oh = (uint32_t)op.pick(base + 3, 0, CH);
    uint64_t seed = (uint64_t)op.arg(base + 4);
    Pool<T> &p = wd.pool<T>();
    for (int i = 0; i < NSLOT && clashes<T>(wd, slot, b); i++) slot = (slot + 1) % NSLOT;
    if (clashes<T>(wd, slot, b)) { for (slot = 0; slot < NSLOT - 1; slot++) { bool used = false; for (auto q : b.slots) if (q == &p.s[slot]) used = true; if (!used) break; } p.s[slot].img.reset(); }
    SlotG<T> &s = p.s[slot];
    if (mode == 0 && s.img && s.canvas >= 0 && (s.img->width != w || s.img->height != h)) mode = 2;
    if (mode == 0 && (!s.img || s.canvas == -2)) mode = 1;
    if (mode == 1) { make_owned<T>(wd, slot, ow, oh); }
    else if (mode == 2) { if (!make_view<T>(wd, slot, w, h, seed, b)) make_owned<T>(wd, slot, w, h); }
    else if (mode == 3) { if ((ow == w && oh == h) || !make_view<T>(wd, slot, ow, oh, seed, b)) make_owned<T>(wd, slot, w, h); }
    else if (mode == 4) make_owned<T>(wd, slot, w, h);
    if (seed & 1) fill(*s.img, (seed & 2) ? 0 : 4, seed);
    fits = s.canvas < 0 || (s.img->width == w && s.img->height == h);
    take<T>(wd, slot, b);
    return slot;
}
template<class T> Gray<T> &G(World &w, int slot) { return *w.pool<T>().s[slot].img; }

// ------------------------------------------------------------------ snapshots around an operator
template<class P> bool viewed(P &p, int c) { for (int i = 0; i < NSLOT; i++) if (p.s[i].img && p.s[i].canvas == c) return true; return false; }
inline void snapshot(World &w) {
    each_pool(w, [&](auto &p) {
        for (int c = 0; c < NCANVAS; c++) { if (c < w.shared && !viewed(p, c)) p.snap[c].clear(); else p.snap[c] = *p.canvas[c].v; }
        for (int i = 0; i < NSLOT; i++) {
            p.exempt[i] = false;
            auto &o = p.own[i];
            o.live = (bool)p.s[i].img;
            if (!o.live) continue;
            auto &g = *p.s[i].img;
            o.view = p.s[i].canvas >= 0; o.w = g.width; o.h = g.height; o.off = g.offset; o.stride = g.stride; o.len = g.data_length; o.data = g.data;
            if (!o.view) { o.px.resize((size_t)g.width * g.height); for (uint32_t y = 0; y < g.height; y++) memcpy(o.px.data() + (size_t)y * g.width, g.data + g.offset + (size_t)y * g.stride, sizeof(o.px[0]) * g.width); }
        }
    });
}
template<class T> void allow(World &w, int slot) { w.pool<T>().exempt[slot] = true; }
// everything that was not an output must be byte for byte what it was; outputs must be readable over their shape
inline void check_confinement(World &w, const char *what) {
    each_pool(w, [&](auto &p) {
        for (int i = 0; i < NSLOT; i++) {
            auto &o = p.own[i];
            if (!o.live) continue;
            auto &g = *p.s[i].img;
            if (!p.exempt[i] || o.view) {
                if (g.width != o.w || g.height != o.h || g.offset != o.off || g.stride != o.stride || g.data != o.data)
                    violation("header", "%s changed the shape or storage of %s image (%ux%u to %ux%u)", what, p.exempt[i] ? "a sub-image it wrote to, an" : "an operand it must not change, an", o.w, o.h, g.width, g.height);
            } else {
                if (g.subimage || g.stride < g.width || (g.total_pixels() && (uint64_t)g.offset + (uint64_t)(g.height - 1) * g.stride + g.width > g.data_length))
                    violation("header", "%s left its output with shape %ux%u stride %u in %u elements", what, g.width, g.height, g.stride, g.data_length);
            }
            if (!o.view) {
                volatile uint64_t sink = 0;
                if (!p.exempt[i]) {
                    for (uint32_t y = 0; y < g.height; y++)
                        if (g.width && memcmp(o.px.data() + (size_t)y * g.width, g.data + g.offset + (size_t)y * g.stride, sizeof(o.px[0]) * g.width))
                            violation("input-changed", "%s changed pixels of an image it only may read (row %u of %ux%u)", what, y, g.width, g.height);
                } else for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) sink += (uint64_t)(g.data[g.offset + (size_t)y * g.stride + x] != 0);
            }
        }
        for (int c = 0; c < NCANVAS; c++) {
            if (p.canvas[c].empty()) continue;
            if (p.snap[c].empty()) continue;
            if (!memcmp(p.canvas[c].data(), p.snap[c].data(), p.canvas[c].size() * sizeof(p.canvas[c][0]))) continue;
            for (uint32_t y = 0; y < CH; y++) for (uint32_t x = 0; x < CW; x++) {
                if (c < w.shared && (x < w.sx0 || y < w.sy0 || x >= w.sx1 || y >= w.sy1)) continue;   // another thread works there
                size_t k = (size_t)y * CW + x;
                if (!memcmp(&p.canvas[c][k], &p.snap[c][k], sizeof(p.snap[c][k]))) continue;
                bool ok = false;
                for (int i = 0; i < NSLOT && !ok; i++)
                    if (p.exempt[i] && p.own[i].view && p.s[i].canvas == c && p.s[i].covers(p.own[i].w, p.own[i].h, x, y)) ok = true;
                if (!ok) violation("outside-write", "%s changed the buffer element (%u,%u), which lies outside every output sub-image", what, x, y);
            }
        }
    });
}
// runs one operator between snapshot and confinement check.  true: succeeded and its result has to be right
template<class F> bool operate(World &w, const Op &op, bool must_reject, F fn) {
    std::string why;
    Outcome o = call(op, fn, &why);
    check_confinement(w, op.name.c_str());
    if (o == OTHER) violation("bad-error", "%s failed with something that is not an error object", op.name.c_str());
    if (o == BAD_ALLOC) { PROBE("operator out of memory"); return false; }
    if (alloc_fault_fired()) PROBE("allocation failure survived");
    if (must_reject) {
        if (o == OK) violation("accepted-impossible", "%s accepted arguments that can not work", op.name.c_str());
        PROBE("operator refused");
        return false;
    }
    if (o == REJECTED) {
        violation("refused-valid", "%s refused valid arguments: %s", op.name.c_str(), why.c_str());
    }
    return true;
}
template<class T> void check_shape(const Gray<T> &g, uint32_t w, uint32_t h, const char *what) {
    if (g.width != w || g.height != h) violation("wrong-shape", "%s produced %ux%u instead of %ux%u", what, g.width, g.height, w, h);
}
template<class T> void digest(const Gray<T> &g) {
    for (uint32_t y = 0; y < g.height; y++) ev_bytes(g.data + g.offset + (size_t)y * g.stride, sizeof(T) * g.width);
}
// exact comparison
template<class T> void expect_exact(const Gray<T> &g, const Img<T> &e, const char *what) {
    check_shape(g, e.w, e.h, what);
    for (uint32_t y = 0; y < e.h; y++) for (uint32_t x = 0; x < e.w; x++) {
        T v = g.data[g.offset + (size_t)y * g.stride + x];
        if (!(v == e.at(x, y))) violation("wrong-pixel", "%s: pixel (%u,%u) of %ux%u is %.9g, its definition gives %.9g", what, x, y, e.w, e.h, (double)v, (double)e.at(x, y));
    }
    digest(g);
}
// lo..hi comparison (floating point results)
template<class T> void expect_near(const Gray<T> &g, uint32_t w, uint32_t h, const std::vector<double> &v, const std::vector<double> &tol, const char *what) {
    check_shape(g, w, h, what);
    for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) {
        double q = (double)g.data[g.offset + (size_t)y * g.stride + x];
        size_t k = (size_t)y * w + x;
        if (!(std::fabs(q - v[k]) <= tol[k])) violation("wrong-pixel", "%s: pixel (%u,%u) of %ux%u is %.9g, its definition gives %.9g (tolerance %.3g)", what, x, y, w, h, q, v[k], tol[k]);
    }
    digest(g);
}
// decisions: 0, 1 or 2 = either
inline void expect_bits(const Gray<U8> &g, const Img<U8> &e, const char *what) {
    check_shape(g, e.w, e.h, what);
    for (uint32_t y = 0; y < e.h; y++) for (uint32_t x = 0; x < e.w; x++) {
        U8 v = g.data[g.offset + (size_t)y * g.stride + x];
        if (v > 1 || (e.at(x, y) != 2 && v != e.at(x, y))) violation("wrong-pixel", "%s: pixel (%u,%u) of %ux%u is %u, its definition gives %u", what, x, y, e.w, e.h, v, e.at(x, y));
    }
    digest(g);
}
template<class T> struct Tol { static double rel() { return 0; } };
template<> struct Tol<F32> { static double rel() { return 5e-5; } };
template<> struct Tol<F64> { static double rel() { return 1e-9; } };
// a sum of n terms may be off by the rounding of every addition
template<class T> double tol_n(double n) { return std::max(Tol<T>::rel(), n * (double)std::numeric_limits<T>::epsilon()); }

// operator families (each in its own translation unit)
void op_contour(World &, const Op &);
void op_contour_cfg(World &, const Op &);
void op_block(World &, const Op &);
void op_threshold(World &, const Op &);
void op_binary(World &, const Op &);
void op_otsu(World &, const Op &);
void op_blur(World &, const Op &);
void op_convolve(World &, const Op &);
void op_normalized(World &, const Op &);
void op_inner(World &, const Op &);
void op_misc(World &, const Op &);
void readonly_kernels(World &);
void make_common_kernels(World &); // kernels several worlds read
bool run_op(World &, const Op &);  // dispatches on the operation's name
struct Profile;
void gen_ops(Plan &p, Rng &r, int profile);
struct ContourState; struct BlockState; struct ConvState;
}}
#endif
