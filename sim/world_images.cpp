// C01 / C02: image containers against an ideal pixel array, without and with allocation failures.
#include <memory>
#include <limits>
#include "core.h"
#include <cstring>
#include "base_types.h"
#include "image_types.h"
#include "image_misc_ops.h"

namespace hx {
namespace images {
using boofcv::Gray; using boofcv::Interleaved; using boofcv::Planar;

template<class T> struct Cell { T v; bool known; };
template<class T> struct Store {          // the ideal pixel array behind one owner or one foreign buffer
    std::vector<Cell<T>> c;
    uint32_t rs;                           // cells per row (width*bands of the owner)
};

template<class T> struct GrayA {
    typedef Gray<T> I; typedef T E;
    enum { VIEWS = 1, BANDS = 0, ASSIGN = 1, FILL = 1 };
    static I *make(uint32_t w, uint32_t h, uint32_t) { return new I(w, h); }
    static I *make0() { return new I(); }
    static I *wrap(T *d, uint32_t n, uint32_t w, uint32_t h, uint32_t, uint32_t off, uint32_t st) { return new I(d, n, w, h, off, st); }
    static uint32_t nb(const I &) { return 1; }
    static void reshape(I &i, uint32_t w, uint32_t h) { i.reshape(w, h); }
    static void reshape3(I &i, uint32_t w, uint32_t h, uint32_t) { i.reshape(w, h); }
    static void bands(I &, uint32_t) {}
    static T &at(const I &i, uint32_t x, uint32_t y, uint32_t) { return i.at(x, y); }
    static T &raw(const I &i, uint32_t x, uint32_t y, uint32_t) { return i.unsafe_at(x, y); }
    static T &idx(const I &i, uint32_t x, uint32_t y, uint32_t) { return i.data[i.index_of(x, y)]; }
    static void copy(I &d, const I &s) { d.copy(s); }
    static I *sub(I &s, uint32_t x0, uint32_t y0, uint32_t x1, uint32_t y1) { return new I(s.makeSubimage(x0, y0, x1, y1)); }
    static void assign(I &d, const I &s) { d = s; }
    static I *clone(const I &s) { return new I(s); }
    static void fill(I &i, T v) { boofcv::ImageMiscOps::fill(i, v); }
    static void fill_border(I &i, T v, uint32_t r) { boofcv::ImageMiscOps::fill_border(i, v, r); }
    template<class G> static void uniform(I &i, T a, T b, G &g) { boofcv::ImageMiscOps::fill_uniform(i, a, b, g); }
};
template<class T> struct InterA {
    typedef Interleaved<T> I; typedef T E;
    enum { VIEWS = 1, BANDS = 1, ASSIGN = 1, FILL = 2 };
    static I *make(uint32_t w, uint32_t h, uint32_t b) { return new I(w, h, b); }
    static I *make0() { return new I(); }
    static I *wrap(T *d, uint32_t n, uint32_t w, uint32_t h, uint32_t b, uint32_t off, uint32_t st) { return new I(d, n, w, h, b, off, st); }
    static uint32_t nb(const I &i) { return i.num_bands; }
    static void reshape(I &i, uint32_t w, uint32_t h) { i.reshape(w, h); }
    static void reshape3(I &i, uint32_t w, uint32_t h, uint32_t b) { i.reshape(w, h, b); }
    static void bands(I &i, uint32_t b) { i.setNumberOfBands(b); }
    static T &at(const I &i, uint32_t x, uint32_t y, uint32_t b) { return i.at(x, y, b); }
    static T &raw(const I &i, uint32_t x, uint32_t y, uint32_t b) { return i.unsafe_at(x, y, b); }
    static T &idx(const I &i, uint32_t x, uint32_t y, uint32_t b) { return i.data[i.index_of(x, y, b)]; }
    static void copy(I &d, const I &s) { d.setTo(s); }
    static I *sub(I &s, uint32_t x0, uint32_t y0, uint32_t x1, uint32_t y1) { return new I(s.makeSubimage(x0, y0, x1, y1)); }
    static void assign(I &d, const I &s) { d = s; }
    static I *clone(const I &s) { return new I(s); }
    static void fill(I &i, T v) { boofcv::ImageMiscOps::fill(i, v); }
    static void fill_border(I &, T, uint32_t) {}
    template<class G> static void uniform(I &, T, T, G &) {}
};
template<class T> struct PlanarA {
    typedef Planar<Gray<T>> I; typedef T E;
    enum { VIEWS = 0, BANDS = 1, ASSIGN = 0, FILL = 0 };
    static I *make(uint32_t w, uint32_t h, uint32_t b) { return new I(w, h, b); }
    static I *make0() { return new I(); }
    static I *wrap(T *, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t) { return nullptr; }
    static uint32_t nb(const I &i) { return i.num_bands; }
    static void reshape(I &i, uint32_t w, uint32_t h) { i.reshape(w, h); }
    static void reshape3(I &i, uint32_t w, uint32_t h, uint32_t) { i.reshape(w, h); }
    static void bands(I &i, uint32_t b) { i.setNumberOfBands(b); }
    static T &at(const I &i, uint32_t x, uint32_t y, uint32_t b) { return i.at(x, y, b); }
    static T &raw(const I &i, uint32_t x, uint32_t y, uint32_t b) { return i.getBand(b).at(x, y); }
    static T &idx(const I &i, uint32_t x, uint32_t y, uint32_t b) { return i.getBand(b).unsafe_at(x, y); }
    static void copy(I &d, const I &s) { d.setTo(s); }
    static I *sub(I &, uint32_t, uint32_t, uint32_t, uint32_t) { return nullptr; }
    static void assign(I &, const I &) {}
    static I *clone(const I &) { return nullptr; }
    static void fill(I &, T) {}
    static void fill_border(I &, T, uint32_t) {}
    template<class G> static void uniform(I &, T, T, G &) {}
};

template<class T> T value(int64_t v) {
    double lim = std::numeric_limits<T>::is_signed ? 20000 : 250;
    if (sizeof(T) == 1) lim = 250;
    int64_t m = ((v % (int64_t)lim) + (int64_t)lim) % (int64_t)lim;
    if (std::numeric_limits<T>::is_signed && (v & 1)) m = -m;
    return (T)m;
}

template<class A> struct Run {
    typedef typename A::I I; typedef typename A::E T;
    enum { NS = 6 };
    struct Slot {
        I *img = nullptr;
        std::shared_ptr<Store<T>> st;
        bool owner = true;
        uint32_t w = 0, h = 0, b = 1, off = 0;   // rectangle inside the store, in cells
        std::shared_ptr<std::vector<T>> foreign; // user buffer that is being wrapped
    };
    Slot s[NS];
    const Plan &plan;
    explicit Run(const Plan &p) : plan(p) {}

    Cell<T> &cell(Slot &k, uint32_t x, uint32_t y, uint32_t b) { return k.st->c[k.off + (size_t)y * k.st->rs + (size_t)x * k.b + b]; }
    void fresh(Slot &k, uint32_t w, uint32_t h, uint32_t b, bool known, T v) {
        k.st = std::make_shared<Store<T>>();
        k.st->c.assign((size_t)w * h * b, Cell<T>{v, known});
        k.st->rs = w * b; k.w = w; k.h = h; k.b = b; k.off = 0; k.owner = true;
    }
    void destroy(int i) {
        Slot &k = s[i];
        if (!k.img) return;
        I *p = k.img;
        k.img = nullptr;
        Op none; none.name = "destroy";
        if (call(none, [&] { delete p; }) != OK) violation("destroy-failed", "destroying an image raised an error");
        k = Slot();
    }
    // views of an owner that is about to change its storage are destroyed first, as the API demands
    void kill_views(int i) {
        if (!s[i].img) return;
        auto st = s[i].st;
        for (int j = 0; j < NS; j++) if (j != i && s[j].img && !s[j].owner && s[j].st == st) destroy(j);
    }
    void drop(int i) { if (s[i].img && s[i].owner) kill_views(i); destroy(i); }

    void verify(const char *after) {
        NotSut ns;
        for (int i = 0; i < NS; i++) {
            Slot &k = s[i];
            if (!k.img) continue;
            I &m = *k.img;
            if (m.width != k.w || m.height != k.h || m.getWidth() != k.w || m.getHeight() != k.h || A::nb(m) != k.b || m.total_pixels() != k.w * k.h)
                violation("shape", "after %s image %d reports %ux%ux%u (getWidth %u getHeight %u total %u), expected %ux%ux%u", after, i, m.width, m.height, A::nb(m), m.getWidth(), m.getHeight(), m.total_pixels(), k.w, k.h, k.b);
            if (!m.isInBounds(0, 0) != (k.w == 0 || k.h == 0) || m.isInBounds(k.w, 0) || m.isInBounds(0, k.h) || (k.w && k.h && !m.isInBounds(k.w - 1, k.h - 1)))
                violation("bounds", "isInBounds disagrees with the shape after %s", after);
            for (uint32_t y = 0; y < k.h; y++) for (uint32_t x = 0; x < k.w; x++) for (uint32_t b = 0; b < k.b; b++) {
                Cell<T> &c = cell(k, x, y, b);
                T v = ((x + y + b) % 3 == 0) ? A::at(m, x, y, b) : ((x + y + b) % 3 == 1) ? A::raw(m, x, y, b) : A::idx(m, x, y, b);
                if (!c.known) { if (v != v) v = 0; c.v = v; A::idx(m, x, y, b) = v; c.known = true; }   // unspecified contents become known once read
                else if (!(v == c.v)) violation("pixel", "after %s image %d pixel (%u,%u) band %u is %g, expected %g", after, i, x, y, b, (double)v, (double)c.v);
            }
            ev((uint64_t)k.w << 32 | k.h);
        }
        for (int i = 0; i < NS; i++) if (s[i].img && s[i].foreign) {
            Slot &k = s[i];
            for (size_t j = 0; j < k.foreign->size(); j++)
                if (k.st->c[j].known && !((*k.foreign)[j] == k.st->c[j].v))
                    violation("outside", "after %s a value outside the view changed in the wrapped buffer (index %zu)", after, j);
        }
    }
    void check_refused(Outcome o, const Op &op) { if (o == OK) violation("not-refused", "illegal %s was accepted", op.name.c_str()); PROBE("refused"); }
    void check_ok(Outcome o, const Op &op, const std::string &w) {
        if (o != OK) violation("spurious-error", "legal %s failed: %s", op.name.c_str(), w.c_str());
    }
    // after an operation that failed half way the reported shape must be readable; contents are unspecified
    void adopt(Slot &k) {
        I &m = *k.img;
        PROBE("failed-op-adopted");
        uint64_t n = (uint64_t)m.width * m.height * A::nb(m);
        if (n > 4000000) violation("shape", "after a failed operation the image reports the impossible shape %ux%ux%u", m.width, m.height, A::nb(m));
        if (k.owner) { fresh(k, m.width, m.height, A::nb(m), false, T()); }
        else { // a view: its shape must not have changed
            if (m.width != k.w || m.height != k.h) violation("shape", "a failed operation changed the shape of a sub-image");
            for (uint32_t y = 0; y < k.h; y++) for (uint32_t x = 0; x < k.w; x++) for (uint32_t b = 0; b < k.b; b++) cell(k, x, y, b).known = false;
        }
    }
    // a row alone may also be refused when it cannot be represented
    static bool refusable(uint64_t w, uint64_t h, uint64_t b) { return impossible(w, h, b) || w * b > 0xFFFFFFFFull; }
    static bool impossible(uint64_t w, uint64_t h, uint64_t b) { return w * h > 0xFFFFFFFFull || w * h * b > 0xFFFFFFFFull; }
    // enormous but empty shapes are legal and only slow; keep them out of the workload
    static void tame(uint32_t &w, uint32_t &h, uint32_t &b) { if ((uint64_t)w * h * b == 0) { if (w > 24) w = 3; if (h > 24) h = 2; } }
    static uint32_t dim(int64_t v) { // total mapping; a few values are enormous
        if (v < 0) { static const uint32_t big[] = {0x10000u, 0x10001u, 0x8000u, 0x40000000u, 0x80000000u, 0xFFFFFFFFu}; return big[(uint64_t)(-v - 1) % 6]; }
        if (v > 1000000) return (uint32_t)(v - 1000000) % 70000;
        return (uint32_t)(v % 24);
    }

    void step(const Op &op) {
        std::string w;
        const std::string &n = op.name;
        int i = (int)op.pick(0, 0, NS - 1);
        if (n == "new") {
            drop(i);
            uint32_t W = dim(op.arg(1)), H = dim(op.arg(2)), B = A::BANDS ? (uint32_t)op.pick(3, 0, 4) : 1;
            tame(W, H, B);
            I *p = nullptr;
            Outcome o = call(op, [&] { p = A::make(W, H, B); }, &w);
            if (o == OK) {
                if (impossible(W, H, B) || (uint64_t)W * H * B > 4000000) violation("not-refused", "an image of %ux%ux%u was created", W, H, B);
                s[i].img = p; fresh(s[i], W, H, B, true, T());
            } else if (o == BAD_ALLOC) PROBE("oom-new");
            else if (!refusable(W, H, B)) violation("spurious-error", "creating %ux%ux%u failed: %s", W, H, B, w.c_str());
        } else if (n == "new0") {
            drop(i);
            I *p = nullptr;
            Outcome o = call(op, [&] { p = A::make0(); }, &w);
            if (o == OK) { s[i].img = p; fresh(s[i], 0, 0, A::BANDS ? 0 : 1, true, T()); }
            else if (o != BAD_ALLOC) check_ok(o, op, w);
        } else if (n == "wrap") {
            if (!A::VIEWS) return;
            drop(i);
            uint32_t W = (uint32_t)op.pick(1, 0, 12), H = (uint32_t)op.pick(2, 0, 12), B = A::BANDS ? (uint32_t)op.pick(3, 1, 3) : 1, pad = (uint32_t)op.pick(4, 0, 5), off = (uint32_t)op.pick(5, 0, 7);
            auto buf = std::make_shared<std::vector<T>>((size_t)off + (size_t)H * (W * B + pad) + 1);
            auto st = std::make_shared<Store<T>>();
            st->rs = W * B + pad;
            st->c.resize(buf->size());
            for (size_t j = 0; j < buf->size(); j++) { (*buf)[j] = value<T>((int64_t)j * 7 + op.arg(6)); st->c[j] = Cell<T>{(*buf)[j], true}; }
            I *p = nullptr;
            Outcome o = call(op, [&] { p = A::wrap(buf->data(), (uint32_t)buf->size(), W, H, B, off, W * B + pad); }, &w);
            if (o != OK) { if (o != BAD_ALLOC) check_ok(o, op, w); return; }
            Slot &k = s[i];
            k.img = p; k.st = st; k.owner = false; k.w = W; k.h = H; k.b = B; k.off = off; k.foreign = buf;
        } else if (n == "destroy") {
            drop(i);
        } else if (!s[i].img) {
            return;
        } else if (n == "reshape" || n == "reshape3" || n == "bands") {
            Slot &k = s[i];
            uint32_t W = dim(op.arg(1)), H = dim(op.arg(2)), B = (uint32_t)op.pick(3, 0, 4);
            if (n == "bands") { W = k.w; H = k.h; }
            if (n == "reshape" || !A::BANDS) B = k.b;
            if (n == "bands" && !A::BANDS) return;
            if (n == "reshape3" && A::ASSIGN == 0) B = k.b;
            if (n != "bands") tame(W, H, B);
            bool same = W == k.w && H == k.h && B == k.b;
            if (k.owner && !same) kill_views(i);
            Outcome o = call(op, [&] { if (n == "reshape") A::reshape(*k.img, W, H); else if (n == "reshape3") A::reshape3(*k.img, W, H, B); else A::bands(*k.img, B); }, &w);
            if (!k.owner && !same) { check_refused(o, op); return; }
            if (o == OK) {
                if (!same) {
                    if (impossible(W, H, B) || (uint64_t)W * H * B > 4000000) violation("not-refused", "reshape to %ux%ux%u was accepted", W, H, B);
                    if (n == "bands" && A::ASSIGN == 0) { // planar: bands that stay keep their pixels
                        Slot old = k;
                        uint32_t ob = k.b;
                        fresh(k, W, H, B, false, T());
                        for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++) for (uint32_t b = 0; b < B && b < ob; b++) cell(k, x, y, b) = cell(old, x, y, b);
                    } else fresh(k, W, H, B, false, T());
                }
            } else if (o == BAD_ALLOC) { PROBE("oom-reshape"); adopt(k); }
            else { if (!refusable(W, H, B)) violation("spurious-error", "reshape to %ux%ux%u failed: %s", W, H, B, w.c_str()); PROBE("impossible-shape"); adopt(k); }
        } else if (n == "set") {
            Slot &k = s[i];
            uint32_t x = (uint32_t)op.big(1, 0, 26, 70000), y = (uint32_t)op.big(2, 0, 26, 70000), b = (uint32_t)op.pick(3, 0, 5);
            if (op.arg(5) % 4) { if (k.w) x %= k.w; if (k.h) y %= k.h; if (k.b) b %= k.b; }
            if (op.arg(5) == 7) x = 0xFFFFFFFFu - x;
            if (!A::BANDS) b = 0;
            T v = value<T>(op.arg(4));
            Outcome o = call(op, [&] { A::at(*k.img, x, y, b) = v; }, &w);
            if (x >= k.w || y >= k.h || b >= k.b) check_refused(o, op);
            else { if (o == BAD_ALLOC) return; check_ok(o, op, w); cell(k, x, y, b) = Cell<T>{v, true}; }
        } else if (n == "fill") {
            if (!A::FILL) return;
            Slot &k = s[i];
            T v = value<T>(op.arg(1));
            Outcome o = call(op, [&] { A::fill(*k.img, v); }, &w);
            if (o != OK && o != BAD_ALLOC) check_ok(o, op, w);
            for (uint32_t y = 0; y < k.h; y++) for (uint32_t x = 0; x < k.w; x++) for (uint32_t b = 0; b < k.b; b++) cell(k, x, y, b) = Cell<T>{v, o == OK};
        } else if (n == "fill_border") {
            if (A::FILL != 1) return;
            Slot &k = s[i];
            T v = value<T>(op.arg(1));
            uint32_t r = (uint32_t)op.pick(2, 0, 14);
            Outcome o = call(op, [&] { A::fill_border(*k.img, v, r); }, &w);
            if (o != OK && o != BAD_ALLOC) check_ok(o, op, w);
            for (uint32_t y = 0; y < k.h; y++) for (uint32_t x = 0; x < k.w; x++)
                if (x < r || y < r || (uint64_t)x + r >= k.w || (uint64_t)y + r >= k.h) cell(k, x, y, 0) = Cell<T>{v, o == OK};
        } else if (n == "uniform") {
            if (A::FILL != 1) return;
            Slot &k = s[i];
            T lo = value<T>(op.arg(1) & ~1ll), hi = (T)(lo + 1 + (T)op.pick(2, 1, 5));
            std::minstd_rand rng((unsigned)op.arg(3) + 1);
            Outcome o = call(op, [&] { A::uniform(*k.img, lo, hi, rng); }, &w);
            if (o != OK && o != BAD_ALLOC) check_ok(o, op, w);
            for (uint32_t y = 0; y < k.h; y++) for (uint32_t x = 0; x < k.w; x++) {
                T v = A::idx(*k.img, x, y, 0);
                if (o == OK && !(v >= lo && v <= hi && (v < hi || !std::numeric_limits<T>::is_exact))) violation("uniform", "uniform fill left %g outside [%g,%g) at (%u,%u)", (double)v, (double)lo, (double)hi, x, y);
                cell(k, x, y, 0) = Cell<T>{v, o == OK};
            }
        } else if (n == "sub") {
            if (!A::VIEWS) return;
            int j = (int)op.pick(1, 0, NS - 1);
            if (i == j) return;
            Slot &k = s[i];
            uint32_t x0 = (uint32_t)op.big(2, 0, 25, 70000), y0 = (uint32_t)op.big(3, 0, 25, 70000), x1 = (uint32_t)op.big(4, 0, 25, 70000), y1 = (uint32_t)op.big(5, 0, 25, 70000);
            if (op.arg(6) % 4) { x0 %= k.w + 1; x1 %= k.w + 1; y0 %= k.h + 1; y1 %= k.h + 1; if (x0 > x1) std::swap(x0, x1); if (y0 > y1) std::swap(y0, y1); }
            if (op.arg(6) % 8 >= 6) { x0 = 0; x1 = k.w; }                // whole rows: they follow each other without a gap
            bool legal = x1 <= k.w && y1 <= k.h && x0 <= x1 && y0 <= y1;
            if (s[j].img && s[j].owner && s[j].st == k.st) return;  // would drop the storage we view
            drop(j);
            I *p = nullptr;
            Outcome o = call(op, [&] { p = A::sub(*k.img, x0, y0, x1, y1); }, &w);
            if (!legal) { check_refused(o, op); return; }
            if (o == BAD_ALLOC) return;
            check_ok(o, op, w);
            Slot &v = s[j];
            v.img = p; v.st = k.st; v.owner = false; v.w = x1 - x0; v.h = y1 - y0; v.b = k.b; v.foreign = k.foreign;
            v.off = k.off + y0 * k.st->rs + x0 * k.b;
            if (!k.owner) PROBE("nested-view");
        } else if (n == "copy" || n == "assign") {
            if (n == "assign" && !A::ASSIGN) return;
            int j = (int)op.pick(1, 0, NS - 1);
            Slot &d = s[i], &src = s[j];
            if (!src.img) return;
            bool rebind = n == "assign" && !src.owner;
            if (i == j) {
                if (n == "copy") return;
                Outcome o = call(op, [&] { A::assign(*d.img, *src.img); }, &w);
                if (o != BAD_ALLOC) check_ok(o, op, w);
                return;
            }
            if (d.owner && d.st == src.st && n == "copy") return;   // source is a view of the destination owner: storage may vanish
            if (d.owner && d.st == src.st) {                 // an image becomes one of its own sub-images: it keeps owning the pixels
                std::vector<Cell<T>> px;
                for (uint32_t y = 0; y < src.h; y++) for (uint32_t x = 0; x < src.w; x++) for (uint32_t b = 0; b < src.b; b++) px.push_back(cell(src, x, y, b));
                uint32_t W = src.w, H = src.h, B = src.b;
                Outcome o = call(op, [&] { A::assign(*d.img, *src.img); }, &w);
                kill_views(i);
                if (o == BAD_ALLOC) { adopt(d); return; }
                check_ok(o, op, w);
                PROBE("cropped-itself");
                fresh(d, W, H, B, false, T());
                size_t q = 0;
                for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++) for (uint32_t b = 0; b < B; b++) cell(d, x, y, b) = px[q++];
                return;
            }
            if (!rebind && d.st == src.st) return;   // overlapping copy is not supported
            if (rebind && !d.owner && false) return;
            bool same = d.w == src.w && d.h == src.h && d.b == src.b;
            if (d.owner && (rebind || !same)) kill_views(i);
            Outcome o = call(op, [&] { if (n == "copy") A::copy(*d.img, *src.img); else A::assign(*d.img, *src.img); }, &w);
            if (rebind) {
                if (o == BAD_ALLOC) { adopt(d); return; }
                check_ok(o, op, w);
                PROBE(d.owner ? "owner-becomes-view" : "view-rebound");
                d.st = src.st; d.owner = false; d.w = src.w; d.h = src.h; d.b = src.b; d.off = src.off; d.foreign = src.foreign;
                return;
            }
            if (!d.owner && !same) { check_refused(o, op); return; }
            if (o == BAD_ALLOC) { PROBE("oom-copy"); adopt(d); return; }
            check_ok(o, op, w);
            if (d.owner && !same) fresh(d, src.w, src.h, src.b, false, T());
            for (uint32_t y = 0; y < d.h; y++) for (uint32_t x = 0; x < d.w; x++) for (uint32_t b = 0; b < d.b; b++) cell(d, x, y, b) = cell(src, x, y, b);
        } else if (n == "clone") {
            if (!A::ASSIGN) return;
            int j = (int)op.pick(1, 0, NS - 1);
            if (i == j || (s[j].img && s[j].owner && s[j].st == s[i].st)) return;
            drop(j);
            Slot &src = s[i];
            I *p = nullptr;
            Outcome o = call(op, [&] { p = A::clone(*src.img); }, &w);
            if (o == BAD_ALLOC) return;
            check_ok(o, op, w);
            Slot &v = s[j];
            v.img = p;
            if (src.owner) {
                fresh(v, src.w, src.h, src.b, false, T());
                for (uint32_t y = 0; y < v.h; y++) for (uint32_t x = 0; x < v.w; x++) for (uint32_t b = 0; b < v.b; b++) cell(v, x, y, b) = cell(src, x, y, b);
            } else { v.st = src.st; v.owner = false; v.w = src.w; v.h = src.h; v.b = src.b; v.off = src.off; v.foreign = src.foreign; }
        }
    }
    void run() {
        for (size_t n = 0; n < plan.ops.size(); n++) {
            op_begin((uint32_t)n, plan.ops[n]);
            step(plan.ops[n]);
            verify(plan.ops[n].name.c_str());
            op_end(true);
        }
        for (int i = 0; i < NS; i++) drop(i);
    }
};

template<class T> void by_kind(const Plan &p) {
    switch (p.conf("kind") % 3) {
        case 0: Run<GrayA<T>>(p).run(); break;
        case 1: Run<InterA<T>>(p).run(); break;
        default: Run<PlanarA<T>>(p).run(); break;
    }
}
void exec(const Plan &p) {
    switch (p.conf("type") % 6) {
        case 0: by_kind<uint8_t>(p); break;
        case 1: by_kind<int16_t>(p); break;
        case 2: by_kind<float>(p); break;
        case 3: by_kind<int32_t>(p); break;
        case 4: by_kind<uint16_t>(p); break;
        default: by_kind<double>(p); break;
    }
}
void init_list_ops(const Plan &) {}

void gen_common(Plan &p, Rng &r, bool faults) {
    p.cfg["kind"] = (int64_t)r.below(10) < 5 ? 0 : (int64_t)(1 + r.below(2));
    p.cfg["type"] = (int64_t)r.below(6);
    int n = (int)r.range(4, 40);
    int maxd = r.chance(1, 4) ? 3 : 14;
    auto D = [&]() -> int64_t { return (int64_t)r.below((uint64_t)maxd + 1); };
    // swarm: a random subset of operations per run
    static const char *names[] = {"new", "new0", "wrap", "destroy", "reshape", "reshape3", "bands", "set", "fill", "fill_border", "uniform", "sub", "copy", "assign", "clone"};
    static const int weight[] = {6, 1, 3, 2, 6, 3, 3, 8, 4, 3, 2, 8, 6, 5, 3};
    int wt[15], total = 0;
    for (int i = 0; i < 15; i++) { wt[i] = r.chance(1, 4) && i != 0 ? 0 : weight[i]; total += wt[i]; }
    if (r.chance(1, 300)) {                                       // shapes that do not fit eight or sixteen bits
        int64_t XL = 1000000;
        auto shape = [&](int64_t &w, int64_t &h) { if (r.chance(1, 2)) { w = XL + r.range(250, 300); h = XL + r.range(250, 300); } else { w = XL + r.range(65530, 65600); h = r.range(1, 2); if (r.chance(1, 2)) std::swap(w, h); } };
        int64_t w, h;
        shape(w, h);
        p.add("new", {0, w, h, r.range(1, 2)});
        p.add("uniform", {0, 10, 5, r.range(0, 999)});
        int64_t x0 = XL + r.range(0, 300), y0 = XL + r.range(0, 300), x1 = XL + r.range(0, 65600), y1 = XL + r.range(0, 65600);
        p.add("sub", {0, 1, x0, y0, x1, y1, 1});
        p.add("set", {1, XL + r.range(0, 65600), XL + r.range(0, 65600), r.range(0, 1), r.range(-300, 300), 1});
        if (r.chance(1, 2)) p.add("sub", {1, 2, XL + r.range(0, 300), XL + r.range(0, 300), XL + r.range(0, 65600), XL + r.range(0, 65600), 1});
        p.add("fill", {2, r.range(-300, 300)});
        p.add("copy", {3, (int64_t)r.below(3)});
        if (r.chance(1, 2)) { p.add("new", {4, 3, 3, 1}); p.add("assign", {4, (int64_t)r.below(3)}); }
        p.add("set", {0, XL + r.range(0, 65600), XL + r.range(0, 65600), r.range(0, 1), r.range(-300, 300), 1});
        shape(w, h);
        p.add("reshape", {3, w, h, r.range(1, 2)});
        p.add("set", {3, XL + r.range(0, 65600), XL + r.range(0, 65600), 0, r.range(-300, 300), 1});
        if (faults) for (auto &o : p.ops) if (r.chance(1, 3)) o.f.push_back(Fault{r.chance(1, 2) ? FK_ALLOC_ONE : FK_ALLOC_FROM, (int64_t)r.below(3)});
        return;
    }
    for (int i = 0; i < 2; i++) p.add("new", {(int64_t)r.below(6), D(), D(), (int64_t)r.below(4)});
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 12)) {
            // two rectangles of one size inside two parents (or wrapped buffers) that often share width and stride, then copies between them
            int64_t w = r.range(2, maxd + 2), h = r.range(1, maxd + 2), B = r.range(1, 3);
            int64_t vw = r.range(1, w), vh = r.range(1, h), sl[4] = {0, 1, 2, 3};
            for (int q = 0; q < 4; q++) std::swap(sl[q], sl[r.below(4)]);
            for (int q = 0; q < 2; q++) {
                int64_t pw = r.chance(3, 4) ? w : w + r.range(0, 4), ph = h + r.range(0, 2);
                if (r.chance(1, 3)) { p.add("wrap", {sl[q], std::min<int64_t>(pw, 12), std::min<int64_t>(ph, 12), B, r.range(0, 3), r.range(0, 3), r.range(0, 99)}); pw = std::min<int64_t>(pw, 12); ph = std::min<int64_t>(ph, 12); }
                else { p.add("new", {sl[q], pw, ph, B}); p.add("uniform", {sl[q], r.range(0, 200), 5, r.range(0, 999)}); p.add("fill_border", {sl[q], r.range(-300, 300), r.range(0, 2)}); }
                int64_t cw = std::min(vw, pw), ch = std::min(vh, ph), x = r.range(0, pw - cw), y = r.range(0, ph - ch);
                p.add("sub", {sl[q], sl[q + 2], x, y, x + cw, y + ch, 0});
            }
            p.add("set", {sl[2], r.range(0, vw), r.range(0, vh), r.range(0, 2), r.range(-300, 300), 1});
            p.add("copy", {sl[2], sl[3]});
            if (r.chance(1, 2)) { p.add("fill", {sl[3], r.range(-300, 300)}); p.add("copy", {sl[3], sl[2]}); }
            if (r.chance(1, 3)) p.add("copy", {(int64_t)r.below(6), sl[2]});
            if (faults && r.chance(1, 3)) p.ops.back().f.push_back(Fault{FK_ALLOC_ONE, (int64_t)r.below(3)});
            continue;
        }
        if (r.chance(1, 12)) {
            // one or two images go back and forth between a few shapes and numbers of bands
            int64_t ws[2] = {D(), D()}, hs[2] = {D(), D()}, sl[2] = {(int64_t)r.below(6), (int64_t)r.below(6)};
            for (int q = (int)r.range(4, 12); q > 0; q--) {
                int64_t me = sl[r.below(2)], W = ws[r.below(2)], H = hs[r.below(2)], B = r.range(0, 4);
                switch (r.below(8)) {
                    case 0: p.add("reshape3", {me, W, H, B}); break;
                    case 1: case 2: p.add("reshape", {me, W, H, B}); break;
                    case 3: case 4: p.add("bands", {me, 0, 0, B}); break;
                    case 5: p.add("uniform", {me, r.range(0, 200), 5, r.range(0, 999)}); break;
                    case 6: p.add("set", {me, D(), D(), B, r.range(-300, 300), 1}); break;
                    default: p.add(r.chance(1, 2) ? "copy" : "fill", {sl[0], sl[1]}); break;
                }
                if (faults && r.chance(1, 4)) p.ops.back().f.push_back(Fault{r.chance(1, 2) ? FK_ALLOC_ONE : FK_ALLOC_FROM, (int64_t)r.below(4)});
            }
            continue;
        }
        int t = (int)r.below((uint64_t)total), k = 0;
        while (t >= wt[k]) { t -= wt[k]; k++; }
        Op &o = p.add(names[k], {(int64_t)r.below(6)});
        std::string nm = names[k];
        if (nm == "new" || nm == "reshape" || nm == "reshape3" || nm == "bands") { o.a.push_back(D()); o.a.push_back(D()); o.a.push_back((int64_t)r.below(5)); }
        else if (nm == "wrap") { o.a.push_back(D()); o.a.push_back(D()); o.a.push_back((int64_t)r.range(1, 3)); o.a.push_back((int64_t)r.below(6)); o.a.push_back((int64_t)r.below(8)); o.a.push_back((int64_t)r.below(100)); }
        else if (nm == "set") { o.a.push_back(D()); o.a.push_back(D()); o.a.push_back((int64_t)r.below(4)); o.a.push_back(r.range(-300, 300)); o.a.push_back((int64_t)r.below(8)); }
        else if (nm == "fill") o.a.push_back(r.range(-300, 300));
        else if (nm == "fill_border") { o.a.push_back(r.range(-300, 300)); o.a.push_back((int64_t)r.below(5)); }
        else if (nm == "uniform") { o.a.push_back(r.range(0, 200)); o.a.push_back((int64_t)r.range(1, 5)); o.a.push_back((int64_t)r.below(1000)); }
        else if (nm == "sub") { o.a.push_back((int64_t)r.below(6)); for (int q = 0; q < 4; q++) o.a.push_back(D()); o.a.push_back(r.chance(1, 4) ? 6 : (int64_t)r.below(5)); }
        else if (nm == "copy" || nm == "assign" || nm == "clone") o.a.push_back((int64_t)r.below(6));
        if (faults) {
            if (r.chance(1, 3)) o.f.push_back(Fault{r.chance(1, 2) ? FK_ALLOC_ONE : FK_ALLOC_FROM, (int64_t)r.below(r.chance(1, 2) ? 2 : 6)});
            if ((nm == "new" || nm == "reshape" || nm == "reshape3") && r.chance(1, 6)) { o.a[1] = -(int64_t)r.range(1, 6); if (r.chance(2, 3)) o.a[2] = -(int64_t)r.range(1, 6); if (r.chance(1, 3)) std::swap(o.a[1], o.a[2]); }
        }
    }
}
void gen_plain(Plan &p, Rng &r) { gen_common(p, r, false); }
void gen_faults(Plan &p, Rng &r) { gen_common(p, r, true); }
Reg r1(World{"C01", gen_plain, exec, "a run is a random history of container operations; non-trivial = at least one operation was executed and every live image compared with the model", 40000, 1000000});
Reg r2(World{"C02", gen_faults, exec, "a run is a random history of container operations with allocation failures and impossible shapes; non-trivial = at least one operation executed and compared", 40000, 1000000});
}
}
