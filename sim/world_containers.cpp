// C03: growable arrays and kernels, C04: block-packed sets; histories with allocation failures.
#include "core.h"
#include <memory>
#include <limits>
#include <cstring>
#include "base_types.h"
#include "image_types.h"
#include "convolve_kernels.h"
#include "packed_sets.h"
#include "geometry_types.h"

namespace hx {
namespace containers {
using boofcv::GrowArray; using boofcv::Kernel1D; using boofcv::Kernel2D; using boofcv::PackedSet;

template<class T> struct Cell { T v; bool known; };
template<class T> T value(int64_t v) {
    int64_t lim = sizeof(T) == 1 ? 120 : 20000;
    int64_t m = ((v % lim) + lim) % lim;
    if (std::numeric_limits<T>::is_signed && (v & 1)) m = -m;
    return (T)m;
}

// ------------------------------------------------------------------------------------------------ arrays
template<class T> struct Arrays {
    enum { NS = 4 };
    struct Slot { GrowArray<T> *a = nullptr; std::vector<Cell<T>> m; bool owner = true; T def = 0; std::shared_ptr<std::vector<T>> foreign; std::vector<T> fm; };
    Slot s[NS];
    const Plan &plan;
    explicit Arrays(const Plan &p) : plan(p) {}
    void drop(int i) {
        if (!s[i].a) return;
        GrowArray<T> *p = s[i].a;
        s[i].a = nullptr;
        Op o; o.name = "destroy";
        if (call(o, [&] { delete p; }) != OK) violation("destroy-failed", "destroying an array raised an error");
        s[i] = Slot();
    }
    void verify(const char *after) {
        for (int i = 0; i < NS; i++) {
            Slot &k = s[i];
            if (!k.a) continue;
            if (k.a->size != k.m.size()) violation("size", "after %s array %d has size %u, expected %zu", after, i, k.a->size, k.m.size());
            for (size_t j = 0; j < k.m.size(); j++) {
                T v = (j % 2) ? k.a->at((uint32_t)j) : (*k.a)[(uint32_t)j];
                if (!k.m[j].known) { if (v != v) v = 0; (*k.a)[(uint32_t)j] = v; k.m[j] = Cell<T>{v, true}; }
                else if (!(v == k.m[j].v)) violation("element", "after %s array %d element %zu is %g, expected %g", after, i, j, (double)v, (double)k.m[j].v);
            }
            if (k.foreign) for (size_t j = k.m.size(); j < k.foreign->size(); j++) if (!((*k.foreign)[j] == k.fm[j])) violation("outside", "after %s memory behind a borrowed array changed", after);
            ev(k.m.size());
        }
    }
    void adopt(Slot &k) {
        PROBE("failed-op-adopted");
        if (k.a->size > 100000) violation("size", "after a failed operation the array reports size %u", k.a->size);
        k.m.assign(k.a->size, Cell<T>{T(), false});
    }
    void ok(Outcome o, const Op &op, const std::string &w) { if (o != OK) violation("spurious-error", "legal %s failed: %s", op.name.c_str(), w.c_str()); }
    void refused(Outcome o, const Op &op) { if (o == OK) violation("not-refused", "illegal %s was accepted", op.name.c_str()); PROBE("refused"); }
    void step(const Op &op) {
        const std::string &n = op.name;
        std::string w;
        int i = (int)op.pick(0, 0, NS - 1);
        uint32_t N = (uint32_t)op.big(1, 0, 40, 90000);
        if (n == "new") {
            drop(i);
            GrowArray<T> *p = nullptr;
            int how = (int)op.pick(2, 0, 2);
            T v = value<T>(op.arg(3));
            Outcome o = call(op, [&] { p = how == 0 ? new GrowArray<T>(N) : how == 1 ? new GrowArray<T>() : new GrowArray<T>{v, (T)1, v, (T)2}; }, &w);
            if (o == BAD_ALLOC) return;
            ok(o, op, w);
            s[i].a = p;
            if (how == 0) s[i].m.assign(N, Cell<T>{T(0), true});
            else if (how == 1) s[i].m.assign(p->size <= 1000 ? p->size : 1000, Cell<T>{T(0), true});
            else s[i].m = {Cell<T>{v, true}, Cell<T>{1, true}, Cell<T>{v, true}, Cell<T>{2, true}};
        } else if (n == "wrap") {
            drop(i);
            uint32_t extra = (uint32_t)op.pick(2, 0, 6);
            auto buf = std::make_shared<std::vector<T>>(N + extra);
            for (size_t j = 0; j < buf->size(); j++) (*buf)[j] = value<T>(op.arg(3) + (int64_t)j * 3);
            GrowArray<T> *p = nullptr;
            Outcome o = call(op, [&] { p = new GrowArray<T>(buf->data(), N + extra, N); }, &w);
            if (o == BAD_ALLOC) return;
            ok(o, op, w);
            s[i].a = p; s[i].owner = false; s[i].foreign = buf; s[i].fm = *buf;
            for (uint32_t j = 0; j < N; j++) s[i].m.push_back(Cell<T>{(*buf)[j], true});
        } else if (n == "destroy") drop(i);
        else if (!s[i].a) return;
        else if (n == "resize") {
            Slot &k = s[i];
            Outcome o = call(op, [&] { k.a->resize(N); }, &w);
            if (!k.owner) { refused(o, op); return; }
            if (o == BAD_ALLOC) { PROBE("oom-resize"); adopt(k); return; }
            ok(o, op, w);
            k.m.resize(N, Cell<T>{k.def, true});
        } else if (n == "grow") {
            Slot &k = s[i];
            Outcome o = call(op, [&] { k.a->grow_array(N); }, &w);
            if (!k.owner) { refused(o, op); return; }
            if (o == BAD_ALLOC) { PROBE("oom-grow"); adopt(k); return; }
            ok(o, op, w);
            k.m.clear();
        } else if (n == "fill") {
            Slot &k = s[i];
            T v = value<T>(op.arg(2));
            Outcome o = call(op, [&] { k.a->fill(v); }, &w);
            if (o != BAD_ALLOC) ok(o, op, w);
            for (auto &c : k.m) c = Cell<T>{v, o == OK};
        } else if (n == "set") {
            Slot &k = s[i];
            uint32_t x = op.arg(3) % 3 ? (k.m.size() ? N % (uint32_t)k.m.size() : N) : N;
            if (op.arg(3) == 6) x = 0xFFFFFFFFu - x;
            T v = value<T>(op.arg(2));
            Outcome o = call(op, [&] { k.a->at(x) = v; }, &w);
            if (x >= k.m.size()) refused(o, op); else if (o != BAD_ALLOC) { ok(o, op, w); k.m[x] = Cell<T>{v, true}; }
        } else if (n == "default") {
            s[i].def = value<T>(op.arg(2));
            s[i].a->default_value = s[i].def;
        } else if (n == "assign") {
            int j = (int)op.pick(2, 0, NS - 1);
            Slot &d = s[i], &src = s[j];
            if (!src.a) return;
            Outcome o = call(op, [&] { *d.a = *src.a; }, &w);
            if (i == j) { if (o != BAD_ALLOC) ok(o, op, w); return; }
            d.def = d.a->default_value;
            if (!d.owner) { refused(o, op); return; }
            if (o == BAD_ALLOC) { PROBE("oom-assign"); adopt(d); return; }
            ok(o, op, w);
            d.m = src.m; d.def = src.def;
            if (!(d.a->default_value == src.def)) violation("element", "assignment lost the default value");
        } else if (n == "clone") {
            int j = (int)op.pick(2, 0, NS - 1);
            if (i == j) return;
            drop(j);
            GrowArray<T> *p = nullptr;
            Outcome o = call(op, [&] { p = new GrowArray<T>(*s[i].a); }, &w);
            if (o == BAD_ALLOC) return;
            ok(o, op, w);
            s[j].a = p; s[j].m = s[i].m; s[j].def = s[i].def;
        } else if (n == "setlist") {
            Slot &k = s[i];
            T v = value<T>(op.arg(2));
            int c = (int)op.pick(3, 0, 2);
            Outcome o = call(op, [&] { if (c == 0) k.a->setTo({}); else if (c == 1) k.a->setTo({v}); else k.a->setTo({v, (T)3, (T)4, (T)5, v, v, (T)1, (T)2, (T)9, (T)9, (T)8, (T)7, v}); }, &w);
            if (!k.owner) { refused(o, op); return; }
            if (o == BAD_ALLOC) { adopt(k); return; }
            ok(o, op, w);
            std::vector<T> r;
            if (c == 1) r = {v};
            if (c == 2) r = {v, (T)3, (T)4, (T)5, v, v, (T)1, (T)2, (T)9, (T)9, (T)8, (T)7, v};
            k.m.clear();
            for (T x : r) k.m.push_back(Cell<T>{x, true});
        } else if (n == "setarr") {
            Slot &k = s[i];
            std::vector<T> src(N + 1);
            for (size_t j = 0; j < src.size(); j++) src[j] = value<T>(op.arg(2) + (int64_t)j * 5);
            Outcome o = call(op, [&] { k.a->set(src.data(), N); }, &w);
            if (!k.owner) { refused(o, op); return; }
            if (o == BAD_ALLOC) { adopt(k); return; }
            ok(o, op, w);
            k.m.clear();
            for (uint32_t j = 0; j < N; j++) k.m.push_back(Cell<T>{src[j], true});
        }
    }
    void run() {
        for (size_t n = 0; n < plan.ops.size(); n++) { op_begin((uint32_t)n, plan.ops[n]); step(plan.ops[n]); verify(plan.ops[n].name.c_str()); op_end(true); }
        for (int i = 0; i < NS; i++) drop(i);
    }
};

// ------------------------------------------------------------------------------------------------ kernels
template<class E> struct K1 {
    typedef Kernel1D<E> K; enum { DIM = 1 };
    static E &at(const K &k, uint32_t i) { return k.at(i); }
    static uint32_t count(uint32_t w) { return w; }
    static K *list(uint32_t off, E v) { return new K(off, {v, (E)2, v}); }
};
template<class E> struct K2 {
    typedef Kernel2D<E> K; enum { DIM = 2 };
    static E &at(const K &k, uint32_t i) { return k.at(i % k.width, i / k.width); }
    static uint32_t count(uint32_t w) { return w * w; }
    static K *list(uint32_t off, E v) { return new K(off, {{v, (E)2, v}, {(E)1, v, (E)3}, {v, v, (E)4}}); }
};
template<class E> bool close(E a, E b) { if (a == b) return true; double d = std::fabs((double)a - (double)b); return !std::numeric_limits<E>::is_exact && d <= 1e-4 * (1 + std::fabs((double)b)); }
template<class A, class E> struct Kernels {
    typedef typename A::K K;
    enum { NS = 4 };
    struct Slot { K *k = nullptr; uint32_t w = 0, off = 0; std::vector<Cell<E>> m; };
    Slot s[NS];
    const Plan &plan;
    explicit Kernels(const Plan &p) : plan(p) {}
    void drop(int i) { if (!s[i].k) return; K *p = s[i].k; s[i] = Slot(); Op o; o.name = "destroy"; if (call(o, [&] { delete p; }) != OK) violation("destroy-failed", "destroying a kernel raised an error"); }
    void verify(const char *after) {
        for (int i = 0; i < NS; i++) {
            Slot &k = s[i];
            if (!k.k) continue;
            if (k.k->width != k.w || k.k->offset != k.off) violation("kernel-shape", "after %s kernel %d has width %u origin %u, expected %u %u", after, i, k.k->width, k.k->offset, k.w, k.off);
            if (k.k->dimension() != A::DIM || k.k->radius() != k.w / 2) violation("kernel-shape", "kernel dimension or radius wrong");
            double sum = 0; E mx = 0, mn = 0; double amx = 0, amn = 0; bool small = true;
            for (size_t j = 0; j < k.m.size(); j++) {
                E v = A::at(*k.k, (uint32_t)j);
                if (!k.m[j].known) { if (v != v) v = 0; A::at(*k.k, (uint32_t)j) = v; k.m[j] = Cell<E>{v, true}; }
                else if (!(v == k.m[j].v)) violation("coefficient", "after %s kernel %d coefficient %zu is %g, expected %g", after, i, j, (double)v, (double)k.m[j].v);
                v = k.m[j].v; sum += (double)v;
                if (std::fabs((double)v) > 30000) small = false;
                if (j == 0 || v > mx) mx = v;
                if (j == 0 || v < mn) mn = v;
                if (j == 0 || std::fabs((double)v) > amx) amx = std::fabs((double)v);
                if (j == 0 || std::fabs((double)v) < amn) amn = std::fabs((double)v);
            }
            if (k.m.size() && small) {
                double got = (double)k.k->sum();
                if (std::fabs(got - sum) > (std::numeric_limits<E>::is_exact ? 0.5 : 1e-2 * (1 + std::fabs(sum))) && !(sum < 0 && !std::numeric_limits<E>::is_signed)) violation("kernel-sum", "after %s kernel %d sums to %g, expected %g", after, i, got, sum);
                if (!(k.k->element_max() == mx) || !(k.k->element_min() == mn)) violation("kernel-range", "after %s kernel %d range %g..%g, expected %g..%g", after, i, (double)k.k->element_min(), (double)k.k->element_max(), (double)mn, (double)mx);
                if (!((double)k.k->element_abs_max() == amx) || !((double)k.k->element_abs_min() == amn)) violation("kernel-range", "after %s kernel %d has magnitudes %g..%g, expected %g..%g", after, i, (double)k.k->element_abs_min(), (double)k.k->element_abs_max(), amn, amx);
            }
            ev(k.w);
        }
    }
    void fresh(Slot &k, uint32_t w, uint32_t off, bool known, E v) { k.w = w; k.off = off; k.m.assign(A::count(w), Cell<E>{v, known}); }
    void adopt(Slot &k) {
        PROBE("failed-op-adopted");
        if (k.k->width > 1000) violation("kernel-shape", "after a failed operation the kernel reports width %u", k.k->width);
        fresh(k, k.k->width, k.k->offset, false, E());
    }
    void ok(Outcome o, const Op &op, const std::string &w) { if (o != OK) violation("spurious-error", "legal %s failed: %s", op.name.c_str(), w.c_str()); }
    void step(const Op &op) {
        const std::string &n = op.name;
        std::string w;
        int i = (int)op.pick(0, 0, NS - 1);
        uint32_t W = (uint32_t)op.big(1, 0, 12, A::DIM == 1 && n != "factory" && n != "table" ? 70000 : 300);
        E v = value<E>(op.arg(2));
        if (n == "new") {
            drop(i);
            uint32_t off = (uint32_t)op.big(3, 0, 12, 70000);
            if (op.arg(4) % 4 && W) off %= W;
            K *p = nullptr;
            Outcome o = call(op, [&] { p = new K(W, off); }, &w);
            if (off >= W) { if (o == OK) violation("not-refused", "a kernel of width %u with origin %u was created", W, off); PROBE("refused"); return; }
            if (o == BAD_ALLOC) return;
            ok(o, op, w);
            s[i].k = p; fresh(s[i], W, off, true, E(0));
        } else if (n == "list") {
            drop(i);
            uint32_t off = (uint32_t)op.pick(1, 0, 2);
            K *p = nullptr;
            Outcome o = call(op, [&] { p = A::list(off, v); }, &w);
            if (o == BAD_ALLOC) return;
            ok(o, op, w);
            s[i].k = p; fresh(s[i], 3, off, true, v);
            if (A::DIM == 1) s[i].m[1].v = 2; else { s[i].m[1].v = 2; s[i].m[3].v = 1; s[i].m[5].v = 3; s[i].m[8].v = 4; }
        } else if (n == "table") {
            drop(i);
            if (A::DIM != 1 || W == 0) return;
            K *p = nullptr;
            Outcome o = call(op, [&] { p = make_table(W); }, &w);
            if (o == BAD_ALLOC) return;
            ok(o, op, w);
            s[i].k = p; fresh(s[i], W, W / 2, true, E(1));
        } else if (n == "factory") {
            drop(i);
            static const double sig[] = {0, -1, 0.3, 0.5, 0.8, 1, 1.7, 2.5, 3.3};
            double sigma = sig[op.pick(3, 0, 8)];
            int32_t width = W ? (int32_t)W : -(int32_t)(op.arg(4) % 3);
            bool mean = A::DIM == 1 && op.arg(2) % 4 == 0;
            bool refuse = mean ? width <= 0 : sigma <= 0 && width <= 1;
            if (mean && width < 0) return;
            K *p = nullptr;
            Outcome o = call(op, [&] { p = make_factory(sigma, width, mean); }, &w);
            if (refuse) { if (o == OK) violation("not-refused", "a kernel without a width was created"); PROBE("refused"); return; }
            if (o == BAD_ALLOC) { PROBE("oom-factory"); return; }
            ok(o, op, w);
            s[i].k = p;
            check_factory(*p, sigma, width, mean);
            fresh(s[i], p->width, p->offset, true, E(0));
            for (size_t j = 0; j < s[i].m.size(); j++) s[i].m[j].v = A::at(*p, (uint32_t)j);
            PROBE("factory-kernel");
        } else if (n == "destroy") drop(i);
        else if (!s[i].k) return;
        else if (n == "reshape") {
            Slot &k = s[i];
            uint32_t off = (uint32_t)op.big(3, 0, 12, 70000);
            if (W) off %= W; else off = 0;
            bool huge = op.arg(2) == 77777 && A::DIM == 2;
            if (huge) { W = 65536; off = 3; }
            Outcome o = call(op, [&] { k.k->reshape(W, off); }, &w);
            if (huge) { if (o == OK) violation("not-refused", "a 65536x65536 kernel was accepted"); PROBE("impossible-shape"); adopt(k); return; }
            if (o == BAD_ALLOC) { PROBE("oom-reshape"); adopt(k); return; }
            ok(o, op, w);
            if (W != k.w || A::DIM == 2) fresh(k, W, off, false, E()); else k.off = off;
        } else if (n == "set") {
            Slot &k = s[i];
            uint32_t x = (uint32_t)op.big(3, 0, 200, 90000);
            if (op.arg(4) % 4 && k.m.size()) x %= (uint32_t)k.m.size();
            if (A::DIM == 2 && k.w == 0) return;
            Outcome o = call(op, [&] { A::at(*k.k, x) = v; }, &w);
            if (x >= k.m.size()) { if (o == OK) violation("not-refused", "coefficient %u of %zu was accepted", x, k.m.size()); PROBE("refused"); }
            else if (o != BAD_ALLOC) { ok(o, op, w); k.m[x] = Cell<E>{v, true}; }
        } else if (n == "fill") {
            Slot &k = s[i];
            Outcome o = call(op, [&] { k.k->data.fill(v); }, &w);
            if (o != BAD_ALLOC) ok(o, op, w);
            for (auto &c : k.m) c = Cell<E>{v, true};
        } else if (n == "uniform") {
            Slot &k = s[i];
            E lo = value<E>(op.arg(2) & ~1ll), hi = (E)(lo + 3);
            std::minstd_rand g((unsigned)op.arg(3) + 1);
            Outcome o = call(op, [&] { boofcv::KernelOps::fill_uniform(*k.k, lo, hi, g); }, &w);
            if (o != BAD_ALLOC) ok(o, op, w);
            for (size_t j = 0; j < k.m.size(); j++) {
                E x = A::at(*k.k, (uint32_t)j);
                if (!(x >= lo && x <= hi)) violation("uniform", "uniform fill left %g outside [%g,%g]", (double)x, (double)lo, (double)hi);
                k.m[j] = Cell<E>{x, true};
            }
        } else if (n == "normalize") {
            Slot &k = s[i];
            double sum = 0, mag = 0;
            for (auto &c : k.m) { sum += (double)c.v; mag += std::fabs((double)c.v); }
            if (!(std::fabs(sum) > 0.05 * mag) || mag > 1e6) return;
            Outcome o = call(op, [&] { boofcv::FactoryKernel::normalize(*k.k); }, &w);
            if (o == BAD_ALLOC) { adopt(k); return; }
            ok(o, op, w);
            if (std::numeric_limits<E>::is_integer) return;
            for (size_t j = 0; j < k.m.size(); j++) {
                double want = (double)k.m[j].v / sum, got = (double)A::at(*k.k, (uint32_t)j);
                if (!(std::fabs(got - want) <= 1e-4 * (std::fabs(want) + 1e-6))) violation("coefficient", "normalising a kernel of width %u changed coefficient %zu from %g to %g, the sum was %g", k.w, j, (double)k.m[j].v, got, sum);
                k.m[j].v = A::at(*k.k, (uint32_t)j);
            }
            PROBE("kernel-normalised");
        } else if (n == "assign" || n == "clone") {
            int j = (int)op.pick(3, 0, NS - 1);
            if (n == "assign") {
                if (!s[j].k) return;
                Outcome o = call(op, [&] { *s[i].k = *s[j].k; }, &w);
                if (i == j) { if (o != BAD_ALLOC) ok(o, op, w); return; }
                if (o == BAD_ALLOC) { PROBE("oom-assign"); adopt(s[i]); return; }
                ok(o, op, w);
                K *p = s[i].k; s[i] = s[j]; s[i].k = p;
            } else {
                if (i == j) return;
                drop(j);
                K *p = nullptr;
                Outcome o = call(op, [&] { p = new K(*s[i].k); }, &w);
                if (o == BAD_ALLOC) return;
                ok(o, op, w);
                s[j] = s[i]; s[j].k = p;
            }
        }
    }
    template<class Q = A> K *make_table(uint32_t W, typename std::enable_if<Q::DIM == 1>::type * = 0) { return new K(boofcv::FactoryKernel::table1D<E>(W)); }
    template<class Q = A> K *make_table(uint32_t, typename std::enable_if<Q::DIM == 2>::type * = 0) { return nullptr; }
    template<class Q = A> K *make_factory(double sigma, int32_t width, bool mean, typename std::enable_if<Q::DIM == 1>::type * = 0) { return new K(mean ? boofcv::FactoryKernel::mean1D<E>((uint32_t)width) : boofcv::FactoryKernel::gaussian1D<E>(sigma, width)); }
    template<class Q = A> K *make_factory(double sigma, int32_t width, bool, typename std::enable_if<Q::DIM == 2>::type * = 0) { return new K(boofcv::FactoryKernel::gaussian2D<E>(sigma, width)); }
    // the factory's definition, evaluated again
    static void check_factory(const K &k, double sigma, int32_t width, bool mean) {
        const char *what = mean ? "mean" : "gaussian";
        if (width <= 0) width = (int32_t)std::ceil((5 * sigma - 1) / 2) * 2 + 1;
        else if (sigma <= 0) sigma = ((width / 2) * 2.0 + 1.0) / 5.0;
        if (k.width != (uint32_t)width || k.offset != (uint32_t)width / 2) violation("kernel-shape", "a %s kernel is %u wide with origin %u, expected %d and %d", what, k.width, k.offset, width, width / 2);
        std::vector<double> v((size_t)width), q;
        double sum = 0;
        for (int i = 0; i < width; i++) { double d = i - width / 2 + (width % 2 ? 0 : 0.5); v[(size_t)i] = mean ? 1 : std::exp(-d * d / (2 * sigma * sigma)); sum += v[(size_t)i]; }
        for (auto &x : v) x /= sum;
        if (A::DIM == 1) q = v; else for (double a : v) for (double b : v) q.push_back(a * b);
        bool whole = std::numeric_limits<E>::is_integer;
        if (whole) {
            double mx = 0, mn = 1e300;
            for (double x : q) { mx = std::max(mx, x); mn = std::min(mn, x); }
            mn = std::max(mn, mx / 100);
            for (auto &x : q) x = mean ? 1 : x / mn;
        }
        for (size_t i = 0; i < q.size(); i++) {
            double g = (double)A::at(k, (uint32_t)i), t = 1e-5 * std::max(whole ? 1.0 : 1e-3, std::fabs(q[i]));
            if (!(whole ? g >= std::floor(q[i] - t) && g <= std::floor(q[i] + t) : std::fabs(g - q[i]) <= t)) violation("coefficient", "a %s kernel of width %d and sigma %g has coefficient %zu = %g, expected %g", what, width, sigma, i, g, q[i]);
        }
    }
    void run() {
        for (size_t n = 0; n < plan.ops.size(); n++) { op_begin((uint32_t)n, plan.ops[n]); step(plan.ops[n]); verify(plan.ops[n].name.c_str()); op_end(true); }
        for (int i = 0; i < NS; i++) drop(i);
    }
};

void exec3(const Plan &p) {
    int t = (int)(p.conf("type") % 5);
    switch (p.conf("kind") % 3) {
        case 0:
            switch (t) { case 0: Arrays<uint8_t>(p).run(); break; case 1: Arrays<int16_t>(p).run(); break; case 2: Arrays<float>(p).run(); break; case 3: Arrays<int32_t>(p).run(); break; default: Arrays<double>(p).run(); }
            break;
        case 1:
            switch (t) { case 0: Kernels<K1<uint8_t>, uint8_t>(p).run(); break; case 1: Kernels<K1<int16_t>, int16_t>(p).run(); break; case 2: Kernels<K1<float>, float>(p).run(); break; case 3: Kernels<K1<int32_t>, int32_t>(p).run(); break; default: Kernels<K1<double>, double>(p).run(); }
            break;
        default:
            switch (t) { case 0: Kernels<K2<int32_t>, int32_t>(p).run(); break; case 1: Kernels<K2<int16_t>, int16_t>(p).run(); break; default: Kernels<K2<float>, float>(p).run(); }
    }
}
void gen3(Plan &p, Rng &r) {
    p.cfg["kind"] = (int64_t)r.below(3);
    p.cfg["type"] = (int64_t)r.below(5);
    bool faults = r.chance(2, 3);
    int n = (int)r.range(4, 50);
    bool arr = p.cfg["kind"] == 0;
    static const char *an[] = {"new", "wrap", "destroy", "resize", "grow", "fill", "set", "default", "assign", "clone", "setlist", "setarr"};
    static const char *kn[] = {"new", "list", "table", "destroy", "reshape", "set", "fill", "uniform", "assign", "clone", "factory", "normalize"};
    int64_t maxn = r.chance(1, 3) ? 5 : 40;
    bool large = r.chance(1, 300);                            // sizes that do not fit eight or sixteen bits
    if (large) n = (int)r.range(3, 9);
    for (int i = 0; i < n; i++) {
        std::string nm = i < 2 ? "new" : arr ? an[r.below(12)] : kn[r.below(12)];
        Op &o = p.add(nm, {(int64_t)r.below(4), (int64_t)r.below((uint64_t)(arr ? maxn + 1 : 13))});
        if (arr) {
            if (nm == "assign" || nm == "clone") { o.a.push_back((int64_t)r.below(4)); }
            else if (nm == "new" ) { o.a.push_back((int64_t)r.below(3)); o.a.push_back(r.range(-300, 300)); }
            else if (nm == "wrap") { o.a.push_back((int64_t)r.below(6)); o.a.push_back(r.range(-300, 300)); }
            else { o.a.push_back(r.range(-300, 300)); o.a.push_back((int64_t)r.below(7)); }
        } else { o.a.push_back(nm == "reshape" && r.chance(1, 8) ? 77777 : r.range(-300, 300)); o.a.push_back((int64_t)r.below(nm == "set" ? 150 : 13)); o.a.push_back((int64_t)r.below(8)); }
        if (large && o.a.size() > 1 && r.chance(2, 3)) {
            auto S = [&]() -> int64_t { return 1000000 + (r.chance(1, 2) ? r.range(200, 700) : r.range(65000, 67500)); };
            if (nm != "list") o.a[1] = S();
            if (!arr && o.a.size() > 3 && r.chance(1, 2)) o.a[3] = S();
        }
        if (faults && r.chance(1, 3)) o.f.push_back(Fault{r.chance(1, 2) ? FK_ALLOC_ONE : FK_ALLOC_FROM, (int64_t)r.below(r.chance(1, 2) ? 2 : 5)});
    }
}
Reg r3(World{"C03", gen3, exec3, "a run is a random history over growable arrays or kernels of one element type, two thirds of them with allocation failures; non-trivial = at least one operation executed and compared with plain vectors", 40000, 1000000});

// ------------------------------------------------------------------------------------------------ packed sets
struct Rec { int32_t a; int64_t b; bool operator==(const Rec &o) const { return a == o.a && b == o.b; } };
template<class T> struct Conv;
template<> struct Conv<int32_t> { static int32_t of(int64_t v) { return (int32_t)(v * 2654435761u); } };
template<> struct Conv<Rec> { static Rec of(int64_t v) { return Rec{(int32_t)v, v * 77777}; } };
template<> struct Conv<boofcv::Point2D<int32_t>> { static boofcv::Point2D<int32_t> of(int64_t v) { boofcv::Point2D<int32_t> p; p.x = (int32_t)v; p.y = (int32_t)(v * 31); return p; } };
template<class T> bool same(const T &a, const T &b) { return a == b; }
bool same(const boofcv::Point2D<int32_t> &a, const boofcv::Point2D<int32_t> &b) { return a.x == b.x && a.y == b.y; }
template<class T> struct Packed {
    const Plan &plan;
    PackedSet<T> *s = nullptr;
    std::vector<std::vector<T>> m;
    int64_t next = 1;   // every value pushed is unique
    explicit Packed(const Plan &p) : plan(p) {}
    void drop() { if (!s) return; PackedSet<T> *p = s; s = nullptr; m.clear(); Op o; o.name = "destroy"; if (call(o, [&] { delete p; }) != OK) violation("destroy-failed", "destroying a packed set raised an error"); }
    void verify(const char *after, bool deep) {
        if (!s) return;
        if (s->number_of_sets() != m.size()) violation("sets", "after %s there are %u sets, expected %zu", after, s->number_of_sets(), m.size());
        if (s->size_of_tail() != (m.empty() ? 0 : m.back().size())) violation("sets", "after %s the tail has %u elements, expected %zu", after, s->size_of_tail(), m.empty() ? (size_t)0 : m.back().size());
        ev(m.size());
        if (!deep) return;
        for (size_t i = 0; i < m.size(); i++) {
            if (i % 2) {
                std::vector<T> out;
                s->load_set((uint32_t)i, out);
                if (out.size() != m[i].size()) violation("sets", "after %s set %zu has %zu elements, expected %zu", after, i, out.size(), m[i].size());
                for (size_t j = 0; j < out.size(); j++) if (!same(out[j], m[i][j])) violation("element", "after %s element %zu of set %zu is wrong", after, j, i);
            } else for (size_t j = 0; j < m[i].size(); j++) if (!same(s->at((uint32_t)i, (uint32_t)j), m[i][j])) violation("element", "after %s element %zu of set %zu is wrong", after, j, i);
        }
    }
    void ok(Outcome o, const Op &op, const std::string &w) { if (o != OK) violation("spurious-error", "legal %s failed: %s", op.name.c_str(), w.c_str()); }
    void step(const Op &op) {
        const std::string &n = op.name;
        std::string w;
        if (n == "new") {
            drop();
            uint32_t b = (uint32_t)op.big(0, 1, 40, 70000);
            bool def = op.arg(1) == 3;
            Outcome o = call(op, [&] { s = def ? new PackedSet<T>() : new PackedSet<T>(b); }, &w);
            if (o == BAD_ALLOC) { s = nullptr; return; }
            ok(o, op, w);
        } else if (!s) return;
        else if (n == "start") {
            for (int64_t c = op.big(0, 1, 1, 66000); c > 0; c--) {
                Outcome o = call(op, [&] { s->start_new_set(); }, &w);
                if (o == BAD_ALLOC) { PROBE("oom-start"); return; }
                ok(o, op, w);
                m.push_back(std::vector<T>());
            }
        } else if (n == "push") {
            int c = (int)op.big(0, 1, 60, 70000);
            for (int q = 0; q < c; q++) {
                T e = Conv<T>::of(next++);
                Op one = op;
                if (q + 1 < c) one.f.clear();
                bool none = m.empty();
                Outcome o = call(one, [&] { s->push_tail(e); }, &w);
                if (o == BAD_ALLOC) {
                    PROBE("oom-push");
                    if (none && s->number_of_sets() == 1 && s->size_of_tail() == 0) m.push_back(std::vector<T>()); // the set was opened, the element was not stored
                    continue;
                }
                ok(o, op, w);
                if (none) m.push_back(std::vector<T>());
                m.back().push_back(e);
            }
        } else if (n == "remove") {
            Outcome o = call(op, [&] { s->remove_tail(); }, &w);
            if (o != BAD_ALLOC) ok(o, op, w);
            if (!m.empty()) m.pop_back();
        } else if (n == "clear") {
            Outcome o = call(op, [&] { s->clear(); }, &w);
            if (o != BAD_ALLOC) ok(o, op, w);
            m.clear();
        } else if (n == "at") {
            uint32_t i = (uint32_t)op.big(0, 0, 30, 70000), j = (uint32_t)op.big(1, 0, 60, 90000);
            if (op.arg(2) % 4 && !m.empty()) { i %= (uint32_t)m.size(); if (!m[i].empty()) j %= (uint32_t)m[i].size(); }
            T e = Conv<T>::of(next++);
            Outcome o = call(op, [&] { s->at(i, j) = e; }, &w);
            if (i >= m.size() || j >= m[i].size()) { if (o == OK) violation("not-refused", "element %u of set %u was accepted", j, i); PROBE("refused"); }
            else if (o != BAD_ALLOC) { ok(o, op, w); m[i][j] = e; }
        } else if (n == "load") {
            uint32_t i = (uint32_t)op.big(0, 0, 30, 70000);
            if (op.arg(2) % 4 && !m.empty()) i %= (uint32_t)m.size();
            std::vector<T> *out = nullptr;
            Op none; none.name = "alloc";
            call(none, [&] { out = new std::vector<T>(); });
            Outcome o = call(op, [&] { s->load_set(i, *out); }, &w);
            if (i >= m.size()) { if (o == OK) violation("not-refused", "loading set %u of %zu was accepted", i, m.size()); PROBE("refused"); }
            else if (o != BAD_ALLOC) {
                ok(o, op, w);
                if (out->size() != m[i].size()) violation("sets", "loading set %u gave %zu elements, expected %zu", i, out->size(), m[i].size());
                for (size_t j = 0; j < out->size(); j++) if (!same((*out)[j], m[i][j])) violation("element", "loaded element %zu of set %u is wrong", j, i);
            }
            call(none, [&] { delete out; });
        } else if (n == "write") {
            uint32_t i = (uint32_t)op.big(0, 0, 30, 70000);
            if (op.arg(2) % 4 && !m.empty()) i %= (uint32_t)m.size();
            size_t len = i < m.size() ? m[i].size() : 3;
            if (op.arg(1) % 4 == 3) len += (size_t)op.pick(3, 0, 2); else if (op.arg(1) % 4 == 2 && len) len--;
            std::vector<T> in;
            for (size_t j = 0; j < len; j++) in.push_back(Conv<T>::of(next++));
            Outcome o = call(op, [&] { s->write_set(i, in); }, &w);
            if (i >= m.size() || len != m[i].size()) { if (o == OK) violation("not-refused", "writing %zu elements to set %u was accepted", len, i); PROBE("refused"); }
            else if (o != BAD_ALLOC) { ok(o, op, w); m[i] = in; }
        }
    }
    void run() {
        for (size_t n = 0; n < plan.ops.size(); n++) { op_begin((uint32_t)n, plan.ops[n]); step(plan.ops[n]); verify(plan.ops[n].name.c_str(), n % 3 == 0 || n + 1 == plan.ops.size() || !plan.ops[n].f.empty()); op_end(s != nullptr); }
        drop();
    }
};
void exec4(const Plan &p) {
    switch (p.conf("type") % 3) { case 0: Packed<int32_t>(p).run(); break; case 1: Packed<Rec>(p).run(); break; default: Packed<boofcv::Point2D<int32_t>>(p).run(); }
}
void gen4(Plan &p, Rng &r) {
    p.cfg["type"] = (int64_t)r.below(3);
    bool faults = r.chance(2, 3);
    int n = (int)r.range(5, 70);
    static const char *nm[] = {"start", "push", "push", "remove", "clear", "at", "load", "write"};
    static const int wt[] = {6, 6, 6, 3, 1, 2, 2, 2};
    int w2[8], tot = 0;
    for (int i = 0; i < 8; i++) { w2[i] = i > 2 && r.chance(1, 4) ? 0 : wt[i]; tot += w2[i]; }
    p.add("new", {r.chance(1, 2) ? r.range(1, 5) : r.range(1, 40), r.chance(1, 12) ? 3 : 0});
    int64_t mp = r.chance(1, 2) ? 3 : 45;
    if (r.chance(1, 400)) {                                       // more blocks, sets and elements than eight or sixteen bits count
        int kind = (int)r.below(3);
        p.ops.back().a[0] = kind == 0 ? r.range(1, 3) : 1000000 + r.range(100, 4000);
        if (kind == 2) p.add("start", {1000000 + 65530 + (int64_t)r.below(20)});
        if (r.chance(1, 2)) p.add("push", {r.range(1, 20)});
        p.add("start", {});
        p.add("push", {1000000 + (kind == 0 ? r.range(250, 1500) : 65500 + (int64_t)r.below(3000))});
        n = (int)r.range(2, 10);
    }
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 40)) { p.add("new", {r.range(1, 8), 0}); continue; }
        int t = (int)r.below((uint64_t)tot), k = 0;
        while (t >= w2[k]) { t -= w2[k]; k++; }
        Op &o = p.add(nm[k], {});
        std::string s = nm[k];
        if (s == "push") o.a.push_back(r.range(1, mp));
        else if (s == "at" || s == "load" || s == "write") { o.a.push_back((int64_t)r.below(31)); o.a.push_back(p.ops.size() > 3 && p.ops[1].a.size() && p.ops[p.ops.size() - 2].arg(0) > 1000000 ? 1000000 + (int64_t)r.below(70000) : (int64_t)r.below(61)); o.a.push_back((int64_t)r.below(8)); o.a.push_back((int64_t)r.below(3)); }
        if (faults && r.chance(1, 3)) o.f.push_back(Fault{r.chance(1, 2) ? FK_ALLOC_ONE : FK_ALLOC_FROM, (int64_t)r.below(3)});
    }
}
Reg r4(World{"C04", gen4, exec4, "a run is a random history over one packed collection (block sizes 1..40 and the default), two thirds with allocation failures; non-trivial = at least one operation compared with a list of lists", 40000, 1000000});
}
}
