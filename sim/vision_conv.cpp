// Vision world, part 2: blur, convolution, normalised convolution, statistics, fills and conversion.
#include "vision.h"
#include "vision_state.h"
#include "threads.h"
#include "image_blur.h"
#include "convolve.h"
#include "convolve_kernels.h"
#include "image_border.h"
#include "image_misc_ops.h"
#include "image_statistics.h"
#include "image_convert.h"
#include <random>

namespace hx { namespace vis {
using namespace boofcv;
typedef std::tuple<Kernel1D<S32>, Kernel1D<F32>, Kernel1D<F64>> K1s;
typedef std::tuple<Kernel2D<S32>, Kernel2D<F32>, Kernel2D<F64>> K2s;
struct Kernels { K1s k1; K2s k2; };              // long lived kernels, reshaped by every user
static Kernels &kernels(World &w) { if (!w.kernels) w.kernels = std::make_shared<Kernels>(); return *(Kernels *)w.kernels.get(); }

// ================================================================== blur
// Gaussian coefficients written down again from their definition; integer ones may differ by rounding at exact ties
template<class S> static void check_gaussian(const Kernel1D<S> &k, double sigma, int32_t width) {
    if (width <= 0) width = (int32_t)std::ceil((5 * sigma - 1) / 2) * 2 + 1;
    else if (sigma <= 0) sigma = ((width / 2) * 2.0 + 1.0) / 5.0;
    if (k.width != (uint32_t)width || k.offset != (uint32_t)width / 2 || k.data.size != (uint32_t)width) violation("kernel", "gaussian kernel is %u wide with origin %u, expected %d and %d", k.width, k.offset, width, width / 2);
    std::vector<double> v((size_t)width);
    double sum = 0, mx = 0, mn = 1e300;
    for (int i = 0; i < width; i++) { double d = i - width / 2 + (width % 2 ? 0 : 0.5); v[i] = std::exp(-d * d / (2 * sigma * sigma)); sum += v[i]; }
    for (int i = 0; i < width; i++) { v[i] /= sum; mx = std::max(mx, v[i]); mn = std::min(mn, v[i]); }
    if (std::numeric_limits<S>::is_integer) { double m = std::max(mn, mx / 100); for (auto &q : v) q /= m; }
    for (int i = 0; i < width; i++) {
        double g = (double)k.data[i], t = 1e-5 * std::max(1.0, std::fabs(v[i]));
        bool ok = std::numeric_limits<S>::is_integer ? (g >= std::floor(v[i] - t) && g <= std::floor(v[i] + t)) : std::fabs(g - v[i]) <= t;
        if (!ok) violation("kernel", "gaussian kernel of width %d sigma %g has coefficient %d = %g, expected %g", width, sigma, i, g, v[i]);
    }
}
// normalised 1D pass
template<class E, class S> static void ref_norm(const Img<E> &s, const Kernel1D<S> &k, bool vert, Img<E> &out, std::vector<double> &tol) {
    out = Img<E>(s.w, s.h);
    tol.assign(s.v.size(), 0);
    bool fl = std::is_floating_point<E>::value;
    for (int64_t y = 0; y < s.h; y++) for (int64_t x = 0; x < s.w; x++) {
        long double tot = 0, wt = 0, A = 0, B = 0;
        for (uint32_t j = 0; j < k.width; j++) {
            int64_t q = (vert ? y : x) - (int64_t)k.offset + j;
            if (q < 0 || q >= (int64_t)(vert ? s.h : s.w)) continue;
            long double c = k.data[j], p = vert ? s.at((uint32_t)x, (uint32_t)q) : s.at((uint32_t)q, (uint32_t)y);
            tot += c * p; wt += c; A += std::fabs((double)(c * p)); B += std::fabs((double)c);
        }
        size_t i = (size_t)(y * s.w + x);
        if (fl) { out.v[i] = (E)(tot / wt); tol[i] = Tol<E>::rel() * (double)(A / std::fabs((double)wt) * (1 + B / std::fabs((double)wt))) + 1e-30; }
        else { int64_t t = (int64_t)tot, w = (int64_t)wt; out.v[i] = (E)((t + w / 2) / w); }
    }
}
template<class E> static std::vector<double> dbl(const Img<E> &a) { return std::vector<double>(a.v.begin(), a.v.end()); }

template<class E> static void blur(World &w, const Op &op) {
    typedef typename TypeInfo<E>::signed_type S;
    bool gauss = op.arg(0) & 1;
    Busy b; bool f1, f2;
    Gray<E> &I = G<E>(w, prep_in<E>(w, op, 5, b, -1, true));
    uint32_t W = I.width, H = I.height;
    int o1 = prep_out<E>(w, op, 5 + IN_ARGS, b, W, H, f1), o2 = prep_out<E>(w, op, 5 + IN_ARGS + OUT_ARGS, b, W, H, f2);
    Gray<E> &O = G<E>(w, o1), &X = G<E>(w, o2);
    Img<E> s = grab(I);
    if (!gauss) {
        static const uint32_t odd[] = {0, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x55555555u, 1000000u};
        uint32_t rad = op.arg(4) % 13 == 0 ? odd[op.pick(2, 0, 5)] : (uint32_t)op.big(2, 1, 40, 2000);
        snapshot(w); allow<E>(w, o1); allow<E>(w, o2);
        if (!operate(w, op, rad == 0 || !f1 || !f2, [&] { BlurImageOps::mean(I, O, rad, X); })) return;
        if (2 * (uint64_t)rad + 1 > W || 2 * (uint64_t)rad + 1 > H) PROBE("window larger than the image");
        if ((2 * (uint64_t)rad + 1 > W) != (2 * (uint64_t)rad + 1 > H)) PROBE("window larger than one side only");
        std::vector<double> m, t;
        ref_mean(s, std::min(rad, 4096u), m, t);
        expect_near(O, W, H, m, t, "mean blur");
    } else {
        static const double sig[] = {0, -1, 0.1, 0.4, 0.8, 1, 1.5, 2.5, 4, 9, 0};
        double sigma = sig[op.pick(3, 0, 10)];
        int32_t width = op.arg(4) % 3 == 0 ? (int32_t)-(op.arg(2) % 3) : (int32_t)op.big(2, 1, 70, sizeof(E) > 1 && std::numeric_limits<E>::is_integer ? 90 : 300);
        bool rej = (width <= 0 && sigma <= 0) || (width == 1 && sigma <= 0);
        snapshot(w); allow<E>(w, o1); allow<E>(w, o2);
        if (!operate(w, op, rej || !f1 || !f2, [&] { BlurImageOps::gaussian(I, O, sigma, width, X); })) return;
        Kernel1D<S> k;
        Outcome oc = call(plain(), [&] { k = FactoryKernel::gaussian1D<S>(sigma, width); });
        if (oc != OK) violation("kernel", "the gaussian kernel can not be created");
        check_gaussian(k, sigma, width);
        if (k.width > W || k.width > H) PROBE("window larger than the image");
        Img<E> a, c; std::vector<double> t1, t2;
        ref_norm(s, k, false, a, t1);
        ref_norm(a, k, true, c, t2);
        double worst = 0;
        for (double q : t1) worst = std::max(worst, q);
        if (std::is_floating_point<E>::value) for (auto &q : t2) q += worst;
        expect_near(O, W, H, dbl(c), t2, "gaussian blur");
    }
}
static void blur_wide(World &w, const Op &op) {       // very wide pictures: scratch must not live on the stack
    uint32_t W = (uint32_t)(2300000 + op.arg(2) % 1000), H = 3;
    U8 v = (U8)op.arg(3);
    Gray<U8> I(W, H), O, X;
    memset(I.data, v, (size_t)W * H);
    std::string why;
    Outcome o = call(op, [&] { BlurImageOps::mean(I, O, 1, X); }, &why);
    if (o == BAD_ALLOC) return;
    if (o != OK) violation("refused-valid", "mean blur of a wide image failed: %s", why.c_str());
    check_shape(O, W, H, "mean blur of a wide image");
    for (uint32_t i = 0; i < W * H; i++) if (O.data[i] != v) violation("wrong-pixel", "mean blur of a constant wide image changed element %u", i);
    PROBE("very wide image");
}
void op_blur(World &w, const Op &op) {
    switch (op.pick(1, 0, 7)) {
        case 0: case 1: blur<U8>(w, op); break;
        case 2: blur<F32>(w, op); break;
        case 3: blur<S16>(w, op); break;
        case 4: blur<U16>(w, op); break;
        case 5: blur<S32>(w, op); break;
        case 6: blur<F64>(w, op); break;
        default: if (op.arg(4) == 555) blur_wide(w, op); else blur<U8>(w, op);
    }
}

// ================================================================== convolution with borders
static int64_t border_index(int kind, int64_t i, int64_t n) {
    if (i >= 0 && i < n) return i;
    if (kind == 0) return i < 0 ? 0 : n - 1;                                       // extend
    if (kind == 1) { if (n == 1) return 0; int64_t p = 2 * (n - 1); i = ((i % p) + p) % p; return i < n ? i : p - i; }   // reflect
    return ((i % n) + n) % n;                                                      // wrap
}
template<class E, class P> static long double pixel(const Img<E> &s, int border, P value, int64_t x, int64_t y) {
    if (x < 0 || y < 0 || x >= s.w || y >= s.h) {
        if (border >= 3) return value;
        x = border_index(border, x, s.w); y = border_index(border, y, s.h);
    }
    return s.at((uint32_t)x, (uint32_t)y);
}
template<class S, class K> static bool set_kernel(K &k, int dims, uint32_t width, uint32_t off, uint64_t seed, int style) {
    Rng r(seed);
    Outcome o = call(plain(), [&] { k.reshape(width, off); });
    if (o != OK) return false;
    uint32_t n = dims == 1 ? width : width * width;
    for (uint32_t i = 0; i < n; i++) {
        double v = style == 0 ? (double)r.range(-9, 9) : style == 1 ? (double)r.range(1, 9) : style == 2 ? 1 : (i == (uint32_t)(seed % n) ? 1 : 0);
        if (std::is_floating_point<S>::value && style < 2) v = v / 4 + r.unit() / 8;
        k.data[i] = (S)v;
    }
    return true;
}
template<class S> Kernel1D<S> &kernel1(World &w, bool common) { return std::get<Kernel1D<S>>((common ? *(Kernels *)w.common_kernels.get() : kernels(w)).k1); }
template<class S> Kernel2D<S> &kernel2(World &w, bool common) { return std::get<Kernel2D<S>>((common ? *(Kernels *)w.common_kernels.get() : kernels(w)).k2); }
template<class S> static void fill_common(Kernels &k) { set_kernel<S>(std::get<Kernel1D<S>>(k.k1), 1, 5, 2, 9, 1); set_kernel<S>(std::get<Kernel2D<S>>(k.k2), 2, 3, 1, 9, 1); }
void make_common_kernels(World &w) { auto k = std::make_shared<Kernels>(); fill_common<S32>(*k); fill_common<F32>(*k); fill_common<F64>(*k); w.common_kernels = k; }
template<class S> static void protect(Kernels &k) { auto &a = std::get<Kernel1D<S>>(k.k1); auto &b = std::get<Kernel2D<S>>(k.k2); readonly_range(a.data.data, a.data.size * sizeof(S), "a kernel"); readonly_range(b.data.data, b.data.size * sizeof(S), "a kernel"); }
void readonly_kernels(World &w) { Kernels &k = *(Kernels *)w.common_kernels.get(); readonly_range(&k, sizeof k, "a kernel"); protect<S32>(k); protect<F32>(k); protect<F64>(k); }
static bool use_common(World &w, const Op &op) { return w.common_kernels && (uint64_t)op.arg(5) / 32 % 2; }
struct BadKernel { Kernel1D<S32> i1; Kernel1D<F32> f1; };

template<class E, class R, class S> static void finish(const Gray<R> &O, uint32_t W, uint32_t H, const std::vector<long double> &sum, const std::vector<long double> &mag, const char *what) {
    if (std::is_floating_point<S>::value) {
        std::vector<double> v(sum.begin(), sum.end()), t(sum.size());
        for (size_t i = 0; i < t.size(); i++) t[i] = (double)mag[i] * Tol<S>::rel() + 1e-30;
        expect_near(O, W, H, v, t, what);
    } else {
        Img<R> e(W, H);
        for (size_t i = 0; i < e.v.size(); i++) e.v[i] = (R)(S)(int64_t)sum[i];
        expect_exact(O, e, what);
    }
}
template<class E, class R> static void convolve(World &w, const Op &op) {
    typedef typename TypeInfo<E>::signed_type S;
    int dir = (int)op.pick(0, 0, 2), border = (int)op.pick(2, 0, 5);
    Busy b; bool fits;
    Gray<E> &I = G<E>(w, prep_in<E>(w, op, 6, b, -1, true));
    uint32_t W = I.width, H = I.height;
    int out = prep_out<R>(w, op, 6 + IN_ARGS, b, W, H, fits);
    Gray<R> &O = G<R>(w, out);
    uint32_t kw = (uint32_t)op.big(3, 1, dir == 2 ? 13 : 90, dir == 2 ? 17 : 400), off = (uint32_t)op.pick(4, 0, kw - 1);
    if (op.arg(4) >= 1000) off = kw / 2;
    Kernel1D<S> none1; Kernel2D<S> none2;
    bool nokernel = op.arg(5) % 29 == 0, cmn = use_common(w, op);
    if (cmn && !nokernel) { kw = dir < 2 ? 5 : 3; off = kw / 2; }
    Kernel1D<S> &k1 = nokernel ? none1 : kernel1<S>(w, cmn); Kernel2D<S> &k2 = nokernel ? none2 : kernel2<S>(w, cmn);
    if (!nokernel && !cmn) { if (dir < 2) set_kernel<S>(k1, 1, kw, off, (uint64_t)op.arg(5), (int)(op.arg(5) % 4)); else set_kernel<S>(k2, 2, kw, off, (uint64_t)op.arg(5), (int)(op.arg(5) % 4)); }
    E value = border == 4 ? conv<E>((double)(op.arg(5) % 500)) : E(0);
    std::shared_ptr<ImageBorder<E>> B;
    std::string why;
    static const BorderType types[] = {EXTENDED, REFLECT, WRAP, ZERO};
    BorderType refused = op.arg(5) & 1 ? SKIP : NORMALIZED;
    Outcome bo = call(plain(), [&] { B = border < 4 ? FactoryImageBorder::create_SB<E>(types[border]) : border == 4 ? FactoryImageBorder::value_SB<E>(value) : FactoryImageBorder::create_SB<E>(refused); }, &why);
    if (border == 5) {
        if (bo != REJECTED) violation("accepted-impossible", "a border that has no pixel rule was created");
        return;
    }
    if (bo != OK) violation("refused-valid", "creating a border failed: %s", why.c_str());
    B->setImage(I);
    Img<E> s = grab(I);
    std::vector<S> before(dir < 2 ? k1.data.data : k2.data.data, (dir < 2 ? k1.data.data + k1.data.size : k2.data.data + k2.data.size));
    snapshot(w); allow<R>(w, out);
    if (!operate(w, op, !fits || nokernel, [&] { if (dir == 0) ConvolveImage::horizontal(k1, *B, O); else if (dir == 1) ConvolveImage::vertical(k1, *B, O); else ConvolveImage::convolve(k2, *B, O); })) return;
    if (!std::equal(before.begin(), before.end(), dir < 2 ? k1.data.data : k2.data.data)) violation("input-changed", "convolution changed its kernel");
    if (kw > (dir == 1 ? H : W)) PROBE("kernel wider than the image");
    if (off != kw / 2) PROBE("kernel with a shifted origin");
    std::vector<long double> sum((size_t)W * H), mag((size_t)W * H);
    for (int64_t y = 0; y < H; y++) for (int64_t x = 0; x < W; x++) {
        long double t = 0, m = 0;
        if (dir < 2) for (uint32_t j = 0; j < kw; j++) { int64_t d = (int64_t)j - off; long double q = (long double)k1.data[j] * pixel(s, border, value, dir ? x : x + d, dir ? y + d : y); t += q; m += std::fabs((double)q); }
        else for (uint32_t i = 0; i < kw; i++) for (uint32_t j = 0; j < kw; j++) { long double q = (long double)k2.data[i * kw + j] * pixel(s, border, value, x + (int64_t)j - off, y + (int64_t)i - off); t += q; m += std::fabs((double)q); }
        sum[(size_t)(y * W + x)] = t; mag[(size_t)(y * W + x)] = m;
    }
    finish<E, R, S>(O, W, H, sum, mag, dir == 0 ? "horizontal convolution" : dir == 1 ? "vertical convolution" : "2D convolution");
}
void op_convolve(World &w, const Op &op) {
    switch (op.pick(1, 0, 7)) {
        case 0: convolve<U8, S32>(w, op); break;
        case 1: convolve<U8, S16>(w, op); break;
        case 2: convolve<F32, F32>(w, op); break;
        case 3: convolve<U8, U8>(w, op); break;
        case 4: convolve<S16, S16>(w, op); break;
        case 5: convolve<F64, F64>(w, op); break;
        case 6: convolve<U16, S32>(w, op); break;
        default: convolve<S32, S32>(w, op); break;
    }
}
// ------------------------------------------------------------------ normalised
// every window a kernel can have over an image of n pixels must have a weight
template<class S> static bool weighted(const Kernel1D<S> &k, uint32_t n) {
    for (int64_t p = 0; p < n; p++) {
        double t = 0, a = 0;
        for (uint32_t j = 0; j < k.width; j++) { int64_t q = p - (int64_t)k.offset + j; if (q >= 0 && q < n) { t += (double)k.data[j]; a += std::fabs((double)k.data[j]); } }
        if (std::fabs(t) < 1e-3 * (a + 1)) return false;
    }
    double all = 0;
    for (uint32_t j = 0; j < k.width; j++) all += (double)k.data[j];
    return std::fabs(all) > 1e-3;
}
template<class E> static void normalized(World &w, const Op &op) {
    typedef typename TypeInfo<E>::signed_type S;
    int dir = (int)op.pick(0, 0, 2);
    Busy b; bool f1, f2 = true;
    Gray<E> &I = G<E>(w, prep_in<E>(w, op, 6, b, -1, true));
    uint32_t W = I.width, H = I.height;
    int out = prep_out<E>(w, op, 6 + IN_ARGS, b, W, H, f1), scr = -1;
    Gray<E> &O = G<E>(w, out);
    if (dir == 2) scr = prep_out<E>(w, op, 6 + IN_ARGS + OUT_ARGS, b, W, H, f2);
    uint32_t kw = (uint32_t)op.big(3, 1, 90, 400), off = (uint32_t)op.pick(4, 0, kw - 1);
    if (op.arg(4) >= 1000) off = kw / 2;
    Kernel1D<S> none;
    bool nokernel = op.arg(5) % 29 == 0, cmn = use_common(w, op);
    if (cmn && !nokernel) { kw = 5; off = 2; }
    Kernel1D<S> &k = nokernel ? none : kernel1<S>(w, cmn);
    if (!nokernel && !cmn) {
        int style = (int)(op.arg(5) % 3);
        set_kernel<S>(k, 1, kw, off, (uint64_t)op.arg(5), style);
        if (!weighted(k, W) || !weighted(k, H)) set_kernel<S>(k, 1, kw, off, (uint64_t)op.arg(5), 1);
        if (std::is_floating_point<S>::value && (op.arg(5) & 64)) { double t = 0; for (uint32_t i = 0; i < kw; i++) t += (double)k.data[i]; for (uint32_t i = 0; i < kw; i++) k.data[i] = (S)((double)k.data[i] / t); }
    }
    if (dir < 2) { f1 = O.width == W && O.height == H; if (!f1 && op.arg(5) % 7 && w.pool<E>().s[out].canvas < 0) { make_owned<E>(w, out, W, H); f1 = true; } }
    Img<E> s = grab(I);
    snapshot(w); allow<E>(w, out); if (scr >= 0) allow<E>(w, scr);
    if (!operate(w, op, !f1 || !f2 || nokernel, [&] { if (dir == 0) ConvolveNormalized::horizontal(k, I, O); else if (dir == 1) ConvolveNormalized::vertical(k, I, O); else ConvolveNormalized::convolve(k, I, O, G<E>(w, scr)); })) return;
    if (kw > W || kw > H) PROBE("kernel wider than the image");
    Img<E> e; std::vector<double> t;
    if (dir < 2) ref_norm(s, k, dir == 1, e, t);
    else {
        Img<E> a; std::vector<double> t1;
        ref_norm(s, k, false, a, t1); ref_norm(a, k, true, e, t);
        double worst = 0; for (double q : t1) worst = std::max(worst, q);
        // the second pass amplifies errors of the first one when weights cancel
        double amp = 1;
        for (int64_t y = 0; y < H; y++) { double A = 0, B = 0; for (uint32_t j = 0; j < kw; j++) { int64_t q = y - (int64_t)off + j; if (q >= 0 && q < H) { A += (double)k.data[j]; B += std::fabs((double)k.data[j]); } } amp = std::max(amp, B / std::fabs(A)); }
        if (std::is_floating_point<E>::value) for (auto &q : t) q += worst * amp;
    }
    expect_near(O, W, H, dbl(e), t, dir == 0 ? "normalised horizontal convolution" : dir == 1 ? "normalised vertical convolution" : "normalised separable convolution");
}
void op_normalized(World &w, const Op &op) {
    switch (op.pick(1, 0, 6)) {
        case 0: case 1: normalized<U8>(w, op); break;
        case 2: normalized<F32>(w, op); break;
        case 3: normalized<S16>(w, op); break;
        case 4: normalized<U16>(w, op); break;
        case 5: normalized<S32>(w, op); break;
        default: normalized<F64>(w, op); break;
    }
}
// ------------------------------------------------------------------ pieces that compute only the inside or only the border, and forms with a divisor
template<class E> static void pieces(World &w, const Op &op) {
    typedef typename TypeInfo<E>::signed_type S;
    int dir = (int)op.pick(0, 0, 2), variant = (int)op.pick(2, 0, 4);
    Busy b; bool fits;
    Gray<E> &I = G<E>(w, prep_in<E>(w, op, 6, b, -1, true));
    uint32_t W = I.width, H = I.height;
    int out = prep_out<E>(w, op, 6 + IN_ARGS, b, W, H, fits);
    if (!fits || G<E>(w, out).width != W || G<E>(w, out).height != H) make_owned<E>(w, out, W, H);
    Gray<E> &O = G<E>(w, out);
    uint32_t room = dir == 0 ? W : dir == 1 ? H : std::min(W, H);
    if (variant != 3 && room == 0) return;
    uint32_t top = variant == 3 ? 20 : std::min(room, dir == 2 ? 9u : 20u);
    bool cmn = use_common(w, op) && top >= 5;
    uint32_t kw = (uint32_t)op.pick(3, 1, std::max(1u, top)), off = (uint32_t)op.pick(4, 0, kw - 1);
    if (cmn) { kw = dir < 2 ? 5 : 3; off = kw / 2; }
    if (variant == 2 && dir == 2) variant = 1;
    Kernel1D<S> &k1 = kernel1<S>(w, cmn); Kernel2D<S> &k2 = kernel2<S>(w, cmn);
    int style = variant == 2 ? 1 : (int)(op.arg(5) % 3);
    if (cmn) {} else if (dir < 2) set_kernel<S>(k1, 1, kw, off, (uint64_t)op.arg(5), style); else set_kernel<S>(k2, 2, kw, off, (uint64_t)op.arg(5), style);
    S divisor = (S)(1 + (uint64_t)op.arg(5) / 8 % 40);
    Img<E> s = grab(I), old = grab(O);
    ImageBorderExtend<E> B; B.setImage(I);
    snapshot(w); allow<E>(w, out);
    bool ok = operate(w, op, false, [&] {
        switch (variant) {
            case 0: if (dir == 0) ConvolveImage_Inner::horizontal_unrolled(k1, I, O); else if (dir == 1) ConvolveImage_Inner::vertical_unrolled(k1, I, O); else ConvolveImage_Inner::convolve(k2, I, O); break;
            case 1: if (dir == 0) ConvolveImage_Inner::horizontal_unrolled(k1, I, O, divisor); else if (dir == 1) ConvolveImage_Inner::vertical_unrolled(k1, I, O, divisor); else ConvolveImage_Inner::convolve(k2, I, O, divisor); break;
            case 2: if (dir == 0) ConvolveNormalized_JustBorder::horizontal(k1, I, O); else ConvolveNormalized_JustBorder::vertical(k1, I, O); break;
            case 3: if (dir == 0) ConvolveNaive::horizontal<E>(k1, B, O, divisor); else if (dir == 1) ConvolveNaive::vertical<E>(k1, B, O, divisor); else ConvolveNaive::convolve<E>(k2, B, O, divisor); break;
            default: if (dir == 0) ConvolveImage_Border::horizontal(k1, B, O); else if (dir == 1) ConvolveImage_Border::vertical(k1, B, O); else ConvolveImage_Border::convolve(k2, B, O); break;
        }
    });
    if (!ok) return;
    Img<E> n; std::vector<double> nt;
    if (variant == 2) ref_norm(s, k1, dir == 1, n, nt);
    std::vector<double> v((size_t)W * H), t((size_t)W * H);
    bool fl = std::is_floating_point<E>::value;
    for (int64_t y = 0; y < H; y++) for (int64_t x = 0; x < W; x++) {
        size_t i = (size_t)(y * W + x);
        int64_t R = (int64_t)kw - off - 1;
        bool inx = x >= off && x < (int64_t)W - R, iny = y >= off && y < (int64_t)H - R;
        bool inside = dir == 0 ? inx : dir == 1 ? iny : inx && iny;
        v[i] = (double)old.v[i]; t[i] = 0;
        if ((variant <= 1 && !inside) || ((variant == 2 || variant == 4) && inside)) continue;     // must keep its old value
        if (variant == 2) { v[i] = (double)n.v[i]; t[i] = nt[i]; continue; }
        long double q = 0, m = 0;
        if (dir < 2) for (uint32_t j = 0; j < kw; j++) { int64_t d = (int64_t)j - off; long double p = (long double)k1.data[j] * pixel(s, 0, 0, dir ? x : x + d, dir ? y + d : y); q += p; m += std::fabs((double)p); }
        else for (uint32_t a = 0; a < kw; a++) for (uint32_t j = 0; j < kw; j++) { long double p = (long double)k2.data[a * kw + j] * pixel(s, 0, 0, x + (int64_t)j - off, y + (int64_t)a - off); q += p; m += std::fabs((double)p); }
        bool div = variant == 1 || variant == 3;
        if (fl) { v[i] = (double)(div ? q / divisor : q); t[i] = (double)m * Tol<E>::rel() + 1e-30; }
        else { int64_t z = (int64_t)q, d = (int64_t)divisor; v[i] = (double)(E)(S)(div ? (z + d / 2) / d : z); }
    }
    expect_near(O, W, H, v, t, variant == 0 ? "inner convolution" : variant == 1 ? "inner convolution with divisor" : variant == 2 ? "border of normalised convolution" : variant == 3 ? "convolution with divisor" : "border of convolution");
}
void op_inner(World &w, const Op &op) {
    switch (op.pick(1, 0, 5)) {
        case 0: case 1: pieces<U8>(w, op); break;
        case 2: pieces<F32>(w, op); break;
        case 3: pieces<S16>(w, op); break;
        case 4: pieces<S32>(w, op); break;
        default: pieces<F64>(w, op); break;
    }
}

// ================================================================== statistics, fills, copies, conversion
template<class T> static void misc(World &w, const Op &op) {
    typedef typename TypeInfo<T>::sum_type ST;
    int what = (int)op.pick(0, 0, 11);
    Busy b; bool fits;
    bool fl = std::is_floating_point<T>::value;
    if (what <= 4) {
        Gray<T> &I = G<T>(w, prep_in<T>(w, op, 4, b, -1, what < 4));
        Img<T> s = grab(I);
        snapshot(w);
        long double sum = 0, mag = 0, mn = std::numeric_limits<T>::max(), mx = std::numeric_limits<T>::lowest();
        for (auto v : s.v) { sum += v; mag += std::fabs((double)v); mn = std::min<long double>(mn, v); mx = std::max<long double>(mx, v); }
        if (what == 4) {
            uint32_t n = op.arg(3) % 3 ? 256 : 1 + (uint32_t)(op.arg(3) / 3 % 300);
            T lo = op.arg(2) % 2 ? (T)(std::is_signed<T>::value ? op.arg(2) % 200 : std::llabs(op.arg(2)) % 40) : (T)0;
            if (!std::is_floating_point<T>::value && (double)lo + n - 1 > (double)std::numeric_limits<T>::max()) n = (uint32_t)((double)std::numeric_limits<T>::max() - (double)lo) + 1;
            bool inside = true;
            for (auto v : s.v) if (v < lo || (double)v - (double)lo >= (double)n - 0.01) inside = false;
            if (!inside) {
                Rng r((uint64_t)op.arg(3) + 5);
                for (uint32_t y = 0; y < I.height; y++) for (uint32_t x = 0; x < I.width; x++) I.data[I.offset + (size_t)y * I.stride + x] = (T)(lo + (T)r.below(n));
                s = grab(I); snapshot(w);
            }
            GrowArray<uint32_t> h(n);
            h.fill(7);
            if (!operate(w, op, false, [&] { ImageStatistics::histogram(I, lo, h); })) return;
            std::vector<uint32_t> e(n);
            for (auto v : s.v) e[(uint32_t)((double)v - (double)lo)]++;
            for (uint32_t i = 0; i < n; i++) if (h[i] != e[i]) violation("wrong-value", "histogram bin %u is %u, expected %u", i, h[i], e[i]);
            ev_bytes(h.data, n * 4);
            return;
        }
        if (!fl && (what == 2 || what == 3) && mag > (long double)std::numeric_limits<typename TypeInfo<T>::sum_type>::max()) return;   // does not fit the documented sum type
        double got = 0; double want = 0, tol = 0;
        bool rej = what == 3 && s.v.empty();
        if (!operate(w, op, rej, [&] { got = what == 0 ? (double)ImageStatistics::min(I) : what == 1 ? (double)ImageStatistics::max(I) : what == 2 ? (double)ImageStatistics::sum(I) : (double)ImageStatistics::mean(I); })) return;
        if (what == 0) want = (double)mn; else if (what == 1) want = (double)mx; else if (what == 2) { want = (double)sum; tol = fl ? (double)mag * tol_n<T>((double)s.v.size()) + 1e-30 : 0; }
        else if (fl) { want = (double)(sum / s.v.size()); tol = (double)mag / s.v.size() * tol_n<T>((double)s.v.size()) + 1e-30; }
        else want = (double)(T)((int64_t)sum / (int64_t)s.v.size());
        if (!(std::fabs(got - want) <= tol)) violation("wrong-value", "%s of %ux%u pixels is %.9g, expected %.9g", what == 0 ? "minimum" : what == 1 ? "maximum" : what == 2 ? "sum" : "mean", s.w, s.h, got, want);
        ev_bytes(&got, 8);
        return;
    }
    if (what <= 7) {
        int out = prep_in<T>(w, op, 4, b);
        Gray<T> &O = G<T>(w, out);
        Img<T> e = grab(O);
        T v = conv<T>((double)op.arg(2));
        uint32_t rad = (uint32_t)op.pick(3, 0, 9);
        T lo = conv<T>((double)(op.arg(2) % 100)), hi = (T)(lo + 1 + op.arg(3) % 5);
        snapshot(w); allow<T>(w, out);
        std::mt19937 rng((uint32_t)op.arg(3));
        if (!operate(w, op, false, [&] { if (what == 5) ImageMiscOps::fill(O, v); else if (what == 6) ImageMiscOps::fill_border(O, v, rad); else ImageMiscOps::fill_uniform(O, lo, hi, rng); })) return;
        if (what == 7) {
            for (uint32_t y = 0; y < e.h; y++) for (uint32_t x = 0; x < e.w; x++) { T q = O.data[O.offset + (size_t)y * O.stride + x]; if (q < lo || q > hi || (!fl && q == hi)) violation("wrong-pixel", "random fill put %g, outside [%g,%g)", (double)q, (double)lo, (double)hi); }
            // the same engine gives an image of its own the same pixels
            Gray<T> own(e.w, e.h);
            std::mt19937 again((uint32_t)op.arg(3));
            if (call(plain(), [&] { ImageMiscOps::fill_uniform(own, lo, hi, again); }) != OK) violation("refused-valid", "random fill failed");
            expect_exact(O, grab(own), "random fill");
            return;
        }
        for (uint32_t y = 0; y < e.h; y++) for (uint32_t x = 0; x < e.w; x++)
            if (what == 5 || x < rad || y < rad || x + rad >= e.w || y + rad >= e.h) e.at(x, y) = v;
        expect_exact(O, e, what == 5 ? "fill" : "border fill");
        return;
    }
    if (what == 8) {
        Gray<T> &I = G<T>(w, prep_in<T>(w, op, 4, b, -1, true));
        int out = prep_out<T>(w, op, 4 + IN_ARGS, b, I.width, I.height, fits);
        Gray<T> &O = G<T>(w, out);
        Img<T> s = grab(I);
        snapshot(w); allow<T>(w, out);
        if (!operate(w, op, !fits, [&] { O.copy(I); })) return;
        expect_exact(O, s, "copy");
        return;
    }
    // band average of an interleaved image, whole or a sub-image of a larger buffer
    uint32_t W = (uint32_t)op.big(4 + 2, 0, 20, 66100), H = (uint32_t)op.big(4 + 3, 0, 20, 66100), nb = (uint32_t)op.pick(3, 0, 5);
    if ((uint64_t)W * H > 450000) H = 450000 / W;
    uint32_t bx = (uint32_t)op.pick(2, 0, 5), stride = (W + bx + 2) * std::max(nb, 1u), off = bx * std::max(nb, 1u) + 1;
    switch (op.pick(4 + 5, 0, 3)) {
        case 0: stride = W * nb; PROBE("dense view"); break;                                      // rows follow each other without a gap
        case 1: stride = W * nb + bx; break;
        default: break;
    }
    std::vector<T> buf((size_t)stride * (H + 1) + off + 4);
    content<T>((int)op.pick(8, 0, KINDS - 1), (uint64_t)op.arg(9), (uint32_t)buf.size(), 1, [&](uint32_t x, uint32_t, T v) { buf[x] = v; });
    std::vector<T> keep = buf;
    Interleaved<T> I(buf.data(), (uint32_t)buf.size(), W, H, nb, off, stride);
    if (what >= 10) {                                             // fills and copies of several bands inside larger buffers
        T v = conv<T>((double)op.arg(2));
        std::vector<T> src((size_t)W * H * nb);
        content<T>(0, (uint64_t)op.arg(9) + 1, (uint32_t)src.size(), 1, [&](uint32_t x, uint32_t, T q) { src[x] = q; });
        std::vector<T> from(op.arg(2) & 1 ? src : std::vector<T>((size_t)off + (size_t)H * (W * nb + 3) + 1, v));
        uint32_t foff = op.arg(2) & 1 ? 0 : off, fst = op.arg(2) & 1 ? W * nb : op.arg(2) & 2 ? W * nb + 3 : W * nb;
        for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W * nb; x++) from[foff + (size_t)y * fst + x] = src[(size_t)y * W * nb + x];
        from.resize(from.size() + 1);
        std::vector<T> fkeep = from;
        Interleaved<T> F(from.data(), (uint32_t)from.size(), W, H, nb, foff, fst);
        snapshot(w);
        if (!operate(w, op, false, [&] { if (what == 10) ImageMiscOps::fill(I, v); else I.setTo(F); })) return;
        if (from != fkeep) violation("input-changed", "a copy changed its source");
        for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W * nb; x++) keep[off + (size_t)y * stride + x] = what == 10 ? v : src[(size_t)y * W * nb + x];
        for (size_t k = 0; k < buf.size(); k++) if (!(buf[k] == keep[k])) {
            bool in = k >= off && stride && (k - off) % stride < W * nb && (k - off) / stride < H;
            violation(in ? "wrong-pixel" : "outside-write", "%s of %ux%u pixels and %u bands left %g in element %zu of the buffer, expected %g", what == 10 ? "fill" : "copy", W, H, nb, (double)buf[k], k, (double)keep[k]);
        }
        ev_bytes(buf.data(), buf.size() * sizeof(T));
        return;
    }
    int out = prep_out<T>(w, op, 4 + IN_ARGS, b, W, H, fits);
    Gray<T> &O = G<T>(w, out);
    snapshot(w); allow<T>(w, out);
    if (nb == 0 && (W == 0 || H == 0)) return;
    bool ok = operate(w, op, !fits || nb == 0, [&] { convert_average(I, O); });
    if (buf != keep) violation("input-changed", "band average changed its input buffer");
    if (!ok) return;
    std::vector<double> v((size_t)W * H), t((size_t)W * H);
    for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++) {
        long double q = 0, m = 0;
        for (uint32_t k = 0; k < nb; k++) { T p = buf[off + (size_t)y * stride + x * nb + k]; q += p; m += std::fabs((double)p); }
        v[(size_t)y * W + x] = fl ? (double)(q / nb) : (double)(T)((int64_t)q / (int64_t)nb);
        t[(size_t)y * W + x] = fl ? (double)m * Tol<T>::rel() + 1e-30 : 0;
    }
    expect_near(O, W, H, v, t, "band average");
}
void op_misc(World &w, const Op &op) {
    switch (op.pick(1, 0, 5)) {
        case 0: misc<U8>(w, op); break;
        case 1: misc<S16>(w, op); break;
        case 2: misc<F32>(w, op); break;
        case 3: misc<U16>(w, op); break;
        case 4: misc<S32>(w, op); break;
        default: misc<F64>(w, op); break;
    }
}
}}
