// C14-C19: every native entry point of the Java wrapper under a simulated JVM.
#include "vision.h"
#include "jvm.h"
#include "threads.h"
#include "contour.h"
#include "threshold_block_filters.h"
#include "binary_ops.h"
#include "image_blur.h"
#include "convolve.h"
using namespace boofcv;
#define P(n) Java_org_boofcpp_##n
#define JN extern "C" JNIEXPORT
JN void JNICALL P(contour_NativeChang2004_native_1init)(JNIEnv *, jobject);
JN void JNICALL P(contour_NativeChang2004_native_1destroy)(JNIEnv *, jobject);
JN void JNICALL P(contour_NativeChang2004_native_1process)(JNIEnv *, jobject, jobject, jobject);
JN void JNICALL P(contour_NativeChang2004_setSaveInnerContour)(JNIEnv *, jobject, jboolean);
JN jboolean JNICALL P(contour_NativeChang2004_isSaveInternalContours)(JNIEnv *, jobject);
JN void JNICALL P(contour_NativeChang2004_setMinContour)(JNIEnv *, jobject, jint);
JN jint JNICALL P(contour_NativeChang2004_getMinContour)(JNIEnv *, jobject);
JN void JNICALL P(contour_NativeChang2004_setMaxContour)(JNIEnv *, jobject, jint);
JN jint JNICALL P(contour_NativeChang2004_getMaxContour)(JNIEnv *, jobject);
JN void JNICALL P(contour_NativeChang2004_setConnectRule)(JNIEnv *, jobject, jobject);
JN jobject JNICALL P(contour_NativeChang2004_getConnectRule)(JNIEnv *, jobject);
#define FILTER(N, ...) JN void JNICALL P(threshold_##N##_nativeinit)(JNIEnv *, jobject, __VA_ARGS__); JN void JNICALL P(threshold_##N##_nativedestroy)(JNIEnv *, jobject); JN void JNICALL P(threshold_##N##_nativeprocess)(JNIEnv *, jobject, jobject, jobject);
FILTER(NativeGlobalFixed, jdouble, jboolean)
FILTER(NativeGlobalOtsu, jdouble, jdouble, jboolean)
FILTER(NativeLocalMean, jobject, jdouble, jboolean)
FILTER(NativeBlockMean, jobject, jdouble, jboolean, jboolean)
FILTER(NativeBlockMinMax, jobject, jdouble, jboolean, jdouble, jboolean)
FILTER(NativeBlockOtsu, jboolean, jobject, jdouble, jdouble, jboolean, jboolean)
JN void JNICALL P(convolve_NativeImageBlurOps_nativeMean)(JNIEnv *, jobject, jobject, jobject, jint, jobject);
JN void JNICALL P(convolve_NativeImageBlurOps_nativeGaussian)(JNIEnv *, jobject, jobject, jobject, jdouble, jint, jobject);
JN void JNICALL P(convolve_NativeImageConvolveNormalized_nativehorizontal)(JNIEnv *, jobject, jobject, jobject, jobject);
JN void JNICALL P(convolve_NativeImageConvolveNormalized_nativevertical)(JNIEnv *, jobject, jobject, jobject, jobject);
JN void JNICALL P(convolve_NativeConvolveImage_nativeHorizontal)(JNIEnv *, jobject, jobject, jobject, jobject, jint);
JN void JNICALL P(convolve_NativeConvolveImage_nativeVertical)(JNIEnv *, jobject, jobject, jobject, jobject, jint);
JN void JNICALL P(convolve_NativeConvolveImage_nativeConvolve)(JNIEnv *, jobject, jobject, jobject, jobject, jint);

namespace hx { namespace jni {
using jvm::Obj; using jvm::Class; using jvm::Value; using jvm::vj; using jvm::vd; using jvm::vo;
using vis::U8; using vis::U16; using vis::S16; using vis::S32; using vis::F32;

// ------------------------------------------------------------------ the Java side
enum Fk { FIXED, OTSU, LOCAL, BMEAN, BMINMAX, BOTSU, NFK };
static const char *const FNAME[NFK] = {"NativeGlobalFixed", "NativeGlobalOtsu", "NativeLocalMean", "NativeBlockMean", "NativeBlockMinMax", "NativeBlockOtsu"};
static Class *c_filter[NFK], *c_chang, *c_blur, *c_norm, *c_conv, *c_img[5], *c_k[4], *c_cfg, *c_grow, *c_fast, *c_packed, *c_bil, *c_rule;
static Obj *o_rule[2];
enum It { IU8, IS16, IS32, IF32, IU16 };
static const char IELEM[5] = {'B', 'S', 'I', 'F', 'S'};

struct Delivered { int id, external; std::vector<int> internals; };
struct ChangModel { std::vector<Delivered> contours; };
static void fast_resize(jvm::Thread &, Obj *q, int n, int kind) {
    // FastQueue: grows its storage with new instances, keeps what it has
    if ((int)q->refs.size() < n) q->refs.resize((size_t)n);
    for (int i = 0; i < n; i++) if (!q->refs[(size_t)i]) q->refs[(size_t)i] = kind ? jvm::make(c_bil) : jvm::make_array('I', (int)(int64_t)q->len);
    jvm::get(q, "size").j = n;
}
static void classes() {
    using namespace jvm;
    Class *base = cls("org/boofcpp/NativeBase");
    field(base, "nativePtr", "J"); field(base, "isInteger", "Z"); field(base, "inputBits", "I"); field(base, "outputBits", "I");
    field(base, "imageType", "Lboofcv/struct/image/ImageType;"); field(base, "outputType", "Lboofcv/struct/image/ImageType;");
    for (int i = 0; i < NFK; i++) c_filter[i] = cls(std::string("org/boofcpp/threshold/") + FNAME[i], base);
    c_blur = cls("org/boofcpp/convolve/NativeImageBlurOps", base);
    c_norm = cls("org/boofcpp/convolve/NativeImageConvolveNormalized", base);
    c_conv = cls("org/boofcpp/convolve/NativeConvolveImage", base);
    Class *ib = cls("boofcv/struct/image/ImageBase");
    for (const char *n : {"width", "height", "stride", "startIndex"}) field(ib, n, "I");
    field(ib, "subImage", "Z");
    const char *in[5] = {"boofcv/struct/image/GrayU8", "boofcv/struct/image/GrayS16", "boofcv/struct/image/GrayS32", "boofcv/struct/image/GrayF32", "boofcv/struct/image/GrayU16"};
    for (int i = 0; i < 5; i++) { c_img[i] = cls(in[i], ib); field(c_img[i], "data", std::string("[") + IELEM[i]); }
    const char *kn[4] = {"boofcv/struct/convolve/Kernel1D_S32", "boofcv/struct/convolve/Kernel1D_F32", "boofcv/struct/convolve/Kernel2D_S32", "boofcv/struct/convolve/Kernel2D_F32"};
    for (int i = 0; i < 4; i++) { c_k[i] = cls(kn[i]); field(c_k[i], "data", i % 2 ? "[F" : "[I"); field(c_k[i], "width", "I"); field(c_k[i], "offset", "I"); }
    c_cfg = cls("boofcv/struct/ConfigLength"); field(c_cfg, "length", "D"); field(c_cfg, "fraction", "D");
    c_rule = cls("boofcv/struct/ConnectRule", cls("java/lang/Enum"));
    field(c_rule, "ord", "I");
    method(c_rule, "ordinal", "()I", [](Thread &, Obj *o, const std::vector<Value> &) { return vj(jvm::get(o, "ord").j); });
    const char *rn[2] = {"FOUR", "EIGHT"};
    for (int i = 0; i < 2; i++) { o_rule[i] = make(c_rule); get(o_rule[i], "ord").j = i; field(c_rule, rn[i], "Lboofcv/struct/ConnectRule;", true)->value = vo(o_rule[i]); }
    c_grow = cls("org/ddogleg/struct/GrowQueue_I32");
    field(c_grow, "data", "[I"); field(c_grow, "size", "I");
    method(c_grow, "resize", "(I)V", [](Thread &t, Obj *o, const std::vector<Value> &a) {
        if (a[0].j < 0) { throw_java(t, "java/lang/NegativeArraySizeException", "resize"); return Value(); }
        if (a[0].j > get(o, "data").o->len) { PROBE("java-queue-grew"); get(o, "data").o = make_array('I', (int)a[0].j); }
        get(o, "size").j = a[0].j;
        return Value();
    });
    method(c_grow, "reset", "()V", [](Thread &, Obj *o, const std::vector<Value> &) { get(o, "size").j = 0; return Value(); });
    method(c_grow, "size", "()I", [](Thread &, Obj *o, const std::vector<Value> &) { return vj(get(o, "size").j); });
    c_bil = cls("boofcv/struct/BlockIndexLength");
    for (const char *n : {"start", "length", "block"}) field(c_bil, n, "I");
    method(c_bil, "set", "(III)V", [](Thread &, Obj *o, const std::vector<Value> &a) { get(o, "start").j = a[0].j; get(o, "length").j = a[1].j; get(o, "block").j = a[2].j; return Value(); });
    c_fast = cls("org/ddogleg/struct/FastQueue");
    field(c_fast, "size", "I"); field(c_fast, "kind", "I");
    method(c_fast, "resize", "(I)V", [](Thread &t, Obj *o, const std::vector<Value> &a) { if (a[0].j < 0) throw_java(t, "java/lang/NegativeArraySizeException", "resize"); else fast_resize(t, o, (int)a[0].j, (int)get(o, "kind").j); return Value(); });
    method(c_fast, "get", "(I)Ljava/lang/Object;", [](Thread &t, Obj *o, const std::vector<Value> &a) {
        if (a[0].j < 0 || a[0].j >= get(o, "size").j) { throw_java(t, "java/lang/IllegalArgumentException", "Out of bounds"); return Value(); }
        return vo(o->refs[(size_t)a[0].j]);
    });
    method(c_fast, "size", "()I", [](Thread &, Obj *o, const std::vector<Value> &) { return vj(get(o, "size").j); });
    method(c_fast, "reset", "()V", [](Thread &, Obj *o, const std::vector<Value> &) { get(o, "size").j = 0; return Value(); });
    method(c_fast, "grow", "()Ljava/lang/Object;", [](Thread &t, Obj *o, const std::vector<Value> &) { int n = (int)get(o, "size").j; fast_resize(t, o, n + 1, (int)get(o, "kind").j); return vo(o->refs[(size_t)n]); });
    c_packed = cls("boofcv/struct/PackedSetsPoint2D_I32");
    field(c_packed, "blockLength", "I"); field(c_packed, "blocks", "Lorg/ddogleg/struct/FastQueue;"); field(c_packed, "sets", "Lorg/ddogleg/struct/FastQueue;");
    c_chang = cls("org/boofcpp/contour/NativeChang2004");
    field(c_chang, "nativePtr", "J"); field(c_chang, "storageContours", "Lorg/ddogleg/struct/FastQueue;");
    field(c_chang, "packedPoints", "Lboofcv/struct/PackedSetsPoint2D_I32;"); field(c_chang, "storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;");
    method(c_chang, "addContour", "(II)V", [](Thread &, Obj *o, const std::vector<Value> &a) {
        Obj *q = get(o, "storagePoints").o, *d = get(q, "data").o;
        Delivered v{(int)a[0].j, (int)a[1].j, {}};
        int64_t n = get(q, "size").j;
        if (n > d->len) violation("jni:java-state", "the Java queue has size %lld but holds %d numbers", (long long)n, d->len);
        for (int64_t i = 0; i < n; i++) v.internals.push_back(((int *)d->store)[i]);
        ((ChangModel *)o->host)->contours.push_back(v);
        return Value();
    });
}
static Obj *fast_queue(int kind) { Obj *q = jvm::make(c_fast); jvm::get(q, "size").j = 0; jvm::get(q, "kind").j = kind; q->len = 4000; return q; }

// ------------------------------------------------------------------ images on the Java heap
struct JImg { Obj *o = nullptr, *arr = nullptr; int it = 0, w = 0, h = 0, stride = 0, off = 0; };
static JImg describe(Obj *o) {
    JImg j;
    j.o = o;
    for (int i = 0; i < 5; i++) if (o->cls == c_img[i]) j.it = i;
    j.arr = jvm::get(o, "data").o;
    j.w = (int)jvm::get(o, "width").j; j.h = (int)jvm::get(o, "height").j; j.stride = (int)jvm::get(o, "stride").j; j.off = (int)jvm::get(o, "startIndex").j;
    return j;
}
static void geometry(Obj *o, int w, int h, int stride, int off, bool sub) {
    jvm::get(o, "width").j = w; jvm::get(o, "height").j = h; jvm::get(o, "stride").j = stride; jvm::get(o, "startIndex").j = off; jvm::get(o, "subImage").j = sub;
}
typedef std::vector<unsigned char> Bytes;
static Bytes bytes_of(Obj *arr) { return Bytes(arr->store, arr->store + (size_t)arr->len * (size_t)jvm::elem_size(arr->elem)); }
template<class T> static Gray<T> view(Bytes &b, const JImg &j) { return Gray<T>((T *)b.data(), (uint32_t)(b.size() / sizeof(T)), (uint32_t)j.w, (uint32_t)j.h, (uint32_t)j.off, (uint32_t)j.stride); }
static bool same_outside(const Bytes &a, const Bytes &b, const JImg &j) {
    size_t e = (size_t)jvm::elem_size(IELEM[j.it]);
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i] == b[i]) continue;
        int64_t k = (int64_t)(i / e) - j.off;
        if (k < 0 || j.stride == 0) return false;
        if (k / j.stride >= j.h || k % j.stride >= j.w) return false;
    }
    return true;
}

// ------------------------------------------------------------------ one Java thread's objects
struct FilterObj { Obj *o = nullptr; int kind = 0, it = 0; bool alive = false; double a = 0, b = 0, c = 0; double len = 0, frac = 0; bool down = false, local = false, two = false; };
struct ChangObj { Obj *o = nullptr; bool alive = false; ChangModel m; bool inner = true; int lo = 0, hi = 0x7fffffff, rule = 0; };
enum { NF = 4, NC = 2, NI = 3 };
struct World {
    int thread = 0;
    FilterObj f[NF];
    std::shared_ptr<ChangObj> c[NC];
    Obj *blur = nullptr, *norm = nullptr, *conv = nullptr;
    Obj *in[5][NI], *out[5][NI], *scratch[5];
    Op tail;                                       // an operation without faults
    World() { for (auto &a : in) for (auto &x : a) x = nullptr; for (auto &a : out) for (auto &x : a) x = nullptr; for (auto &x : scratch) x = nullptr; tail.name = "tail"; }
    jvm::Thread &t() { return jvm::thread(thread); }
};
template<class T> static void put_pixels(Obj *arr, int kind, uint64_t seed, int w, int h, int off, int stride) {
    T *d = (T *)arr->store;
    vis::content<T>(kind, seed, (uint32_t)w, (uint32_t)h, [&](uint32_t x, uint32_t y, T v) { d[off + (int64_t)y * stride + x] = v; });
}
static void noise(Obj *arr, uint64_t seed) { Rng r(seed); size_t n = (size_t)arr->len * (size_t)jvm::elem_size(arr->elem); for (size_t i = 0; i < n; i++) arr->store[i] = (unsigned char)r.next(); if (arr->elem == 'F') for (int i = 0; i < arr->len; i++) ((float *)arr->store)[i] = (float)r.range(-1000, 1000); }
// An image object of the pool, given a new shape: either owning (a reused, possibly larger array) or a view into a larger picture
static JImg image(Obj *&slot, int it, int w, int h, int layout, uint64_t seed, int kind) {
    if (!slot) slot = jvm::make(c_img[it]);
    Obj *arr = jvm::get(slot, "data").o;
    Rng r(seed * 31 + 7);
    int stride = w, off = 0;
    if (layout % 3 == 0) {
        if (!arr || arr->len < w * h || jvm::get(slot, "subImage").j) { arr = jvm::make_array(IELEM[it], w * h); jvm::get(slot, "data").o = arr; }
        geometry(slot, w, h, w, 0, false);
    } else {
        stride = w + (int)r.range(0, 5);
        off = (int)r.range(0, 3) * stride + (int)r.range(0, stride - w);
        int len = off + (h ? (h - 1) * stride + w : 0) + (int)r.range(0, layout % 3 == 1 ? 9 : 0);
        arr = jvm::make_array(IELEM[it], len);
        noise(arr, seed);
        jvm::get(slot, "data").o = arr;
        geometry(slot, w, h, stride, off, true);
    }
    if (kind >= 0) switch (it) {
        case IU8: put_pixels<U8>(arr, kind, seed, w, h, off, stride); break;
        case IS16: put_pixels<S16>(arr, kind, seed, w, h, off, stride); break;
        case IS32: put_pixels<S32>(arr, kind, seed, w, h, off, stride); break;
        case IF32: put_pixels<F32>(arr, kind, seed, w, h, off, stride); break;
        default: put_pixels<U16>(arr, kind, seed, w, h, off, stride);
    }
    return describe(slot);
}
static int dim(int64_t v) { return v > 1000000 ? (int)std::min<int64_t>(v - 1000000, 66200) : (int)(v % 3 == 0 ? v % 7 + 1 : v % 25 + 1); }
static int size_of(int64_t v, int64_t m, int64_t most) { return (int)(v > 1000000 ? std::min(v - 1000000, most) : v % m); }
// Moves two images of one pixel type into one array, as neighbours: two disjoint views of one picture
static bool neighbours(JImg &in, JImg &out, int it, int64_t how) {
    if (how % 6 != 1 || !in.arr || !out.arr || in.arr == out.arr) return false;
    bool side = how / 6 % 2, first = how / 12 % 2;
    int gap = (int)(how / 24 % 3), sz = jvm::elem_size(IELEM[it]);
    const JImg &a = first ? in : out, &b = first ? out : in;
    int stride = side ? a.w + gap + b.w : std::max(a.w, b.w) + gap, rows = side ? std::max(a.h, b.h) : a.h + b.h;
    Obj *arr = jvm::make_array(IELEM[it], stride * rows);
    noise(arr, (uint64_t)how);
    int at[2] = {0, side ? a.w + gap : a.h * stride};
    const JImg *ps[2] = {&a, &b};
    Obj *os[2] = {a.o, b.o};
    for (int k = 0; k < 2; k++) {
        const JImg &j = *ps[k];
        for (int y = 0; y < j.h; y++) memcpy(arr->store + (int64_t)(at[k] + y * stride) * sz, j.arr->store + (int64_t)(j.off + (int64_t)y * j.stride) * sz, (size_t)(j.w * sz));
        int w = j.w, h = j.h;
        jvm::get(os[k], "data").o = arr;
        geometry(os[k], w, h, stride, at[k], true);
    }
    Obj *oi = in.o, *oo = out.o;
    in = describe(oi); out = describe(oo);
    PROBE("input-and-output-in-one-array");
    return true;
}

// Checks what a call did: inputs unchanged, the output either exactly `want` or, after an exception, changed inside the image only
struct Guard {
    std::vector<std::pair<Obj *, Bytes>> inputs;
    JImg out; Bytes out_before;
    std::vector<std::pair<JImg, Bytes>> loose;      // scratch images
    void input(Obj *arr) { if (arr) inputs.push_back({arr, bytes_of(arr)}); }
    void output(const JImg &j) { out = j; if (j.arr) out_before = bytes_of(j.arr); }
    void scratch(const JImg &j) { loose.push_back({j, bytes_of(j.arr)}); }
    void check(const char *what, Obj *exc, bool faulted, bool rejected, const Bytes *want) {
        for (auto &x : inputs) if (bytes_of(x.first) != x.second) violation("jni:input-changed", "%s changed an input array", what);
        for (auto &x : loose) if (!same_outside(bytes_of(x.first.arr), x.second, x.first)) violation("jni:outside-changed", "%s changed elements outside the scratch image", what);
        if (out.o) {
            JImg n = describe(out.o);
            if (n.arr != out.arr || n.w != out.w || n.h != out.h || n.stride != out.stride || n.off != out.off) violation("jni:java-state", "%s changed the fields of the output image", what);
        }
        if (exc) {
            PROBE("call-ended-with-exception");
            if (!faulted && !rejected) violation("jni:spurious-exception", "%s raised %s (%s) although nothing failed", what, exc->cls->name.c_str(), exc->text.c_str());
            if (out.arr && !same_outside(bytes_of(out.arr), out_before, out)) violation("jni:outside-changed", "a failed %s changed elements outside the output image", what);
            return;
        }
        if (rejected) violation("jni:silent-failure", "%s could not produce a result but left no exception", what);
        if (want && out.arr) {
            Bytes now = bytes_of(out.arr);
            if (now == *want) return;
            if (!same_outside(now, out_before, out)) violation("jni:outside-changed", "%s changed elements outside the output image", what);
            size_t k = 0;
            while (now[k] == (*want)[k]) k++;
            violation(faulted ? "jni:silent-failure" : "jni:wrong-result", "%s left no exception but element %d of the output array differs from the library's result", what, (int)(k / (size_t)jvm::elem_size(out.arr->elem)));
        }
    }
};
#define ARG(x) jvm::arg(w.t(), x)

// ------------------------------------------------------------------ threshold filters
template<class T> static bool filter_oracle(const FilterObj &f, Gray<T> &in, Gray<U8> &out) {
    ConfigLength c; c.length = f.len; c.fraction = f.frac;
    try {
        switch (f.kind) {
            case FIXED: { GlobalFixedBinaryFilter<T> x((T)f.a, f.down); x.process(in, out); break; }
            case OTSU: { GlobalOtsuBinaryFilter<T> x((T)f.a, (T)f.b, f.down); x.process(in, out); break; }
            case LOCAL: { LocalMeanBinaryFilter<T> x(c, f.a, f.down); x.process(in, out); break; }
            case BMEAN: { ThresholdBlockMean<T> x(c, f.local, f.a, f.down); x.process(in, out); break; }
            case BMINMAX: { ThresholdBlockMinMax<T> x((float)f.b, c, f.local, (float)f.a, f.down); x.process(in, out); break; }
            default: { ThresholdBlockOtsu<T> x(f.two, c, f.b, f.a, f.down, f.local); x.process(in, out); }
        }
    } catch (const std::exception &) { return false; }
    return true;
}
static void filter_init(JNIEnv *e, jobject self, World &w, const FilterObj &f, jobject cfg) {
    switch (f.kind) {
        case FIXED: P(threshold_NativeGlobalFixed_nativeinit)(e, self, f.a, f.down); break;
        case OTSU: P(threshold_NativeGlobalOtsu_nativeinit)(e, self, f.a, f.b, f.down); break;
        case LOCAL: P(threshold_NativeLocalMean_nativeinit)(e, self, cfg, f.a, f.down); break;
        case BMEAN: P(threshold_NativeBlockMean_nativeinit)(e, self, cfg, f.a, f.down, f.local); break;
        case BMINMAX: P(threshold_NativeBlockMinMax_nativeinit)(e, self, cfg, f.a, f.down, f.b, f.local); break;
        default: P(threshold_NativeBlockOtsu_nativeinit)(e, self, f.two, cfg, f.b, f.a, f.down, f.local);
    }
}
static void filter_destroy(JNIEnv *e, jobject self, int kind) {
    switch (kind) {
        case FIXED: P(threshold_NativeGlobalFixed_nativedestroy)(e, self); break;
        case OTSU: P(threshold_NativeGlobalOtsu_nativedestroy)(e, self); break;
        case LOCAL: P(threshold_NativeLocalMean_nativedestroy)(e, self); break;
        case BMEAN: P(threshold_NativeBlockMean_nativedestroy)(e, self); break;
        case BMINMAX: P(threshold_NativeBlockMinMax_nativedestroy)(e, self); break;
        default: P(threshold_NativeBlockOtsu_nativedestroy)(e, self);
    }
}
static void filter_process(JNIEnv *e, jobject self, int kind, jobject in, jobject out) {
    switch (kind) {
        case FIXED: P(threshold_NativeGlobalFixed_nativeprocess)(e, self, in, out); break;
        case OTSU: P(threshold_NativeGlobalOtsu_nativeprocess)(e, self, in, out); break;
        case LOCAL: P(threshold_NativeLocalMean_nativeprocess)(e, self, in, out); break;
        case BMEAN: P(threshold_NativeBlockMean_nativeprocess)(e, self, in, out); break;
        case BMINMAX: P(threshold_NativeBlockMinMax_nativeprocess)(e, self, in, out); break;
        default: P(threshold_NativeBlockOtsu_nativeprocess)(e, self, in, out);
    }
}
static void base_fields(Obj *o, bool integer, int ib, int ob) { jvm::get(o, "isInteger").j = integer; jvm::get(o, "inputBits").j = ib; jvm::get(o, "outputBits").j = ob; }
static void destroy_filter(World &w, const Op &op, FilterObj &f) {
    if (!f.o) return;
    bool faulted = false;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) { filter_destroy(env, ARG(f.o), f.kind); }, &faulted);
    if (e && !faulted && f.alive) violation("jni:spurious-exception", "destroying an object raised %s although nothing failed", e->cls->name.c_str());
    f.alive = e ? f.alive && jvm::get(f.o, "nativePtr").j != 0 : false;
}
static bool do_new(World &w, const Op &op) {
    FilterObj &f = w.f[op.pick(0, 0, NF - 1)];
    if (f.alive) destroy_filter(w, w.tail, f);       // the garbage collector finalises the old object
    Rng r((uint64_t)op.arg(1) * 77 + 5);
    f = FilterObj();
    f.kind = (int)op.pick(2, 0, NFK - 1);
    f.it = op.arg(3) % 2 ? IF32 : IU8;
    bool u = f.it == IU8;
    f.down = r.chance(1, 2); f.local = r.chance(1, 2); f.two = r.chance(1, 2);
    static const double scales[] = {1, 0.95, 1.1, 0.5, 0, 1.7};
    switch (f.kind) {
        case FIXED: f.a = u ? (double)r.below(256) : (double)r.range(-900, 900) / 4; break;
        case OTSU: f.a = u ? 0 : -1000; f.b = u ? 255 : 1000; break;
        case BMINMAX: f.a = scales[r.below(6)]; f.b = (double)r.range(0, 60); break;
        case BOTSU: f.a = scales[r.below(6)]; f.b = (double)r.range(0, 3); break;
        default: f.a = scales[r.below(6)];
    }
    f.len = (double)r.range(1, 12); f.frac = r.chance(1, 3) ? r.unit() : -1;
    if (op.arg(5) > 1000000) { f.len = (double)std::min<int64_t>(op.arg(5) - 1000000, 2000); f.frac = -1; }
    if (op.arg(4) % 9 == 1) { f.len = r.chance(1, 2) ? 0 : -3; f.frac = -1; }
    Obj *cfg = jvm::make(c_cfg);
    jvm::get(cfg, "length").d = f.len; jvm::get(cfg, "fraction").d = f.frac;
    bool null_cfg = op.arg(4) % 9 == 2 && f.kind >= LOCAL;
    f.o = jvm::make(c_filter[f.kind]);
    base_fields(f.o, u, u ? 8 : 32, u ? 8 : 32);
    bool rejected = null_cfg, faulted = false;
    // the library may refuse the settings when the filter is made or when it is used
    bool throws = false;
    { ConfigLength c; c.length = f.len; c.fraction = f.frac;
      try { switch (f.kind) { case LOCAL: if (u) LocalMeanBinaryFilter<U8>(c, f.a, f.down); else LocalMeanBinaryFilter<F32>(c, f.a, f.down); break;
                              case BMEAN: if (u) ThresholdBlockMean<U8>(c, f.local, f.a, f.down); else ThresholdBlockMean<F32>(c, f.local, f.a, f.down); break;
                              case BMINMAX: if (u) ThresholdBlockMinMax<U8>((float)f.b, c, f.local, (float)f.a, f.down); else ThresholdBlockMinMax<F32>((float)f.b, c, f.local, (float)f.a, f.down); break;
                              case BOTSU: if (u) ThresholdBlockOtsu<U8>(f.two, c, f.b, f.a, f.down, f.local); else ThresholdBlockOtsu<F32>(f.two, c, f.b, f.a, f.down, f.local); break; } } catch (const std::exception &) { throws = true; } }
    rejected = rejected || throws;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) { jobject c = null_cfg ? nullptr : ARG(cfg); filter_init(env, ARG(f.o), w, f, c); }, &faulted);
    if (e && !faulted && !rejected) violation("jni:spurious-exception", "creating an object raised %s although nothing failed", e->cls->name.c_str());
    if (!e && rejected) violation("jni:silent-failure", "creating an object with unusable settings left no exception");
    if (!e && !jvm::get(f.o, "nativePtr").j) violation("jni:silent-failure", "creating an object left neither an exception nor a native object");
    f.alive = !e;
    if (e && jvm::get(f.o, "nativePtr").j) f.alive = true;   // still has to be destroyed
    return true;
}
static bool do_thr(World &w, const Op &op) {
    FilterObj &f = w.f[op.pick(0, 0, NF - 1)];
    if (!f.o) return false;
    int bad = (int)(op.arg(7) % 12);
    int wd = dim(op.arg(1)), ht = dim(op.arg(2)), it = f.it;
    if (f.kind == BOTSU && (f.frac >= 0 || f.len < 12) && wd * ht > 6000) { wd = std::min(wd, 77); ht = std::min(ht, 77); }   // a histogram per tiny block is slow
    int ow = wd, oh = ht;
    if (bad == 1) ow += 1;
    if (bad == 2) { ow = ht; oh = wd + 1; }
    if (bad == 3) it = f.it == IU8 ? IU16 : IU8;           // not the type the filter was made for
    JImg in = image(w.in[it][op.pick(3, 0, NI - 1)], it, wd, ht, (int)op.pick(4, 0, 2), (uint64_t)op.arg(5), (int)(op.arg(6) % 6));
    JImg out = image(w.out[IU8][op.pick(3, 0, NI - 1)], IU8, ow, oh, (int)op.pick(8, 0, 2), (uint64_t)op.arg(5) + 1, -1);
    bool shared = it == IU8 && neighbours(in, out, IU8, op.arg(13));
    Obj *data = in.arr;
    if (bad == 4) jvm::get(in.o, "data").o = nullptr;
    Guard g;
    if (!shared) g.input(data);
    g.output(out);
    Bytes bi = bytes_of(data), bo = g.out_before;
    bool rejected = !f.alive || bad == 3 || bad == 4 || bad == 5 || bad == 6;
    if (!rejected) {
        Gray<U8> vo = view<U8>(bo, out);
        if (it == IU8) { Gray<U8> vi = view<U8>(bi, in); rejected = !filter_oracle<U8>(f, vi, vo); }
        else { Gray<F32> vi = view<F32>(bi, in); rejected = !filter_oracle<F32>(f, vi, vo); }
    }
    bool faulted = false;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) { jobject a = bad == 5 ? nullptr : ARG(in.o), b = bad == 6 ? nullptr : ARG(out.o); filter_process(env, ARG(f.o), f.kind, a, b); }, &faulted);
    if (bad == 4) jvm::get(in.o, "data").o = data;
    g.check(FNAME[f.kind], e, faulted, rejected, &bo);
    int rep = (int)(op.arg(9) % 8);
    if (rep == 1 && !rejected && !w.thread) {
        // the same call again and again must not take more and more memory
        uint64_t live[4];
        for (int k = 0; k < 4; k++) {
            Obj *x = jvm::native(w.tail, w.thread, [&](JNIEnv *env) { filter_process(env, ARG(f.o), f.kind, ARG(in.o), ARG(out.o)); }, nullptr);
            g.check(FNAME[f.kind], x, false, false, &bo);
            live[k] = live_bytes();
        }
        if (sched_self() < 0 && live[3] > live[2] && live[2] > live[1]) violation("jni:memory-growth", "repeating one call takes more native memory every time");
        PROBE("same-call-repeated");
    }
    return true;
}

// ------------------------------------------------------------------ blur and convolution
template<class T> static Bytes blur_oracle(bool mean, int it, Bytes bi, Bytes bo, Bytes bs, const JImg &in, const JImg &out, const JImg &st, int radius, double sigma, bool &rejected) {
    Gray<T> a = view<T>(bi, in), b = view<T>(bo, out), c = view<T>(bs, st);
    try {
        if (mean) BlurImageOps::mean(a, b, (uint32_t)radius, c);
        else BlurImageOps::gaussian(a, b, sigma, radius > 0 ? 2 * radius + 1 : -1, c);
    } catch (const std::exception &) { rejected = true; }
    return bo;
}
static bool do_blur(World &w, const Op &op, bool mean) {
    int bad = (int)(op.arg(7) % 14), it = op.arg(0) % 2 ? IF32 : IU8;
    int wd = dim(op.arg(1)), ht = dim(op.arg(2)), ow = wd, oh = ht, sw = wd, sh = ht;
    if (bad == 1) ow++;
    if (bad == 2) sh++;
    int ti = bad == 3 ? IU16 : it, ts = bad == 4 ? IS32 : it;
    JImg in = image(w.in[ti][op.pick(3, 0, NI - 1)], ti, wd, ht, (int)op.pick(4, 0, 2), (uint64_t)op.arg(5), (int)(op.arg(6) % 6));
    JImg out = image(w.out[it][op.pick(3, 0, NI - 1)], it, ow, oh, (int)op.pick(8, 0, 2), (uint64_t)op.arg(5) + 1, -1);
    JImg st = image(w.scratch[ts], ts, sw, sh, (int)op.pick(9, 0, 2), (uint64_t)op.arg(5) + 2, -1);
    if (!w.blur) w.blur = jvm::make(c_blur);
    base_fields(w.blur, it == IU8, it == IU8 ? 8 : 32, it == IU8 ? 8 : 32);
    bool shared = ti == it && neighbours(in, out, it, op.arg(13));
    int radius = size_of(op.arg(10), 11, 400);
    if (op.arg(10) <= 1000000 && op.arg(10) % 17 == 3) radius = 30;
    double sigma = (op.arg(11) % 5) ? (double)(op.arg(11) % 40 + 1) / 8 : -1;
    if (!mean && radius == 0 && sigma < 0) radius = 2;
    if (bad == 5) { radius = -(int)(op.arg(10) % 3) - 1; if (mean) radius = radius == -1 ? -1 : radius; }
    if (bad == 6 && !mean) { radius = 0; sigma = 0; }
    Guard g;
    if (!shared) g.input(in.arr);
    g.output(out); g.scratch(st);
    bool rejected = bad == 3 || bad == 4 || bad == 8 || bad == 9 || bad == 10;
    Bytes want;
    if (!rejected) {
        if (it == IU8) want = blur_oracle<U8>(mean, it, bytes_of(in.arr), g.out_before, bytes_of(st.arr), in, out, st, radius, sigma, rejected);
        else want = blur_oracle<F32>(mean, it, bytes_of(in.arr), g.out_before, bytes_of(st.arr), in, out, st, radius, sigma, rejected);
    }
    bool faulted = false;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) {
        jobject a = bad == 8 ? nullptr : ARG(in.o), b = bad == 9 ? nullptr : ARG(out.o), c = bad == 10 ? nullptr : ARG(st.o), self = ARG(w.blur);
        if (mean) P(convolve_NativeImageBlurOps_nativeMean)(env, self, a, b, radius, c); else P(convolve_NativeImageBlurOps_nativeGaussian)(env, self, a, b, sigma, radius, c);
    }, &faulted);
    g.check(mean ? "nativeMean" : "nativeGaussian", e, faulted, rejected, &want);
    return true;
}
struct Kern { Obj *o, *arr; int width, offset, count; };
static Kern kernel(int dimn, bool fl, int width, int offset, uint64_t seed, bool normal, int extra) {
    Kern k;
    Rng r(seed * 13 + 1);
    k.width = width; k.offset = offset;
    k.count = dimn == 1 ? width : width * width;
    k.o = jvm::make(c_k[(dimn - 1) * 2 + (fl ? 1 : 0)]);
    k.arr = jvm::make_array(fl ? 'F' : 'I', k.count + extra);
    for (int i = 0; i < k.arr->len; i++) {
        if (fl) ((float *)k.arr->store)[i] = normal ? (float)r.range(1, 40) / 8 : (float)r.range(-40, 40) / 8;
        else ((int *)k.arr->store)[i] = normal ? (int)r.range(1, 20) : (int)r.range(-30, 30);
    }
    jvm::get(k.o, "data").o = k.arr; jvm::get(k.o, "width").j = width; jvm::get(k.o, "offset").j = offset;
    return k;
}
template<class E, class KN> static void load_kernel(KN &kn, const Kern &k) { for (int i = 0; i < k.count; i++) kn.data.data[i] = ((E *)k.arr->store)[i]; }
template<class TI, class TO, class E> static Bytes conv_oracle(int which, const Kern &k, BorderType bt, Bytes bi, Bytes bo, const JImg &in, const JImg &out, bool &rejected) {
    Gray<TI> a = view<TI>(bi, in);
    Gray<TO> b = view<TO>(bo, out);
    try {
        std::shared_ptr<ImageBorder<TI>> border = FactoryImageBorder::create_SB<TI>(bt);
        border->setImage(a);
        if (which == 2) { Kernel2D<E> kn((uint32_t)k.width, (uint32_t)k.offset); load_kernel<E>(kn, k); ConvolveImage::convolve(kn, *border, b); }
        else { Kernel1D<E> kn((uint32_t)k.width, (uint32_t)k.offset); load_kernel<E>(kn, k); if (which) ConvolveImage::vertical(kn, *border, b); else ConvolveImage::horizontal(kn, *border, b); }
    } catch (const std::exception &) { rejected = true; }
    return bo;
}
static bool do_conv(World &w, const Op &op, int which) {
    int bad = (int)(op.arg(7) % 16);
    bool fl = op.arg(0) % 3 == 2;
    int ti = fl ? IF32 : IU8, to = fl ? IF32 : op.arg(0) % 3 ? IS32 : IS16;
    int wd = dim(op.arg(1)), ht = dim(op.arg(2)), ow = wd, oh = ht;
    if (bad == 1) ow++;
    JImg in = image(w.in[bad == 3 ? IU16 : ti][op.pick(3, 0, NI - 1)], bad == 3 ? IU16 : ti, wd, ht, (int)op.pick(4, 0, 2), (uint64_t)op.arg(5), (int)(op.arg(6) % 6));
    JImg out = image(w.out[bad == 4 ? IU8 : to][op.pick(3, 0, NI - 1)], bad == 4 ? IU8 : to, ow, oh, (int)op.pick(8, 0, 2), (uint64_t)op.arg(5) + 1, -1);
    bool shared = fl && bad != 3 && bad != 4 && neighbours(in, out, IF32, op.arg(13));
    int kw = size_of(op.arg(9), 7, which == 2 ? 9 : 300) + 1, ko = (int)(op.arg(10) % kw);
    if (bad == 2) ko = kw + (int)(op.arg(10) % 2);
    Kern k = kernel(which == 2 ? 2 : 1, fl, kw, ko, (uint64_t)op.arg(11), false, op.arg(11) % 6 == 5 ? 3 : 0);
    static const int JB[4] = {1, 3, 4, 5};
    static const BorderType CB[4] = {BorderType::EXTENDED, BorderType::REFLECT, BorderType::WRAP, BorderType::ZERO};
    int bi = (int)op.pick(12, 0, 3), jb = JB[bi];
    if (bad == 5) jb = op.arg(12) % 2 ? 0 : 2;
    if (!w.conv) w.conv = jvm::make(c_conv);
    int ib = fl ? 32 : 8, ob = fl ? 32 : to == IS32 ? 32 : 16;
    if (bad == 6) ib = 16;
    if (bad == 12) ob = 8;
    base_fields(w.conv, !fl, ib, ob);
    Obj *kd = k.arr;
    if (bad == 7) jvm::get(k.o, "data").o = nullptr;
    Guard g;
    if (!shared) g.input(in.arr);
    g.input(kd); g.output(out);
    bool rejected = (bad >= 3 && bad <= 7) || (bad >= 9 && bad <= 12);
    if (bad == 13 && k.arr->len > 1) { Obj *s = jvm::make_array(fl ? 'F' : 'I', k.count - 1); jvm::get(k.o, "data").o = s; rejected = true; }   // fewer numbers than the width says
    Bytes want;
    if (!rejected) {
        if (fl) want = conv_oracle<F32, F32, F32>(which, k, CB[bi], bytes_of(in.arr), g.out_before, in, out, rejected);
        else if (to == IS16) want = conv_oracle<U8, S16, S32>(which, k, CB[bi], bytes_of(in.arr), g.out_before, in, out, rejected);
        else want = conv_oracle<U8, S32, S32>(which, k, CB[bi], bytes_of(in.arr), g.out_before, in, out, rejected);
    }
    bool faulted = false;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) {
        jobject a = bad == 9 ? nullptr : ARG(in.o), b = bad == 10 ? nullptr : ARG(out.o), c = bad == 11 ? nullptr : ARG(k.o), self = ARG(w.conv);
        if (which == 0) P(convolve_NativeConvolveImage_nativeHorizontal)(env, self, c, a, b, jb);
        else if (which == 1) P(convolve_NativeConvolveImage_nativeVertical)(env, self, c, a, b, jb);
        else P(convolve_NativeConvolveImage_nativeConvolve)(env, self, c, a, b, jb);
    }, &faulted);
    g.check(which == 0 ? "nativeHorizontal" : which == 1 ? "nativeVertical" : "nativeConvolve", e, faulted, rejected, &want);
    return true;
}
template<class T, class E> static Bytes norm_oracle(int which, const Kern &k, Bytes bi, Bytes bo, const JImg &in, const JImg &out, bool &rejected) {
    Gray<T> a = view<T>(bi, in), b = view<T>(bo, out);
    try { Kernel1D<E> kn((uint32_t)k.width, (uint32_t)k.offset); load_kernel<E>(kn, k); if (which) ConvolveNormalized::vertical(kn, a, b); else ConvolveNormalized::horizontal(kn, a, b); } catch (const std::exception &) { rejected = true; }
    return bo;
}
static bool do_norm(World &w, const Op &op, int which) {
    int bad = (int)(op.arg(7) % 14);
    int it = op.arg(0) % 2 ? IF32 : IU8;
    int wd = dim(op.arg(1)), ht = dim(op.arg(2)), ow = wd, oh = ht;
    if (bad == 1) oh++;
    JImg in = image(w.in[bad == 3 ? IU16 : it][op.pick(3, 0, NI - 1)], bad == 3 ? IU16 : it, wd, ht, (int)op.pick(4, 0, 2), (uint64_t)op.arg(5), (int)(op.arg(6) % 6));
    JImg out = image(w.out[bad == 4 ? IS32 : it][op.pick(3, 0, NI - 1)], bad == 4 ? IS32 : it, ow, oh, (int)op.pick(8, 0, 2), (uint64_t)op.arg(5) + 1, -1);
    bool shared = bad != 3 && bad != 4 && neighbours(in, out, it, op.arg(13));
    int kw = size_of(op.arg(9), 9, 300) + 1, ko = (int)(op.arg(10) % kw);
    Kern k = kernel(1, it == IF32, kw, ko, (uint64_t)op.arg(11), true, 0);
    if (!w.norm) w.norm = jvm::make(c_norm);
    base_fields(w.norm, it == IU8, it == IU8 ? 8 : 32, it == IU8 ? 8 : 32);
    Guard g;
    if (!shared) g.input(in.arr);
    g.input(k.arr); g.output(out);
    bool rejected = bad == 3 || bad == 4 || (bad >= 9 && bad <= 11);
    Bytes want;
    if (!rejected) want = it == IU8 ? norm_oracle<U8, S32>(which, k, bytes_of(in.arr), g.out_before, in, out, rejected) : norm_oracle<F32, F32>(which, k, bytes_of(in.arr), g.out_before, in, out, rejected);
    bool faulted = false;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) {
        jobject a = bad == 9 ? nullptr : ARG(in.o), b = bad == 10 ? nullptr : ARG(out.o), c = bad == 11 ? nullptr : ARG(k.o), self = ARG(w.norm);
        if (which == 0) P(convolve_NativeImageConvolveNormalized_nativehorizontal)(env, self, c, a, b);
        else P(convolve_NativeImageConvolveNormalized_nativevertical)(env, self, c, a, b);
    }, &faulted);
    g.check(which ? "nativevertical" : "nativehorizontal", e, faulted, rejected, &want);
    return true;
}

// ------------------------------------------------------------------ contours
static void chang_native(World &w, const Op &op, ChangObj &c, const std::function<void(JNIEnv *, jobject)> &fn, Obj *&e, bool &faulted) {
    e = jvm::native(op, w.thread, [&](JNIEnv *env) { fn(env, ARG(c.o)); }, &faulted);
    if (e && c.alive && !faulted) violation("jni:spurious-exception", "a native call raised %s (%s) although nothing failed", e->cls->name.c_str(), e->text.c_str());
    if (!e && !c.alive) violation("jni:silent-failure", "a destroyed object was used and no exception is pending");
}
static void destroy_chang(World &w, const Op &op, ChangObj &c) {
    bool faulted = false;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) { P(contour_NativeChang2004_native_1destroy)(env, ARG(c.o)); }, &faulted);
    if (e && !faulted && c.alive) violation("jni:spurious-exception", "destroying a labeller raised %s although nothing failed", e->cls->name.c_str());
    c.alive = e ? c.alive && jvm::get(c.o, "nativePtr").j != 0 : false;
}
static bool do_cnew(World &w, const Op &op) {
    auto &slot = w.c[op.pick(0, 0, NC - 1)];
    if (slot && slot->alive) destroy_chang(w, w.tail, *slot);
    slot.reset(new ChangObj());
    ChangObj &c = *slot;
    c.o = jvm::make(c_chang);
    c.o->host = &c.m;
    Obj *p = jvm::make(c_packed);
    jvm::get(p, "blockLength").j = 4000;
    jvm::get(p, "blocks").o = fast_queue(0); jvm::get(p, "sets").o = fast_queue(1);
    fast_resize(w.t(), jvm::get(p, "blocks").o, 1, 0);
    Obj *q = jvm::make(c_grow);
    jvm::get(q, "data").o = jvm::make_array('I', 10); jvm::get(q, "size").j = 0;
    jvm::get(c.o, "packedPoints").o = p; jvm::get(c.o, "storagePoints").o = q; jvm::get(c.o, "storageContours").o = fast_queue(1); jvm::get(c.o, "nativePtr").j = 0;
    bool faulted = false;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) { P(contour_NativeChang2004_native_1init)(env, ARG(c.o)); }, &faulted);
    if (e && !faulted) violation("jni:spurious-exception", "creating a labeller raised %s although nothing failed", e->cls->name.c_str());
    if (!e && !jvm::get(c.o, "nativePtr").j) violation("jni:silent-failure", "creating a labeller left neither an exception nor a native object");
    c.alive = !e || jvm::get(c.o, "nativePtr").j;
    return true;
}
static bool do_cset(World &w, const Op &op) {
    auto &slot = w.c[op.pick(0, 0, NC - 1)];
    if (!slot) return false;
    ChangObj &c = *slot;
    Obj *e; bool faulted;
    int v = (int)op.arg(2);
    switch (op.pick(1, 0, 3)) {
        case 0: chang_native(w, op, c, [&](JNIEnv *env, jobject o) { P(contour_NativeChang2004_setSaveInnerContour)(env, o, (jboolean)(v & 1)); }, e, faulted); if (!e) c.inner = v & 1; break;
        case 1: chang_native(w, op, c, [&](JNIEnv *env, jobject o) { P(contour_NativeChang2004_setMinContour)(env, o, v % 9); }, e, faulted); if (!e) c.lo = v % 9; break;
        case 2: { int hi = v % 5 ? 0x7fffffff : v % 31; chang_native(w, op, c, [&](JNIEnv *env, jobject o) { P(contour_NativeChang2004_setMaxContour)(env, o, hi); }, e, faulted); if (!e) c.hi = hi; break; }
        default: {
            bool null = v % 9 == 8;
            if (null) { e = jvm::native(op, w.thread, [&](JNIEnv *env) { P(contour_NativeChang2004_setConnectRule)(env, ARG(c.o), nullptr); }, &faulted); if (!e) violation("jni:silent-failure", "a null rule was accepted"); break; }
            chang_native(w, op, c, [&](JNIEnv *env, jobject o) { P(contour_NativeChang2004_setConnectRule)(env, o, ARG(o_rule[v & 1])); }, e, faulted);
            if (!e) c.rule = v & 1;
        }
    }
    return true;
}
static bool do_cget(World &w, const Op &op) {
    auto &slot = w.c[op.pick(0, 0, NC - 1)];
    if (!slot) return false;
    ChangObj &c = *slot;
    Obj *e; bool faulted;
    int64_t got = 0, want = 0;
    switch (op.pick(1, 0, 3)) {
        case 0: chang_native(w, op, c, [&](JNIEnv *env, jobject o) { got = P(contour_NativeChang2004_isSaveInternalContours)(env, o); }, e, faulted); want = c.inner; break;
        case 1: chang_native(w, op, c, [&](JNIEnv *env, jobject o) { got = P(contour_NativeChang2004_getMinContour)(env, o); }, e, faulted); want = c.lo; break;
        case 2: chang_native(w, op, c, [&](JNIEnv *env, jobject o) { got = P(contour_NativeChang2004_getMaxContour)(env, o); }, e, faulted); want = c.hi; break;
        default: chang_native(w, op, c, [&](JNIEnv *env, jobject o) { jobject r = P(contour_NativeChang2004_getConnectRule)(env, o); NotSut ns; if (!jvm::thread(w.thread).pending) { Obj *x = jvm::deref(jvm::thread(w.thread), r); got = x == o_rule[0] ? 0 : x == o_rule[1] ? 1 : 9; } }, e, faulted); want = c.rule;
    }
    if (!e && got != want) violation("jni:wrong-setting", "a setting reads back as %lld instead of %lld", (long long)got, (long long)want);
    return true;
}
static void compare_contours(ChangObj &c, LinearContourLabelChang2004 &ref) {
    auto &got = c.m.contours;
    if (got.size() != ref.contours.size()) violation("jni:contours", "%zu components were delivered instead of %u", got.size(), (unsigned)ref.contours.size());
    for (size_t i = 0; i < got.size(); i++) {
        auto &r = ref.contours.at((uint32_t)i);
        if (got[i].id != (int)r.id || got[i].external != (int)r.externalIndex) violation("jni:contours", "component %zu arrived with label %d and contour %d instead of %d and %d", i, got[i].id, got[i].external, (int)r.id, (int)r.externalIndex);
        if (got[i].internals != std::vector<int>(r.internalIndexes.begin(), r.internalIndexes.end())) violation("jni:contours", "component %zu arrived with other internal contours (%zu instead of %zu)", i, got[i].internals.size(), r.internalIndexes.size());
    }
    Obj *p = jvm::get(c.o, "packedPoints").o, *sets = jvm::get(p, "sets").o, *blocks = jvm::get(p, "blocks").o;
    int64_t n = jvm::get(sets, "size").j, bl = jvm::get(p, "blockLength").j, nb = jvm::get(blocks, "size").j;
    if (n != (int64_t)ref.packedPoints.set_info.size()) violation("jni:contours", "%lld contours were delivered instead of %zu", (long long)n, ref.packedPoints.set_info.size());
    std::vector<Point2D<S32>> pts;
    for (int64_t i = 0; i < n; i++) {
        Obj *s = sets->refs[(size_t)i];
        int64_t start = jvm::get(s, "start").j, len = jvm::get(s, "length").j, block = jvm::get(s, "block").j;
        pts.clear(); ref.packedPoints.load_set((uint32_t)i, pts);
        if (len != (int64_t)pts.size()) violation("jni:contours", "contour %lld arrived with %lld points instead of %zu", (long long)i, (long long)len, pts.size());
        for (int64_t k = 0; k < len; k++) {
            int64_t idx = start + k * 2, b = block + idx / bl;
            idx %= bl;
            if (b < 0 || b >= nb || idx < 0) violation("jni:contours", "contour %lld refers to block %lld of %lld", (long long)i, (long long)b, (long long)nb);
            int *d = (int *)blocks->refs[(size_t)b]->store;
            if (d[idx] != pts[(size_t)k].x || d[idx + 1] != pts[(size_t)k].y) violation("jni:contours", "point %lld of contour %lld arrived as (%d,%d) instead of (%d,%d)", (long long)k, (long long)i, d[idx], d[idx + 1], pts[(size_t)k].x, pts[(size_t)k].y);
        }
    }
    if (n > 60) PROBE("more-than-60-contours");
    if (ref.packedPoints._number_of_blocks > 1) PROBE("points-in-several-blocks");
}
static bool do_cproc(World &w, const Op &op) {
    auto &slot = w.c[op.pick(0, 0, NC - 1)];
    if (!slot) return false;
    ChangObj &c = *slot;
    int bad = (int)(op.arg(7) % 14), wd = dim(op.arg(1)), ht = dim(op.arg(2)), big = (int)op.arg(10);
    if (big % 40 == 7) { wd = (int)(big / 40 % 100) + 20; ht = (int)(big / 4000 % 60) + 30; }
    if (big % 400 == 127) { wd = 160; ht = 170 + (int)(big / 400 % 40); }
    int lw = wd, lh = ht;
    if (bad == 1) lw++;
    int kind = (int)(op.arg(6) % 8) + 6;
    if (wd >= 160 && op.arg(1) <= 1000000 && op.arg(2) <= 1000000) kind = 10;
    JImg in = image(w.in[bad == 3 ? IS16 : IU8][op.pick(3, 0, NI - 1)], bad == 3 ? IS16 : IU8, wd, ht, (int)op.pick(4, 0, 2), (uint64_t)op.arg(5), kind);
    JImg out = image(w.out[bad == 4 ? IF32 : IS32][op.pick(3, 0, NI - 1)], bad == 4 ? IF32 : IS32, lw, lh, (int)op.pick(8, 0, 2), (uint64_t)op.arg(5) + 1, -1);
    Obj *data = in.arr;
    if (bad == 6) jvm::get(in.o, "data").o = nullptr;
    Guard g;
    g.input(data); g.output(out);
    // Java: storageContours.reset(), packedPoints.reset()
    c.m.contours.clear();
    Obj *p = jvm::get(c.o, "packedPoints").o;
    jvm::get(jvm::get(p, "sets").o, "size").j = 0;
    fast_resize(w.t(), jvm::get(p, "blocks").o, 1, 0);
    if (op.arg(9) % 7 == 1) { Obj *q = jvm::get(c.o, "storagePoints").o; jvm::get(q, "size").j = (int64_t)(op.arg(9) / 7 % (jvm::get(q, "data").o->len + 1)); noise(jvm::get(q, "data").o, (uint64_t)op.arg(5)); }
    bool rejected = !c.alive || bad == 3 || bad == 4 || bad == 6 || bad == 8 || bad == 9;
    LinearContourLabelChang2004 ref(c.rule ? ConnectRule::EIGHT : ConnectRule::FOUR);
    ref.saveInternalContours = c.inner; ref.minContourSize = (uint32_t)c.lo; ref.maxContourSize = (uint32_t)c.hi;
    Bytes bi = bytes_of(data), bo = g.out_before;
    if (!rejected) { Gray<U8> a = view<U8>(bi, in); Gray<S32> b = view<S32>(bo, out); try { ref.process(a, b); } catch (const std::exception &) { rejected = true; } }
    bool faulted = false;
    Obj *e = jvm::native(op, w.thread, [&](JNIEnv *env) { jobject a = bad == 8 ? nullptr : ARG(in.o), b = bad == 9 ? nullptr : ARG(out.o); P(contour_NativeChang2004_native_1process)(env, ARG(c.o), a, b); }, &faulted);
    if (bad == 6) jvm::get(in.o, "data").o = data;
    g.check("native_process", e, faulted, rejected, &bo);
    if (!e) compare_contours(c, ref);
    if (op.arg(11) % 8 == 1 && !rejected && sched_self() < 0) {
        uint64_t live[4];
        for (int k = 0; k < 4; k++) {
            c.m.contours.clear();
            Obj *x = jvm::native(w.tail, w.thread, [&](JNIEnv *env) { P(contour_NativeChang2004_native_1process)(env, ARG(c.o), ARG(in.o), ARG(out.o)); }, nullptr);
            g.check("native_process", x, false, false, &bo);
            compare_contours(c, ref);
            live[k] = live_bytes();
        }
        if (live[3] > live[2] && live[2] > live[1]) violation("jni:memory-growth", "repeating one call takes more native memory every time");
        PROBE("same-call-repeated");
    }
    return true;
}
static bool run_op(World &w, const Op &op) {
    const std::string &n = op.name;
    if (n == "new") return do_new(w, op);
    if (n == "thr") return do_thr(w, op);
    if (n == "destroy") { FilterObj &f = w.f[op.pick(0, 0, NF - 1)]; if (!f.o) return false; destroy_filter(w, op, f); if (op.arg(1) % 2) { destroy_filter(w, op, f); PROBE("destroyed-twice"); } return true; }
    if (n == "cnew") return do_cnew(w, op);
    if (n == "cset") return do_cset(w, op);
    if (n == "cget") return do_cget(w, op);
    if (n == "cproc") return do_cproc(w, op);
    if (n == "cdestroy") { auto &c = w.c[op.pick(0, 0, NC - 1)]; if (!c) return false; destroy_chang(w, op, *c); if (op.arg(1) % 2) { destroy_chang(w, op, *c); PROBE("destroyed-twice"); } return true; }
    if (n == "mean") return do_blur(w, op, true);
    if (n == "gauss") return do_blur(w, op, false);
    if (n == "horizontal") return do_conv(w, op, 0);
    if (n == "vertical") return do_conv(w, op, 1);
    if (n == "convolve") return do_conv(w, op, 2);
    if (n == "normh") return do_norm(w, op, 0);
    if (n == "normv") return do_norm(w, op, 1);
    if (n == "gc") { jvm::move_all(); return false; }
    return false;
}
static void finish(World &w) {
    for (auto &f : w.f) if (f.alive) destroy_filter(w, w.tail, f);
    for (auto &c : w.c) if (c && c->alive) destroy_chang(w, w.tail, *c);
}
static void exec_one(const Plan &p) {
    jvm::start((uint64_t)p.conf("hand"), (int)(p.conf("mode") % 3), 1);
    classes();
    jvm::load_library();
    World *w = new World();
    for (size_t i = 0; i < p.ops.size(); i++) {
        op_begin((uint32_t)i, p.ops[i]);
        op_end(run_op(*w, p.ops[i]));
    }
    finish(*w);
    leak_check("leak");
}

// ------------------------------------------------------------------ generation
enum Prof { G14, G15, G16, G17, G18, G19 };
static void faults(Op &o, Rng &r, int prof, const std::string &n) {
    int p = prof == G14 ? 0 : prof == G19 ? 15 : prof == G18 ? 30 : 55;
    if (prof == G14 || r.chance(1, 2)) for (int i = (int)r.below(3); i > 0; i--) o.f.push_back(Fault{FK_GC_MOVE, (int64_t)r.below(n == "cproc" ? 60 : 25)});
    if (!r.chance(p, 100)) return;
    int64_t span = n == "cproc" ? (r.chance(1, 3) ? 200 : 24) : 20;
    if ((n == "cproc" || n == "cset") && r.chance(1, 4)) { o.f.push_back(Fault{FK_JVM_CALLBACK, (int64_t)r.below(n == "cset" ? 1 : r.chance(1, 2) ? 6 : 40)}); return; }
    switch (r.below(7)) {
        case 0: case 1: case 2: o.f.push_back(Fault{FK_JVM_NULL, (int64_t)r.below((uint64_t)span)}); break;
        case 3: o.f.push_back(Fault{FK_ALLOC_ONE, (int64_t)r.below(14)}); break;
        case 4: o.f.push_back(Fault{FK_ALLOC_FROM, (int64_t)r.below(14)}); break;
        case 5: o.f.push_back(Fault{FK_JVM_CALLBACK, (int64_t)r.below((uint64_t)span)}); break;
        default: o.f.push_back(Fault{FK_JVM_NULL, (int64_t)r.below((uint64_t)span)}); o.f.push_back(Fault{r.chance(1, 2) ? FK_ALLOC_FROM : FK_JVM_NULL, (int64_t)r.below(16)});
    }
}
static void gen_ops(Plan &p, Rng &r, int prof, int n) {
    static const char *const names[] = {"new", "thr", "destroy", "cnew", "cset", "cget", "cproc", "cdestroy", "mean", "gauss", "horizontal", "vertical", "convolve", "normh", "normv", "gc"};
    static const int weights[6][16] = {
        {4, 10, 1, 2, 2, 1, 6, 1, 4, 4, 4, 4, 4, 4, 4, 1},
        {4, 8, 1, 2, 2, 1, 6, 1, 4, 4, 4, 4, 4, 4, 4, 0},
        {4, 9, 1, 2, 2, 2, 6, 1, 4, 4, 4, 4, 4, 4, 4, 0},
        {9, 10, 8, 7, 3, 2, 7, 6, 1, 1, 1, 1, 1, 1, 1, 1},
        {0, 0, 0, 2, 4, 1, 14, 1, 0, 0, 0, 0, 0, 0, 0, 1},
        {4, 8, 2, 2, 2, 1, 4, 1, 3, 3, 2, 2, 2, 2, 2, 0}};
    int total = 0;
    for (int k = 0; k < 16; k++) total += weights[prof][k];
    bool large = prof != G19 && r.chance(1, 40);                // sizes that do not fit eight bits
    if (prof != G18) for (int i = 0; i < 2; i++) p.add("new", {i, (int64_t)r.below(1000), (int64_t)r.below(NFK), (int64_t)r.below(2), 0});
    if (prof == G18 || r.chance(2, 3)) p.add("cnew", {0});
    for (int i = 0; i < n; i++) {
        int x = (int)r.below((uint64_t)total), k = 0;
        while (x >= weights[prof][k]) x -= weights[prof][k++];
        std::string nm = names[k];
        Op &o = p.add(nm, {});
        int bad = r.chance(prof == G14 ? 8 : 20, 100) ? 1 : 0;
        if (nm == "new") o.a = {(int64_t)r.below(NF), (int64_t)r.below(1000), (int64_t)r.below(NFK), (int64_t)r.below(2), bad ? (int64_t)r.range(1, 2) : 0};
        else if (nm == "destroy" || nm == "cdestroy") o.a = {(int64_t)r.below(nm == "destroy" ? NF : NC), (int64_t)r.below(2)};
        else if (nm == "cnew") o.a = {(int64_t)r.below(NC)};
        else if (nm == "cset" || nm == "cget") o.a = {(int64_t)r.below(NC), (int64_t)r.below(4), (int64_t)r.below(bad ? 1000 : 8)};
        else if (nm == "gc") { }
        else {
            o.a = {nm == "thr" ? (int64_t)r.below(NF) : nm == "cproc" ? (int64_t)(r.chance(2, 3) ? 0 : r.below(NC)) : (int64_t)r.below(6), (int64_t)r.below(75), (int64_t)r.below(75), (int64_t)r.below(NI), (int64_t)r.below(3),
                   (int64_t)r.below(10000), (int64_t)r.below(48), bad ? (int64_t)r.range(1, 15) : 0, (int64_t)r.below(3), (int64_t)r.below(100), (int64_t)r.below(nm == "cproc" ? 400000 : 100), (int64_t)r.below(100), (int64_t)r.below(4), (int64_t)r.below(72)};
            if (large && r.chance(2, 3)) {
                int lon = r.chance(1, 2) ? (int)r.range(250, 300) : (int)r.range(300, 1300), thin = (int)r.range(1, 4), full = r.chance(1, 12);
                int wd = full ? (int)r.range(250, 290) : lon, ht = full ? (int)r.range(250, 290) : thin;
                bool huge = !full && r.chance(1, 12);               // nor sixteen
                if (huge) { wd = (int)r.range(65530, 66100); ht = (int)r.range(1, 2); full = 1; if (o.a[7] == 5) o.a[7] = 0; }
                if (r.chance(1, 2)) std::swap(wd, ht);
                o.a[1] = 1000000 + wd; o.a[2] = 1000000 + ht;
                if (nm == "cproc") o.a[10] = 0;
                else if (!full && nm != "thr" && nm != "convolve" && r.chance(1, 2)) { int k = nm == "mean" || nm == "gauss" ? 10 : 9; o.a[(size_t)k] = 1000000 + (r.chance(1, 2) ? (int)r.range(120, 135) : (int)r.range(250, 290)); }
            }
        }
        if (large && nm == "new" && r.chance(1, 2)) o.a.push_back(1000000 + (r.chance(1, 2) ? r.range(120, 300) : r.range(250, 1300)));
        faults(o, r, prof, nm);
    }
}
static void gen1(Plan &p, Rng &r, int prof) {
    p.cfg["mode"] = (int64_t)r.below(3);
    p.cfg["hand"] = (int64_t)r.below(1000000);
    gen_ops(p, r, prof, (int)r.range(1, prof == G18 ? 8 : 14));
}
static void g14(Plan &p, Rng &r) { gen1(p, r, G14); }
static void g15(Plan &p, Rng &r) { gen1(p, r, G15); }
static void g16(Plan &p, Rng &r) { gen1(p, r, G16); }
static void g17(Plan &p, Rng &r) { gen1(p, r, G17); }
static void g18(Plan &p, Rng &r) { gen1(p, r, G18); }
// ------------------------------------------------------------------ several Java threads and a finaliser
static void exec_threads(const Plan &p) {
    Schedule sched = schedule_of(p);
    int n = 2 + (int)(p.conf("threads") % 2);
    jvm::start((uint64_t)p.conf("hand"), (int)(p.conf("mode") % 3), n);
    classes();
    jvm::load_library();
    std::vector<std::vector<size_t>> todo((size_t)n);
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].name.size() > 2 && p.ops[i].name[1] == '/') todo[(size_t)((p.ops[i].name[0] - '0') % n)].push_back(i);
    std::vector<World *> ws;
    for (int t = 0; t < n; t++) { World *w = new World(); w->thread = t; ws.push_back(w); }
    // objects nobody refers to any more; the last thread is also the finaliser
    World *dead = new World();
    int nd = (int)(p.conf("dead") % 4);
    for (int i = 0; i < nd; i++) { Op o = dead->tail; o.a = {i, i * 7 + p.conf("hand") % 50, i + p.conf("hand") % 6, i, 0}; do_new(*dead, o); }
    if (nd) { Op o = dead->tail; o.a = {0}; do_cnew(*dead, o); }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < n; t++) bodies.push_back([&, t] {
        World &w = *ws[(size_t)t];
        size_t k = 0;
        for (size_t i : todo[(size_t)t]) {
            Op op = p.ops[i];
            op_begin((uint32_t)i, op);
            op.name = op.name.substr(2);
            op_end(run_op(w, op));
            if (t == n - 1) { dead->thread = t; if ((int)k < nd) destroy_filter(*dead, dead->tail, dead->f[k]); else if (dead->c[0] && dead->c[0]->alive) destroy_chang(*dead, dead->tail, *dead->c[0]); k++; }
        }
        tl_op = 0xffff;
        finish(w);
    });
    run_threads(bodies, sched);
    dead->thread = 0;
    finish(*dead);
    leak_check("leak");
}
static void g19(Plan &p, Rng &r) {
    int n = r.chance(1, 3) ? 3 : 2;
    p.cfg["threads"] = n - 2;
    p.cfg["mode"] = (int64_t)r.below(3);
    p.cfg["hand"] = (int64_t)r.below(1000000);
    p.cfg["dead"] = (int64_t)r.below(4);
    bool same = r.chance(1, 2);
    Plan first;
    for (int t = 0; t < n; t++) {
        Plan q;
        gen_ops(q, r, G19, (int)r.range(1, 4));
        if (same && t) { q.ops = first.ops; for (auto &o : q.ops) { for (size_t a = 1; a < o.a.size(); a++) if (a != 7 && r.chance(1, 4)) o.a[a] = std::max<int64_t>(0, o.a[a] + r.range(-3, 3)); if (!o.f.empty() && r.chance(1, 2)) o.f.clear(); } }
        if (!t) first = q;
        for (auto &o : q.ops) { if (o.name == "cproc" && o.a.size() > 10) o.a[10] = 0; Op z = o; z.name = std::string(1, (char)('0' + t)) + "/" + o.name; p.ops.push_back(z); }
    }
    gen_schedule(p, r, n);
}
#define RULE(x) "a run is " x "; non-trivial = at least one native call was made and everything it did was checked"
static Reg r14(hx::World{"C14", g14, exec_one, RULE("one history of native calls on Java objects with one assignment of pinned and copied arrays and collector moves"), 40000, 2000000});
static Reg r15(hx::World{"C15", g15, exec_one, RULE("one history of native calls with failing JVM services, allocations and arguments"), 40000, 2000000});
static Reg r16(hx::World{"C16", g16, exec_one, RULE("one history of native calls with failing JVM services, allocations and arguments"), 40000, 2000000});
static Reg r17(hx::World{"C17", g17, exec_one, RULE("one life-cycle history of native-backed objects with failures"), 40000, 2000000});
static Reg r18(hx::World{"C18", g18, exec_one, RULE("one history of labelling calls with failures during delivery"), 24000, 1000000});
static Reg r19(hx::World{"C19", g19, exec_threads, RULE("two or three Java threads with their own objects, one of them also the finaliser, under one explicit schedule"), 16000, 1000000});
}}
