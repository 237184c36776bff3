// Long-lived operator objects of the vision world and reference models shared by its parts.
#ifndef SIM_VISION_STATE_H
#define SIM_VISION_STATE_H
#include "contour.h"
#include "threshold_block_filters.h"
#include "binary_ops.h"
namespace hx { namespace vis {
// What the owner of an object asked for. Settings stay in force until they are changed, also across failed calls,
// so the oracle never reads them back from the object.
struct BlockCfg { boofcv::ConfigLength len{-1, -1}; bool local = false, down = false; double scale = 1, spread = 0; };
struct FinderCfg { bool eight = false, save = true; uint32_t lo = 0, hi = std::numeric_limits<uint32_t>::max(); };
template<class T> struct OtsuSlot { std::unique_ptr<boofcv::ThresholdBlockOtsu<T>> f; bool two = false; double tuning = 0, scale = 1; BlockCfg c; };
template<class T> struct PerType {
    std::unique_ptr<boofcv::ThresholdBlockMean<T>> mean[2];
    std::unique_ptr<boofcv::ThresholdBlockMinMax<T>> minmax[2];
    BlockCfg mean_cfg[2], minmax_cfg[2], local_cfg[2];
    int64_t gotsu_lo = 0, gotsu_hi = 1; bool gotsu_down = false;
    OtsuSlot<T> otsu[2];
    std::unique_ptr<boofcv::GlobalOtsuBinaryFilter<T>> gotsu[2];
    std::unique_ptr<boofcv::LocalMeanBinaryFilter<T>> local[2];
};
struct World::Filters {
    std::unique_ptr<boofcv::LinearContourLabelChang2004> finder[2];
    FinderCfg finder_cfg[2];
    std::tuple<PerType<U8>, PerType<U16>, PerType<S16>, PerType<F32>> t;
    struct Sel { std::unique_ptr<boofcv::ComputeOtsu> f; bool two = false; double tuning = 0, scale = 1; } selector;
    template<class T> PerType<T> &per() { return std::get<PerType<T>>(t); }
    template<class T> std::unique_ptr<boofcv::ThresholdBlockMean<T>> &mean(int64_t i) { return std::get<PerType<T>>(t).mean[i]; }
    template<class T> std::unique_ptr<boofcv::ThresholdBlockMinMax<T>> &minmax(int64_t i) { return std::get<PerType<T>>(t).minmax[i]; }
    template<class T> OtsuSlot<T> &otsu(int64_t i) { return std::get<PerType<T>>(t).otsu[i]; }
    template<class T> std::unique_ptr<boofcv::GlobalOtsuBinaryFilter<T>> &gotsu(int64_t i) { return std::get<PerType<T>>(t).gotsu[i]; }
    template<class T> std::unique_ptr<boofcv::LocalMeanBinaryFilter<T>> &local(int64_t i) { return std::get<PerType<T>>(t).local[i]; }
};
inline World::Filters &state(World &w) { if (!w.filt) w.filt = std::make_shared<World::Filters>(); return *w.filt; }

// Mean blur: every pass averages the part of the window inside the image and rounds to the pixel type.
template<class T> void ref_mean(const Img<T> &s, uint32_t rad, std::vector<double> &out, std::vector<double> &tol) {
    bool fl = std::is_floating_point<T>::value;
    std::vector<double> cur(s.v.begin(), s.v.end()), mag(s.v.size());
    for (size_t k = 0; k < cur.size(); k++) mag[k] = std::fabs(cur[k]);
    double top = 0;
    for (double m : mag) top = std::max(top, m);
    for (int pass = 0; pass < 2; pass++) {
        std::vector<double> nx(cur.size());
        for (int64_t y = 0; y < s.h; y++) for (int64_t x = 0; x < s.w; x++) {
            int64_t p = pass ? y : x, n = pass ? s.h : s.w, a = std::max<int64_t>(0, p - (int64_t)rad), b = std::min<int64_t>(n - 1, p + (int64_t)rad);
            long double sum = 0;
            for (int64_t q = a; q <= b; q++) sum += pass ? cur[(size_t)(q * s.w + x)] : cur[(size_t)(y * s.w + q)];
            int64_t c = b - a + 1;
            nx[(size_t)(y * s.w + x)] = fl ? (double)(sum / c) : (double)(((int64_t)sum + c / 2) / c);
        }
        cur = nx;
    }
    out = cur;
    tol.assign(cur.size(), fl ? std::max(top, 1e-6) * tol_n<T>(std::max(s.w, s.h)) : 0.0);
}
}}
#endif
