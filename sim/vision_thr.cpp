// Vision world, part 1: contours, block thresholds, thresholds, Otsu selection, binary operators.
#include "vision.h"
#include "vision_state.h"

namespace hx { namespace vis {

// ================================================================== contours
// Independent reference: labels by flood fill, holes by flood fill of the background, chains by boundary following
// written directly on coordinates.
struct RefBlob { std::vector<std::pair<int,int>> ext; std::vector<std::vector<std::pair<int,int>>> in; };
struct RefContours { Img<S32> label; std::vector<RefBlob> blobs; };

static std::vector<std::pair<int,int>> follow(const Img<U8> &b, int sx, int sy, bool eight, int dir) {
    static const int dx8[] = {1, 1, 0, -1, -1, -1, 0, 1}, dy8[] = {0, 1, 1, 1, 0, -1, -1, -1};
    static const int dx4[] = {1, 0, -1, 0}, dy4[] = {0, 1, 0, -1};
    const int *dx = eight ? dx8 : dx4, *dy = eight ? dy8 : dy4;
    int n = eight ? 8 : 4, back = eight ? 6 : 3;       // where to look first after moving in direction d: d+back
    auto fg = [&](int x, int y) { return x >= 0 && y >= 0 && x < (int)b.w && y < (int)b.h && b.at((uint32_t)x, (uint32_t)y); };
    std::vector<std::pair<int,int>> r;
    int x = sx, y = sy, d = dir, first = -1;
    r.push_back({x, y});
    for (;;) {
        int k = 0;
        for (; k < n; k++) if (fg(x + dx[(d + k) % n], y + dy[(d + k) % n])) break;
        if (k == n) return r;                            // isolated pixel
        d = (d + k) % n;
        if (first < 0) first = d;
        else if (x == sx && y == sy && d == first) return r;
        else r.push_back({x, y});
        x += dx[d]; y += dy[d];
        d = (d + back) % n;
    }
}
static RefContours ref_contours(const Img<U8> &b, bool eight) {
    RefContours R;
    R.label = Img<S32>(b.w, b.h);
    int W = (int)b.w, H = (int)b.h;
    std::vector<int> stack;
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
        if (!b.at(x, y) || R.label.at(x, y)) continue;
        R.blobs.push_back(RefBlob());
        int id = (int)R.blobs.size();
        R.blobs.back().ext = follow(b, x, y, eight, eight ? 7 : 0);
        R.label.at(x, y) = id;
        stack.push_back(y * W + x);
        while (!stack.empty()) {
            int q = stack.back(); stack.pop_back();
            for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) {
                if ((!i && !j) || (!eight && i && j)) continue;
                int u = q % W + i, v = q / W + j;
                if (u < 0 || v < 0 || u >= W || v >= H || !b.at(u, v) || R.label.at(u, v)) continue;
                R.label.at(u, v) = id; stack.push_back(v * W + u);
            }
        }
    }
    // background regions use the dual connectivity; region 1 is the outside
    int W2 = W + 2, H2 = H + 2;
    std::vector<int> reg((size_t)W2 * H2, 0);
    auto bg = [&](int x, int y) { return x == 0 || y == 0 || x == W2 - 1 || y == H2 - 1 || !b.at((uint32_t)x - 1, (uint32_t)y - 1); };
    int nr = 0;
    for (int y = 0; y < H2; y++) for (int x = 0; x < W2; x++) {
        if (!bg(x, y) || reg[(size_t)y * W2 + x]) continue;
        nr++;
        reg[(size_t)y * W2 + x] = nr;
        stack.push_back(y * W2 + x);
        while (!stack.empty()) {
            int q = stack.back(); stack.pop_back();
            for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) {
                if ((!i && !j) || (eight && i && j)) continue;
                int u = q % W2 + i, v = q / W2 + j;
                if (u < 0 || v < 0 || u >= W2 || v >= H2 || !bg(u, v) || reg[(size_t)v * W2 + u]) continue;
                reg[(size_t)v * W2 + u] = nr; stack.push_back(v * W2 + u);
            }
        }
        if (nr == 1) continue;
        int id = R.label.at((uint32_t)x - 1, (uint32_t)y - 2);   // pixel above the region's first pixel
        R.blobs[(size_t)id - 1].in.push_back(follow(b, x - 1, y - 2, eight, eight ? 3 : 2));
    }
    return R;
}
static void same_chain(const std::vector<std::pair<int,int>> &want, boofcv::PackedSet<boofcv::Point2D<S32>> &got, uint32_t set, uint32_t lo, uint32_t hi, bool save, const char *what) {
    if (set >= got.number_of_sets()) violation("contour", "%s contour refers to point set %u of %u", what, set, got.number_of_sets());
    std::vector<std::pair<int,int>> have;
    uint32_t n = got.set_info[set].size;
    for (uint32_t i = 0; i < n; i++) { auto &p = got.at(set, i); have.push_back({p.x, p.y}); ev(((uint64_t)(uint32_t)p.x << 32) | (uint32_t)p.y); }
    std::vector<std::pair<int,int>> w = want;
    if (!save || w.size() >= hi || w.size() < lo) w.clear();
    if (have != w) violation("contour", "%s contour has %zu points, its definition gives %zu (unlimited length %zu)", what, have.size(), w.size(), want.size());
}

void op_contour_cfg(World &w, const Op &op) {
    int i = (int)op.pick(0, 0, 1);
    auto &f = state(w).finder[i];
    auto &cfg = state(w).finder_cfg[i];
    int what = (int)op.pick(1, 0, 5);
    int64_t v = op.arg(2);
    if (what == 0 || !f) {
        f.reset();
        std::unique_ptr<boofcv::LinearContourLabelChang2004> n;
        boofcv::ConnectRule rule = v & 1 ? boofcv::EIGHT : boofcv::FOUR;
        std::string why;
        Outcome o = call(op, [&] { n.reset(new boofcv::LinearContourLabelChang2004(rule)); }, &why);
        if (o == BAD_ALLOC) { PROBE("constructor out of memory"); return; }
        if (o != OK) violation("refused-valid", "creating a contour finder failed: %s", why.c_str());
        if (n->getConnectRule() != rule) violation("contour", "new finder reports the wrong rule");
        f = std::move(n);
        cfg = FinderCfg(); cfg.eight = v & 1;
        return;
    }
    switch (what) {
        case 1: f->setConnectRule(v & 1 ? boofcv::EIGHT : boofcv::FOUR); cfg.eight = v & 1; break;
        case 2: f->minContourSize = cfg.lo = (uint32_t)((uint64_t)v % 12); break;
        case 3: f->maxContourSize = cfg.hi = (v & 3) == 0 ? std::numeric_limits<uint32_t>::max() : (uint32_t)((uint64_t)v % 60); break;
        case 4: f->saveInternalContours = cfg.save = v & 1; break;
        default: cfg.lo = 0; cfg.hi = std::numeric_limits<uint32_t>::max(); cfg.save = true;
                 f->minContourSize = cfg.lo; f->maxContourSize = cfg.hi; f->saveInternalContours = cfg.save; break;
    }
}
void op_contour(World &w, const Op &op) {
    auto &f = state(w).finder[op.pick(0, 0, 1)];
    auto &cfg = state(w).finder_cfg[op.pick(0, 0, 1)];
    if (!f) { f.reset(new boofcv::LinearContourLabelChang2004(op.arg(0) & 2 ? boofcv::EIGHT : boofcv::FOUR)); cfg = FinderCfg(); cfg.eight = op.arg(0) & 2; }
    Busy b;
    int in = prep_in<U8>(w, op, 1, b, 6, true);
    Gray<U8> &I = G<U8>(w, in);
    bool fits;
    int out = prep_out<S32>(w, op, 1 + IN_ARGS, b, I.width, I.height, fits);
    Gray<S32> &L = G<S32>(w, out);
    Img<U8> src = grab(I);
    snapshot(w); allow<S32>(w, out);
    if (!operate(w, op, !fits, [&] { f->process(I, L); })) return;
    bool eight = cfg.eight;
    if ((f->getConnectRule() == boofcv::EIGHT) != eight) violation("contour", "the finder reports another connectivity rule than it was given");
    RefContours R = ref_contours(src, eight);
    expect_exact(L, R.label, "contour labels");
    if (f->contours.size() != R.blobs.size()) violation("contour", "%zu components reported, there are %zu", f->contours.size(), R.blobs.size());
    uint32_t used = 0;
    for (size_t i = 0; i < R.blobs.size(); i++) {
        auto &c = f->contours[i];
        if (c.id != i + 1) violation("contour", "component %zu has label %u", i, c.id);
        same_chain(R.blobs[i].ext, f->packedPoints, c.externalIndex, cfg.lo, cfg.hi, true, "external");
        used += 1 + (uint32_t)c.internalIndexes.size();
        if (c.internalIndexes.size() != R.blobs[i].in.size() && (cfg.save || !c.internalIndexes.empty()))
            violation("contour", "component %zu has %zu internal contours, it has %zu holes", i, c.internalIndexes.size(), R.blobs[i].in.size());
        if (!c.internalIndexes.empty()) PROBE("component with a hole");
        for (size_t k = 0; k < c.internalIndexes.size(); k++)
            same_chain(R.blobs[i].in[k], f->packedPoints, c.internalIndexes[k], cfg.lo, cfg.hi, cfg.save, "internal");
    }
    if (f->packedPoints.number_of_sets() != used) violation("contour", "%u point sets stored, %u referenced", f->packedPoints.number_of_sets(), used);
    uint64_t points = 0;
    for (auto &b : R.blobs) { points += b.ext.size(); for (auto &h : b.in) points += h.size(); }
    if (points > 2000) PROBE("contours span several storage blocks");
}

// ================================================================== Otsu reference
// All thresholds a correct selection may return (ties within rounding are accepted).
static std::vector<double> ref_otsu(const std::vector<uint64_t> &hist, bool otsu2, double tuning, bool down, double scale) {
    size_t n = hist.size();
    long double N = 0, S = 0;
    for (size_t i = 0; i < n; i++) { N += hist[i]; S += (long double)hist[i] * i; }
    struct C { double thr; long double var; };
    std::vector<C> c;
    long double wB = 0, sB = 0, best = 0;
    for (size_t i = 0; i < n; i++) {
        if (!hist[i] ) continue;
        wB += hist[i]; sB += (long double)hist[i] * i;
        long double wF = N - wB;
        if (wF == 0) break;
        long double mB = sB / wB / n, mF = (S - sB) / wF / n;
        long double var = wB * wF * (mB - mF) * (mB - mF);
        c.push_back(C{otsu2 ? (double)(n * (mB + mF) / 2) : (double)i, var});
        if (var > best) best = var;
    }
    std::vector<C> pick;
    for (auto &q : c) if (q.var >= best * (1 - 1e-9L)) pick.push_back(q);
    if (pick.empty()) pick.push_back(C{0, 0});
    std::vector<double> out;
    for (auto &q : pick) {
        double var = (double)q.var + 0.001, a = tuning * q.thr * tuning * q.thr / var + 0.5;
        for (double e : {-1e-7, 1e-7}) {
            double adj = std::trunc(a + e * std::max(1.0, std::fabs(a)));
            double t = q.thr + (down ? -adj : adj);
            double v = scale * std::max(t, 0.0) + 0.5;
            for (double g : {-1e-7, 1e-7}) out.push_back(std::trunc(v + g * std::max(1.0, std::fabs(v))));
        }
    }
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return out;
}

// ================================================================== block thresholds
struct Grid {
    uint32_t bw, bh, nx, ny, W, H;
    Grid(uint32_t w, uint32_t h, uint32_t req) : W(w), H(h) { bw = w / (w / req); bh = h / (h / req); nx = w / bw; ny = h / bh; }
    uint32_t x0(uint32_t i) const { return i * bw; }
    uint32_t x1(uint32_t i) const { return i + 1 == nx ? W : (i + 1) * bw; }
    uint32_t y0(uint32_t i) const { return i * bh; }
    uint32_t y1(uint32_t i) const { return i + 1 == ny ? H : (i + 1) * bh; }
};
static int64_t config_len(const boofcv::ConfigLength &c, uint32_t w, uint32_t h) {
    double m = std::min(w, h), v = c.fraction >= 0 ? std::max(c.fraction * m, c.length) : c.length;
    return v >= 0 ? (int64_t)(v + 0.5) : -1;
}
static boofcv::ConfigLength pick_len(int64_t v) {
    if (v > 1000000) return boofcv::ConfigLength::fixed((double)(v - 1000000));
    uint64_t u = (uint64_t)v;
    switch (u % 10) {
        case 0: return boofcv::ConfigLength(-1, -1);
        case 1: return boofcv::ConfigLength::fixed((double)(u / 10 % 3));             // 0, 1, 2
        case 2: return boofcv::ConfigLength::relative((double)(u / 10 % 12) / 10.0, (int)(u / 200 % 6));
        case 3: return boofcv::ConfigLength::relative((double)(u / 10 % 6) / 20.0, (int)(u / 200 % 4));
        default: return boofcv::ConfigLength::fixed((double)(u / 10 % 24) + (u & 64 ? 0.5 : 0));
    }
}
// interval of block statistics: the decision is compared where it is not decided by rounding alone
struct Iv { double lo, hi; };

template<class T> static void block_mean(World &w, const Op &op) {
    auto &slot = state(w).template mean<T>(op.pick(1, 0, 1));
    auto &cfg = state(w).template per<T>().mean_cfg[op.pick(1, 0, 1)];
    boofcv::ConfigLength len = pick_len(op.arg(2));
    bool local = op.arg(3) & 1, down = op.arg(3) & 2;
    double scale = (double)(op.pick(4, 0, 24)) / 16.0;       // 0 .. 1.5, exactly representable
    if (op.arg(4) & 32) scale = 0.95;
    if (!slot || op.arg(3) & 4) {
        slot.reset();
        std::unique_ptr<boofcv::ThresholdBlockMean<T>> n;
        Outcome o = call(op, [&] { n.reset(new boofcv::ThresholdBlockMean<T>(len, local, scale, down)); });
        if (o == BAD_ALLOC) return;
        if (o != OK) violation("refused-valid", "creating a block mean filter failed");
        slot = std::move(n);
    } else if (op.arg(3) & 16) {                              // everything as it was set before
        PROBE("settings kept");
        len = cfg.len; local = cfg.local; down = cfg.down; scale = cfg.scale;
    } else { slot->requestedBlockWidth = len; slot->setThresholdFromLocalBlocks(local); slot->scale = (float)scale; slot->down = down; }
    cfg.len = len; cfg.local = local; cfg.down = down; cfg.scale = scale;
    auto &f = *slot;
    Busy b; bool fits;
    Gray<T> &I = G<T>(w, prep_in<T>(w, op, 6, b, -1, true));
    bool oversize = op.arg(5) % 9 == 0;
    int out = prep_out<U8>(w, op, 6 + IN_ARGS, b, I.width, I.height, fits);
    Gray<U8> &O = G<U8>(w, out);
    bool shape = O.width == I.width && O.height == I.height;
    if (!shape && !oversize && fits) { make_owned<U8>(w, out, I.width, I.height); shape = true; }
    int64_t req = config_len(len, I.width, I.height);
    bool rej = !shape || req <= 0 || I.width < req || I.height < req;
    Img<T> s = grab(I);
    snapshot(w); allow<U8>(w, out);
    if (!operate(w, op, rej, [&] { f.process(I, O); })) return;
    Grid g(s.w, s.h, (uint32_t)req);
    if (s.w % g.bw || s.h % g.bh) PROBE("last blocks absorb a remainder");
    double fs = (double)(float)scale, rel = 2e-6, top = Lim<T>::hi;
    bool fl = std::is_floating_point<T>::value;
    std::vector<Iv> st((size_t)g.nx * g.ny);
    for (uint32_t j = 0; j < g.ny; j++) for (uint32_t i = 0; i < g.nx; i++) {
        long double sum = 0, mag = 0;
        for (uint32_t y = g.y0(j); y < g.y1(j); y++) for (uint32_t x = g.x0(i); x < g.x1(i); x++) { sum += s.at(x, y); mag += std::fabs((double)s.at(x, y)); }
        long double n = (long double)(g.x1(i) - g.x0(i)) * (g.y1(j) - g.y0(j));
        double v = (double)(fs * sum / n), m = std::max(1.0, (double)(fs * mag / n));
        Iv r;
        if (fl) { double t = m * tol_n<T>((double)n); r.lo = v - t; r.hi = v + t; }
        else {
            // an exactly representable computation has one right answer
            bool exact = (double)(float)(double)sum == (double)sum && (double)(float)(fs * (double)sum) == fs * (double)sum && (double)sum < (1 << 24) && v == (double)(float)v;
            double e = exact ? 0 : m * rel;
            r.lo = std::min((double)std::trunc(v + 0.5 - e), top); r.hi = std::min((double)std::trunc(v + 0.5 + e), top);
        }
        st[(size_t)j * g.nx + i] = r;
    }
    Img<U8> e(s.w, s.h);
    for (uint32_t j = 0; j < g.ny; j++) for (uint32_t i = 0; i < g.nx; i++) {
        Iv r{0, 0}; int n = 0;
        for (int v = local && j ? (int)j - 1 : (int)j; v <= (int)(local ? std::min(j + 1, g.ny - 1) : j); v++)
            for (int u = local && i ? (int)i - 1 : (int)i; u <= (int)(local ? std::min(i + 1, g.nx - 1) : i); u++) { r.lo += st[(size_t)v * g.nx + u].lo; r.hi += st[(size_t)v * g.nx + u].hi; n++; }
        r.lo /= n; r.hi /= n;
        if (!fl) { r.lo = std::trunc(r.lo); r.hi = std::trunc(r.hi); }
        for (uint32_t y = g.y0(j); y < g.y1(j); y++) for (uint32_t x = g.x0(i); x < g.x1(i); x++) {
            double p = (double)s.at(x, y);
            bool a = p <= r.lo, c = p <= r.hi;
            e.at(x, y) = a == c ? (U8)(a == down) : (U8)2;
        }
    }
    expect_bits(O, e, "block mean threshold");
}
template<class T> static void block_minmax(World &w, const Op &op) {
    auto &slot = state(w).template minmax<T>(op.pick(1, 0, 1));
    auto &cfg = state(w).template per<T>().minmax_cfg[op.pick(1, 0, 1)];
    boofcv::ConfigLength len = pick_len(op.arg(2));
    bool local = op.arg(3) & 1, down = op.arg(3) & 2;
    double scale = (double)(op.pick(4, 0, 24)) / 16.0;
    if (op.arg(4) & 32) scale = 0.95;
    int sp = (int)op.pick(5, -2, 40);
    double spread = sp < 0 ? sp : sp == 40 ? Lim<T>::hi : sp * (std::is_floating_point<T>::value || sizeof(T) > 1 ? 11.0 : 1.0) + (sp % 3 == 0 ? 0.5 : 0);
    if (!slot || op.arg(3) & 4) {
        slot.reset();
        std::unique_ptr<boofcv::ThresholdBlockMinMax<T>> n;
        Outcome o = call(op, [&] { n.reset(new boofcv::ThresholdBlockMinMax<T>((float)spread, len, local, (float)scale, down)); });
        if (o == BAD_ALLOC) return;
        if (o != OK) violation("refused-valid", "creating a block min-max filter failed");
        slot = std::move(n);
    } else if (op.arg(3) & 16) {
        PROBE("settings kept");
        len = cfg.len; local = cfg.local; down = cfg.down; scale = cfg.scale; spread = cfg.spread;
    } else { slot->requestedBlockWidth = len; slot->setThresholdFromLocalBlocks(local); slot->scale = (float)scale; slot->down = down; slot->minimumSpread = (float)spread; }
    cfg.len = len; cfg.local = local; cfg.down = down; cfg.scale = scale; cfg.spread = spread;
    auto &f = *slot;
    Busy b; bool fits;
    Gray<T> &I = G<T>(w, prep_in<T>(w, op, 6, b, -1, true));
    int out = prep_out<U8>(w, op, 6 + IN_ARGS, b, I.width, I.height, fits);
    Gray<U8> &O = G<U8>(w, out);
    bool shape = O.width == I.width && O.height == I.height;
    if (!shape && fits && op.arg(5) % 9) { make_owned<U8>(w, out, I.width, I.height); shape = true; }
    int64_t req = config_len(len, I.width, I.height);
    bool rej = !shape || req <= 0 || I.width < req || I.height < req;
    Img<T> s = grab(I);
    snapshot(w); allow<U8>(w, out);
    if (!operate(w, op, rej, [&] { f.process(I, O); })) return;
    Grid g(s.w, s.h, (uint32_t)req);
    bool fl = std::is_floating_point<T>::value;
    struct MM { double lo, hi; };
    std::vector<MM> st((size_t)g.nx * g.ny);
    for (uint32_t j = 0; j < g.ny; j++) for (uint32_t i = 0; i < g.nx; i++) {
        MM m{1e300, -1e300};
        for (uint32_t y = g.y0(j); y < g.y1(j); y++) for (uint32_t x = g.x0(i); x < g.x1(i); x++) { m.lo = std::min(m.lo, (double)s.at(x, y)); m.hi = std::max(m.hi, (double)s.at(x, y)); }
        st[(size_t)j * g.nx + i] = m;
    }
    Img<U8> e(s.w, s.h);
    for (uint32_t j = 0; j < g.ny; j++) for (uint32_t i = 0; i < g.nx; i++) {
        MM m{1e300, -1e300};
        for (int v = local && j ? (int)j - 1 : (int)j; v <= (int)(local ? std::min(j + 1, g.ny - 1) : j); v++)
            for (int u = local && i ? (int)i - 1 : (int)i; u <= (int)(local ? std::min(i + 1, g.nx - 1) : i); u++) { m.lo = std::min(m.lo, st[(size_t)v * g.nx + u].lo); m.hi = std::max(m.hi, st[(size_t)v * g.nx + u].hi); }
        double diff = m.hi - m.lo, fsp = (double)(float)spread, fs = (double)(float)scale, mag = std::max(1.0, std::max(std::fabs(m.hi), std::fabs(m.lo)));
        double e1 = fl ? mag * 1e-5 : 0;
        bool flat = diff <= fsp, unsure = fl && std::fabs(diff - fsp) <= e1;
        double mid = fl ? (m.hi + m.lo) / 2 : (double)((int64_t)(m.hi + m.lo) / 2), lo, hi;
        if (fl) { lo = fs * mid - e1; hi = fs * mid + e1; }
        else {
            double v = fs * mid, t = (double)(float)v == v && std::fabs(mid) < (1 << 24) ? 0 : mag * 2e-6;
            lo = std::trunc(v - t); hi = std::trunc(v + t);
        }
        for (uint32_t y = g.y0(j); y < g.y1(j); y++) for (uint32_t x = g.x0(i); x < g.x1(i); x++) {
            double p = (double)s.at(x, y);
            bool a = p <= lo, c = p <= hi;
            U8 d = a == c ? (U8)(a == down) : (U8)2;
            e.at(x, y) = unsure ? (d == 1 ? 1 : 2) : flat ? 1 : d;
        }
    }
    expect_bits(O, e, "block min-max threshold");
}
template<class T> static void block_otsu(World &w, const Op &op) {
    auto &slot = state(w).template otsu<T>(op.pick(1, 0, 1));
    boofcv::ConfigLength len = pick_len(op.arg(2));
    bool local = op.arg(3) & 1, down = op.arg(3) & 2, two = op.arg(3) & 8;
    static const double tunings[] = {0, 0, 1, 0.5, 4, 20};
    double scale = (double)(op.pick(4, 0, 24)) / 16.0, tuning = tunings[op.pick(5, 0, 5)];
    if (op.arg(4) & 32) scale = 0.95;
    if (!slot.f || op.arg(3) & 4) {
        slot.f.reset();
        std::unique_ptr<boofcv::ThresholdBlockOtsu<T>> n;
        Outcome o = call(op, [&] { n.reset(new boofcv::ThresholdBlockOtsu<T>(two, len, tuning, scale, down, local)); });
        if (o == BAD_ALLOC) return;
        if (o != OK) violation("refused-valid", "creating a block Otsu filter failed");
        slot.f = std::move(n); slot.two = two; slot.tuning = tuning; slot.scale = scale;
    } else if (op.arg(3) & 16) {
        PROBE("settings kept");
        len = slot.c.len; local = slot.c.local; down = slot.c.down;
    } else { slot.f->requestedBlockWidth = len; slot.f->setThresholdFromLocalBlocks(local); slot.f->otsu.down = down; }
    slot.c.len = len; slot.c.local = local; slot.c.down = down;
    auto &f = *slot.f;
    Busy b; bool fits;
    int in = prep_in<T>(w, op, 6, b);
    Gray<T> &I = G<T>(w, in);
    { // pixels are bytes whatever type holds them
        bool bytes = true;
        Img<T> c = grab(I);
        for (auto v : c.v) if (v < 0 || v > 255) bytes = false;
        if (!bytes) fill(I, 11, (uint64_t)op.arg(6 + 5));
    }
    int out = prep_out<U8>(w, op, 6 + IN_ARGS, b, I.width, I.height, fits);
    Gray<U8> &O = G<U8>(w, out);
    bool shape = O.width == I.width && O.height == I.height;
    if (!shape && fits && op.arg(5) % 9) { make_owned<U8>(w, out, I.width, I.height); shape = true; }
    int64_t req = config_len(len, I.width, I.height);
    bool rej = !shape || req <= 0 || I.width < req || I.height < req;
    Img<T> s = grab(I);
    snapshot(w); allow<U8>(w, out);
    if (!operate(w, op, rej, [&] { f.process(I, O); })) return;
    Grid g(s.w, s.h, (uint32_t)req);
    std::vector<std::vector<uint64_t>> st((size_t)g.nx * g.ny, std::vector<uint64_t>(256));
    for (uint32_t j = 0; j < g.ny; j++) for (uint32_t i = 0; i < g.nx; i++)
        for (uint32_t y = g.y0(j); y < g.y1(j); y++) for (uint32_t x = g.x0(i); x < g.x1(i); x++) st[(size_t)j * g.nx + i][(U8)s.at(x, y)]++;
    check_shape(O, s.w, s.h, "block Otsu threshold");
    for (uint32_t j = 0; j < g.ny; j++) for (uint32_t i = 0; i < g.nx; i++) {
        std::vector<uint64_t> h(256);
        for (int v = local && j ? (int)j - 1 : (int)j; v <= (int)(local ? std::min(j + 1, g.ny - 1) : j); v++)
            for (int u = local && i ? (int)i - 1 : (int)i; u <= (int)(local ? std::min(i + 1, g.nx - 1) : i); u++)
                for (int k = 0; k < 256; k++) h[k] += st[(size_t)v * g.nx + u][k];
        std::vector<double> thr = ref_otsu(h, slot.two, slot.tuning, down, slot.scale);
        bool any = false; uint32_t bx = 0, by = 0;
        for (double t : thr) {
            bool ok = true;
            for (uint32_t y = g.y0(j); y < g.y1(j) && ok; y++) for (uint32_t x = g.x0(i); x < g.x1(i); x++)
                if (O.data[O.offset + (size_t)y * O.stride + x] != (U8)(down == ((U8)s.at(x, y) <= t))) { ok = false; bx = x; by = y; break; }
            any |= ok;
        }
        if (!any) violation("wrong-pixel", "block Otsu threshold: pixel (%u,%u) of %ux%u does not follow from threshold %g of its blocks", bx, by, s.w, s.h, thr[0]);
    }
    digest(O);
}
void op_block(World &w, const Op &op) {
    int kind = (int)op.pick(0, 0, 9);
    switch (kind) {
        case 0: block_mean<U8>(w, op); break;
        case 1: block_mean<F32>(w, op); break;
        case 2: block_mean<U16>(w, op); break;
        case 3: block_minmax<U8>(w, op); break;
        case 4: block_minmax<F32>(w, op); break;
        case 5: block_minmax<S16>(w, op); break;
        case 6: block_minmax<U16>(w, op); break;
        case 7: block_otsu<U8>(w, op); break;
        case 8: block_otsu<F32>(w, op); break;
        default: block_otsu<U16>(w, op); break;
    }
}

// ================================================================== global and local thresholds
template<class T> static Img<U8> ref_threshold(const Img<T> &s, T t, bool down) {
    Img<U8> e(s.w, s.h);
    for (size_t k = 0; k < s.v.size(); k++) e.v[k] = down ? s.v[k] <= t : s.v[k] > t;
    return e;
}
template<class T> static T near_value(const Img<T> &s, int64_t v) {       // often exactly a pixel value
    if (!s.v.empty() && v % 4) return s.v[(size_t)((uint64_t)v % s.v.size())];
    return conv<T>((double)v);
}
// the mean filter's own definition, shared with the blur operators
template<class T> static void th_fixed(World &w, const Op &op, bool object) {
    Busy b; bool fits;
    Gray<T> &I = G<T>(w, prep_in<T>(w, op, 4, b, -1, true));
    int out = prep_out<U8>(w, op, 4 + IN_ARGS, b, I.width, I.height, fits);
    Gray<U8> &O = G<U8>(w, out);
    bool down = op.arg(2) & 1;
    Img<T> s = grab(I);
    T t = near_value(s, op.arg(3));
    std::unique_ptr<boofcv::GlobalFixedBinaryFilter<T>> f;
    if (object) {
        Outcome o = call(plain(), [&] { f.reset(new boofcv::GlobalFixedBinaryFilter<T>(t, down)); });
        if (o != OK) violation("refused-valid", "creating a fixed threshold filter failed");
    }
    snapshot(w); allow<U8>(w, out);
    if (!operate(w, op, !fits, [&] { if (object) f->process(I, O); else boofcv::ThresholdOps::threshold(I, t, down, O); })) return;
    expect_bits(O, ref_threshold(s, t, down), "threshold");
}
template<class T> static void th_otsu(World &w, const Op &op, bool object) {
    Busy b; bool fits;
    int in = prep_in<T>(w, op, 4, b);
    Gray<T> &I = G<T>(w, in);
    int64_t lo = std::numeric_limits<T>::is_signed ? -(op.arg(3) % 100) : (op.arg(3) & 1) ? op.arg(3) % 90 : 0;
    int64_t hi = sizeof(T) == 1 ? ((op.arg(3) & 2) ? 255 : std::min<int64_t>(255, lo + 1 + op.arg(3) / 4 % 200)) : lo + 1 + op.arg(3) / 4 % 1000;
    bool bad = op.arg(3) % 23 == 0;
    bool down = op.arg(2) & 1, two = (op.arg(2) & 2) && !object;
    auto &f = state(w).template gotsu<T>(0);
    auto &pt = state(w).template per<T>();
    bool keep = object && f && op.arg(2) & 8;
    if (keep) { PROBE("settings kept"); lo = pt.gotsu_lo; hi = pt.gotsu_hi; down = pt.gotsu_down; bad = lo > hi; if (bad) std::swap(lo, hi); }
    for (uint32_t y = 0; y < I.height; y++) for (uint32_t x = 0; x < I.width; x++) {    // every pixel has to lie in the declared range
        T &v = I.data[I.offset + (size_t)y * I.stride + x];
        if ((double)v < (double)lo || (double)v > (double)hi) v = (T)(lo + (int64_t)((uint64_t)std::llabs((int64_t)v) % (uint64_t)(hi - lo + 1)));
        if (std::is_floating_point<T>::value) v = (T)std::floor((double)v);
    }
    if (bad) std::swap(lo, hi);
    Img<T> s = grab(I);
    snapshot(w);
    std::vector<double> thr;
    if (!bad) {
        std::vector<uint64_t> h((size_t)(hi - lo + 1));
        for (auto v : s.v) h[(size_t)((int64_t)v - lo)]++;
        thr = ref_otsu(h, two, 0, true, 1.0);
    }
    if (!object) {
        double got = 0;
        if (!operate(w, op, bad, [&] { got = (double)boofcv::ThresholdOps::computeOtsu(I, (T)lo, (T)hi, two); })) return;
        bool ok = false;
        for (double t : thr) if (t + (double)lo == got) ok = true;
        ev((uint64_t)(int64_t)got);
        if (!ok) violation("wrong-threshold", "Otsu threshold of %ux%u pixels in %lld..%lld is %g, its definition gives %g", s.w, s.h, (long long)lo, (long long)hi, got, thr[0] + (double)lo);
        return;
    }
    int out = prep_out<U8>(w, op, 4 + IN_ARGS, b, I.width, I.height, fits);
    Gray<U8> &O = G<U8>(w, out);
    if (!f) { Outcome o = call(plain(), [&] { f.reset(new boofcv::GlobalOtsuBinaryFilter<T>((T)lo, (T)hi, down)); }); if (o != OK) violation("refused-valid", "creating an Otsu filter failed"); }
    if (!keep) { f->min_value = (T)lo; f->max_value = (T)hi; f->down = down; }
    pt.gotsu_lo = lo; pt.gotsu_hi = hi; pt.gotsu_down = down;
    snapshot(w); allow<U8>(w, out);
    if (!operate(w, op, bad || !fits, [&] { f->process(I, O); })) return;
    bool any = false;
    check_shape(O, s.w, s.h, "global Otsu");
    for (double t : thr) {
        Img<U8> e = ref_threshold(s, (T)(t + (double)lo), down);
        Img<U8> g = grab(O);
        if (g.v == e.v) any = true;
    }
    if (!any) violation("wrong-pixel", "global Otsu output of %ux%u pixels in %lld..%lld does not follow from threshold %g", s.w, s.h, (long long)lo, (long long)hi, thr[0] + (double)lo);
    digest(O);
}
template<class T> static void th_local(World &w, const Op &op, bool object) {
    Busy b; bool fits, f1 = true, f2 = true;
    Gray<T> &I = G<T>(w, prep_in<T>(w, op, 4, b, -1, true));
    uint32_t W = I.width, H = I.height;
    int out = prep_out<U8>(w, op, 4 + IN_ARGS, b, W, H, fits);
    Gray<U8> &O = G<U8>(w, out);
    bool down = op.arg(2) & 1;
    boofcv::ConfigLength len = pick_len(op.arg(3));
    float scale = (float)(op.pick(2, 0, 24)) / 16.0f;
    if (op.arg(2) & 32) scale = 0.95f;
    auto &f = state(w).template local<T>(op.arg(1) >> 1 & 1);
    auto &cfg = state(w).template per<T>().local_cfg[op.arg(1) >> 1 & 1];
    bool keep = object && f && op.arg(2) & 8;
    if (keep) { PROBE("settings kept"); len = cfg.len; scale = (float)cfg.scale; down = cfg.down; }
    int64_t rad = config_len(len, W, H) / 2;
    if (config_len(len, W, H) < 0) rad = -1;
    bool rej = rad <= 0;
    Img<T> s = grab(I);
    if (object) {
        if (!f) { Outcome o = call(plain(), [&] { f.reset(new boofcv::LocalMeanBinaryFilter<T>(len, scale, down)); }); if (o != OK) violation("refused-valid", "creating a local mean filter failed"); }
        if (!keep) { f->regionWidth = len; f->scale = scale; f->down = down; }
        cfg.len = len; cfg.scale = scale; cfg.down = down;
        snapshot(w); allow<U8>(w, out);
        if (!operate(w, op, rej || !fits, [&] { f->process(I, O); })) return;
    } else {
        int s1 = prep_out<T>(w, op, 4 + IN_ARGS + OUT_ARGS, b, W, H, f1);
        int s2 = prep_out<T>(w, op, 4 + IN_ARGS + 2 * OUT_ARGS, b, W, H, f2);
        Gray<T> &S1 = G<T>(w, s1), &S2 = G<T>(w, s2);
        snapshot(w); allow<U8>(w, out); allow<T>(w, s1); allow<T>(w, s2);
        if (!operate(w, op, rej || !fits || !f1 || !f2, [&] { boofcv::ThresholdOps::localMean(I, O, len, scale, down, S1, S2); })) return;
    }
    std::vector<double> mean, tol;
    ref_mean(s, (uint32_t)rad, mean, tol);
    Img<U8> e(W, H);
    for (size_t k = 0; k < e.v.size(); k++) {
        double p = (double)s.v[k], fs = (double)scale;
        double l = down ? p : p * fs, r = down ? mean[k] * fs : mean[k];
        double slack = tol[k] * std::max(1.0, fs) + std::max(1.0, std::fabs(r)) * 1e-6;
        if (!std::is_floating_point<T>::value && (double)(float)(down ? r : l) == (down ? r : l)) slack = 0;
        bool sure = std::fabs(l - r) > slack || slack == 0;
        e.v[k] = sure ? (down ? l <= r : l > r) : 2;
    }
    expect_bits(O, e, "local mean threshold");
}
void op_threshold(World &w, const Op &op) {
    int kind = (int)op.pick(0, 0, 11);
    bool object = op.arg(1) & 1;
    switch (kind) {
        case 0: th_fixed<U8>(w, op, object); break;
        case 1: th_fixed<F32>(w, op, object); break;
        case 2: th_fixed<S16>(w, op, object); break;
        case 3: case 4: th_otsu<U8>(w, op, object); break;
        case 5: th_otsu<U16>(w, op, object); break;
        case 6: th_otsu<S16>(w, op, object); break;
        case 7: th_otsu<F32>(w, op, object); break;
        case 8: case 9: th_local<U8>(w, op, object); break;
        case 10: th_local<F32>(w, op, object); break;
        default: th_local<S16>(w, op, object); break;
    }
}
// Otsu selection straight from a histogram
void op_otsu(World &w, const Op &op) {
    uint32_t n = (uint32_t)op.pick(0, 1, 300);
    bool two = op.arg(1) & 1, down = op.arg(1) & 2;
    static const double tunings[] = {0, 0, 1, 0.5, 4, 20};
    double tuning = tunings[op.pick(2, 0, 5)], scale = (double)op.pick(3, 0, 24) / 16.0;
    Rng r((uint64_t)op.arg(4));
    std::vector<uint64_t> h(n);
    int style = (int)r.below(5);
    for (uint32_t i = 0; i < n; i++) h[i] = style == 0 ? r.below(20) : style == 1 ? (r.chance(1, 20) ? r.below(50) : 0) : style == 2 ? (i == (uint32_t)(n / 3) ? 9 : 0) : style == 3 ? (i < n / 2 ? r.below(4) : r.below(400000)) : 0;
    uint64_t total = 0;
    for (auto v : h) total += v;
    auto &slot = state(w).selector;
    boofcv::GrowArray<uint32_t> H(n);
    for (uint32_t i = 0; i < n; i++) H[i] = (uint32_t)h[i];
    if (!slot.f || op.arg(1) & 4) { slot.f.reset(new boofcv::ComputeOtsu(two, tuning, down, scale)); slot.two = two; slot.tuning = tuning; slot.scale = scale; }
    slot.f->down = down;
    Outcome o = call(op, [&] { slot.f->compute(H, (uint32_t)total); });
    if (o == BAD_ALLOC) return;
    if (o != OK) violation("refused-valid", "Otsu selection failed");
    auto thr = ref_otsu(h, slot.two, slot.tuning, down, slot.scale);
    for (uint32_t i = 0; i < n; i++) if (H[i] != h[i]) violation("input-changed", "Otsu selection changed the histogram");
    if (std::find(thr.begin(), thr.end(), slot.f->threshold) == thr.end())
        violation("wrong-threshold", "Otsu threshold of a %u bin histogram is %g, its definition gives %g", n, slot.f->threshold, thr[0]);
    ev((uint64_t)slot.f->threshold);
}

// ================================================================== binary operators
void op_binary(World &w, const Op &op) {
    int kind = (int)op.pick(0, 0, 3);
    Busy b; bool fits;
    if (kind <= 1) {
        int ia = prep_in<U8>(w, op, 2, b, op.arg(1) & 1 ? 6 : -1, true);
        Gray<U8> &A = G<U8>(w, ia);
        // second operand: usually the same shape
        Op o2 = op;
        bool match = op.arg(1) % 11 != 0;
        if (match) { o2.a.resize(std::max<size_t>(o2.a.size(), 2 + 2 * IN_ARGS)); o2.a[2 + IN_ARGS + 2] = A.width; o2.a[2 + IN_ARGS + 3] = A.height; if (o2.pick(2 + IN_ARGS + 1, 0, 3) == 0 || o2.pick(2 + IN_ARGS + 1, 0, 3) == 3) o2.a[2 + IN_ARGS + 1] = 1; }
        int ib = prep_in<U8>(w, o2, 2 + IN_ARGS, b, op.arg(1) & 2 ? 6 : -1, true);
        Gray<U8> &B = G<U8>(w, ib);
        int alias = (int)(op.arg(1) / 16 % 4);           // documented: output may be either input
        if ((alias == 1 && w.pool<U8>().s[ia].canvas == -2) || (alias == 2 && w.pool<U8>().s[ib].canvas == -2)) alias = 0;
        int out = alias == 1 ? ia : alias == 2 ? ib : prep_out<U8>(w, op, 2 + 2 * IN_ARGS, b, A.width, A.height, fits);
        if (alias == 1 || alias == 2) fits = true;
        Gray<U8> &O = G<U8>(w, out);
        Img<U8> a = grab(A), c = grab(B);
        bool bad = a.w != c.w || a.h != c.h || !fits;
        snapshot(w); allow<U8>(w, out);
        if (!operate(w, op, bad, [&] { if (kind == 0) boofcv::BinaryImageOps::logicAnd(A, B, O); else boofcv::BinaryImageOps::logicOr(A, B, O); })) return;
        Img<U8> e(a.w, a.h);
        for (size_t k = 0; k < e.v.size(); k++) e.v[k] = kind == 0 ? (a.v[k] && c.v[k]) : (a.v[k] || c.v[k]);
        expect_bits(O, e, kind == 0 ? "logical and" : "logical or");
        return;
    }
    int in = prep_in<U8>(w, op, 2, b, 6, true);
    Gray<U8> &I = G<U8>(w, in);
    int out = prep_out<U8>(w, op, 2 + IN_ARGS, b, I.width, I.height, fits);
    Gray<U8> &O = G<U8>(w, out);
    Img<U8> s = grab(I);
    snapshot(w); allow<U8>(w, out);
    if (!operate(w, op, !fits, [&] { if (kind == 2) boofcv::BinaryImageOps::erode4(I, O); else boofcv::BinaryImageOps::dilate4(I, O); })) return;
    Img<U8> e(s.w, s.h);
    for (int y = 0; y < (int)s.h; y++) for (int x = 0; x < (int)s.w; x++) {
        int n = 0;
        static const int dx[] = {0, 1, -1, 0, 0}, dy[] = {0, 0, 0, 1, -1};
        for (int k = 0; k < 5; k++) { int u = x + dx[k], v = y + dy[k]; if (u >= 0 && v >= 0 && u < (int)s.w && v < (int)s.h) n += s.at((uint32_t)u, (uint32_t)v); }
        e.at((uint32_t)x, (uint32_t)y) = kind == 2 ? n == 5 : n > 0;
    }
    expect_bits(O, e, kind == 2 ? "erosion" : "dilation");
}
}}
