// C05..C11: histories of image operators over shared, reused images, views, kernels and filter objects.
#include "vision.h"
namespace hx { namespace vis {
struct Kind { const char *name; void (*fn)(World &, const Op &); };
static const Kind kinds[] = {{"contour", op_contour}, {"finder", op_contour_cfg}, {"block", op_block}, {"threshold", op_threshold}, {"binary", op_binary}, {"otsu", op_otsu},
                             {"blur", op_blur}, {"convolve", op_convolve}, {"normalized", op_normalized}, {"piece", op_inner}, {"misc", op_misc}};
enum { NK = sizeof kinds / sizeof kinds[0] };

bool run_op(World &w, const Op &op) {
    for (auto &k : kinds) if (op.name == k.name) { k.fn(w, op); return true; }
    return false;
}
static void exec(const Plan &p) {
    World *w = new World();
    for (size_t i = 0; i < p.ops.size(); i++) {
        const Op &op = p.ops[i];
        op_begin((uint32_t)i, op);
        op_end(run_op(*w, op));
    }
    delete w;
}
struct Mode { int size; int view; int wrong; int big = 0; };   // big: 1 long and thin pictures, 2 and 3 large ones, 4 longer than sixteen bits can count
static const int64_t XL = 1000000;                              // marks an exact size beyond the usual range
static void in_args(Op &o, Rng &r, const Mode &m, bool binary) {
    int64_t w, h;
    int s = m.size;
    auto D = [&]() -> int64_t { return r.chance(1, 14) ? (int64_t)r.below(2) : r.chance(1, 8) ? r.range(1, 5) : r.range(1, s); };
    w = D(); h = r.chance(1, 6) ? w : D();
    if (m.big == 1) { w = XL + r.range(250, 1300); h = XL + r.range(1, 5); if (r.chance(1, 2)) std::swap(w, h); }
    else if (m.big == 2) { w = XL + r.range(257, 420); h = XL + r.range(257, 330); }
    else if (m.big == 4) { w = XL + r.range(65530, 66000); h = XL + r.range(1, 3); if (r.chance(1, 2)) std::swap(w, h); }
    else if (m.big == 3) { w = XL + r.range(520, 700); h = XL + r.range(520, 600); }
    o.a.push_back((int64_t)r.below(NSLOT));
    o.a.push_back(r.chance(m.view, 100) ? 2 : (int64_t)r.below(4) == 2 ? 1 : (int64_t)(r.chance(1, 2) ? 1 : r.chance(1, 2) ? 0 : 3));
    o.a.push_back(w); o.a.push_back(h);
    o.a.push_back(binary ? (r.chance(1, 8) ? 12 + (int64_t)r.below(2) : 6 + (int64_t)r.below(5)) : r.chance(1, 3) ? 0 : (int64_t)r.below(KINDS));
    o.a.push_back((int64_t)r.below(1000000));
}
static void out_args(Op &o, Rng &r, const Mode &m) {
    o.a.push_back((int64_t)r.below(NSLOT));
    o.a.push_back(r.chance(m.view, 100) ? 2 : r.chance(m.wrong, 100) ? 3 : r.chance(1, 2) ? 1 : r.chance(1, 2) ? 0 : 4);
    o.a.push_back(r.range(0, m.size)); o.a.push_back(r.range(0, m.size));
    o.a.push_back((int64_t)r.below(1000000));
}
static Op make_one(int k, Rng &r, const Mode &m) {
    Op o; o.name = kinds[k].name;
    auto A = [&](int64_t v) { o.a.push_back(v); };
    int s = m.size;
    switch (k) {
        case 0: A((int64_t)r.below(4)); in_args(o, r, m, true); out_args(o, r, m); break;
        case 1: A((int64_t)r.below(2)); A((int64_t)r.below(6)); A((int64_t)r.below(1000)); break;
        case 2: A((int64_t)r.below(10)); A((int64_t)r.below(2)); A((int64_t)r.below(2000)); A((int64_t)r.below(32)); A(r.chance(1, 3) ? 16 : (int64_t)r.below(64)); A(r.chance(1, 3) ? r.range(-2, 40) : (int64_t)r.below(12)); in_args(o, r, m, false); out_args(o, r, m); break;
        case 3: A((int64_t)r.below(12)); A((int64_t)r.below(4)); A((int64_t)r.below(64)); A((int64_t)r.below(5000)); in_args(o, r, m, false); out_args(o, r, m); out_args(o, r, m); out_args(o, r, m); break;
        case 4: A((int64_t)r.below(4)); A((int64_t)r.below(1000)); in_args(o, r, m, false); if (o.a[0] < 2) in_args(o, r, m, false); out_args(o, r, m); break;
        case 5: A(r.chance(1, 2) ? 256 : r.range(1, 300)); A((int64_t)r.below(8)); A((int64_t)r.below(6)); A(r.chance(1, 2) ? 16 : (int64_t)r.below(25)); A((int64_t)r.below(1000000)); break;
        case 6: A((int64_t)r.below(2)); A((int64_t)r.below(8)); A(r.chance(1, 2) ? r.range(1, 6) : r.range(1, s)); A((int64_t)r.below(11)); A((int64_t)r.below(400)); in_args(o, r, m, false); out_args(o, r, m); out_args(o, r, m); break;
        case 7: case 8: { A((int64_t)r.below(3)); A((int64_t)r.below(8)); A(r.chance(1, 20) ? 5 : (int64_t)r.below(5)); int64_t kw = r.chance(2, 3) ? r.range(1, 13) : r.range(1, s + 9); if (k == 7 && o.a[0] == 2) kw = r.range(1, 9); A(kw); A(r.chance(1, 2) ? 1000 : r.range(0, kw)); A((int64_t)r.below(100000)); in_args(o, r, m, false); out_args(o, r, m); if (k == 8) out_args(o, r, m); break; }
        case 9: A((int64_t)r.below(3)); A((int64_t)r.below(6)); A((int64_t)r.below(5)); A(r.range(1, 20)); A(r.range(0, 20)); A((int64_t)r.below(100000)); in_args(o, r, m, false); out_args(o, r, m); break;
        default: A((int64_t)r.below(12)); A((int64_t)r.below(6)); A(r.range(-300, 300)); A((int64_t)r.below(1000)); in_args(o, r, m, false); out_args(o, r, m); break;
    }
    return o;
}
static Op make(int k, Rng &r, const Mode &m) {
    Op o = make_one(k, r, m);
    if (m.big == 1 && r.chance(2, 3)) switch (k) {                // parameters to match
        case 2: if (r.chance(1, 2)) o.a[2] = XL + r.range(1, 5); break;
        case 3: o.a[3] = XL + r.range(3, 900); break;
        case 6: o.a[2] = XL + r.range(100, 700); break;
        case 7: case 8: o.a[3] = XL + r.range(60, 400); if (r.chance(1, 2)) o.a[4] = r.range(0, 399); break;
        default: break;
    }
    if (m.big == 2 || m.big == 4) switch (k) {
        case 2: o.a[2] = XL + (m.big == 2 ? r.range(12, 257) : r.range(1, 3)); if (m.big == 4) o.a[0] %= 7; break;                // so many histograms would take too long
        case 6: o.a[2] = r.range(1, 9); if (o.a[4] % 13 == 0) o.a[4]++; break;
        case 7: case 8: case 9: o.a[3] = r.range(1, 5); break;
        default: break;
    }
    return o;
}
static const size_t first_operand[NK] = {1, 3, 6, 4, 2, 5, 5, 6, 6, 6, 4};
// the same object or parameters again, as they were set, for another picture that often has something in common with the last one
static Op again(const Op &o, int k, Rng &r, const Mode &m) {
    Op q = make_one(k, r, m);
    size_t b = first_operand[k];
    for (size_t i = 0; i < b && i < o.a.size(); i++) q.a[i] = o.a[i];
    if (k == 2) q.a[3] = (q.a[3] & ~(int64_t)4) | 16;
    if (k == 3) q.a[2] |= 8;
    if (q.a.size() <= b + 4 || o.a.size() != q.a.size()) return q;
    int64_t w = o.a[b + 2], h = o.a[b + 3], v = q.a[b + 2], u = q.a[b + 3];
    switch (r.below(8)) {
        case 0: std::swap(w, h); break;
        case 1: w = v; break;
        case 2: h = u; break;
        case 3: if (w % 2 == 0 && w < XL) { w /= 2; h *= 2; } else w = v; break;
        case 4: break;
        case 5: if (h % 2 == 0 && h < XL) { h /= 2; w *= 2; } else h = u; break;
        default: w = v; h = u; break;
    }
    q.a[b + 2] = w; q.a[b + 3] = h;
    if (k != 4) for (size_t i = b + IN_ARGS; i + OUT_ARGS <= q.a.size(); i += OUT_ARGS) if (r.chance(1, 2)) { q.a[i] = o.a[i]; q.a[i + 1] = r.chance(1, 2) ? 0 : 1; }
    return q;
}
struct Profile { int weight[NK]; int fault_num, fault_den; int view; int wrong; bool sweep; int big; };
static void gen(Plan &p, Rng &r, const Profile &f) {
    Mode m;
    m.size = r.chance(1, 2) ? 12 : r.chance(1, 2) ? 30 : r.chance(1, 3) ? 66 : 5;
    m.view = f.view ? f.view : (int)r.below(60);
    m.wrong = f.wrong;
    int n = (int)r.range(2, m.size > 40 ? 6 : 14);
    if (f.big && r.chance(1, 40)) { m.big = 1; m.view = 0; n = (int)r.range(1, 4); }
    else if (f.big && r.chance(1, 500)) { m.big = 2; m.view = 0; n = (int)r.range(1, 2); }
    else if (f.big == 2 && r.chance(1, 2500)) { m.big = 3; m.view = 0; n = 1; }
    else if (f.big && r.chance(1, 600)) { m.big = 4; m.view = 0; n = (int)r.range(1, 2); }
    bool sweep = f.sweep && m.big < 2;
    int wt[NK], total = 0;
    for (int k = 0; k < NK; k++) { wt[k] = r.chance(1, 4) ? f.weight[k] / 3 : f.weight[k]; total += wt[k]; }
    if (!total) { for (int k = 0; k < NK; k++) total += wt[k] = f.weight[k]; }
    while (n-- > 0) {
        int t = (int)r.below((uint64_t)total), k = 0;
        while (t >= wt[k]) { t -= wt[k]; k++; }
        Op o = make(k, r, m);
        if (sweep && r.chance(2, 3)) {                 // every allocation of the operator fails in turn, then it has to work
            int kind = r.chance(1, 2) ? FK_ALLOC_ONE : FK_ALLOC_FROM, last = (int)r.range(0, 5);
            for (int j = 0; j <= last; j++) { Op q = o; q.f.push_back(Fault{kind, j}); p.ops.push_back(q); }
            p.ops.push_back(o);
        } else if (f.fault_num && r.chance(f.fault_num, f.fault_den)) {
            Op q = o;
            q.f.push_back(Fault{r.chance(1, 2) ? FK_ALLOC_ONE : FK_ALLOC_FROM, (int64_t)r.below(r.chance(2, 3) ? 4 : 14)});
            p.ops.push_back(q);
            if (r.chance(2, 3)) p.ops.push_back(o);
        } else p.ops.push_back(o);
        if (k != 1 && !m.big && r.chance(1, 5)) {
            if (k == 2 && r.chance(1, 2)) p.ops.back().a[2] = 2 + (int64_t)r.below(2) + 10 * (int64_t)r.below(200);
            for (int j = (int)r.range(1, 5); j > 0; j--) {
                Op q = again(p.ops.back(), k, r, m);
                if (f.fault_num && r.chance(1, 3)) q.f.push_back(Fault{r.chance(1, 2) ? FK_ALLOC_ONE : FK_ALLOC_FROM, (int64_t)r.below(r.chance(2, 3) ? 3 : 8)});
                p.ops.push_back(q);
            }
        }
    }
}
//                       contour finder block thresh binary otsu blur conv norm piece misc
static const Profile P05 = {{10, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 1, 4, 0, 4, false, 2};
static const Profile P06 = {{0, 0, 10, 0, 0, 0, 0, 0, 0, 0, 0}, 1, 5, 0, 4, false, 1};
static const Profile P07 = {{0, 0, 0, 10, 8, 3, 0, 0, 0, 0, 0}, 1, 5, 0, 4, false, 1};
static const Profile P08 = {{0, 0, 0, 0, 0, 0, 10, 0, 0, 0, 0}, 1, 5, 0, 4, false, 1};
static const Profile P09 = {{0, 0, 0, 0, 0, 0, 0, 10, 8, 6, 0}, 1, 6, 0, 4, false, 1};
static const Profile P10 = {{3, 1, 3, 4, 4, 0, 4, 5, 4, 3, 7}, 1, 8, 85, 5, false, 1};
static const Profile P11 = {{4, 3, 4, 4, 3, 0, 4, 4, 4, 0, 3}, 1, 2, 15, 25, true, 1};
static const Profile PTH = {{4, 2, 4, 4, 3, 2, 4, 4, 4, 3, 3}, 1, 6, 20, 8, false, 0};     // threads with their own objects
static const Profile PTI = {{3, 0, 3, 3, 3, 0, 4, 4, 4, 3, 5}, 1, 10, 95, 3, false, 0};    // threads with their own tiles
void gen_ops(Plan &p, Rng &r, int which) { gen(p, r, which ? PTI : PTH); }
static void g05(Plan &p, Rng &r) { gen(p, r, P05); }
static void g06(Plan &p, Rng &r) { gen(p, r, P06); }
static void g07(Plan &p, Rng &r) { gen(p, r, P07); }
static void g08(Plan &p, Rng &r) { gen(p, r, P08); if (r.chance(1, 500)) p.add("blur", {0, 7, r.range(0, 999), r.range(0, 255), 555}); }
static void g09(Plan &p, Rng &r) { gen(p, r, P09); }
static void g10(Plan &p, Rng &r) { gen(p, r, P10); }
static void g11(Plan &p, Rng &r) { gen(p, r, P11); }
#define RULE(x) "a run is a random history of " x "; non-trivial = at least one operator ran and its outcome was compared with the reference model"
static Reg r05(hx::World{"C05", g05, exec, RULE("labelling calls and settings changes on two finders over reused images and sub-images, with allocation failures"), 44000, 2000000});
static Reg r06(hx::World{"C06", g06, exec, RULE("block threshold calls on reused filters, images and sub-images, with allocation failures and impossible parameters"), 44000, 2000000});
static Reg r07(hx::World{"C07", g07, exec, RULE("threshold, Otsu and binary operator calls over reused images, with allocation failures and impossible parameters"), 44000, 2000000});
static Reg r08(hx::World{"C08", g08, exec, RULE("blur calls over reused images and scratch, with allocation failures and impossible parameters"), 44000, 2000000});
static Reg r09(hx::World{"C09", g09, exec, RULE("convolution calls over reused images, kernels and borders, with allocation failures and impossible parameters"), 44000, 2000000});
static Reg r10(hx::World{"C10", g10, exec, RULE("all operators on sub-images placed in shared canaried buffers, some failing"), 44000, 2000000});
static Reg r11(hx::World{"C11", g11, exec, RULE("all operators with every allocation failing in turn and with refused arguments, each followed by a retry"), 44000, 2000000});
}}
