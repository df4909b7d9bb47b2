// P17: cooperative vector operations equal ordinary element-wise arithmetic
#include "mem.h"
using namespace jx;

namespace {
/// A straight-line program over cooperative vectors
enum Kind { Input, Lit, Pack, Load, Bin, Fma, Cast, Map, MatVec, Accum, Outer };
const char *kname[] = { "input", "literal", "pack", "load", "binary", "fma", "cast", "map", "matvec", "accum", "outer product" };
struct Step {
    Kind k;
    VarType t; uint32_t n = 0;          // result
    int a = -1, b = -1, c = -1;         // operands
    JitOp op = JitOp::Add;
    uint64_t lit = 0;
    std::vector<std::pair<int, uint32_t>> src; // Pack: components of registers
    int buf = -1, bias = -1;
    uint32_t off = 0;
    MatrixDescr d{}, bd{};
    bool tr = false, many = false, wide = true;         // wide: one value per lane
    double lo = -INFINITY, hi = INFINITY; // all values are integers in this range
    bool is_value() const { return k != Accum && k != Outer; }
};
struct Buffer { Arr a; Var v; bool target = false, absent = false; Var old; Arr old_a; double mag = 0; std::string name; };
using Lane = std::vector<uint64_t>;     // components
bool undefined_cast;

const uint64_t one_of(VarType t) { return from_i(t, 1); }

struct Prog {
    Src &s;
    std::vector<Step> st;
    std::vector<Buffer> bufs;
    Foreign mem;
    size_t lanes = 1;
    bool scalar = false; // all variables have size 1 (calls)
    bool flat = false;   // pending writes to buffers are possible
    bool exact;          // float registers hold bounded integers
    size_t total = 1;    // upper bound on the executions of each statement
    Prog(Src &s) : s(s) {}

    static double limit(VarType t) { return t == VarType::Float16 ? 2048 : t == VarType::Float32 ? 16777216.0 : t == VarType::Float64 ? 9007199254740992.0 : INFINITY; }
    static double tmin(VarType t) { return is_float(t) ? -limit(t) : is_signed(t) ? -std::ldexp(1.0, (int) tsize(t) * 8 - 1) : 0; }
    static double tmax(VarType t) { return is_float(t) ? limit(t) : std::ldexp(1.0, (int) tsize(t) * 8 - (is_signed(t) ? 1 : 0)) - 1; }
    bool fits(VarType t, double lo, double hi) const { return lo >= tmin(t) && hi <= tmax(t); }
    int push(Step p) {
        if (p.is_value() && !fits(p.t, p.lo, p.hi)) { p.lo = is_int(p.t) ? tmin(p.t) : p.lo; p.hi = is_int(p.t) ? tmax(p.t) : p.hi; }
        st.push_back(p); return (int) st.size() - 1;
    }
    std::vector<int> regs(VarType t, uint32_t n = 0) const {
        std::vector<int> r;
        for (size_t i = 0; i < st.size(); ++i) if (st[i].is_value() && (t == VarType::Void || st[i].t == t) && (!n || st[i].n == n)) r.push_back((int) i);
        return r;
    }
    int any_reg() { auto r = regs(VarType::Void); return r[r.size() - 1 - s.below(std::min<size_t>(r.size(), 6))]; }
    int lit(VarType t, uint32_t n, double v) { Step p{ Lit, t, n }; p.lit = from_d(t, v); p.lo = p.hi = v; return push(p); }
    uint64_t val(VarType t) { return exact ? from_i(t, is_signed(t) ? s.range(-4, 4) : s.range(0, 4)) : gen_value(s, t); }
    Step pool_lit(VarType t, uint32_t n) {
        Step p{ Lit, t, n };
        p.lit = s.chance(1, 3) ? from_i(t, s.range(0, 1)) : val(t);
        if (exact) p.lo = p.hi = to_d(t, p.lit);
        p.many = !scalar && s.chance(1, 6);
        return p;
    }
    /// A register of this type and length
    int need(VarType t, uint32_t n) {
        auto r = regs(t, n);
        if (!r.empty() && s.chance(3, 4)) return r[s.below(r.size())];
        auto q = regs(t);
        if (q.empty() || s.chance(1, 4)) return push(pool_lit(t, n));
        Step p{ Pack, t, n };
        p.lo = INFINITY; p.hi = -INFINITY;
        for (uint32_t i = 0; i < n; ++i) {
            int a = q[s.below(q.size())];
            p.src.push_back({ a, (uint32_t) s.below(st[a].n) });
            p.lo = std::min(p.lo, st[a].lo); p.hi = std::max(p.hi, st[a].hi);
        }
        return push(p);
    }
    /// Reduce the range to [-m, m]
    int clamp(int a, double m) {
        Step x = st[a];
        if (std::max(-x.lo, x.hi) <= m) return a;
        auto bin = [&](JitOp op, int b, double lo, double hi) { Step p{ Bin, x.t, x.n }; p.op = op; p.a = a; p.b = b; p.lo = lo; p.hi = hi; a = push(p); };
        bin(JitOp::Min, lit(x.t, x.n, m), std::min(x.lo, m), std::min(x.hi, m));
        if (is_signed(x.t)) bin(JitOp::Max, lit(x.t, x.n, -m), std::max(st[a].lo, -m), st[a].hi);
        return a;
    }
    double mag(int a) const { return std::max(-st[a].lo, st[a].hi); }

    int buffer(VarType t, size_t n, bool target) {
        std::vector<int> c;
        for (size_t i = 0; i < bufs.size(); ++i) if (bufs[i].a.t == t && bufs[i].target == target && bufs[i].a.size() >= n) c.push_back((int) i);
        if (!c.empty() && s.chance(2, 3)) return c[s.below(c.size())];
        Buffer b; b.target = target;
        size_t sz = n + s.below(7);
        Src q(s.bits());
        b.a = Arr(t, sz);
        for (auto &x : b.a.v) x = exact || target ? from_i(t, is_signed(t) ? q.range(-3, 3) : q.range(0, 3)) : gen_value(q, t);
        b.name = strf("%s%zu", target ? "target" : "buffer", bufs.size());
        if (target && s.chance(1, 5)) { b.absent = true; for (auto &x : b.a.v) x = 0; }
        else switch (s.below(target ? 2 : flat ? 5 : 4)) {
            case 1: b.v = make(s, b.a, target ? Memory : Lazy); if (!target && b.a.size() != sz) { b.a = Arr(t, sz, b.a.v[0]); b.v = upload(b.a); } break;
            case 2: b.v = mem.guarded(b.a); break;
            case 4: { // pending writes
                b.v = upload(b.a);
                Arr ix(VarType::UInt32, 3), va(t, 3);
                for (size_t i = 0; i < 3; ++i) { ix.v[i] = (q.below(sz) / 3 * 3 + i) % sz; va.v[i] = from_i(t, (int64_t) q.below(4)); }
                if (sz < 3) { ix = Arr(VarType::UInt32, 1); va = Arr(t, 1, va.v[0]); }
                else if (ix.v[0] == ix.v[1] || ix.v[1] == ix.v[2] || ix.v[0] == ix.v[2]) for (size_t i = 0; i < 3; ++i) ix.v[i] = i;
                for (size_t i = 0; i < ix.size(); ++i) b.a.v[ix.v[i]] = va.v[i];
                Var tr = boolean(true), vi = upload(ix), vv = upload(va);
                b.v = steal(jit_var_scatter(b.v.id(), vv.id(), vi.id(), tr.id(), ReduceOp::Identity, ReduceMode::NoConflicts));
                s.tag("buffer with pending writes");
                break;
            }
            default: b.v = upload(b.a);
        }
        if (target && b.v && s.chance(1, 5)) { b.old = b.v; b.old_a = b.a; }
        s.note("%s = %s%s", b.name.c_str(), b.a.str(40).c_str(), b.absent ? " (created on use)" : "");
        bufs.push_back(std::move(b));
        return (int) bufs.size() - 1;
    }
    MatrixDescr descr(VarType t, uint32_t rows, uint32_t cols, bool vec) {
        MatrixDescr d{};
        d.dtype = t; d.layout = MatrixLayout::RowMajor; d.rows = rows; d.cols = cols;
        d.stride = vec ? 1 : cols + (uint32_t) (s.chance(1, 4) ? s.below(5) : 0);
        d.offset = (uint32_t) (s.flip() ? s.below(9) : 0);
        d.size = (rows - 1) * d.stride + cols;
        return d;
    }

    /// Append a random statement
    void gen() {
        size_t k = s.weighted({ 2, 2, 6, 2, 2, 2, (uint32_t) (exact ? 4 : 0), (uint32_t) (exact ? 2 : 0), (uint32_t) (exact ? 2 : 0), 1 });
        switch (k) {
            case 0: { // pack
                int a = any_reg();
                need(st[a].t, 1 + (uint32_t) s.below(s.chance(1, 6) ? 20 : 6));
                break;
            }
            case 1: { // load
                VarType t = s.chance(2, 3) ? st[any_reg()].t : s.pick(arith_types());
                Step p{ Load, t, 1 + (uint32_t) s.below(8) };
                p.off = (uint32_t) s.below(8);
                p.buf = buffer(t, p.off + p.n, false);
                if (exact) { p.lo = INFINITY; p.hi = -INFINITY; for (auto x : bufs[p.buf].a.v) { p.lo = std::min(p.lo, to_d(t, x)); p.hi = std::max(p.hi, to_d(t, x)); } }
                push(p);
                break;
            }
            case 2: { // binary
                static const JitOp ops[] = { JitOp::Add, JitOp::Mul, JitOp::Sub, JitOp::Min, JitOp::Max, JitOp::Step, JitOp::FMin, JitOp::FMax };
                Step p{ Bin, VarType::Void, 0 };
                p.a = any_reg(); p.t = st[p.a].t; p.n = st[p.a].n;
                p.b = need(p.t, p.n);
                if (s.flip()) std::swap(p.a, p.b);
                p.op = ops[s.below(8)];
                bounds(p);
                if (exact && is_float(p.t) && !fits(p.t, p.lo, p.hi)) { p.op = s.pick({ JitOp::Step, JitOp::Min, JitOp::Max }); bounds(p); }
                push(p);
                break;
            }
            case 3: { // fma
                Step p{ Fma, VarType::Void, 0 };
                auto r = regs(VarType::Void);
                std::vector<int> f; for (int i : r) f.push_back(i);
                if (f.empty()) return;
                p.a = f[s.below(f.size())]; p.t = st[p.a].t; p.n = st[p.a].n;
                p.b = need(p.t, p.n); p.c = need(p.t, p.n);
                bounds(p);
                if (exact && !fits(p.t, p.lo, p.hi)) return;
                push(p);
                break;
            }
            case 4: case 5: { // cast
                Step p{ Cast, s.pick(arith_types()), 0 };
                p.a = any_reg(); p.n = st[p.a].n;
                if (exact) {
                    double m = std::min(limit(p.t), limit(st[p.a].t));
                    if (!is_float(p.t) || !is_float(st[p.a].t)) m = std::min(m, 100.0);
                    if (is_int(p.t) && is_int(st[p.a].t)) m = INFINITY;
                    if (m < INFINITY) p.a = clamp(p.a, m);
                    if (!is_signed(p.t) && is_float(st[p.a].t)) { // undefined for negative values
                        Step q{ Bin, st[p.a].t, p.n }; q.op = JitOp::Max; q.a = p.a; q.b = lit(q.t, q.n, 0); bounds(q); p.a = push(q);
                    }
                }
                p.lo = st[p.a].lo; p.hi = st[p.a].hi;
                push(p);
                break;
            }
            case 6: { // matvec
                VarType t = s.pick({ VarType::Float32, VarType::Float16 });
                Step p{ MatVec, t, 0 };
                uint32_t in = 1 + (uint32_t) s.below(s.chance(1, 6) ? 20 : 6);
                auto r = regs(t);
                if (!r.empty() && s.chance(2, 3)) in = st[r[s.below(r.size())]].n;
                p.a = need(t, in);
                p.a = clamp(p.a, std::floor((limit(t) - 4) / (4.0 * in)));
                p.n = 1 + (uint32_t) s.below(s.chance(1, 6) ? 20 : 6);
                p.tr = s.flip();
                p.d = descr(t, p.tr ? in : p.n, p.tr ? p.n : in, false);
                p.buf = buffer(t, p.d.offset + p.d.size, false);
                if (s.flip()) { p.bd = descr(t, p.n, 1, true); p.bias = buffer(t, p.bd.offset + p.n, false); }
                double m = mag(p.a) * 4 * in + 4;
                p.lo = -m; p.hi = m;
                push(p);
                break;
            }
            case 7: { // accumulate
                int a = any_reg();
                VarType t = st[a].t;
                if (!is_float(t)) return;
                Step p{ Accum, t, st[a].n };
                p.off = (uint32_t) s.below(8);
                p.buf = buffer(t, p.off + p.n, true);
                double m = std::floor((limit(t) - 3 - bufs[p.buf].mag) / (double) total / 2);
                if (m < 1) return;
                p.a = clamp(a, m);
                bufs[p.buf].mag += mag(p.a) * (double) total;
                push(p);
                break;
            }
            case 8: { // outer product
                int a = any_reg();
                VarType t = st[a].t;
                if (!is_float(t)) return;
                auto r = regs(t);
                int b = r[s.below(r.size())];
                Step p{ Outer, t, 0 };
                p.d = descr(t, st[a].n, st[b].n, false);
                p.buf = buffer(t, p.d.offset + p.d.size, true);
                double m = std::floor((limit(t) - 3 - bufs[p.buf].mag) / (double) total / 2);
                if (m < 1) return;
                m = std::floor(std::sqrt(m));
                p.a = clamp(a, m); p.b = clamp(b, m);
                bufs[p.buf].mag += mag(p.a) * mag(p.b) * (double) total;
                push(p);
                break;
            }
            default: { // ordinary arithmetic in between
                Step p{ Map, VarType::Void, 0 };
                p.a = any_reg(); p.t = st[p.a].t; p.n = st[p.a].n;
                if (!is_signed(p.t)) return;
                p.lo = -st[p.a].hi; p.hi = -st[p.a].lo;
                push(p);
            }
        }
    }
    void bounds(Step &p) {
        if (!exact) return;
        const Step &x = st[p.a], &y = st[p.b];
        auto mul = [](const Step &x, const Step &y, double &lo, double &hi) {
            double c[4] = { x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi };
            lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
        };
        if (p.k == Fma) { mul(x, y, p.lo, p.hi); p.lo += st[p.c].lo; p.hi += st[p.c].hi; return; }
        switch (p.op) {
            case JitOp::Add: p.lo = x.lo + y.lo; p.hi = x.hi + y.hi; break;
            case JitOp::Sub: p.lo = x.lo - y.hi; p.hi = x.hi - y.lo; break;
            case JitOp::Mul: mul(x, y, p.lo, p.hi); break;
            case JitOp::Min: case JitOp::FMin: p.lo = std::min(x.lo, y.lo); p.hi = std::min(x.hi, y.hi); break;
            case JitOp::Max: case JitOp::FMax: p.lo = std::max(x.lo, y.lo); p.hi = std::max(x.hi, y.hi); break;
            default: p.lo = 0; p.hi = 1;
        }
    }

    // -- Model ---------------------------------------------------------------
    static uint64_t ref2(JitOp op, VarType t, uint64_t a, uint64_t b) {
        if (op == JitOp::Step) return dispatch(t, [&](auto x) { using T = decltype(x); return from_i(t, ld<T>(a) < ld<T>(b) ? 0 : 1); });
        if (op == JitOp::FMin) op = JitOp::Min;
        if (op == JitOp::FMax) op = JitOp::Max;
        if (op == JitOp::Min || op == JitOp::Max) { // ignore NaNs
            if (fnan(t, a)) return b;
            if (fnan(t, b)) return a;
            bool lt = dispatch(t, [&](auto x) { using T = decltype(x); return ld<T>(a) < ld<T>(b); });
            return (op == JitOp::Min) == lt ? a : b;
        }
        uint64_t in[3] = { a, b, 0 }, out = 0;
        if (!ref_op(op, t, in, out)) fail("harness: undefined binary operation");
        return out;
    }
    /// Executes the program for one lane
    std::vector<Lane> model(size_t lane, const std::vector<Lane> &in, bool lane_active, std::vector<Arr> &mem) const {
        std::vector<Lane> r(st.size());
        size_t ni = 0;
        for (size_t i = 0; i < st.size(); ++i) {
            const Step &p = st[i];
            Lane &o = r[i];
            if (p.is_value()) o.resize(p.n);
            bool active = lane_active && (lane == 0 || p.wide);
            switch (p.k) {
                case Input: o = in[ni++]; break;
                case Lit: for (auto &x : o) x = p.lit; break;
                case Pack: for (uint32_t j = 0; j < p.n; ++j) o[j] = r[p.src[j].first][p.src[j].second]; break;
                case Load: for (uint32_t j = 0; j < p.n; ++j) o[j] = mem[p.buf].v[p.off + j]; break;
                case Bin: for (uint32_t j = 0; j < p.n; ++j) o[j] = ref2(p.op, p.t, r[p.a][j], r[p.b][j]); break;
                case Fma: for (uint32_t j = 0; j < p.n; ++j) { uint64_t a[3] = { r[p.a][j], r[p.b][j], r[p.c][j] }; if (!ref_op(JitOp::Fma, p.t, a, o[j])) fail("harness: fma"); } break;
                case Cast: for (uint32_t j = 0; j < p.n; ++j) if (!ref_cast(st[p.a].t, p.t, r[p.a][j], o[j])) undefined_cast = true; break;
                case Map: for (uint32_t j = 0; j < p.n; ++j) { uint64_t a[3] = { r[p.a][j], 0, 0 }; ref_op(JitOp::Neg, p.t, a, o[j]); } break;
                case MatVec: {
                    uint32_t m = st[p.a].n;
                    for (uint32_t j = 0; j < p.n; ++j) {
                        double acc = p.bias >= 0 ? to_d(p.t, mem[p.bias].v[p.bd.offset + j]) : 0;
                        for (uint32_t k = 0; k < m; ++k)
                            acc += to_d(p.t, mem[p.buf].v[p.d.offset + (p.tr ? k * p.d.stride + j : j * p.d.stride + k)]) * to_d(p.t, r[p.a][k]);
                        o[j] = from_d(p.t, acc);
                    }
                    break;
                }
                case Accum:
                    if (active) for (uint32_t j = 0; j < p.n; ++j) { uint64_t &x = mem[p.buf].v[p.off + j]; x = from_d(p.t, to_d(p.t, x) + to_d(p.t, r[p.a][j])); }
                    break;
                case Outer:
                    if (active) for (uint32_t j = 0; j < p.d.rows; ++j) for (uint32_t k = 0; k < p.d.cols; ++k) {
                        uint64_t &x = mem[p.buf].v[p.d.offset + j * p.d.stride + k];
                        x = from_d(p.t, to_d(p.t, x) + to_d(p.t, r[p.a][j]) * to_d(p.t, r[p.b][k]));
                    }
            }
        }
        return r;
    }

    // -- Execution -----------------------------------------------------------
    static std::vector<Var> unpack(const Var &v, uint32_t n) {
        if (jit_coop_vec_length(v.id()) != n) fail("cooperative vector has length %u instead of %u", jit_coop_vec_length(v.id()), n);
        std::vector<uint32_t> o(n);
        jit_coop_vec_unpack(v.id(), n, o.data());
        std::vector<Var> r;
        for (auto x : o) r.push_back(steal(x));
        return r;
    }
    static Var pack(const std::vector<Var> &c) {
        std::vector<uint32_t> i;
        for (auto &v : c) i.push_back(v.id());
        return steal(jit_coop_vec_pack((uint32_t) i.size(), i.data()));
    }
    std::vector<Var> emit(const std::vector<std::vector<Var>> &in) {
        std::vector<Var> r(st.size());
        size_t ni = 0;
        for (size_t i = 0; i < st.size(); ++i) {
            const Step &p = st[i];
            switch (p.k) {
                case Input: r[i] = pack(in[ni++]); break;
                case Lit: r[i] = steal(jit_coop_vec_literal(BE, p.t, &p.lit, p.many ? lanes : 1, p.n)); break;
                case Pack: {
                    std::vector<Var> c;
                    for (auto &q : p.src) c.push_back(unpack(r[q.first], st[q.first].n)[q.second]);
                    r[i] = pack(c);
                    break;
                }
                case Load: r[i] = steal(jit_coop_vec_load(bufs[p.buf].v.id(), p.off, p.n)); break;
                case Bin: r[i] = steal(jit_coop_vec_binary_op(p.op, r[p.a].id(), r[p.b].id())); break;
                case Fma: r[i] = steal(jit_coop_vec_ternary_op(JitOp::Fma, r[p.a].id(), r[p.b].id(), r[p.c].id())); break;
                case Cast: r[i] = steal(jit_coop_vec_cast(r[p.a].id(), p.t)); break;
                case Map: { auto c = unpack(r[p.a], p.n); for (auto &v : c) v = steal(jit_var_neg(v.id())); r[i] = pack(c); break; }
                case MatVec: r[i] = steal(jit_coop_vec_matvec(bufs[p.buf].v.id(), &p.d, r[p.a].id(), p.bias >= 0 ? bufs[p.bias].v.id() : 0, p.bias >= 0 ? &p.bd : nullptr, p.tr)); break;
                case Accum: { Buffer &b = bufs[p.buf]; b.v = steal(jit_coop_vec_accum(b.v.id(), (uint32_t) b.a.size(), p.off, r[p.a].id())); break; }
                case Outer: { Buffer &b = bufs[p.buf]; b.v = steal(jit_coop_vec_outer_product_accum(b.v.id(), (uint32_t) b.a.size(), &p.d, r[p.a].id(), r[p.b].id())); break; }
            }
        }
        return r;
    }
    std::string str(size_t i) const {
        const Step &p = st[i];
        std::string o = strf("  v%zu = %s", i, kname[p.k]);
        if (p.k == Bin) o += strf(" %s", p.op == JitOp::Step ? "step" : op_name(p.op));
        if (p.a >= 0) o += strf(" v%d", p.a);
        if (p.b >= 0) o += strf(" v%d", p.b);
        if (p.c >= 0) o += strf(" v%d", p.c);
        if (p.k == Lit) o += " " + vstr(p.t, p.lit) + (p.many ? " in all lanes" : "");
        for (auto &q : p.src) o += strf(" v%d.%u", q.first, q.second);
        if (p.buf >= 0) o += " " + bufs[p.buf].name;
        if (p.k == Load || p.k == Accum) o += strf(" at %u", p.off);
        if (p.k == MatVec || p.k == Outer) o += strf(" %ux%u%s at %u stride %u", p.d.rows, p.d.cols, p.tr ? " transposed" : "", p.d.offset, p.d.stride);
        if (p.bias >= 0) o += strf(" + %s at %u", bufs[p.bias].name.c_str(), p.bd.offset);
        return o + strf(" : %s x %u", tname(p.t), p.n);
    }
};

struct MaskGuard {
    MaskGuard(const Var &v) { jit_var_mask_push(BE, v.id()); }
    ~MaskGuard() { jit_var_mask_pop(BE); }
};
struct Record {
    uint32_t cp; bool cleanup = true;
    uint32_t sc = 0;
    Record(const char *n, bool scope = false) : cp(jit_record_begin(BE, n)) { if (scope) sc = jit_new_scope(BE); }
    uint32_t rewind() { jit_set_scope(BE, sc); return jit_record_checkpoint(BE); }
    ~Record() { jit_record_end(BE, cp, cleanup); }
};

struct SelfGuard {
    uint32_t v, i;
    SelfGuard(uint32_t value) { uint32_t t; jit_var_self(BE, &v, &t); i = t; jit_var_inc_ref(i); jit_var_set_self(BE, value, 0); }
    ~SelfGuard() { jit_var_set_self(BE, v, i); jit_var_dec_ref(i); }
};

void program(Src &s) {
    Prog p(s);
    p.exact = s.chance(3, 4);
    enum Ctx { Top, Masked, Loop, Cond, Call } ctx = p.exact ? (Ctx) s.weighted({ 4, 1, 2, 2, 3 }) : Top;
    static const char *cname[] = { "top level", "mask", "loop", "conditional", "call" };
    bool wide = s.chance(3, 4);
    size_t n = wide ? (size_t) s.small(2, thorough() ? 300 : 60) : 1;
    uint32_t trips = ctx == Loop ? 3 : 1;
    p.total = n * trips; p.lanes = n; p.scalar = ctx == Call;
    p.flat = ctx == Top || ctx == Masked;
    std::vector<uint8_t> wide_in;
    // Inputs
    uint32_t ni = 1 + (uint32_t) s.below(3);
    std::vector<std::vector<Arr>> in;
    std::vector<std::vector<Var>> vin;
    for (uint32_t i = 0; i < ni; ++i) {
        Step q{ Input, s.chance(2, 3) ? s.pick({ VarType::Float32, VarType::Float16 }) : s.pick(arith_types()), 1 + (uint32_t) s.below(s.chance(1, 6) ? 17 : 5) };
        if (p.exact) { q.lo = is_signed(q.t) ? -4 : 0; q.hi = 4; }
        p.push(q);
        std::vector<Arr> a; std::vector<Var> v;
        Src z(s.bits());
        bool w = i == 0 ? wide : s.flip();
        if (!wide) w = false;
        wide_in.push_back(w);
        for (uint32_t j = 0; j < q.n; ++j) {
            Arr x(q.t, w ? n : 1);
            for (auto &y : x.v) y = p.exact ? from_i(q.t, z.range((int64_t) q.lo, 4)) : gen_value(z, q.t);
            Form f = w ? s.pick({ Memory, Memory, Lazy }) : s.pick({ Scalar, Literal, Memory, Lazy });
            if (j == 0 && i == 0 && wide) f = Memory;
            Var u = make(s, x, f);
            if (p.flat && w && x.size() == n && s.chance(1, 12)) { // pending write
                Var c = upload(x); u = c; c.reset();
                size_t l = z.below(n); uint64_t nv = from_i(q.t, 1);
                Var li = u32((uint32_t) l), lv = literal(q.t, nv), tr = boolean(true);
                u = steal(jit_var_scatter(u.id(), lv.id(), li.id(), tr.id(), ReduceOp::Identity, ReduceMode::Auto));
                x.v[l] = nv;
                s.tag("component with pending write");
            }
            a.push_back(x); v.push_back(std::move(u));
        }
        s.note("input v%u (%s x %u, %zu lanes): component 0 = %s", i, tname(q.t), q.n, w ? n : 1, a[0].str(8).c_str());
        in.push_back(a); vin.push_back(std::move(v));
    }
    auto lane_in = [&](size_t l) { std::vector<Lane> r; for (auto &a : in) { Lane x; for (auto &c : a) x.push_back(c.at(l)); r.push_back(x); } return r; };
    size_t k = 1 + s.below(thorough() ? 14 : 8);
    for (size_t i = 0; i < k; ++i) {
        size_t before = p.st.size();
        p.gen();
        if (!p.exact) { // remove undefined conversions
            undefined_cast = false;
            std::vector<Arr> mem; for (auto &b : p.bufs) mem.push_back(b.a);
            for (size_t l = 0; l < n; ++l) p.model(l, lane_in(l), true, mem);
            if (undefined_cast) p.st.resize(before);
        }
    }
    // State of loops: matching registers, reduced to the range of the input
    std::vector<int> next;
    if (ctx == Loop) for (uint32_t i = 0; i < ni; ++i) {
        auto r = p.regs(p.st[i].t, p.st[i].n);
        int x = r[r.size() - 1 - s.below(std::min<size_t>(3, r.size()))];
        next.push_back(p.clamp(x, 4));
    }
    if (ctx == Top) for (size_t i = 0; i < p.st.size(); ++i) {
        Step &q = p.st[i];
        q.wide = (i < ni && wide_in[i]) || q.many;
        for (int x : { q.a, q.b, q.c }) if (x >= 0) q.wide |= p.st[x].wide;
        for (auto &x : q.src) q.wide |= p.st[x.first].wide;
    }
    for (size_t i = ni; i < p.st.size(); ++i) { s.note("%s", p.str(i).c_str()); s.tag(kname[p.st[i].k]); }
    s.note("context: %s, %zu lanes", cname[ctx], n);

    // Reference
    std::vector<Arr> mem; for (auto &b : p.bufs) mem.push_back(b.a);
    std::vector<std::vector<Arr>> want(p.st.size());
    for (size_t i = 0; i < p.st.size(); ++i) if (p.st[i].is_value()) want[i].assign(p.st[i].n, Arr(p.st[i].t, n));
    Arr sel = gen_mask(s, n), cnt(VarType::UInt32, n);
    if (sel.size() != n) sel = Arr(VarType::Bool, n, sel.v[0]);
    for (auto &x : cnt.v) x = s.below(4);
    std::vector<uint8_t> act(n, 1);
    for (size_t l = 0; l < n; ++l) {
        bool a = true;
        if (ctx == Masked || ctx == Cond) a = sel.v[l];
        if (ctx == Call) a = cnt.v[l] == 1 || cnt.v[l] == 2;
        act[l] = a;
        auto x = lane_in(l);
        std::vector<Lane> r;
        if (ctx == Loop) { for (size_t j = 0; j < cnt.v[l]; ++j) { r = p.model(l, x, true, mem); for (uint32_t i = 0; i < ni; ++i) x[i] = r[next[i]]; } r.resize(ni); for (uint32_t i = 0; i < ni; ++i) r[i] = x[i]; }
        else r = p.model(l, x, a, mem);
        for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[i].size(); ++j) if (i < want.size() && j < want[i].size()) want[i][j].v[l] = r[i][j];
    }

    // Execution
    std::vector<std::vector<Var>> out(p.st.size()); // components per register
    Var lanes = ctr(n);
    auto widen = [&](Var &v) { if (jit_var_size(v.id()) != n) v = steal(jit_var_resize(v.id(), n)); };
    std::vector<int> which; // registers to look at
    for (size_t i = 0; i < p.st.size(); ++i) if (p.st[i].is_value() && (i + 1 == p.st.size() || s.chance(1, 2))) which.push_back((int) i);
    // Outputs of conditionals and calls: component arrays
    if (ctx == Top || ctx == Masked) {
        std::vector<Var> r;
        if (ctx == Masked) {
            Var m = upload(sel); m = steal(jit_var_mask_apply(m.id(), (uint32_t) n));
            MaskGuard g(m); m.reset();
            r = p.emit(vin);
        } else r = p.emit(vin);
        for (int i : which) out[i] = Prog::unpack(r[i], p.st[i].n);
        bool keep = s.flip();
        if (!keep) r.clear();
        if (s.flip()) vin.clear();
    } else if (ctx == Loop) {
        std::vector<Var> state;
        Var i0 = literal(VarType::UInt32, 0, n), tv = upload(cnt);
        state.push_back(i0); i0.reset();
        for (auto &v : vin) for (auto &c : v) { widen(c); state.push_back(c); }
        vin.clear();
        std::vector<uint32_t> ix;
        auto pull = [&] { for (size_t i = 0; i < state.size(); ++i) state[i] = steal(ix[i]); };
        for (auto &v : state) ix.push_back(v.id());
        Record rec("loop");
        Var lp = steal(jit_var_loop_start("loop", 0, ix.size(), ix.data()));
        pull();
        for (int it = 0; ; ++it) {
            if (it > 3) fail("loop recording does not converge");
            Var c = steal(jit_var_lt(state[0].id(), tv.id()));
            Var m = steal(jit_var_mask_apply(c.id(), (uint32_t) n));
            c.reset();
            Var cond = steal(jit_var_loop_cond(lp.id(), m.id()));
            {
                MaskGuard g(m); m.reset();
                std::vector<std::vector<Var>> args;
                size_t z = 1;
                for (uint32_t i = 0; i < ni; ++i) { std::vector<Var> a; for (uint32_t j = 0; j < p.st[i].n; ++j) a.push_back(state[z++]); args.push_back(a); }
                auto r = p.emit(args);
                args.clear();
                z = 1;
                for (uint32_t i = 0; i < ni; ++i) for (auto &c : Prog::unpack(r[next[i]], p.st[i].n)) { Var q = c; state[z++] = q; }
                state[0] = steal(jit_var_add(state[0].id(), u32(1).id()));
            }
            for (size_t i = 0; i < state.size(); ++i) ix[i] = state[i].id();
            int done = jit_var_loop_end(lp.id(), cond.id(), ix.data(), rec.cp);
            pull();
            if (done) break;
        }
        rec.cleanup = false;
        which.clear();
        size_t z = 1;
        for (uint32_t i = 0; i < ni; ++i) { which.push_back((int) i); for (uint32_t j = 0; j < p.st[i].n; ++j) out[i].push_back(state[z++]); }
    } else if (ctx == Cond) {
        Var cv = upload(sel), nc = steal(jit_var_not(cv.id()));
        std::vector<Var> res;
        std::vector<uint32_t> ix;
        Var e[2];
        Record rec("cond");
        cv = steal(jit_var_mask_apply(cv.id(), (uint32_t) n)); nc = steal(jit_var_mask_apply(nc.id(), (uint32_t) n));
        Var h = steal(jit_var_cond_start("cond", 0, cv.id(), nc.id()));
        for (int b = 0; b < 2; ++b) {
            std::vector<Var> o;
            {
                MaskGuard g(b ? nc : cv);
                if (b == 0) {
                    auto r = p.emit(vin);
                    for (int i : which) for (auto &c : Prog::unpack(r[i], p.st[i].n)) o.push_back(c);
                } else for (int i : which) for (uint32_t j = 0; j < p.st[i].n; ++j) o.push_back(literal(p.st[i].t, one_of(p.st[i].t)));
            }
            std::vector<uint32_t> oi; for (auto &v : o) oi.push_back(v.id());
            e[b] = steal(jit_var_cond_append(h.id(), oi.data(), oi.size()));
            ix.resize(oi.size());
        }
        jit_var_cond_end(h.id(), ix.data());
        rec.cleanup = false;
        size_t z = 0;
        for (int i : which) for (uint32_t j = 0; j < p.st[i].n; ++j) {
            out[i].push_back(steal(ix[z++]));
            for (size_t l = 0; l < n; ++l) if (!sel.v[l]) want[i][j].v[l] = one_of(p.st[i].t);
        }
        vin.clear();
    } else { // two instances: 1 evaluates the program, 2 runs it on negated (signed) / same arguments
        Var inst = upload(cnt), m3 = steal(jit_var_lt(inst.id(), u32(3).id())), z0 = u32(0);
        inst = steal(jit_var_select(m3.id(), inst.id(), z0.id()));
        std::vector<std::vector<Var>> args; std::vector<uint32_t> ii, oo, cp(3), out_i;
        std::vector<Var> rv;
        jit_new_scope(BE);
        {
            Record rec("call", true);
            for (auto &v : vin) { std::vector<Var> a; for (auto &c : v) { a.push_back(steal(jit_var_call_input(c.id()))); ii.push_back(a.back().id()); } args.push_back(a); }
            {
                Var cm = steal(jit_var_call_mask(BE));
                MaskGuard g(cm); cm.reset();
                for (uint32_t f = 0; f < 2; ++f) {
                    cp[f] = rec.rewind();
                    SelfGuard sg(f + 1);
                    auto r = p.emit(args);
                    for (int i : which) for (auto &c : Prog::unpack(r[i], p.st[i].n)) rv.push_back(c);
                }
                cp[2] = rec.rewind();
            }
            jit_new_scope(BE);
            for (auto &v : rv) oo.push_back(v.id());
            out_i.resize(oo.size() / 2);
            uint32_t ids[2] = { 1, 2 };
            Var mask = boolean(true);
            jit_var_call("call", 0, inst.id(), mask.id(), 2, 2, ids, (uint32_t) ii.size(), ii.data(), (uint32_t) oo.size(), oo.data(), cp.data(), out_i.data());
            rec.cleanup = false;
        }
        size_t z = 0;
        for (int i : which) for (uint32_t j = 0; j < p.st[i].n; ++j) {
            out[i].push_back(steal(out_i[z++]));
            for (size_t l = 0; l < n; ++l) if (!act[l]) want[i][j].v[l] = 0;
        }
        vin.clear();
    }
    // Comparison
    if (s.chance(2, 3)) { for (auto &o : out) for (auto &v : o) jit_var_schedule(v.id()); }
    if (s.chance(1, 3)) jit_eval();
    bool buffers_first = s.flip();
    auto check_buffers = [&] {
        for (size_t i = 0; i < p.bufs.size(); ++i) {
            Buffer &b = p.bufs[i];
            if (b.old) expect(b.old, b.old_a, strf("original contents of %s", b.name.c_str()).c_str());
            if (!b.v) continue;
            if (b.a.size() == 1 || jit_var_size(b.v.id()) == mem[i].size()) expect(b.v, mem[i], b.name.c_str());
            else fail("%s has size %zu", b.name.c_str(), jit_var_size(b.v.id()));
        }
    };
    if (buffers_first) check_buffers();
    for (int i : which) for (uint32_t j = 0; j < p.st[i].n; ++j) {
        Var &v = out[i][j];
        size_t sz = jit_var_size(v.id());
        Arr w = want[i][j];
        if (sz == 1 && n > 1) { if (!w.uniform()) fail("v%d.%u: size 1 although the lanes differ", i, j); w.v.resize(1); }
        if (ctx == Top && !p.exact && p.st[i].k != Input && is_float(p.st[i].t)) { // conversions to half precision
            Arr g = fetch(v);
            if (g.t != w.t || g.size() != w.size()) fail("v%d.%u: %s[%zu]", i, j, tname(g.t), g.size());
            for (size_t l = 0; l < g.size(); ++l) if (!same(w.t, g.v[l], w.v[l]))
                fail("v%d.%u (%s): lane %zu is %s instead of %s", i, j, p.str(i).c_str(), l, vstr(w.t, g.v[l]).c_str(), vstr(w.t, w.v[l]).c_str());
            continue;
        }
        expect(v, w, strf("v%d.%u (%s)", i, j, p.str(i).c_str()).c_str());
    }
    if (!buffers_first) check_buffers();
    s.tag(cname[ctx]);
    if (p.st.size() > ni + 1 && n > 1) s.nontrivial();
}

/// Conversion between matrix layouts and back
void matrices(Src &s) {
    VarType t = s.pick({ VarType::Float16, VarType::Float32, VarType::Float64 });
    uint32_t k = 1 + (uint32_t) s.below(5);
    std::vector<MatrixDescr> in(k), out(k);
    uint32_t off = (uint32_t) s.below(5), oo = (uint32_t) s.below(5);
    Src q(s.bits());
    Var dummy;
    for (uint32_t i = 0; i < k; ++i) {
        MatrixDescr d{};
        d.dtype = t; d.layout = MatrixLayout::RowMajor;
        d.rows = 1 + (uint32_t) q.below(9); d.cols = q.below(3) ? 1 + (uint32_t) q.below(9) : 1;
        d.stride = d.cols + (uint32_t) (q.below(3) ? 0 : q.below(4));
        d.size = (d.rows - 1) * d.stride + d.cols;
        d.offset = off; off += d.size + (uint32_t) q.below(3);
        in[i] = d;
    }
    Arr a(t, off + q.below(3));
    for (auto &x : a.v) x = gen_value(q, t);
    Var src = upload(a);
    MatrixLayout lay = s.pick({ MatrixLayout::RowMajor, MatrixLayout::InferencingOptimal, MatrixLayout::TrainingOptimal });
    for (uint32_t i = 0; i < k; ++i) {
        MatrixDescr d = jit_coop_vec_compute_layout(src.id(), &in[i], lay, oo);
        if (d.dtype != t || d.rows != in[i].rows || d.cols != in[i].cols || d.offset < oo || d.size < d.rows * d.cols || d.stride < d.cols) fail("jit_coop_vec_compute_layout(): implausible layout");
        oo = d.offset + d.size + (uint32_t) q.below(3);
        out[i] = d;
    }
    s.note("packing %u matrices of type %s", k, tname(t));
    Arr z(t, oo + q.below(3));
    for (auto &x : z.v) x = gen_value(q, t);
    Var dst = upload(z);
    jit_coop_vec_pack_matrices(k, src.id(), in.data(), dst.id(), out.data());
    Arr got = fetch(dst), want = z;
    for (uint32_t m = 0; m < k; ++m) for (uint32_t i = 0; i < in[m].rows; ++i) for (uint32_t j = 0; j < in[m].cols; ++j)
        want.v[out[m].offset + i * out[m].stride + j] = a.v[in[m].offset + i * in[m].stride + j];
    if (got.v != want.v) fail("packed matrices differ\n got  %s\n want %s", got.str(80).c_str(), want.str(80).c_str());
    // .. and back
    Arr y(t, a.size());
    for (auto &x : y.v) x = gen_value(q, t);
    Var back = upload(y);
    jit_coop_vec_pack_matrices(k, dst.id(), out.data(), back.id(), in.data());
    for (uint32_t m = 0; m < k; ++m) for (uint32_t i = 0; i < in[m].rows; ++i) for (uint32_t j = 0; j < in[m].cols; ++j)
        y.v[in[m].offset + i * in[m].stride + j] = a.v[in[m].offset + i * in[m].stride + j];
    got = fetch(back);
    if (got.v != y.v) fail("unpacked matrices differ\n got  %s\n want %s", got.str(80).c_str(), y.str(80).c_str());
    expect(src, a, "source of the conversion");
    s.tag("matrix layouts");
    if (k > 1) s.nontrivial();
}

void run(Src &s) {
    Config cfg = gen_config(s);
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    if (s.chance(1, 12)) matrices(s); else program(s);
    end_case();
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P17";
    p.rule = "A case runs a random straight-line program over cooperative vectors (packing, unpacking, literals, loads, add/sub/mul/min/max/step, fma, casts between all types, matrix-vector products with bias, transposition, offset and stride, "
             "accumulation and outer products into shared buffers) at the top level, under a mask, or recorded into a loop, conditional or call, and compares all components and buffers with a scalar model; or it converts matrices between layouts and back. "
             "Float programs with products and accumulation use bounded integers, so that every order of summation is exact; a quarter uses arbitrary values. Non-trivial: several lanes and at least two statements.";
    p.setup = init_process;
    p.run = run;
    return p;
}
