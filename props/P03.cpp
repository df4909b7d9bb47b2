// P03: optimizations, configuration and evaluation points never change results
#include "prog.h"
#include "mem.h"
using namespace prog;

namespace {
// ---- Same program, several configurations --------------------------------
void run_configs(Src &s) {
    Gen g;
    g.loops = (uint32_t) s.below(4); g.ifs = (uint32_t) s.below(4); g.calls = (uint32_t) s.below(3); g.side = (uint32_t) s.below(4);
    g.arrays = (uint32_t) s.below(3); g.stmts = 3 + (uint32_t) s.below(7); g.ops = 8 + (uint32_t) s.below(12);
    g.depth = 1 + (uint32_t) s.below(2);
    Prog p = gen_program(s, g);
    s.note("%s", p.str().c_str());
    Model m = interpret(p);
    size_t runs = 2 + s.below(4);
    for (size_t k = 0; k < runs; ++k) {
        Config cfg = gen_config(s);
        if (p.nested_side) cfg.flags |= (uint32_t) JitFlag::OptimizeLoops; // known finding of P09
        if (s.chance(1, 6)) cfg.flags |= (uint32_t) JitFlag::Debug;
        apply_config(cfg);
        s.note("run %zu: %s", k, cfg.str().c_str());
        Session x;
        make_inputs(s, p, x);
        ExecOpts o;
        if (s.flip()) { o.cuts = s.flip() ? ~0ull : s.bits() & s.bits(); o.cut_kind = s.bits(); s.note("cuts %lx kind %lx", (unsigned long) o.cuts, (unsigned long) o.cut_kind); }
        std::vector<Var> before;
        bool keep = s.chance(1, 3);
        if (keep) before = x.targets;
        execute(p, x, o);
        compare(p, x, m, "program");
        if (keep) for (size_t i = 0; i < before.size(); ++i) expect(before[i], p.targets[i].init, strf("t%zu before the program", i).c_str());
        if (s.chance(1, 8)) jit_flush_kernel_cache();
    }
    s.tag("program executions", runs); s.tag("statements", p.n_stmt); s.tag("lanes", p.n);
    if (p.n_stmt > 4) s.nontrivial();
    end_case();
}

// ---- Value numbering -----------------------------------------------------
// A pool of expressions that are nearly the same, are dropped and traced again
enum class R { Mem, Lit, Ctr, Op, Cast, Gather, Block, Prefix, Resize, Bitcast, ArrElem };
struct Def {
    R k = R::Mem; VarType t = VarType::Void;
    JitOp op = JitOp::Add; int d[3] = { -1, -1, -1 };
    uint64_t val = 0; size_t size = 1, bs = 1;
    int buf = -1; ReduceOp red = ReduceOp::Add; bool excl = false, rev = false; bool sym = true;
    Arr a; Var v; bool alive = true;
};
const std::vector<JitOp> fl{ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Fma, JitOp::Min, JitOp::Max, JitOp::Neg, JitOp::Abs, JitOp::Floor, JitOp::Ceil,
    JitOp::Round, JitOp::Trunc, JitOp::Sqrt, JitOp::Select, JitOp::Eq, JitOp::Neq, JitOp::Lt, JitOp::Le, JitOp::Gt, JitOp::Ge };
const std::vector<JitOp> in{ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::MulHi, JitOp::Fma, JitOp::Min, JitOp::Max, JitOp::Neg, JitOp::Abs, JitOp::Not, JitOp::And, JitOp::Or, JitOp::Xor,
    JitOp::Shl, JitOp::Shr, JitOp::Div, JitOp::Mod, JitOp::Popc, JitOp::Clz, JitOp::Ctz, JitOp::Brev, JitOp::Select,
    JitOp::Eq, JitOp::Neq, JitOp::Lt, JitOp::Le, JitOp::Gt, JitOp::Ge };
const std::vector<JitOp> bo{ JitOp::Not, JitOp::And, JitOp::Or, JitOp::Xor, JitOp::Select, JitOp::Eq, JitOp::Neq };

struct Cse {
    Src &s; size_t n; std::vector<Def> defs; std::vector<std::pair<Var, Arr>> bufs;
    std::vector<VarType> types;
    uint32_t near = 0, again = 0, dropped = 0;
    Cse(Src &s, size_t n) : s(s), n(n) {}
    std::vector<int> cands(VarType t, size_t sz = 0) {
        std::vector<int> c;
        for (size_t i = 0; i < defs.size(); ++i) if (defs[i].t == t && (!sz || defs[i].size == sz)) c.push_back((int) i);
        return c;
    }
    int pick(VarType t) {
        auto c = cands(t);
        if (c.empty() || s.chance(1, 6)) return leaf(t);
        return c.size() > 6 && s.flip() ? c[c.size() - 1 - s.below(6)] : c[s.below(c.size())];
    }
    VarType type() { return s.pick(types); }
    int leaf(VarType t) {
        Def d; d.t = t;
        switch (s.weighted({ 3, 4, 1 })) {
            case 0: d.k = R::Mem; d.size = s.chance(1, 5) ? 1 : n; d.a = gen_arr(s, t, d.size); break;
            case 1: d.k = R::Lit; d.size = s.chance(1, 4) ? n : 1; d.val = gen_value(s, t); break;
            default: if (t != VarType::UInt32) { d.k = R::Lit; d.val = gen_value(s, t, Dist::Small); } else { d.k = R::Ctr; d.size = n; } break;
        }
        return push(d);
    }
    int push(Def d) {
        if (!build(d)) return -1;
        defs.push_back(std::move(d));
        s.note("%s", text((int) defs.size() - 1).c_str());
        return (int) defs.size() - 1;
    }
    /// Variable of a definition; traced again when it was dropped
    Var var(int i) {
        Def &d = defs[i];
        if (!d.v) {
            Def e = d;
            again++;
            if (!build(e)) { // left the defined domain after a source changed
                e.k = R::Lit; e.val = 0; e.d[0] = e.d[1] = e.d[2] = -1; e.size = d.size;
                d = e; build(d);
                return d.v;
            }
            // Gathers read the current contents of their source
            d.v = e.v; d.a = e.a;
        }
        return d.v;
    }
    bool build(Def &d) {
        // Operands (their contents may change when they are traced again)
        Var o[3];
        const Arr *m[3] = { nullptr, nullptr, nullptr };
        for (int i = 0; i < 3; ++i) if (d.d[i] >= 0) { o[i] = var(d.d[i]); m[i] = &defs[d.d[i]].a; }
        size_t all = 1;
        for (auto *a : m) if (a && a->size() != 1) { if (all != 1 && all != a->size()) return false; all = a->size(); }
        switch (d.k) {
            case R::Mem: d.v = upload(d.a); break;
            case R::Lit: d.a = Arr(d.t, d.size, d.val); d.v = literal(d.t, d.val, d.size); break;
            case R::Ctr: d.a = Arr(d.t, d.size); for (size_t i = 0; i < d.size; ++i) d.a.v[i] = i; d.v = d.size == 1 ? u32(0) : ctr(d.size); break;
            case R::Op: {
                uint32_t ar = op_arity(d.op);
                VarType t = m[ar - 1]->t;
                size_t sz = 1;
                for (uint32_t i = 0; i < ar; ++i) sz = std::max(sz, m[i]->size());
                d.size = sz; d.t = op_result(d.op, t);
                Arr r(d.t, sz);
                for (size_t l = 0; l < sz; ++l) {
                    uint64_t a[3];
                    for (uint32_t i = 0; i < ar; ++i) a[i] = m[i]->at(l);
                    if (!ref_op(d.op, t, a, r.v[l])) return false;
                    // A product with a literal zero is zero
                    if (is_float(t) && (d.op == JitOp::Mul || d.op == JitOp::Fma) && (fzero(t, a[0]) || fzero(t, a[1]))) {
                        double x = to_d(t, a[0]), y = to_d(t, a[1]);
                        if (!std::isfinite(x) || !std::isfinite(y)) return false;
                    }
                }
                d.a = r;
                std::vector<Arg> in;
                for (uint32_t i = 0; i < ar; ++i) in.push_back(o[i]);
                d.v = jit_op(d.op, in);
                break;
            }
            case R::Cast: case R::Bitcast: {
                d.size = m[0]->size();
                Arr r(d.t, d.size);
                for (size_t l = 0; l < d.size; ++l) {
                    if (d.k == R::Bitcast) { if (fnan(m[0]->t, m[0]->v[l]) || fzero(m[0]->t, m[0]->v[l])) return false; r.v[l] = m[0]->v[l]; }
                    else if (!ref_cast(m[0]->t, d.t, m[0]->v[l], r.v[l])) return false;
                }
                d.a = r;
                d.v = steal(jit_var_cast(o[0].id(), d.t, d.k == R::Bitcast));
                break;
            }
            case R::Gather: {
                Arr &b = bufs[d.buf].second;
                d.t = b.t;
                size_t sz = std::max(m[0]->size(), m[1] ? m[1]->size() : 1);
                d.size = sz;
                Arr r(d.t, sz);
                for (size_t l = 0; l < sz; ++l) r.v[l] = (m[1] && !m[1]->at(l)) ? 0 : b.v[m[0]->at(l) % b.size()];
                d.a = r;
                Var i = steal(jit_var_mod(o[0].id(), u32((uint32_t) b.size()).id()));
                d.v = steal(jit_var_gather(bufs[d.buf].first.id(), i.id(), (m[1] ? o[1] : boolean(true)).id()));
                break;
            }
            case R::Block: {
                if (m[0]->size() != n || n % d.bs) return false;
                d.size = n / d.bs; d.t = m[0]->t;
                Arr r(d.t, d.size);
                for (size_t k = 0; k < d.size; ++k) {
                    uint64_t x = m[0]->v[k * d.bs];
                    for (size_t j = 1; j < d.bs; ++j) x = ref_reduce(d.red, d.t, x, m[0]->v[k * d.bs + j]);
                    r.v[k] = x;
                }
                d.a = r;
                d.v = steal(jit_var_block_reduce(d.red, o[0].id(), (uint32_t) d.bs, d.sym ? 1 : 0));
                break;
            }
            case R::Prefix: {
                if (m[0]->size() != n) return false;
                d.size = n; d.t = m[0]->t;
                Arr r(d.t, n);
                for (size_t b = 0; b < n; b += d.bs) {
                    size_t e = std::min(n, b + d.bs);
                    uint64_t acc = ref_identity(d.red, d.t);
                    for (size_t j = b; j < e; ++j) {
                        size_t q = d.rev ? e - 1 - (j - b) : j;
                        if (d.excl) r.v[q] = acc;
                        acc = ref_reduce(d.red, d.t, acc, m[0]->v[q]);
                        if (!d.excl) r.v[q] = acc;
                    }
                }
                d.a = r;
                d.v = steal(jit_var_block_prefix_reduce(d.red, o[0].id(), (uint32_t) d.bs, d.excl, d.rev));
                break;
            }
            case R::Resize: {
                if (m[0]->size() != 1) return false;
                d.t = m[0]->t; d.size = n; d.a = Arr(d.t, n, m[0]->v[0]);
                d.v = steal(jit_var_resize(o[0].id(), n));
                break;
            }
            case R::ArrElem: { // element of a local array that is written twice
                size_t sz = std::max(m[0]->size(), m[1]->size());
                d.size = sz; d.t = m[0]->t;
                uint32_t len = (uint32_t) d.bs, k = (uint32_t) (d.val % len), w = (uint32_t) (d.val / len % len);
                Var arr = steal(jit_array_create(BE, d.t, m[0]->size(), len));
                arr = steal(jit_array_init(arr.id(), o[0].id()));
                arr = steal(jit_array_write(arr.id(), u32(w).id(), o[1].id(), boolean(true).id()));
                d.v = steal(jit_array_read(arr.id(), u32(k).id(), boolean(true).id()));
                Arr r(d.t, sz);
                for (size_t l = 0; l < sz; ++l) r.v[l] = k == w ? m[1]->at(l) : m[0]->at(l);
                d.a = r;
                break;
            }
        }
        return true;
    }
    bool is_red(VarType t) { return is_int(t) && tsize(t) >= 4; }
    void fresh() {
        Def d;
        VarType t = type();
        switch (s.weighted({ 10, 3, 3, 1, 1, 1, 1, 1 })) {
            case 0: {
                d.k = R::Op;
                d.op = s.pick(is_float(t) ? fl : is_bool(t) ? bo : in);
                if (!op_supports(d.op, t)) return;
                uint32_t ar = op_arity(d.op);
                for (uint32_t i = 0; i < ar; ++i) d.d[i] = i && s.chance(1, 8) && d.op != JitOp::Select ? d.d[0] : pick(d.op == JitOp::Select && i == 0 ? VarType::Bool : t);
                break;
            }
            case 1: d.k = R::Cast; d.t = t; d.d[0] = pick(type()); break;
            case 2: d.k = R::Gather; d.buf = (int) s.below(bufs.size()); d.d[0] = pick(VarType::UInt32); if (s.flip()) d.d[1] = pick(VarType::Bool); break;
            case 3: case 4: {
                auto c = cands(t, n);
                if (!is_red(t) || c.empty() || n == 1) return;
                d.d[0] = s.pick(c); d.k = s.flip() ? R::Block : R::Prefix;
                d.red = s.pick({ ReduceOp::Add, ReduceOp::Min, ReduceOp::Max });
                d.bs = s.pick<size_t>({ 2, 1, 4, 8, n }); d.sym = s.flip(); d.excl = s.flip(); d.rev = s.flip();
                if (d.bs > n) return;
                break;
            }
            case 5: { auto c = cands(t, 1); if (c.empty() || n == 1) return; d.k = R::Resize; d.d[0] = s.pick(c); break; }
            case 6: { VarType f = type(); if (tsize(f) != tsize(t) || f == t || is_bool(f) != is_bool(t)) return; d.k = R::Bitcast; d.t = t; d.d[0] = pick(f); break; }
            default: if (is_bool(t) && s.flip()) return; d.k = R::ArrElem; d.t = t; d.bs = 1 + s.below(4); d.val = s.below(16); d.d[0] = pick(t); d.d[1] = pick(t); break;
        }
        for (int i = 0; i < 3; ++i) if (d.d[i] < -1) return;
        if ((d.k == R::Op && (d.d[0] < 0 || (op_arity(d.op) > 1 && d.d[1] < 0) || (op_arity(d.op) > 2 && d.d[2] < 0))) || (d.k != R::Op && d.d[0] < 0)) return;
        push(d);
    }
    /// A definition that differs from an earlier one in one component (or not at all)
    void similar() {
        if (defs.empty()) return;
        Def d = defs[s.below(defs.size())];
        d.v.reset();
        switch (d.k) {
            case R::Lit: switch (s.below(4)) {
                case 0: d.val ^= is_bool(d.t) ? 1 : 1ull << s.below(tsize(d.t) * 8); if (is_float(d.t) && fnan(d.t, d.val)) d.val = from_d(d.t, NAN); break;
                case 1: d.size = d.size == 1 ? n : 1; break;
                case 2: { VarType t = type(); if (tsize(t) == tsize(d.t) && is_bool(t) == is_bool(d.t)) d.t = t; break; }
                default: break; }
                break;
            case R::Mem: if (s.flip()) d.a.v[s.below(d.a.size())] = gen_value(s, d.t); break;
            case R::Op: {
                uint32_t ar = op_arity(d.op);
                if (s.chance(1, 3)) { // other operation
                    VarType t = defs[d.d[ar - 1]].t;
                    JitOp o = s.pick(is_float(t) ? fl : is_bool(t) ? bo : in);
                    if (op_arity(o) == ar && (o == JitOp::Select) == (d.op == JitOp::Select) && op_supports(o, t)) d.op = o;
                } else if (s.chance(2, 3)) {
                    uint32_t i = (uint32_t) s.below(ar);
                    int x = pick(defs[d.d[i]].t);
                    if (x >= 0) d.d[i] = x;
                    if (s.chance(1, 4) && d.op != JitOp::Select) std::swap(d.d[0], d.d[ar - 1]);
                }
                break;
            }
            case R::Cast: if (s.flip()) { int x = pick(type()); if (x >= 0) d.d[0] = x; } else d.t = type(); break;
            case R::Gather: switch (s.below(4)) {
                case 0: d.buf = (int) s.below(bufs.size()); break;
                case 1: d.d[0] = pick(VarType::UInt32); break;
                case 2: d.d[1] = s.flip() ? -1 : pick(VarType::Bool); break;
                default: break; }
                if (d.d[0] < 0) return;
                break;
            case R::Block: case R::Prefix: switch (s.below(4)) {
                case 0: d.red = s.pick({ ReduceOp::Add, ReduceOp::Min, ReduceOp::Max }); break;
                case 1: d.bs = s.pick<size_t>({ 2, 1, 4, 8, n }); if (d.bs > n) return; break;
                case 2: d.excl = !d.excl; break;
                default: d.rev = !d.rev; d.sym = !d.sym; }
                break;
            case R::Bitcast: { VarType f = defs[d.d[0]].t, t = type(); if (tsize(f) == tsize(t) && f != t && is_bool(f) == is_bool(t)) d.t = t; break; }
            case R::ArrElem: switch (s.below(3)) { case 0: d.val = s.below(16); break; case 1: d.bs = 1 + s.below(4); break;
                default: { int x = pick(defs[d.d[1]].t); if (x >= 0) d.d[1] = x; } } break;
            default: break;
        }
        near++;
        push(d);
    }
    std::string text(int i) {
        Def &d = defs[i];
        auto D = [&](int k) { return d.d[k] < 0 ? std::string("-") : strf("e%d", d.d[k]); };
        std::string o = strf("e%d:%s[%zu] = ", i, tname(d.t), d.size);
        switch (d.k) {
            case R::Mem: return o + "memory " + d.a.str(8);
            case R::Lit: return o + "literal " + vstr(d.t, d.val);
            case R::Ctr: return o + "counter";
            case R::Op: return o + op_name(d.op) + "(" + D(0) + "," + D(1) + "," + D(2) + ")";
            case R::Cast: return o + "cast " + D(0);
            case R::Bitcast: return o + "bitcast " + D(0);
            case R::Gather: return o + strf("gather(buf%d, ", d.buf) + D(0) + ", " + D(1) + ")";
            case R::Block: return o + strf("block_reduce(%s, ", red_name(d.red)) + D(0) + strf(", %zu, symbolic=%d)", d.bs, d.sym);
            case R::Prefix: return o + strf("block_prefix_reduce(%s, ", red_name(d.red)) + D(0) + strf(", %zu, exclusive=%d, reverse=%d)", d.bs, d.excl, d.rev);
            case R::Resize: return o + "resize " + D(0);
            case R::ArrElem: return o + strf("array[%zu](", d.bs) + D(0) + strf(") with [%zu] = ", d.val / d.bs % d.bs) + D(1) + strf(", read [%zu]", d.val % d.bs);
        }
        return o;
    }
    void step() {
        switch (s.weighted({ 6, 8, 4, 2, 2, 1, 1, 1, 1 })) {
            case 0: fresh(); break;
            case 1: similar(); break;
            case 2: { // drop a handle (operands of later expressions may keep the node alive)
                if (defs.empty()) return;
                size_t i = s.below(defs.size());
                if (defs[i].v) { defs[i].v.reset(); dropped++; s.note("  drop e%zu", i); }
                break;
            }
            case 3: { if (defs.empty()) return; int i = (int) s.below(defs.size()); s.note("  trace e%d again", i); defs[i].v.reset(); var(i); break; }
            case 4: { if (defs.empty()) return; int i = (int) s.below(defs.size()); s.note("  evaluate e%d", i); Var v = var(i); jit_var_eval(v.id()); break; }
            case 5: { s.note("  evaluate several"); for (auto &d : defs) if (d.v && s.flip()) jit_var_schedule(d.v.id()); jit_eval(); break; }
            case 6: { // modify or replace a source
                size_t b = s.below(bufs.size());
                auto &[v, a] = bufs[b];
                if (s.flip()) {
                    s.note("  replace buf%zu", b);
                    v.reset();
                    if (s.flip()) jit_sync_thread();
                    for (auto &x : a.v) x = gen_value(s, a.t, Dist::Small);
                    v = upload(a);
                } else {
                    size_t i = s.below(a.size());
                    uint64_t x = gen_value(s, a.t, Dist::Small);
                    s.note("  buf%zu[%zu] = %s", b, i, vstr(a.t, x).c_str());
                    a.v[i] = x;
                    v = steal(jit_var_scatter(v.id(), literal(a.t, x).id(), u32((uint32_t) i).id(), boolean(true).id(), ReduceOp::Identity, ReduceMode::Auto));
                }
                break;
            }
            case 7: {
                static const JitFlag f[] = { JitFlag::ConstantPropagation, JitFlag::ValueNumbering, JitFlag::ReuseIndices, JitFlag::PacketOps };
                JitFlag x = f[s.below(4)];
                jit_set_flag(x, !jit_flag(x));
                s.note("  toggle flag %u", (unsigned) x);
                break;
            }
            default: s.note("  new scope"); jit_new_scope(BE);
        }
    }
};
void run_cse(Src &s) {
    Config cfg = gen_config(s);
    cfg.flags |= (uint32_t) JitFlag::ConstantPropagation | (uint32_t) JitFlag::ValueNumbering;
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    {
        Cse c(s, s.pick<size_t>({ 4, 8, 16, 24, 1, 3, 19, 64 }));
        c.types = { VarType::UInt32, VarType::Bool };
        size_t nt = 1 + s.below(4);
        for (size_t i = 0; i < nt; ++i) c.types.push_back(s.pick(all_types()));
        for (size_t i = 0; i < 2; ++i) {
            Arr a = gen_arr(s, c.type(), 1 + s.below(12), Dist::Small);
            c.bufs.push_back({ upload(a), a });
            s.note("buf%zu = %s", i, a.str(12).c_str());
        }
        for (int i = 0; i < 3; ++i) c.leaf(c.type());
        size_t steps = 12 + s.below(thorough() ? 120 : 50);
        for (size_t i = 0; i < steps; ++i) c.step();
        size_t k = 0;
        for (auto &d : c.defs) if (d.v) jit_var_schedule(d.v.id());
        for (size_t i = 0; i < c.defs.size(); ++i)
            if (c.defs[i].v) { Arr want = c.defs[i].a; expect(c.defs[i].v, want, c.text((int) i).c_str()); k++; }
        s.tag("expressions compared", k); s.tag("nearly equal expressions", c.near); s.tag("expressions traced again", c.again); s.tag("dropped handles", c.dropped);
        if (k >= 4 && c.near >= 2) s.nontrivial();
    }
    end_case();
}
void run(Src &s) {
    if (s.flip()) run_configs(s); else run_cse(s);
}
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P03";
    p.rule = "Half of the cases execute one random structured program (loops, conditionals, calls, arrays, gathers, scatters) 2-5 times in one process under different random flags (constant propagation, value numbering, packet "
             "memory operations, loop/call optimizations, debug mode, kernel history ..), vector widths, block sizes, thread counts, schedules and evaluation points, comparing every execution with the lane-by-lane "
             "interpreter (and, in a third, the unmodified targets). The others build a pool of expressions in which many differ in a single component (operation, operand, literal bits, type, size, block size, source), drop and "
             "trace them again, evaluate some, modify or replace gather sources, toggle optimizations and open scopes, comparing all live expressions with their model. Non-trivial: a program of more than 4 statements, or at least "
             "4 compared and 2 nearly equal expressions.";
    p.setup = init_process;
    p.run = run;
    p.assumptions = { "operations whose result may legally differ by rounding (rsqrt, division by float literals) are excluded" };
    return p;
}
