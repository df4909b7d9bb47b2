// P16: replaying a frozen recording against executing the same code again
#include "prog.h"
using namespace prog;

// ---- Straight-line functions with evaluation, reductions, scatters -------
enum Cls { CN, C1, CT, CB, CX, CZ }; // N lanes, 1, table, N/block, compressed, two values
struct RegD { VarType t; Cls c; };
enum class S { Bin, Un, Fma, Sel, Cmp, Cast, Const, Ctr, Width, Gather, Scatter, Reduce, RedInto, BlockRed, Prefix, Dot, AnyAll, Compress, Loop, Eval, EvalAll, Paused, Undefined, Copy, Shrink, Reverse, Tile, Gemm, Perm, View };
struct Step { S k; int dst = -1, a = -1, b = -1, c = -1; JitOp op = JitOp::Add; ReduceOp r = ReduceOp::Add; ReduceMode m = ReduceMode::Auto; uint64_t x = 0, y = 0; };
struct Fn {
    std::vector<RegD> regs;
    size_t n_in = 0;
    std::vector<Step> steps;
    std::vector<int> outs;
    std::vector<uint8_t> moved;  // inputs that the function takes over (may be modified in place)
    bool var = false;            // also valid for other sizes
    bool has_expand = false, has_compress = false, has_block = false;
    size_t tmin = 4;
    std::string str() const;
};
struct Sizes { size_t n, t, bs; size_t of(Cls c) const { return c == CN ? n : c == CT ? t : c == CB ? n / bs : 1; } };

static const std::vector<VarType> &types() {
    static std::vector<VarType> v{ VarType::UInt32, VarType::Float32, VarType::Int32, VarType::Float64, VarType::UInt64, VarType::UInt8, VarType::Float16, VarType::Int16 };
    return v;
}
static Arr contents(Src &s, VarType t, size_t n) {
    Arr a(t, n);
    Src q(s.bits());
    bool none = is_bool(t) && q.below(8) == 0;
    for (auto &x : a.v) x = none ? 0 : is_bool(t) ? q.below(2) : from_i(t, q.range(is_signed(t) ? -9 : 0, 9));
    return a;
}
static Arr index_contents(Src &s, size_t n) { // also used as u32 data
    Arr a(VarType::UInt32, n);
    Src q(s.bits());
    for (auto &x : a.v) x = q.below(1000);
    return a;
}

static Fn gen_fn(Src &s, const Sizes &z) {
    Fn f;
    f.var = s.flip();
    f.tmin = z.t < 4 ? z.t : 4;
    if (f.var) f.tmin = 2;
    auto add_reg = [&](VarType t, Cls c) { f.regs.push_back({ t, c }); return (int) f.regs.size() - 1; };
    auto find = [&](std::function<bool(const RegD &)> ok) {
        std::vector<int> c;
        for (size_t i = 0; i < f.regs.size(); ++i) if (ok(f.regs[i])) c.push_back((int) i);
        return c.empty() ? -1 : c[s.below(c.size())];
    };
    // Inputs: 0 is always a u32 array of N lanes
    add_reg(VarType::UInt32, CN);
    size_t extra = 1 + s.below(5);
    for (size_t i = 0; i < extra; ++i) {
        Cls c = s.pick({ CN, CT, C1, CN });
        add_reg(s.chance(1, 8) ? VarType::Bool : s.pick(types()), c);
    }
    f.n_in = f.regs.size();
    for (size_t i = 0; i < f.n_in; ++i) f.moved.push_back(i && s.chance(1, 3));
    size_t n = 2 + s.below(10);
    bool v = f.var;
    auto wide = [&](const RegD &r) { return r.c == CN; };
    for (size_t k = 0; k < n; ++k) {
        Step st;
        switch (s.weighted({ 6, 2, 2, 2, 2, 2, 2, 2, 2, 4, 3, 4, 2, 3, 2, 2, 2, 1, 2, 3, 2, 2, 1, 1, 2, 1, 1, 1 })) {
            case 0: case 1: case 2: case 3: case 4: { // element-wise
                int a = find([&](const RegD &r) { return !is_bool(r.t) && r.c != CX && r.c != CZ; });
                VarType t = f.regs[a].t;
                Cls c = f.regs[a].c;
                auto compat = [&](const RegD &r) { return r.t == t && (r.c == c || r.c == C1 || (c == C1 && r.c != CX && r.c != CZ)); };
                int b = find(compat);
                if (v && a == b) continue;
                Cls c2 = f.regs[b].c == C1 ? c : f.regs[b].c;
                st.a = a; st.b = b;
                switch (s.below(5)) {
                    case 0: case 1: st.k = S::Bin; st.op = is_float(t) ? s.pick({ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Min, JitOp::Max })
                                                                       : s.pick({ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Xor, JitOp::Or, JitOp::Min, JitOp::Max });
                        if (v && (st.op == JitOp::Sub || st.op == JitOp::Xor)) st.op = JitOp::Add; // could be folded to a literal of the recorded size
                        st.dst = add_reg(t, c2); break;
                    case 2: st.k = S::Un; st.op = is_float(t) ? s.pick({ JitOp::Neg, JitOp::Abs }) : s.pick({ JitOp::Not, JitOp::Neg }); st.dst = add_reg(t, c); break;
                    case 3: { int d = find([&](const RegD &r) { return r.t == t && (r.c == c2 || r.c == C1); }); if (d < 0) continue; st.k = S::Fma; st.c = d; st.dst = add_reg(t, c2); break; }
                    default: if (v && f.regs[a].c == f.regs[b].c && f.regs[a].c != C1) continue; st.k = S::Cmp; st.op = s.pick({ JitOp::Lt, JitOp::Eq, JitOp::Ge, JitOp::Neq }); st.dst = add_reg(VarType::Bool, c2);
                }
                if (s.chance(1, 6) && st.k == S::Cmp) { // and select with it
                    f.steps.push_back(st);
                    Step q; q.k = S::Sel; q.a = st.dst; q.b = a; q.c = b; q.dst = add_reg(t, c2);
                    st = q;
                }
                break;
            }
            case 5: { int a = find([&](const RegD &r) { return r.c != CX && r.c != CZ && !is_float(r.t); }); st.k = S::Cast; st.a = a; st.dst = add_reg(s.pick(types()), f.regs[a].c); break; }
            case 6: { VarType t = s.pick(types()); st.k = S::Const; st.x = from_i(t, (int64_t) (1 + s.below(7))); st.dst = add_reg(t, C1); break; }
            case 7: { Cls c = v ? CN : s.pick({ CN, CT }); st.k = S::Ctr; st.dst = add_reg(VarType::UInt32, c); break; }
            case 8: { int a = find([&](const RegD &r) { return r.c == CN || r.c == CT; }); st.k = S::Width; st.a = a; st.dst = add_reg(VarType::UInt32, C1); break; }
            case 9: {
                int src = find([&](const RegD &r) { return r.c == CN || r.c == CT || r.c == CZ || (!v && r.c == CX); });
                int ix = find([&](const RegD &r) { return r.t == VarType::UInt32 && (r.c == CN || (!v && r.c != CX && r.c != CZ)); });
                if (src < 0) continue;
                st.k = S::Gather; st.a = src; st.b = ix; st.x = s.below(3);
                st.dst = add_reg(f.regs[src].t, f.regs[ix].c);
                break;
            }
            case 10: { // exclusive writes: every lane its own element
                int tg = find([&](const RegD &r) { return r.c == CN; });
                VarType t = f.regs[tg].t;
                int val = find([&](const RegD &r) { return r.t == t && r.c == CN; });
                st.k = S::Scatter; st.a = tg; st.b = val; st.x = s.below(3); st.m = s.pick({ ReduceMode::Auto, ReduceMode::Permute, ReduceMode::NoConflicts });
                break;
            }
            case 11: case 12: { // conflicting reductions into a table
                static const std::vector<VarType> rt{ VarType::UInt32, VarType::Int32, VarType::Float32, VarType::Float64, VarType::UInt64 };
                int tg = find([&](const RegD &r) { return (r.c == CT || r.c == CZ || (r.c == C1 && s.below(2))) && std::find(rt.begin(), rt.end(), r.t) != rt.end(); });
                if (tg >= 0 && f.regs[tg].c == C1) tg = -1;
                bool fresh = false;
                if (tg < 0 || s.chance(1, 3)) { // fresh target
                    fresh = true;
                    Step q; q.k = S::Undefined; q.x = s.pick<uint64_t>({ 0, 0, 1 }); tg = add_reg(s.pick(rt), s.pick({ CT, CZ, CT })); q.dst = tg;
                    if (v) f.regs[tg].c = CZ;
                    f.steps.push_back(q);
                }
                VarType t = f.regs[tg].t;
                int val = find([&](const RegD &r) { return r.t == t && r.c == CN; });
                if (val < 0) { Step q; q.k = S::Cast; q.a = 0; val = add_reg(t, CN); q.dst = val; f.steps.push_back(q); }
                st.k = S::RedInto; st.a = tg; st.b = val; st.c = find([&](const RegD &r) { return r.t == VarType::UInt32 && wide(r); });
                st.r = is_float(t) ? (fresh && s.flip() ? ReduceOp::Add : s.pick({ ReduceOp::Min, ReduceOp::Max })) : s.pick({ ReduceOp::Add, ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::Or, ReduceOp::And });
                st.m = s.pick({ ReduceMode::Auto, ReduceMode::Local, ReduceMode::Direct, ReduceMode::Expand });
                break;
            }
            case 13: {
                int a = find([&](const RegD &r) { return r.c == CN && (tsize(r.t) > 2 || r.t == VarType::Float16); });
                st.k = S::BlockRed; st.a = a; st.x = s.below(2); // whole / blocks
                st.r = s.pick({ ReduceOp::Add, ReduceOp::Min, ReduceOp::Max }); 
                f.has_block = true;
                st.dst = add_reg(f.regs[a].t, st.x ? CB : C1);
                break;
            }
            case 14: { int a = find([&](const RegD &r) { return r.c == CN && (tsize(r.t) > 2 || r.t == VarType::Float16); }); st.k = S::Prefix; st.a = a; st.x = s.below(2); st.y = s.below(4); st.r = s.pick({ ReduceOp::Add, ReduceOp::Min, ReduceOp::Max }); f.has_block = true; st.dst = add_reg(f.regs[a].t, CN); break; }
            case 15: { int a = find([&](const RegD &r) { return r.c == CN && is_float(r.t); }); if (a < 0) continue; VarType t = f.regs[a].t; int b = find([&](const RegD &r) { return r.c == CN && r.t == t; }); st.k = S::Dot; f.has_block = true; st.a = a; st.b = b; st.dst = add_reg(t, C1); break; }
            case 16: { int a = find([&](const RegD &r) { return r.c == CN && is_bool(r.t); }); if (a < 0) continue; st.k = S::AnyAll; f.has_block = true; st.a = a; st.x = s.below(2); st.dst = add_reg(VarType::Bool, C1); break; }
            case 17: { int a = find([&](const RegD &r) { return r.c == CN && is_bool(r.t); }); if (a < 0) continue; st.k = S::Compress; st.a = a; f.has_compress = true; st.dst = add_reg(VarType::UInt32, CX); break; }
            case 18: { int a = find([&](const RegD &r) { return r.c == CN && !is_bool(r.t); }); st.k = S::Loop; st.a = a; st.b = find([&](const RegD &r) { return r.t == VarType::UInt32 && r.c == CN; }); st.x = 1 + s.below(3); st.dst = add_reg(f.regs[a].t, CN); break; }
            case 19: { st.k = S::Eval; st.a = find([](const RegD &) { return true; }); break; }
            case 20: st.k = S::EvalAll; break;
            case 21: st.k = S::Paused; st.x = s.below(3); break;
            case 22: { if (v) continue; st.k = S::Undefined; st.x = s.below(2); st.dst = add_reg(s.pick(types()), s.pick({ CT, CN })); break; }
            case 24: { int a = find([&](const RegD &r) { return r.c == CN || r.c == CT; }); if (v) continue; st.k = S::Shrink; st.a = a; st.dst = add_reg(f.regs[a].t, CZ); break; }
            case 25: { int a = find([&](const RegD &r) { return r.c == CN || (!v && r.c == CT); }); if (v) continue; st.k = S::Reverse; st.a = a; st.dst = add_reg(f.regs[a].t, f.regs[a].c); break; }
            case 26: { int a = find([&](const RegD &r) { return r.c == CT && (r.t == VarType::Float32 || r.t == VarType::Float64 || r.t == VarType::Float16); }); if (a < 0 || v) continue;
                       st.k = S::Gemm; st.a = a; st.b = find([&](const RegD &r) { return r.c == CT && r.t == f.regs[a].t; }); f.has_block = true; st.dst = add_reg(f.regs[a].t, C1); break; }
            case 27: { int a = find([&](const RegD &r) { return r.c == CN && r.t == VarType::UInt32; }); if (v) continue; st.k = S::Perm; st.a = a; st.x = s.below(3); st.dst = add_reg(VarType::UInt32, CN); break; }
            default: { st.k = S::Copy; st.a = find([](const RegD &r) { return r.c != CX; }); st.x = s.below(2); st.dst = add_reg(f.regs[st.a].t, f.regs[st.a].c); break; }
        }
        f.steps.push_back(st);
    }
    size_t no = 1 + s.below(4);
    for (size_t i = 0; i < no; ++i) f.outs.push_back((int) s.below(f.regs.size()));
    for (size_t i = 0; i < f.n_in; ++i) if (f.moved[i]) f.outs.push_back((int) i);
    return f;
}
std::string Fn::str() const {
    static const char *cn[] = { "N", "1", "T", "N/b", "x", "2" };
    static const char *kn[] = { "bin", "un", "fma", "sel", "cmp", "cast", "const", "ctr", "width", "gather", "scatter", "reduce", "scatter_reduce", "block_reduce", "prefix", "dot", "any/all", "compress", "loop", "eval", "eval_all", "paused", "zeros", "copy", "shrink", "reverse", "tile", "gemm", "mkperm", "shrink view" };
    std::string o = var ? "any size:" : "same size:";
    for (size_t i = 0; i < n_in; ++i) o += strf(" v%zu:%s[%s]%s", i, tname(regs[i].t), cn[regs[i].c], moved[i] ? "(moved)" : "");
    for (auto &st : steps) {
        o += "\n  ";
        if (st.dst >= 0) o += strf("v%d:%s[%s] = ", st.dst, tname(regs[st.dst].t), cn[regs[st.dst].c]);
        o += kn[(int) st.k];
        if (st.k == S::Bin || st.k == S::Un || st.k == S::Cmp) o += strf(" %s", op_name(st.op));
        if (st.k == S::RedInto || st.k == S::BlockRed || st.k == S::Prefix) o += strf(" %s", red_name(st.r));
        for (int r : { st.a, st.b, st.c }) if (r >= 0) o += strf(" v%d", r);
        o += strf(" x=%lu y=%lu m=%d", (unsigned long) st.x, (unsigned long) st.y, (int) st.m);
    }
    o += "\n  outputs:";
    for (int r : outs) o += strf(" v%d", r);
    return o;
}

/// Run the function on the given registers (inputs are already there)
struct Exec {
    const Fn &f; Sizes z; bool recording;
    std::vector<Var> r;
    bool empty = false; // a compression found nothing
    Exec(const Fn &f, Sizes z, bool rec) : f(f), z(z), recording(rec), r(f.regs.size()) { }
    Var fit(const Var &v) { return v; }
    void step(const Step &st) {
        VarType t = st.dst >= 0 ? f.regs[st.dst].t : VarType::Void;
        size_t sz = st.dst >= 0 ? (f.regs[st.dst].c == CZ ? 2 : z.of(f.regs[st.dst].c)) : 0;
        auto mod = [&](const Var &i, size_t m) { return jit_op(JitOp::Mod, { i, u32((uint32_t) m) }); };
        Var one = boolean(true);
        switch (st.k) {
            case S::Bin: case S::Cmp: r[st.dst] = jit_op(st.op, { r[st.a], r[st.b] }); break;
            case S::Un: r[st.dst] = jit_op(st.op, { r[st.a] }); break;
            case S::Fma: r[st.dst] = jit_op(JitOp::Fma, { r[st.a], r[st.b], r[st.c] }); break;
            case S::Sel: r[st.dst] = jit_op(JitOp::Select, { r[st.a], r[st.b], r[st.c] }); break;
            case S::Cast: r[st.dst] = f.regs[st.a].t == t ? r[st.a] : steal(jit_var_cast(r[st.a].id(), t, 0)); break;
            case S::Const: r[st.dst] = literal(t, st.x, 1); break;
            case S::Ctr: r[st.dst] = ctr(sz); if (f.var) r[st.dst] = jit_op(JitOp::Add, { r[st.dst], r[0] }); break;
            case S::Width: r[st.dst] = steal(jit_var_opaque_width(r[st.a].id())); break;
            case S::Gather: {
                size_t m = f.regs[st.a].c == CZ ? 2 : f.var ? f.tmin : f.regs[st.a].c == CX ? jit_var_size(r[st.a].id()) : z.of(f.regs[st.a].c);
                if (!r[st.a]) { empty = true; break; }
                if (f.regs[st.a].c == CX) m = 1;
                Var i = mod(r[st.b], m);
                Var mask = st.x == 1 ? jit_op(JitOp::Lt, { r[st.b], u32(500) }) : one;
                r[st.dst] = steal(jit_var_gather(r[st.a].id(), i.id(), mask.id()));
                break;
            }
            case S::Scatter: {
                Var i = ctr(z.n);
                if (st.x == 1 || f.var) { // reversed, through the opaque width
                    Var w = steal(jit_var_opaque_width(r[0].id()));
                    i = jit_op(JitOp::Sub, { jit_op(JitOp::Sub, { w, u32(1) }), i });
                }
                Var mask = st.x == 2 ? jit_op(JitOp::Lt, { r[0], u32(600) }) : one, val = r[st.b];
                Var tg = r[st.a]; // a second reference permits updates in place
                r[st.a] = steal(jit_var_scatter(tg.id(), val.id(), i.id(), mask.id(), ReduceOp::Identity, st.m));
                break;
            }
            case S::RedInto: {
                size_t m = f.regs[st.a].c == CZ ? 2 : f.var ? f.tmin : z.of(f.regs[st.a].c);
                Var i = mod(r[st.c], m);
                Var tg = r[st.a], val = r[st.b];
                VarType vt = f.regs[st.a].t;
                if (is_float(vt) && st.r == ReduceOp::Add) // exact sums
                    val = steal(jit_var_cast(jit_op(JitOp::And, { r[st.c], u32(15) }).id(), vt, 0));
                r[st.a] = steal(jit_var_scatter(tg.id(), val.id(), i.id(), one.id(), st.r, st.m));
                break;
            }
            case S::BlockRed: {
                Var src = r[st.a];
                if (st.x) r[st.dst] = steal(jit_var_block_reduce(st.r, src.id(), (uint32_t) z.bs, 0));
                else r[st.dst] = steal(jit_var_reduce(BE, t, st.r, src.id()));
                break;
            }
            case S::Prefix: r[st.dst] = steal(jit_var_block_prefix_reduce(st.r, r[st.a].id(), st.x ? (uint32_t) z.bs : (uint32_t) z.n, st.y & 1, st.y >> 1)); break;
            case S::Dot: r[st.dst] = steal(jit_var_reduce_dot(r[st.a].id(), r[st.b].id())); break;
            case S::AnyAll: r[st.dst] = steal(st.x ? jit_var_any_async(BE, r[st.a].id()) : jit_var_all_async(BE, r[st.a].id())); break;
            case S::Compress: r[st.dst] = steal(jit_var_compress(r[st.a].id())); if (!r[st.dst]) empty = true; break;
            case S::Loop: {
                // while (i < (b & 3) + x) { y = y * 3 + y0; ++i }
                Var y0 = r[st.a], lim = jit_op(JitOp::Add, { jit_op(JitOp::And, { r[st.b], u32(3) }), u32((uint32_t) st.x) });
                Var i = u32(0), y = y0;
                uint32_t chk = jit_record_begin(BE, "loop"), idx[2] = { i.id(), y.id() };
                struct G { uint32_t c; bool on = true; ~G() { jit_record_end(BE, c, on); } } guard{ chk };
                Var lp = steal(jit_var_loop_start("loop", 0, 2, idx));
                i = steal(idx[0]); y = steal(idx[1]);
                for (int it = 0;; ++it) {
                    if (it > 3) fail("loop recording does not converge");
                    Var cond = jit_op(JitOp::Lt, { i, lim });
                    Var act = steal(jit_var_mask_apply(cond.id(), (uint32_t) jit_var_size(cond.id())));
                    cond.reset();
                    Var lc = steal(jit_var_loop_cond(lp.id(), act.id()));
                    jit_var_mask_push(BE, act.id());
                    act.reset();
                    Var k3 = literal(f.regs[st.a].t, from_i(f.regs[st.a].t, 3));
                    y = jit_op(JitOp::Add, { jit_op(JitOp::Mul, { y, k3 }), y0 });
                    i = jit_op(JitOp::Add, { i, u32(1) });
                    jit_var_mask_pop(BE);
                    idx[0] = i.id(); idx[1] = y.id();
                    int ok = jit_var_loop_end(lp.id(), lc.id(), idx, chk);
                    i = steal(idx[0]); y = steal(idx[1]);
                    if (ok) break;
                }
                guard.on = false;
                r[st.dst] = y;
                break;
            }
            case S::Eval: if (r[st.a]) jit_var_eval(r[st.a].id()); break;
            case S::EvalAll: for (auto &v : r) if (v) jit_var_schedule(v.id()); jit_eval(); break;
            case S::Paused:
                if (recording) {
                    jit_eval();
                    jit_freeze_pause(BE);
                    Arr a(VarType::UInt32, 5); for (size_t i = 0; i < 5; ++i) a.v[i] = i * 3;
                    Var p = upload(a), q = jit_op(JitOp::Add, { p, u32(1) });
                    if (st.x == 1) { Var k = steal(jit_var_reduce(BE, VarType::UInt32, ReduceOp::Add, q.id())); Arr w(VarType::UInt32, 1); w.v[0] = 35; expect(k, w, "reduction while paused"); }
                    else if (st.x == 2) { Var i = u32(2); Var k = steal(jit_var_gather(q.id(), i.id(), one.id())); Arr w(VarType::UInt32, 1); w.v[0] = 7; expect(k, w, "gather while paused"); }
                    else jit_var_eval(q.id());
                    p = Var(); q = Var();
                    jit_freeze_resume(BE);
                }
                break;
            case S::Undefined: { r[st.dst] = literal(t, st.x == 0 ? 0 : from_i(t, 1), sz, 1); break; }
            case S::Copy: r[st.dst] = st.x ? steal(jit_var_copy(r[st.a].id())) : r[st.a]; break;
            case S::Shrink: r[st.dst] = steal(jit_var_shrink(r[st.a].id(), 2)); break;
            case S::Reverse: r[st.dst] = steal(jit_var_reverse(r[st.a].id())); break;
            case S::Gemm: { // row vector times column vector
                r[st.dst] = steal(jit_var_batched_gemm(r[st.a].id(), r[st.b].id(), 0, 0, 1, 1, (uint32_t) z.t, nullptr));
                break;
            }
            case S::Perm: { // stable sorting permutation, by key % 3
                Var key = mod(r[st.a], 3);
                jit_var_eval(key.id());
                void *kp = nullptr;
                Var kd = steal(jit_var_data(key.id(), &kp));
                uint32_t *perm = (uint32_t *) jit_malloc(BE, z.n * 4), *offs = (uint32_t *) jit_malloc(BE, (3 * 4 + 1) * 4);
                jit_block_mkperm(BE, (const uint32_t *) kp, (uint32_t) z.n, (uint32_t) (st.x == 2 ? z.bs : z.n), 3, perm, st.x == 1 ? offs : nullptr);
                jit_free(offs);
                r[st.dst] = steal(jit_var_mem_map(BE, VarType::UInt32, perm, z.n, 1));
                break;
            }
            default: break;
        }
        if (st.dst >= 0 && !r[st.dst]) empty = true;
    }
    void run() { for (auto &st : f.steps) { step(st); if (empty) return; } }
    /// Outputs are evaluated arrays
    std::vector<Var> outputs() {
        std::vector<Var> o;
        std::map<int, Var> done;
        for (int i : f.outs) {
            if (!done.count(i)) { int q = 0; done[i] = steal(jit_var_schedule_force(r[i].id(), &q)); }
            o.push_back(done[i]);
        }
        jit_eval();
        return o;
    }
};

struct Rec { Fn f; Sizes z; Recording *rec = nullptr; ~Rec() { if (rec) jit_freeze_destroy(rec); } };

static void straight(Src &s, uint32_t flags) {
    (void) flags;
    struct Life { std::vector<std::unique_ptr<Rec>> recs; };
    std::vector<std::unique_ptr<Rec>> recs;
    size_t n_rec = s.chance(1, 5) ? 2 : 1;
    std::vector<std::vector<std::pair<Arr, Var>>> pool; // earlier outputs
    std::vector<std::pair<Arr, Var>> old;
    auto run_direct = [&](const Fn &f, const Sizes &z, const std::vector<Arr> &in, bool &empty) {
        Exec e(f, z, false);
        for (size_t i = 0; i < f.n_in; ++i) e.r[i] = upload(in[i]);
        std::vector<Var> keep;
        for (size_t i = 0; i < f.n_in; ++i) if (!f.moved[i]) { keep.push_back(e.r[i]); keep.push_back(e.r[i]); }
        e.run();
        std::vector<Arr> res;
        empty = e.empty;
        if (empty) return res;
        for (auto &o : e.outputs()) res.push_back(fetch(o));
        return res;
    };
    auto gen_inputs = [&](const Fn &f, const Sizes &z) {
        std::vector<Arr> a;
        for (size_t i = 0; i < f.n_in; ++i)
            a.push_back(i == 0 || f.regs[i].t == VarType::UInt32 ? index_contents(s, z.of(f.regs[i].c)) : contents(s, f.regs[i].t, z.of(f.regs[i].c)));
        return a;
    };
    for (size_t q = 0; q < n_rec; ++q) {
        Sizes z;
        z.bs = s.pick<size_t>({ 2, 4, 3, 8, 1 });
        z.n = z.bs * (2 + s.below(s.chance(1, 6) ? 60 : 12));
        if (z.bs == 1) { z.bs = 2; z.n = 2 * (2 + s.below(20)); }
        z.t = 2 + s.below(20);
        while (z.t == z.n || z.t == z.n / z.bs) ++z.t;
        auto R = std::make_unique<Rec>();
        R->f = gen_fn(s, z);
        R->z = z;
        Fn &f = R->f;
        s.note("recording %zu: N=%zu T=%zu block=%zu %s", q, z.n, z.t, z.bs, f.str().c_str());
        std::vector<Arr> in = gen_inputs(f, z);
        bool empty;
        std::vector<Arr> want = run_direct(f, z, in, empty);
        if (empty) { s.tag("empty compression"); continue; }
        // Record
        std::vector<Var> hold;
        std::vector<uint32_t> ids;
        std::vector<Var> outs;
        {
            Exec e(f, z, true);
            for (size_t i = 0; i < f.n_in; ++i) { e.r[i] = upload(in[i]); ids.push_back(e.r[i].id()); if (!f.moved[i]) { hold.push_back(e.r[i]); hold.push_back(e.r[i]); } }
            jit_freeze_start(BE, ids.data(), (uint32_t) ids.size());
            try {
                e.run();
                outs = e.outputs();
                std::vector<uint32_t> oi;
                for (auto &o : outs) oi.push_back(o.id());
                if (s.chance(1, 12)) { jit_freeze_abort(BE); s.tag("recording aborted"); }
                else if (s.chance(1, 25)) { // unevaluated variables cannot be returned
                    Var bad = steal(s.flip() ? jit_var_u32(BE, 7) : jit_var_counter(BE, z.n));
                    oi.insert(oi.begin() + (long) s.below(oi.size() + 1), bad.id());
                    bool raised = false;
                    try { R->rec = jit_freeze_stop(BE, oi.data(), (uint32_t) oi.size()); } catch (const vt::Fail &) { throw; } catch (const std::exception &) { raised = true; }
                    if (!raised) fail("a recording that returns an unevaluated variable was accepted");
                    s.tag("unevaluated output rejected");
                } else R->rec = jit_freeze_stop(BE, oi.data(), (uint32_t) oi.size());
            } catch (const vt::Fail &) { jit_freeze_abort(BE); throw; }
            catch (const std::exception &x) { jit_freeze_abort(BE); fail("recording failed: %s", x.what()); }
        }
        for (size_t i = 0; i < outs.size(); ++i) expect(outs[i], want[i], strf("output %zu of the recorded run", i).c_str());
        size_t h = 0;
        for (size_t i = 0; i < f.n_in; ++i) if (!f.moved[i]) expect(hold[(h += 2) - 2], in[i], strf("input %zu after recording", i).c_str());
        if (R->rec) recs.push_back(std::move(R));
    }
    if (recs.empty()) return;
    size_t n_replay = 1 + s.below(4);
    bool flushed = false;
    for (size_t q = 0; q < n_replay; ++q) {
        Rec &R = *recs[s.below(recs.size())];
        Fn &f = R.f;
        Sizes z = R.z;
        bool resized = f.var && s.flip();
        if (resized) {
            switch (s.below(3)) {
                case 0: z.n *= 2 + s.below(3); break;
                case 1: z.n = z.bs * (2 + s.below(30)); break;
                default: z.n = 4 + s.below(80); // perhaps not divisible
            }
            if (s.flip()) z.t = 2 + s.below(30);
            if (z.n / z.bs < 2) z.n = z.bs * 2;
        }
        bool divisible = z.n % z.bs == 0;
        s.note("replay N=%zu T=%zu", z.n, z.t);
        std::vector<Arr> in = gen_inputs(f, z);
        std::vector<Var> iv(f.n_in);
        std::vector<uint32_t> ids;
        for (size_t i = 0; i < f.n_in; ++i) {
            // an output of an earlier replay
            if (s.chance(1, 4) && !f.moved[i] && i)
                for (auto &[a, v] : old) if (v && a.t == in[i].t && a.size() == in[i].size() && a.size() > 1) {
                    bool ok = true;
                    for (size_t l = 0; l < i; ++l) ok &= iv[l].id() != v.id();
                    if (f.regs[i].t == VarType::UInt32) ok = false;
                    for (uint64_t x : a.v) ok &= !is_float(a.t) || std::fabs(to_d(a.t, x)) < 1000;
                    if (!ok) continue;
                    in[i] = a; iv[i] = v; s.tag("output fed back"); break;
                }
            if (!iv[i]) iv[i] = upload(in[i]);
            ids.push_back(iv[i].id());
        }
        // The reference
        bool blocked = false, empty = false;
        for (auto &st : f.steps) if (st.x == 1 && (st.k == S::BlockRed || st.k == S::Prefix) && !divisible) blocked = true;
        std::vector<Arr> want;
        if (!blocked) want = run_direct(f, z, in, empty);
        if (empty) { // A kernel without elements cannot be replayed; nothing may leak
            s.tag("empty compression");
            if (!jit_freeze_dry_run(R.rec, ids.data())) continue;
            std::vector<uint32_t> o(f.outs.size(), 0xffffffffu);
            bool raised = false;
            try { jit_freeze_replay(R.rec, ids.data(), o.data()); } catch (const vt::Fail &) { throw; } catch (const std::exception &) { raised = true; }
            if (raised) s.tag("replay raised");
            else for (uint32_t i : o) { if (i == 0xffffffffu) fail("an output was not set"); jit_var_dec_ref(i); }
            continue;
        }
        if (s.chance(1, 12)) { jit_flush_kernel_cache(); flushed = true; s.tag("kernel cache flushed"); }
        int ok = jit_freeze_dry_run(R.rec, ids.data());
        s.note("  dry run: %d", ok);
        if (!ok) {
            bool expected = flushed || blocked || (f.has_compress && f.has_block);
            for (auto &st : f.steps) if (st.k == S::RedInto && (resized || f.has_compress)) expected = true;
            if (!expected) fail("the dry run asks for another recording");
            s.tag("dry run requests a new recording");
            continue;
        }
        if (blocked) fail("the dry run accepts a size that is not divisible by the block size");
        std::vector<uint32_t> o(f.outs.size(), 0xffffffffu);
        jit_freeze_replay(R.rec, ids.data(), o.data());
        std::vector<Var> outs;
        for (uint32_t i : o) { if (i == 0xffffffffu) fail("an output was not set"); outs.push_back(steal(i)); }
        bool drop = s.flip();
        if (drop) for (size_t i = 0; i < f.n_in; ++i) if (f.moved[i]) iv[i] = Var();
        bool rev = s.flip();
        for (size_t k = 0; k < outs.size(); ++k) {
            size_t i = rev ? outs.size() - 1 - k : k;
            expect(outs[i], want[i], strf("output %zu of a replay", i).c_str());
            s.tag("elements compared", want[i].size());
        }
        for (size_t i = 0; i < f.n_in; ++i) if (!f.moved[i]) expect(iv[i], in[i], strf("input %zu after a replay", i).c_str());
        for (auto &[a, v] : old) if (v && s.flip()) expect(v, a, "output of an earlier replay");
        for (size_t i = 0; i < outs.size(); ++i) { // keep outputs that are not inputs
            bool in_ = false;
            for (auto &v : iv) in_ |= v.id() == outs[i].id();
            if (!in_ && s.flip()) old.push_back({ want[i], outs[i] });
        }
        while (old.size() > 6) old.erase(old.begin() + (long) s.below(old.size()));
        s.tag(resized ? "replayed with other sizes" : "replayed");
        if (f.steps.size() > 2) s.nontrivial();
    }
    if (s.flip()) recs.clear();
    for (auto &[a, v] : old) expect(v, a, "output of a replay, at the end");
    old.clear();
    recs.clear();
    end_case();
}

// ---- Structured programs -------------------------------------------------
static void structured(Src &s) {
    Gen g;
    g.loops = 2; g.ifs = 2; g.calls = 3; g.side = 3; g.stmts = 3 + (uint32_t) s.below(4); g.depth = 1 + (uint32_t) s.below(2);
    Prog p = gen_program(s, g);
    for (auto &i : p.inputs) {
        if (i.form == Lazy) i.form = Memory;
        if (i.form == LiteralN) i.form = Literal;
    }
    s.note("%s", p.str().c_str());
    ExecOpts o;
    if (s.flip()) { o.cuts = s.bits() & s.bits(); o.cut_kind = s.bits(); }
    // Array registers are no outputs
    std::vector<int> outs;
    for (int r : p.outputs) if (!p.regs[r].len) outs.push_back(r);
    p.outputs = outs;
    std::vector<uint8_t> baked; // opaque constants created by the function
    for (size_t i = 0; i < p.scalars.size(); ++i) baked.push_back(s.chance(1, 3));
    auto ids_of = [&](Session &x) {
        std::vector<uint32_t> ids;
        for (size_t i = 0; i < p.inputs.size(); ++i) if (p.inputs[i].form == Memory || p.inputs[i].form == Scalar) ids.push_back(x.inputs[i].id());
        for (size_t i = 0; i < x.scalars.size(); ++i) if (!baked[i]) ids.push_back(x.scalars[i].id());
        for (auto *l : { &x.buffers, &x.targets }) for (auto &v : *l) ids.push_back(v.id());
        return ids;
    };
    Recording *rec = nullptr;
    struct Guard { Recording *&r; ~Guard() { if (r) jit_freeze_destroy(r); } } guard{ rec };
    std::vector<uint8_t> given;
    {
        Session x;
        make_inputs(s, p, x);
        // forms may have been adapted
        std::vector<uint32_t> ids = ids_of(x);
        jit_freeze_start(BE, ids.data(), (uint32_t) ids.size());
        try {
            for (size_t i = 0; i < x.scalars.size(); ++i) if (baked[i]) x.scalars[i] = literal(p.scalars[i].t, p.scalars[i].v[0], 1, 1);
            execute(p, x, o);
            for (auto &v : x.outputs) { int q = 0; v = steal(jit_var_schedule_force(v.id(), &q)); }
            for (auto &v : x.targets) jit_var_schedule(v.id());
            jit_eval();
            std::vector<uint32_t> oi;
            std::set<uint32_t> seen;
            for (auto *l : { &x.outputs, &x.targets }) for (auto &v : *l) oi.push_back(v.id());
            rec = jit_freeze_stop(BE, oi.data(), (uint32_t) oi.size());
        } catch (const vt::Fail &) { jit_freeze_abort(BE); throw; }
        catch (const std::exception &e) { jit_freeze_abort(BE); fail("recording failed: %s", e.what()); }
        Model m = interpret(p);
        compare(p, x, m, "recorded run");
        if (m.dispatched || m.iterations || m.contributions) s.nontrivial();
    }
    size_t reps = 1 + s.below(3);
    for (size_t k = 0; k < reps; ++k) {
        Prog p2 = p;
        for (size_t i = 1; i < p2.inputs.size(); ++i) if (p2.inputs[i].form == Memory || p2.inputs[i].form == Scalar) {
            Arr &a = p2.inputs[i].a;
            Arr w = gen_arr(s, a.t, a.size(), Dist::Small);
            a = w;
        }
        for (size_t i = 0; i < p2.scalars.size(); ++i) if (!baked[i]) p2.scalars[i].v[0] = gen_value(s, p2.scalars[i].t, Dist::Small);
        Session x;
        make_inputs(s, p2, x);
        std::vector<uint32_t> ids = ids_of(x);
        if (!jit_freeze_dry_run(rec, ids.data())) fail("the dry run asks for another recording");
        std::vector<uint32_t> ov(p.outputs.size() + p.targets.size());
        jit_freeze_replay(rec, ids.data(), ov.data());
        size_t c = 0;
        for (size_t i = 0; i < p.outputs.size(); ++i) x.outputs.push_back(steal(ov[c++]));
        for (auto &t : x.targets) t = steal(ov[c++]);
        Model m = interpret(p2);
        compare(p2, x, m, "replay");
        s.tag("structured program replayed");
    }
    if (rec) { jit_freeze_destroy(rec); rec = nullptr; }
    end_case();
}

static void run(Src &s) {
    Config c = gen_config(s, CfgAll & ~CfgFlags);
    if (s.chance(1, 6)) c.flags |= (uint32_t) JitFlag::KernelHistory;
    if (s.chance(1, 8)) c.flags |= (uint32_t) JitFlag::LaunchBlocking;
    if (s.chance(1, 8)) c.flags &= ~(uint32_t) s.pick({ JitFlag::OptimizeCalls, JitFlag::MergeFunctions, JitFlag::ValueNumbering, JitFlag::ConstantPropagation, JitFlag::ReuseIndices });
    s.note("%s", c.str().c_str());
    apply_config(c);
    if (s.chance(1, 3)) structured(s); else straight(s, c.flags);
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P16";
    p.rule = "A generated function (element-wise code, gathers, scatters into copies or in place, scatter-reductions in all modes, reductions, prefix sums, "
             "compaction, loops, opaque widths, paused sections, evaluation points; or a structured program with loops, conditionals and calls) is recorded, "
             "then replayed up to four times with other inputs (other sizes where the function allows it, outputs of earlier replays as inputs, two recordings "
             "interleaved, kernel cache flushed); outputs are compared with executing the code again on copies of the inputs (or with the reference "
             "interpreter), inputs must stay unchanged, and a dry run must accept exactly the sizes that the recording supports. Non-trivial: a function of more "
             "than two steps is replayed.";
    p.setup = init_process;
    p.run = run;
    return p;
}
