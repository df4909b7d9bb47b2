#include "prog.h"

namespace prog {

// ---- Safe operations -----------------------------------------------------
// Floats are kept in [-10^4, 10^4] (no NaN, no infinity) and only operations
// that do not expose the sign of a zero are used, so that results are exact.
static const double LIM = 10000;
static const std::vector<JitOp> float_ops{ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Fma, JitOp::Min, JitOp::Max, JitOp::Neg,
    JitOp::Abs, JitOp::Floor, JitOp::Ceil, JitOp::Round, JitOp::Trunc, JitOp::Sqrt, JitOp::Select };
static const std::vector<JitOp> int_ops{ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Fma, JitOp::Min, JitOp::Max, JitOp::Neg, JitOp::Not,
    JitOp::And, JitOp::Or, JitOp::Xor, JitOp::Shl, JitOp::Shr, JitOp::Div, JitOp::Mod, JitOp::Popc, JitOp::Clz, JitOp::Ctz, JitOp::Brev, JitOp::Select };
static const std::vector<JitOp> bool_ops{ JitOp::Not, JitOp::And, JitOp::Or, JitOp::Xor, JitOp::Select };
static const std::vector<JitOp> cmp_ops{ JitOp::Eq, JitOp::Neq, JitOp::Lt, JitOp::Le, JitOp::Gt, JitOp::Ge };

static bool is_cmp(JitOp o) { for (JitOp c : cmp_ops) if (c == o) return true; return false; }
static uint64_t clampv(VarType t, uint64_t v) {
    double d = to_d(t, v);
    if (d > LIM) return from_d(t, LIM);
    if (d < -LIM) return from_d(t, -LIM);
    return v;
}
static bool needs_clamp(JitOp op) { return op == JitOp::Add || op == JitOp::Sub || op == JitOp::Mul || op == JitOp::Fma; }

/// 't' is the type of the data operands
static uint64_t safe_ref(JitOp op, VarType t, uint64_t a, uint64_t b, uint64_t c) {
    uint64_t in[3] = { a, b, c }, out = 0;
    if (is_int(t)) {
        if (op == JitOp::Shl || op == JitOp::Shr) in[1] &= tsize(t) * 8 - 1;
        if (op == JitOp::Div || op == JitOp::Mod) in[1] = (b & 7) | 1;
    }
    if (is_float(t) && op == JitOp::Sqrt) { uint64_t z[3] = { a, 0, 0 }; ref_op(JitOp::Abs, t, z, in[0]); }
    if (!ref_op(op, t, in, out)) fail("harness: undefined operation %s", op_name(op));
    if (is_float(t) && needs_clamp(op)) out = clampv(t, out);
    return out;
}
static Var lit(VarType t, uint64_t v) { return literal(t, v); }
static Var bin(JitOp op, const Var &a, const Var &b) { return jit_op(op, { a, b }); }
static Var clamp_jit(VarType t, const Var &v) {
    return bin(JitOp::Max, bin(JitOp::Min, v, lit(t, from_d(t, LIM))), lit(t, from_d(t, -LIM)));
}
static Var safe_jit(JitOp op, VarType t, const Var &a_, const Var &b_, const Var &c) {
    Var an, bn;
    const Var *ap = &a_, *bp = &b_;
    if (is_int(t)) {
        if (op == JitOp::Shl || op == JitOp::Shr) { bn = bin(JitOp::And, b_, lit(t, tsize(t) * 8 - 1)); bp = &bn; }
        if (op == JitOp::Div || op == JitOp::Mod) { bn = bin(JitOp::Or, bin(JitOp::And, b_, lit(t, 7)), lit(t, 1)); bp = &bn; }
    }
    if (is_float(t) && op == JitOp::Sqrt) { an = jit_op(JitOp::Abs, { a_ }); ap = &an; }
    std::vector<Arg> v{ *ap };
    if (op_arity(op) > 1) v.push_back(*bp);
    if (op_arity(op) > 2) v.push_back(c);
    Var r = jit_op(op, v);
    if (is_float(t) && needs_clamp(op)) r = clamp_jit(t, r);
    return r;
}
static uint64_t safe_cast_ref(VarType f, VarType t, uint64_t v) {
    uint64_t o = 0;
    if (is_float(f) && is_int(t)) { uint64_t m = 0; ref_cast(f, VarType::Int32, v, m); ref_cast(VarType::Int32, t, m, o); return o; }
    ref_cast(f, t, v, o);
    return is_float(t) ? clampv(t, o) : o;
}
static Var cast(const Var &v, VarType t) { return steal(jit_var_cast(v.id(), t, 0)); }
static Var safe_cast_jit(VarType f, VarType t, const Var &v) {
    if (is_float(f) && is_int(t)) return cast(cast(v, VarType::Int32), t);
    Var r = cast(v, t);
    return is_float(t) ? clamp_jit(t, r) : r;
}

thread_local void (*g_step)() = nullptr;

// ---- Generation ----------------------------------------------------------
namespace {
struct Builder {
    Src &s; const Gen &g; Prog p;
    std::vector<int> vis;            // visible registers
    std::set<int> frozen;            // may not be assigned (lane index, loop counters and limits)
    std::vector<std::set<int>> assigned; // per open block: pre-existing registers assigned
    std::vector<VarType> types;
    int lane = -1;
    size_t budget = 0;
    bool in_call = false;
    int rec = 0;

    Builder(Src &s, const Gen &g) : s(s), g(g) {}
    int new_reg(VarType t, uint32_t len = 0) { p.regs.push_back({ t, len }); return (int) p.regs.size() - 1; }
    void mark(int r) { for (auto &a : assigned) a.insert(r); }
    std::vector<int> cands(VarType t, uint32_t len = 0) {
        std::vector<int> c;
        for (int r : vis) if (p.regs[r].t == t && p.regs[r].len == len) c.push_back(r);
        return c;
    }
    uint64_t value(VarType t) {
        if (is_float(t)) return from_d(t, (double) s.range(-32, 32) * 0.25);
        return gen_value(s, t);
    }
    Stmt &emit(Block &b, K k) { b.emplace_back(); b.back().k = k; b.back().id = p.max_id++; p.n_stmt++; return b.back(); }
    int constant(Block &b, VarType t, uint64_t v) {
        Stmt &st = emit(b, K::Const);
        st.val = v; st.dst = new_reg(t);
        vis.push_back(st.dst);
        return st.dst;
    }
    int use(Block &b, VarType t) {
        auto c = cands(t);
        if (c.empty() || s.chance(1, 8)) return constant(b, t, value(t));
        // prefer recent registers
        if (c.size() > 4 && s.flip()) return c[c.size() - 1 - s.below(4)];
        return c[s.below(c.size())];
    }
    int dest(VarType t, uint32_t len = 0) {
        auto c = cands(t, len);
        c.erase(std::remove_if(c.begin(), c.end(), [&](int r) { return frozen.count(r); }), c.end());
        if (!c.empty() && s.flip()) { int r = c[s.below(c.size())]; mark(r); return r; }
        int r = new_reg(t, len);
        vis.push_back(r);
        return r;
    }
    int op(Block &b, JitOp o, VarType t, int a, int x = -1, int y = -1, int dst = -1) {
        if (dst < 0) { dst = new_reg(is_cmp(o) ? VarType::Bool : t); vis.push_back(dst); }
        Stmt &st = emit(b, K::Op);
        st.op = o; st.a = a; st.b = x; st.c = y; st.dst = dst;
        return dst;
    }
    VarType type() { return s.pick(types); }

    void random_op(Block &b) {
        VarType t = type();
        JitOp o;
        if (is_bool(t)) o = s.pick(bool_ops);
        else if (s.chance(1, 4)) o = s.pick(cmp_ops);
        else o = s.pick(is_float(t) ? float_ops : int_ops);
        int a, x = -1, y = -1;
        if (o == JitOp::Select) { a = use(b, VarType::Bool); x = use(b, t); y = use(b, t); }
        else {
            a = use(b, t);
            if (op_arity(o) > 1) x = s.chance(1, 10) ? a : use(b, t);
            if (op_arity(o) > 2) y = use(b, t);
        }
        VarType rt = is_cmp(o) ? VarType::Bool : t;
        op(b, o, t, a, x, y, dest(rt));
    }
    void block_body(Block &b, uint32_t depth, size_t n) {
        for (size_t i = 0; i < n; ++i) stmt(b, depth);
    }
    void stmt(Block &b, uint32_t depth) {
        if (budget == 0) { random_op(b); return; }
        budget--;
        uint32_t L = depth ? g.loops : 0, I = depth ? g.ifs : 0, C = depth ? g.calls : 0;
        switch (s.weighted({ g.ops, 3, 2, 1, g.side, L, I, C, in_call ? 0 : g.arrays })) {
            case 0: random_op(b); break;
            case 1: { // cast
                VarType t = type(), f = type();
                int a = use(b, f), d = dest(t);
                Stmt &st = emit(b, K::Cast); st.a = a; st.dst = d;
                break;
            }
            case 2: { // gather
                size_t r = s.below(p.buffers.size());
                int i = use(b, VarType::UInt32), m = s.flip() ? use(b, VarType::Bool) : -1;
                int d = dest(p.buffers[r].t);
                Stmt &st = emit(b, K::Gather); st.res = (int) r; st.a = i; st.mask = m; st.dst = d;
                break;
            }
            case 3: { // captured scalar
                size_t r = s.below(p.scalars.size());
                int d = dest(p.scalars[r].t);
                Stmt &st = emit(b, K::Capture); st.res = (int) r; st.dst = d;
                break;
            }
            case 4: { // side effect
                if (p.targets.empty()) { random_op(b); break; }
                size_t r = s.below(p.targets.size());
                VarType t = p.targets[r].init.t;
                p.n_side++;
                if (std::count(ctl.begin(), ctl.end(), 'L') > 1) p.nested_side++;
                int v = use(b, t), m = s.flip() ? use(b, VarType::Bool) : -1;
                if (p.targets[r].op == ReduceOp::Identity) {
                    Stmt &st = emit(b, K::Store); st.res = (int) r; st.a = lane; st.b = v; st.mask = m;
                    st.val = stores[r]++;
                } else {
                    int i = use(b, VarType::UInt32);
                    Stmt &st = emit(b, K::Reduce); st.res = (int) r; st.a = i; st.b = v; st.c = lane; st.mask = m;
                }
                break;
            }
            case 5: loop(b, depth); break;
            case 6: cond(b, depth); break;
            case 7: call(b, depth); break;
            default: array(b); break;
        }
    }
    std::map<size_t, uint64_t> stores;
    static constexpr uint64_t MAX_STORES = 12;

    // Enclosing loops (L) and conditionals (I); arrays that share a version with others; where arrays were created
    std::string ctl;
    std::set<int> shared;
    std::map<int, size_t> born;
    bool in_place(int a) { return !shared.count(a) && ctl.find('I', born[a]) == std::string::npos; }
    int new_array(VarType t, uint32_t len) { int r = new_reg(t, len); vis.push_back(r); return r; }
    void array(Block &b) {
        p.n_arr++;
        std::vector<int> arrs;
        for (int r : vis) if (p.regs[r].len) arrs.push_back(r);
        if (arrs.empty() || s.chance(1, 6)) { // new array
            VarType t = type();
            uint32_t len = (uint32_t) s.pick<uint32_t>({ 2, 1, 3, 4, 7 });
            int v = use(b, t), d = ctl.empty() ? dest(t, len) : new_array(t, len);
            shared.erase(d); born[d] = ctl.size();
            Stmt &st = emit(b, K::ArrInit); st.a = v; st.dst = d;
            return;
        }
        int a = s.pick(arrs);
        Reg ra = p.regs[a];
        int i = s.chance(1, 3) ? -1 : use(b, VarType::UInt32);
        int m = s.chance(1, 3) ? use(b, VarType::Bool) : -1;
        uint64_t k = s.below(ra.len);
        // Modifications inside control flow are in-place updates (see the known findings of P12)
        bool nested = !ctl.empty(), may_write = !nested || in_place(a);
        switch (s.weighted({ 3, may_write ? 3u : 0u, nested ? 0u : 1u })) {
            case 0: { int d = dest(ra.t); Stmt &st = emit(b, K::ArrRead); st.a = a; st.b = i; st.mask = m; st.val = k; st.dst = d; break; }
            case 1: {
                int v = use(b, ra.t), d = nested || (!frozen.count(a) && s.chance(2, 3)) ? (mark(a), a) : dest(ra.t, ra.len);
                if (d != a) { shared.insert(a); shared.insert(d); born[d] = ctl.size(); }
                Stmt &st = emit(b, K::ArrWrite); st.a = a; st.b = i; st.c = v; st.mask = m; st.val = k; st.dst = d; break;
            }
            default: {
                auto c = cands(ra.t, ra.len);
                int o = s.pick(c), cnd = use(b, VarType::Bool), d = dest(ra.t, ra.len);
                shared.insert(a); shared.insert(o); shared.insert(d); born[d] = ctl.size();
                Stmt &st = emit(b, K::ArrSelect); st.a = cnd; st.b = a; st.c = o; st.dst = d;
            }
        }
    }

    void loop(Block &b, uint32_t depth) {
        p.n_loop++; rec++;
        // Iteration counter and limit
        VarType ct = VarType::UInt32;
        int lim;
        if (s.chance(1, 4)) lim = constant(b, ct, s.below(6));
        else { int r = use(b, ct), k = constant(b, ct, s.pick<uint64_t>({ 3, 1, 5, 7 })); lim = op(b, JitOp::And, ct, r, k); }
        int i;
        if (s.flip()) i = constant(b, ct, 0);
        else { int r = use(b, ct), k = constant(b, ct, 3); i = op(b, JitOp::And, ct, r, k); }
        frozen.insert(lim); frozen.insert(i);
        Stmt st; st.k = K::Loop; st.id = p.max_id++;
        st.blocks.resize(2);
        std::vector<int> vis0 = vis;
        assigned.emplace_back();
        // Condition
        Block cond;
        if (s.chance(1, 4)) random_op_new(cond);
        int c = op(cond, JitOp::Lt, ct, i, lim);
        if (s.chance(1, 3)) { // additional early exit
            int e = use(cond, VarType::Bool);
            c = op(cond, JitOp::And, VarType::Bool, c, e);
        }
        st.a = c;
        std::vector<int> visc = vis;
        // The body does not see the temporaries of the condition
        vis = vis0;
        Block body;
        ctl += 'L';
        block_body(body, depth - 1, 1 + s.below(g.stmts));
        ctl.pop_back();
        int one = constant(body, ct, 1);
        op(body, JitOp::Add, ct, i, one, -1, i);
        mark(i);
        std::set<int> as = assigned.back();
        assigned.pop_back();
        vis = vis0;
        for (int r : vis0) if (as.count(r)) st.list.push_back(r);
        // Extra state that the body does not assign
        for (int r : vis0) if (!as.count(r) && !frozen_lane(r) && !shared.count(r) && s.chance(1, 6)) st.list.push_back(r);
        // Random order
        for (size_t j = st.list.size(); j > 1; --j) std::swap(st.list[j - 1], st.list[s.below(j)]);
        st.blocks[0] = std::move(cond); st.blocks[1] = std::move(body);
        st.val = s.bits() & 1; // update_inner_in?
        for (auto &a : assigned) for (int r : st.list) a.insert(r);
        frozen.erase(i); frozen.erase(lim);
        b.push_back(std::move(st));
        rec--;
    }
    bool frozen_lane(int r) { return r == lane; }
    void random_op_new(Block &b) { // an operation that defines a new register
        VarType t = type();
        JitOp o = is_bool(t) ? JitOp::Xor : s.pick({ JitOp::Add, JitOp::Sub, JitOp::Min });
        int a = use(b, t), x = use(b, t);
        op(b, o, t, a, x);
    }
    void cond(Block &b, uint32_t depth) {
        p.n_if++; rec++;
        int c = use(b, VarType::Bool);
        Stmt st; st.k = K::If; st.id = p.max_id++;
        st.a = c; st.blocks.resize(2);
        std::vector<int> vis0 = vis;
        std::set<int> as;
        bool fc = frozen.count(c);
        for (int k = 0; k < 2; ++k) {
            assigned.emplace_back();
            ctl += 'I';
            if (k == 0 || s.chance(2, 3)) block_body(st.blocks[k], depth - 1, 1 + s.below(g.stmts));
            ctl.pop_back();
            for (int r : assigned.back()) as.insert(r);
            assigned.pop_back();
            vis = vis0;
        }
        (void) fc;
        for (int r : vis0) if (as.count(r) || (!shared.count(r) && s.chance(1, 8) && !frozen_lane(r))) st.list.push_back(r);
        for (size_t j = st.list.size(); j > 1; --j) std::swap(st.list[j - 1], st.list[s.below(j)]);
        for (auto &a : assigned) for (int r : st.list) a.insert(r);
        b.push_back(std::move(st));
        rec--;
    }
    void call(Block &b, uint32_t depth) {
        p.n_call++; rec++;
        uint32_t nf = (uint32_t) s.pick<uint32_t>({ 2, 1, 3, 4 });
        Stmt st; st.k = K::Call; st.id = p.max_id++;
        for (uint32_t i = 0; i < nf; ++i) st.ids.push_back((uint32_t) (st.ids.empty() ? 0 : st.ids.back()) + 1 + (s.chance(1, 8) ? (uint32_t) s.below(3) : 0));
        // instance: 0 .. nf, mapped to IDs at execution
        st.a = use(b, VarType::UInt32);
        st.mask = s.chance(1, 3) ? use(b, VarType::Bool) : -1;
        // arguments: the lane index and others
        st.list.push_back(lane);
        size_t na = s.below(4);
        for (size_t i = 0; i < na; ++i) st.list.push_back(use(b, type()));
        std::vector<VarType> outs;
        size_t no = 1 + s.below(3);
        for (size_t i = 0; i < no; ++i) outs.push_back(type());
        // callees
        std::vector<int> vis0 = vis;
        int lane0 = lane;
        auto frozen0 = frozen;
        auto assigned0 = assigned; assigned.clear();
        bool in0 = in_call; in_call = true;
        Func prev;
        for (uint32_t i = 0; i < nf; ++i) {
            Func f;
            vis.clear();
            for (int a : st.list) { int r = new_reg(p.regs[a].t); f.params.push_back(r); vis.push_back(r); }
            lane = f.params[0]; frozen.insert(lane);
            block_body(f.body, depth - 1, s.below(g.stmts));
            for (VarType t : outs) {
                int r = use(f.body, t);
                f.results.push_back(r);
            }
            st.funcs.push_back(std::move(f));
        }
        in_call = in0; assigned = assigned0; frozen = frozen0; lane = lane0; vis = vis0;
        for (VarType t : outs) {
            int d;
            do { d = dest(t); } while (std::count(st.outs.begin(), st.outs.end(), d));
            st.outs.push_back(d);
        }
        b.push_back(std::move(st));
        rec--;
    }
};
} // namespace

Prog gen_program(Src &s, const Gen &g) {
    Builder b(s, g);
    Prog &p = b.p;
    p.oob = g.oob;
    p.n = s.chance(1, 10) ? 1 : (size_t) s.small(2, thorough() ? 200 : 60);
    b.types = g.types;
    if (b.types.empty()) {
        size_t k = 1 + s.below(3);
        for (size_t i = 0; i < k; ++i) b.types.push_back(s.pick(arith_types()));
    }
    b.types.push_back(VarType::UInt32);
    b.types.push_back(VarType::Bool);
    // Resources
    for (size_t i = 0; i < 2; ++i) {
        VarType t = b.type();
        Arr a(t, (g.oob ? 2 : 1) + s.below(i == 0 ? 9 : 40));
        for (auto &x : a.v) x = b.value(t);
        p.buffers.push_back(a);
        VarType t2 = b.type();
        p.scalars.push_back(Arr(t2, 1, b.value(t2)));
    }
    if (g.side) {
        size_t nt = 1 + s.below(2);
        for (size_t i = 0; i < nt; ++i) {
            Target t;
            if (s.chance(1, 3)) {
                t.op = ReduceOp::Identity;
                t.init = Arr(b.type(), p.n * Builder::MAX_STORES);
                for (size_t j = 0; j < t.init.size(); ++j) t.init.v[j] = is_bool(t.init.t) ? (j & 1) : from_i(t.init.t, (int64_t) (j % 50));
            } else {
                VarType vt = s.pick({ VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Int64 });
                t.op = s.pick({ ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or });
                t.init = Arr(vt, 1 + s.below(20));
                for (auto &x : t.init.v) x = gen_value(s, vt);
                bool have = false;
                for (VarType q : b.types) have |= q == vt;
                if (!have) b.types.push_back(vt);
            }
            p.targets.push_back(t);
        }
    }
    // A plain scatter flushes side effects in the middle of a recording, which is not
    // supported together with recorded reductions in Expand mode (known finding of P06)
    bool plain = false;
    for (auto &t : p.targets) plain |= t.op == ReduceOp::Identity;
    for (auto &t : p.targets)
        if (t.op != ReduceOp::Identity)
            t.mode = plain ? s.pick({ ReduceMode::Local, ReduceMode::Direct })
                           : s.pick({ ReduceMode::Auto, ReduceMode::Local, ReduceMode::Direct, ReduceMode::Expand });
    // Inputs
    b.lane = b.new_reg(VarType::UInt32);
    b.frozen.insert(b.lane);
    b.vis.push_back(b.lane);
    Arr lane(VarType::UInt32, p.n);
    for (size_t i = 0; i < p.n; ++i) lane.v[i] = i;
    p.inputs.push_back({ b.lane, lane, Memory });
    size_t ni = 1 + s.below(4);
    for (size_t i = 0; i < ni; ++i) {
        VarType t = i == 0 ? VarType::UInt32 : b.type();
        Form f = g.wide_only ? (s.chance(1, 3) ? Lazy : Memory) : gen_form(s);
        if (!g.literals && (f == Literal || f == LiteralN)) f = Memory;
        Arr a(t, f == Literal || f == Scalar ? 1 : p.n);
        if (is_float(t)) for (auto &x : a.v) x = b.value(t);
        else if (p.n > 40) { uint64_t z[7]; for (auto &q : z) q = b.value(t); for (size_t j = 0; j < a.size(); ++j) a.v[j] = z[j % 7]; }
        else for (auto &x : a.v) x = b.value(t);
        if (f == LiteralN) for (auto &x : a.v) x = a.v[0];
        int r = b.new_reg(t);
        b.vis.push_back(r);
        p.inputs.push_back({ r, a, f });
    }
    b.budget = g.stmts * 4;
    size_t top = 1 + s.below(g.stmts);
    for (size_t i = 0; i < top; ++i) b.stmt(p.main, g.depth);
    // Guarantee the kind of statement the check is about
    if (g.loops > 10 && !p.n_loop) b.loop(p.main, g.depth);
    if (g.ifs > 10 && !p.n_if) b.cond(p.main, g.depth);
    if (g.calls > 10 && !p.n_call) b.call(p.main, g.depth);
    if (g.arrays > 10) { while (p.n_arr < 4) b.array(p.main); }
    for (int r : b.vis) p.outputs.push_back(r);
    // Identity targets: the stores of a program use different slots
    for (auto &kv : b.stores) if (kv.second > Builder::MAX_STORES) {
        Arr &in = p.targets[kv.first].init;
        size_t old = in.size();
        in.v.resize(p.n * kv.second);
        for (size_t j = old; j < in.size(); ++j) in.v[j] = is_bool(in.t) ? (j & 1) : from_i(in.t, (int64_t) (j % 50));
    }
    return std::move(p);
}

// ---- Reference interpreter -----------------------------------------------
namespace {
bool seq_ids(const Stmt &st) {
    for (size_t i = 0; i < st.ids.size(); ++i) if (st.ids[i] != i + 1) return false;
    return true;
}
uint32_t call_modulus(const Prog &p, const Stmt &st) { return (uint32_t) st.funcs.size() + (p.oob && seq_ids(st) ? 3 : 1); }
struct Interp {
    const Prog &p; Model &m; std::vector<LaneVal> r; size_t lane;
    uint64_t x(int i) const { return r[i].x; }
    bool ok(const Stmt &st, char kind, uint64_t i, uint64_t size) {
        if (i < size) return true;
        m.oob.insert({ kind, size, i, st.id });
        return false;
    }
    VarType t(int i) const { return p.regs[i].t; }
    void block(const Block &b) { for (auto &st : b) stmt(st); }
    void stmt(const Stmt &st) {
        switch (st.k) {
            case K::Const: r[st.dst].x = st.val; break;
            case K::Op: {
                VarType ty = st.op == JitOp::Select ? t(st.b) : t(st.a);
                r[st.dst].x = safe_ref(st.op, ty, x(st.a), st.b >= 0 ? x(st.b) : 0, st.c >= 0 ? x(st.c) : 0);
                break;
            }
            case K::Cast: r[st.dst].x = t(st.a) == t(st.dst) ? x(st.a) : safe_cast_ref(t(st.a), t(st.dst), x(st.a)); break;
            case K::Gather: {
                const Arr &a = p.buffers[st.res];
                uint64_t i = x(st.a) % p.modulus(a.size());
                bool act = st.mask < 0 || x(st.mask);
                r[st.dst].x = act && ok(st, 'g', i, a.size()) ? a.v[i] : 0;
                break;
            }
            case K::Capture: r[st.dst].x = p.scalars[st.res].v[0]; break;
            case K::Reduce: if (st.mask < 0 || x(st.mask)) {
                Arr &a = m.targets[st.res];
                size_t i = (uint32_t) (x(st.a) + x(st.c)) % p.modulus(a.size());
                if (!ok(st, 'r', i, a.size())) break;
                m.contributions++;
                a.v[i] = ref_reduce(p.targets[st.res].op, a.t, a.v[i], x(st.b));
            } break;
            case K::Store: if (st.mask < 0 || x(st.mask)) m.contributions++, m.targets[st.res].v[x(st.a) + st.val * p.n] = x(st.b); break;
            case K::Loop:
                for (int k = 0;; ++k) {
                    if (k > 1000) fail("harness: endless loop");
                    block(st.blocks[0]);
                    if (!x(st.a)) break;
                    m.iterations++;
                    block(st.blocks[1]);
                }
                break;
            case K::If: (x(st.a) ? m.taken : m.not_taken)++; block(st.blocks[x(st.a) ? 0 : 1]); break;
            case K::Call: {
                uint64_t inst = x(st.a) % call_modulus(p, st);
                if (st.mask >= 0 && !x(st.mask)) inst = 0;
                if (inst > st.funcs.size()) { ok(st, 'c', inst - 1, st.funcs.size()); inst = 0; }
                std::vector<uint64_t> res(st.outs.size(), 0);
                (inst ? m.dispatched : m.skipped)++;
                if (inst) {
                    const Func &f = st.funcs[inst - 1];
                    for (size_t i = 0; i < f.params.size(); ++i) r[f.params[i]] = r[st.list[i]];
                    block(f.body);
                    for (size_t i = 0; i < res.size(); ++i) res[i] = x(f.results[i]);
                }
                for (size_t i = 0; i < res.size(); ++i) r[st.outs[i]].x = res[i];
                break;
            }
            case K::ArrInit: r[st.dst].a.assign(p.regs[st.dst].len, x(st.a)); break;
            case K::ArrRead: {
                m.array_ops++;
                uint64_t len = p.regs[st.a].len, i = st.b >= 0 ? x(st.b) % p.modulus(len) : st.val;
                r[st.dst].x = (st.mask < 0 || x(st.mask)) && ok(st, 'a', i, len) ? r[st.a].a[i] : 0;
                break;
            }
            case K::ArrWrite: {
                m.array_ops++;
                uint64_t len = p.regs[st.a].len, i = st.b >= 0 ? x(st.b) % p.modulus(len) : st.val;
                std::vector<uint64_t> a = r[st.a].a;
                if ((st.mask < 0 || x(st.mask)) && ok(st, 'w', i, len)) a[i] = x(st.c);
                r[st.dst].a = a;
                break;
            }
            case K::ArrSelect: { auto a = x(st.a) ? r[st.b].a : r[st.c].a; r[st.dst].a = a; break; }
        }
    }
};
}
Model interpret(const Prog &p) {
    Model m;
    for (auto &t : p.targets) m.targets.push_back(t.init);
    for (size_t l = 0; l < p.n; ++l) {
        Interp it{ p, m, std::vector<LaneVal>(p.regs.size()), l };
        for (auto &i : p.inputs) it.r[i.reg].x = i.a.at(l);
        it.block(p.main);
        m.out.emplace_back();
        for (int r : p.outputs) m.out.back().push_back(it.r[r]);
    }
    return m;
}

// ---- Tracing -------------------------------------------------------------
namespace {
struct Record {
    uint32_t checkpoint, scope = 0; bool cleanup = true;
    Record(const char *name, bool new_scope = false) {
        checkpoint = jit_record_begin(BE, name);
        if (new_scope) scope = jit_new_scope(BE);
    }
    uint32_t rewind() { jit_set_scope(BE, scope); return jit_record_checkpoint(BE); }
    ~Record() { jit_record_end(BE, checkpoint, cleanup); }
};
struct MaskGuard {
    MaskGuard(const Var &m) { jit_var_mask_push(BE, m.id()); }
    ~MaskGuard() { jit_var_mask_pop(BE); }
};
struct SelfGuard {
    uint32_t v, i;
    SelfGuard(uint32_t value) { uint32_t t; jit_var_self(BE, &v, &t); i = t; jit_var_inc_ref(i); jit_var_set_self(BE, value, 0); }
    ~SelfGuard() { jit_var_set_self(BE, v, i); jit_var_dec_ref(i); }
};
struct Tracer {
    const Prog &p; Session &x; std::vector<Var> r; int depth = 0;
    VarType t(int i) const { return p.regs[i].t; }
    Var mask_of(const Stmt &st) { return st.mask >= 0 ? r[st.mask] : boolean(true); }
    Var mod(const Var &v, uint32_t m) { return steal(jit_var_mod(v.id(), u32(m).id())); }
    /// An index, which may be out of bounds. It is never a literal in this case
    Var index(const Var &v, uint32_t m) { return p.oob ? bin(JitOp::Add, mod(v, p.modulus(m)), x.zero) : mod(v, m); }
    void defs(const Block &b, std::vector<int> &out) {
        for (auto &st : b) {
            if (st.dst >= 0) out.push_back(st.dst);
            for (int o : st.outs) out.push_back(o);
        }
    }
    /// Runs a block and releases what it defined ('keep' stays)
    void block(const Block &b) { for (auto &st : b) stmt(st); }
    void drop(const Block &b, const std::vector<int> &keep) {
        std::vector<int> d; defs(b, d);
        for (int i : d) if (!std::count(keep.begin(), keep.end(), i)) r[i].reset();
    }
    void stmt(const Stmt &st) {
        if (g_step) g_step();
        switch (st.k) {
            case K::Const: r[st.dst] = literal(t(st.dst), st.val); break;
            case K::Op: {
                VarType ty = st.op == JitOp::Select ? t(st.b) : t(st.a);
                r[st.dst] = safe_jit(st.op, ty, r[st.a], st.b >= 0 ? r[st.b] : Var(), st.c >= 0 ? r[st.c] : Var());
                break;
            }
            case K::Cast: r[st.dst] = t(st.a) == t(st.dst) ? r[st.a] : safe_cast_jit(t(st.a), t(st.dst), r[st.a]); break;
            case K::Gather: {
                Var i = index(r[st.a], (uint32_t) p.buffers[st.res].size());
                r[st.dst] = steal(jit_var_gather(x.buffers[st.res].id(), i.id(), mask_of(st).id()));
                break;
            }
            case K::Capture: r[st.dst] = x.scalars[st.res]; break;
            case K::Reduce: {
                Var i = index(bin(JitOp::Add, r[st.a], r[st.c]), (uint32_t) p.targets[st.res].init.size());
                Var &tg = x.targets[st.res];
                Var v = r[st.b];
                if (p.oob) v = jit_op(JitOp::Add, { v, steal(jit_var_cast(x.zero.id(), t(st.b), 0)) }); // (adding a literal zero is skipped)
                tg = steal(jit_var_scatter(tg.id(), v.id(), i.id(), mask_of(st).id(), p.targets[st.res].op, p.targets[st.res].mode));
                break;
            }
            case K::Store: {
                Var i = bin(JitOp::Add, r[st.a], u32((uint32_t) (st.val * p.n)));
                Var &tg = x.targets[st.res];
                tg = steal(jit_var_scatter(tg.id(), r[st.b].id(), i.id(), mask_of(st).id(), ReduceOp::Identity, ReduceMode::Auto));
                break;
            }
            case K::Loop: loop(st); break;
            case K::If: cond(st); break;
            case K::Call: call(st); break;
            case K::ArrInit: {
                Var a = steal(jit_array_create(BE, t(st.dst), 1, p.regs[st.dst].len));
                r[st.dst] = steal(jit_array_init(a.id(), r[st.a].id()));
                break;
            }
            case K::ArrRead: {
                Var i = st.b >= 0 ? index(r[st.b], p.regs[st.a].len) : u32((uint32_t) st.val);
                r[st.dst] = steal(jit_array_read(r[st.a].id(), i.id(), mask_of(st).id()));
                break;
            }
            case K::ArrWrite: {
                Var i = st.b >= 0 ? index(r[st.b], p.regs[st.a].len) : u32((uint32_t) st.val);
                r[st.dst] = steal(jit_array_write(r[st.a].id(), i.id(), r[st.c].id(), mask_of(st).id()));
                break;
            }
            case K::ArrSelect: r[st.dst] = steal(jit_var_select(r[st.a].id(), r[st.b].id(), r[st.c].id())); break;
        }
    }
    void loop(const Stmt &st) {
        size_t k = st.list.size();
        std::vector<uint32_t> ix(k);
        for (size_t i = 0; i < k; ++i) ix[i] = r[st.list[i]].id();
        std::string name = strf("loop_%d", st.id);
        Record rec(name.c_str());
        
        Var lp = steal(jit_var_loop_start(name.c_str(), depth > 0, k, ix.data()));
        for (size_t i = 0; i < k; ++i) r[st.list[i]] = steal(ix[i]);
        if (st.val) jit_var_loop_update_inner_in(lp.id(), ix.data());
        depth++;
        for (int it = 0;; ++it) {
            if (it > 3) fail("loop recording does not converge");
            block(st.blocks[0]);
            Var c = r[st.a];
            Var act = steal(jit_var_mask_apply(c.id(), (uint32_t) jit_var_size(c.id())));
            c.reset();
            drop(st.blocks[0], st.list);
            Var lc = steal(jit_var_loop_cond(lp.id(), act.id()));
            {
                MaskGuard g(act);
                act.reset();
                block(st.blocks[1]);
                drop(st.blocks[1], st.list);
            }
            for (size_t i = 0; i < k; ++i) ix[i] = r[st.list[i]].id();
            int rv = jit_var_loop_end(lp.id(), lc.id(), ix.data(), rec.checkpoint);
            for (size_t i = 0; i < k; ++i) r[st.list[i]] = steal(ix[i]);
            if (rv) break;
        }
        depth--;
        rec.cleanup = false;
    }
    void cond(const Stmt &st) {
        size_t k = st.list.size();
        Var c = r[st.a], nc = jit_op(JitOp::Not, { c });
        uint32_t sz = (uint32_t) jit_var_size(c.id());
        Var ct = steal(jit_var_mask_apply(c.id(), sz)), cf = steal(jit_var_mask_apply(nc.id(), sz));
        c.reset(); nc.reset();
        std::vector<Var> before;
        for (int i : st.list) before.push_back(r[i]);
        std::vector<uint32_t> ix(k);
        std::string name = strf("if_%d", st.id);
        Record rec(name.c_str());
        
        Var h = steal(jit_var_cond_start(name.c_str(), depth > 0, ct.id(), cf.id()));
        depth++;
        Var e[2];
        for (int b = 0; b < 2; ++b) {
            {
                MaskGuard g(b ? cf : ct);
                block(st.blocks[b]);
                drop(st.blocks[b], st.list);
            }
            for (size_t i = 0; i < k; ++i) ix[i] = r[st.list[i]].id();
            e[b] = steal(jit_var_cond_append(h.id(), ix.data(), k));
            for (size_t i = 0; i < k; ++i) r[st.list[i]] = before[i];
        }
        depth--;
        jit_var_cond_end(h.id(), ix.data());
        for (size_t i = 0; i < k; ++i) r[st.list[i]] = steal(ix[i]);
        rec.cleanup = false;
    }
    void call(const Stmt &st) {
        uint32_t nf = (uint32_t) st.funcs.size(), ni = (uint32_t) st.list.size(), no = (uint32_t) st.outs.size();
        // instance ID: table lookup by selection
        Var inst = mod(r[st.a], call_modulus(p, st));
        if (p.oob) inst = bin(JitOp::Add, inst, x.zero);
        bool seq = true;
        for (uint32_t i = 0; i < nf; ++i) seq &= st.ids[i] == i + 1;
        if (!seq) {
            Var id = u32(0);
            for (uint32_t i = 0; i < nf; ++i) {
                Var m = steal(jit_var_eq(inst.id(), u32(i + 1).id()));
                id = steal(jit_var_select(m.id(), u32(st.ids[i]).id(), id.id()));
            }
            inst = id;
        }
        Var mask = mask_of(st);
        std::vector<uint32_t> cp(nf + 1);
        std::vector<Var> in, rv;
        
        jit_new_scope(BE);
        std::string name = strf("call_%d", st.id);
        Record rec(name.c_str(), true);
        for (int a : st.list) in.push_back(steal(jit_var_call_input(r[a].id())));
        depth++;
        {
            Var cm = steal(jit_var_call_mask(BE));
            MaskGuard g(cm);
            cm.reset();
            for (uint32_t i = 0; i < nf; ++i) {
                const Func &f = st.funcs[i];
                cp[i] = rec.rewind();
                SelfGuard sg(st.ids[i]);
                for (uint32_t j = 0; j < ni; ++j) r[f.params[j]] = in[j];
                block(f.body);
                for (int o : f.results) rv.push_back(r[o]);
                drop(f.body, {});
                for (int o : f.params) r[o].reset();
            }
            cp[nf] = rec.rewind();
        }
        depth--;
        jit_new_scope(BE);
        std::vector<uint32_t> ii, oo, out(no);
        for (auto &v : in) ii.push_back(v.id());
        for (auto &v : rv) oo.push_back(v.id());
        jit_var_call(name.c_str(), depth > 0, inst.id(), mask.id(), nf, st.ids.back(), st.ids.data(), ni, ii.data(), (uint32_t) oo.size(),
                     oo.data(), cp.data(), out.data());
        rec.cleanup = false;
        for (uint32_t i = 0; i < no; ++i) r[st.outs[i]] = steal(out[i]);
    }
};
}

void make_inputs(Src &s, const Prog &p, Session &x) {
    for (auto &i : p.inputs) { Arr a = i.a; x.inputs.push_back(make(s, a, i.form)); }
    for (auto &b : p.buffers) x.buffers.push_back(upload(b));
    for (auto &b : p.scalars) x.scalars.push_back(upload(b));
    for (auto &t : p.targets) x.targets.push_back(upload(t.init));
    if (p.oob) x.zero = upload(Arr(VarType::UInt32, 1, 0));
}
void execute(const Prog &p, Session &x, const ExecOpts &o) {
    Tracer tr{ p, x, std::vector<Var>(p.regs.size()) };
    for (size_t i = 0; i < p.inputs.size(); ++i) tr.r[p.inputs[i].reg] = x.inputs[i];
    uint64_t kind = o.cut_kind;
    for (size_t i = 0; i < p.main.size(); ++i) {
        tr.stmt(p.main[i]);
        if (o.done) *o.done = i + 1;
        if ((o.cuts >> (i & 63)) & 1) {
            switch ((kind >> ((i * 2) & 62)) & 3) {
                case 0: jit_eval(); break;
                case 1: for (size_t j = 0; j < tr.r.size(); ++j) if (tr.r[j] && !p.regs[j].len) jit_var_schedule(tr.r[j].id()); jit_eval(); break;
                case 2: { int d = p.main[i].dst; if (d >= 0) jit_var_eval(tr.r[d].id()); break; }
                default: for (size_t j = i & 1; j < tr.r.size(); j += 2) if (tr.r[j] && !p.regs[j].len) jit_var_schedule(tr.r[j].id()); jit_eval(); break;
            }
        }
    }
    for (int r : p.outputs) x.outputs.push_back(tr.r[r]);
}

void compare(const Prog &p, Session &x, const Model &m, const char *what) {
    for (size_t k = 0; k < x.outputs.size(); ++k) if (x.outputs[k] && !p.regs[p.outputs[k]].len) jit_var_schedule(x.outputs[k].id());
    for (size_t k = 0; k < x.outputs.size(); ++k) {
        const Reg &rg = p.regs[p.outputs[k]];
        if (rg.len) {
            for (uint32_t e = 0; e < rg.len; ++e) {
                Var v = steal(jit_array_read(x.outputs[k].id(), u32(e).id(), boolean(true).id()));
                Arr a = fetch(v);
                if (a.size() != 1 && a.size() != p.n) fail("%s: array %d has size %zu", what, p.outputs[k], a.size());
                for (size_t l = 0; l < p.n; ++l)
                    if (!same(rg.t, a.at(l), m.out[l][k].a[e]))
                        fail("%s: array v%d[%u], lane %zu is %s instead of %s", what, p.outputs[k], e, l, vstr(rg.t, a.at(l)).c_str(), vstr(rg.t, m.out[l][k].a[e]).c_str());
            }
            continue;
        }
        Arr a = fetch(x.outputs[k]);
        if (a.t != rg.t) fail("%s: v%d has type %s", what, p.outputs[k], tname(a.t));
        if (a.size() != 1 && a.size() != p.n) fail("%s: v%d has size %zu", what, p.outputs[k], a.size());
        for (size_t l = 0; l < p.n; ++l)
            if (!same(rg.t, a.at(l), m.out[l][k].x))
                fail("%s: v%d, lane %zu is %s instead of %s", what, p.outputs[k], l, vstr(rg.t, a.at(l)).c_str(), vstr(rg.t, m.out[l][k].x).c_str());
    }
    for (size_t k = 0; k < x.targets.size(); ++k) {
        Arr a = fetch(x.targets[k]);
        const Arr &w = m.targets[k];
        if (a.size() != w.size()) fail("%s: target %zu has size %zu", what, k, a.size());
        for (size_t i = 0; i < w.size(); ++i)
            if (!same(w.t, a.v[i], w.v[i])) fail("%s: target t%zu[%zu] is %s instead of %s", what, k, i, vstr(w.t, a.v[i]).c_str(), vstr(w.t, w.v[i]).c_str());
    }
}

// ---- Printing ------------------------------------------------------------
static void print(const Prog &p, const Block &b, int ind, std::string &o) {
    auto R = [&](int r) { return r < 0 ? std::string("-") : strf("v%d", r); };
    for (auto &st : b) {
        o.append((size_t) ind * 2, ' ');
        std::string m = st.mask >= 0 ? " if " + R(st.mask) : "";
        std::string d = st.dst >= 0 ? strf("%s:%s%s = ", R(st.dst).c_str(), tname(p.regs[st.dst].t), p.regs[st.dst].len ? strf("[%u]", p.regs[st.dst].len).c_str() : "") : "";
        auto L = [&](const std::vector<int> &l) { std::string q; for (int i : l) q += (q.empty() ? "" : ", ") + R(i); return q; };
        switch (st.k) {
            case K::Const: o += d + vstr(p.regs[st.dst].t, st.val); break;
            case K::Op: o += d + op_name(st.op) + "(" + R(st.a) + (st.b >= 0 ? ", " + R(st.b) : "") + (st.c >= 0 ? ", " + R(st.c) : "") + ")"; break;
            case K::Cast: o += d + "cast(" + R(st.a) + ")"; break;
            case K::Gather: o += d + strf("gather(buf%d, %s)", st.res, R(st.a).c_str()) + m; break;
            case K::Capture: o += d + strf("scalar%d", st.res); break;
            case K::Reduce: o += strf("t%d[(%s + %s) %% %zu] %s= %s", st.res, R(st.a).c_str(), R(st.c).c_str(), p.targets[st.res].init.size(), red_name(p.targets[st.res].op), R(st.b).c_str()) + m; break;
            case K::Store: o += strf("t%d[%s + %lu] = %s", st.res, R(st.a).c_str(), (unsigned long) (st.val * p.n), R(st.b).c_str()) + m; break;
            case K::ArrInit: o += d + "array(" + R(st.a) + ")"; break;
            case K::ArrRead: o += d + R(st.a) + "[" + (st.b >= 0 ? R(st.b) : strf("%lu", (unsigned long) st.val)) + "]" + m; break;
            case K::ArrWrite: o += d + R(st.a) + " with [" + (st.b >= 0 ? R(st.b) : strf("%lu", (unsigned long) st.val)) + "] = " + R(st.c) + m; break;
            case K::ArrSelect: o += d + "select(" + R(st.a) + ", " + R(st.b) + ", " + R(st.c) + ")"; break;
            case K::Loop:
                o += "loop state(" + L(st.list) + ")" + (st.val ? " upd" : "") + " cond:\n"; print(p, st.blocks[0], ind + 2, o);
                o.append((size_t) ind * 2 + 2, ' '); o += "while " + R(st.a) + ":\n"; print(p, st.blocks[1], ind + 2, o);
                continue;
            case K::If:
                o += "if " + R(st.a) + " -> (" + L(st.list) + "):\n"; print(p, st.blocks[0], ind + 1, o);
                o.append((size_t) ind * 2, ' '); o += "else:\n"; print(p, st.blocks[1], ind + 1, o);
                continue;
            case K::Call:
                o += "(" + L(st.outs) + ") = call[" + R(st.a) + strf(" %% %zu](", st.funcs.size() + 1) + L(st.list) + ")" + m + "\n";
                for (size_t i = 0; i < st.funcs.size(); ++i) {
                    o.append((size_t) ind * 2 + 2, ' ');
                    o += strf("func %u(", st.ids[i]) + L(st.funcs[i].params) + ") -> (" + L(st.funcs[i].results) + "):\n";
                    print(p, st.funcs[i].body, ind + 2, o);
                }
                continue;
        }
        o += "\n";
    }
}
std::string Prog::str() const {
    std::string o = strf("n=%zu\n", n);
    for (auto &i : inputs) o += strf("v%d = %s %s\n", i.reg, form_name(i.form), i.a.str(12).c_str());
    for (size_t i = 0; i < buffers.size(); ++i) o += strf("buf%zu = %s\n", i, buffers[i].str(12).c_str());
    for (size_t i = 0; i < scalars.size(); ++i) o += strf("scalar%zu = %s\n", i, scalars[i].str(12).c_str());
    for (size_t i = 0; i < targets.size(); ++i) o += strf("t%zu (%s) = %s\n", i, red_name(targets[i].op), targets[i].init.str(12).c_str());
    print(*this, main, 0, o);
    return o;
}
Model check_program(Src &s, const Gen &g, const char *what, bool cuts) {
    Config cfg = gen_config(s);
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    Prog p = gen_program(s, g);
    s.note("%s", p.str().c_str());
    if (p.nested_side && !(cfg.flags & (uint32_t) JitFlag::OptimizeLoops)) { // known finding of P09
        cfg.flags |= (uint32_t) JitFlag::OptimizeLoops;
        s.note("(with loop optimizations)");
        apply_config(cfg);
    }
    Model m = interpret(p);
    Session x;
    make_inputs(s, p, x);
    ExecOpts o;
    if (cuts && s.chance(1, 3)) { o.cuts = s.bits() & s.bits(); o.cut_kind = s.bits(); s.note("cuts %lx kind %lx", (unsigned long) o.cuts, (unsigned long) o.cut_kind); }
    execute(p, x, o);
    compare(p, x, m, what);
    s.tag("loops", p.n_loop); s.tag("conditionals", p.n_if); s.tag("calls", p.n_call); s.tag("side effects", p.n_side);
    s.tag("array operations", p.n_arr); s.tag("statements", p.n_stmt); s.tag("lanes", p.n);
    s.tag("iterations", m.iterations); s.tag("true branches", m.taken); s.tag("false branches", m.not_taken);
    s.tag("dispatched lanes", m.dispatched); s.tag("scatter contributions", m.contributions);
    x = Session();
    end_case();
    return m;
}
} // namespace prog
