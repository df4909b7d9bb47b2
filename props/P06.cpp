// P06: scatter-reductions combine every active contribution exactly once
#include "hist.h"
#include "prog.h"
using namespace jx;

// A single reduction into foreign memory (at an arbitrary address), which it must modify in place
static void in_place(Src &s) {
    Foreign mem;
    VarType t = s.pick({ VarType::UInt32, VarType::Float32, VarType::Int32, VarType::Float64, VarType::UInt64, VarType::Int64 });
    ReduceOp op = s.pick({ ReduceOp::Add, ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or });
    if (!jit_can_scatter_reduce(BE, t, op)) op = ReduceOp::Add;
    size_t m = 1 + s.below(24), n = 1 + s.below(100);
    Arr a = gen_arr(s, t, m, Dist::Exact), v = gen_arr(s, t, n, Dist::Exact), ix = gen_index(s, VarType::UInt32, n, m), ma = gen_mask(s, n), want = a;
    if (is_float(t)) { for (auto &x : a.v) x = from_d(t, (double) s.range(-9, 9)); for (auto &x : v.v) x = from_d(t, (double) s.range(-9, 9)); want = a; }
    bool conflict_free = s.chance(1, 3); // the last mode requires distinct elements between packets only; use distinct ones
    if (conflict_free) { n = m; ix = Arr(VarType::UInt32, n); for (size_t i = 0; i < n; ++i) ix.v[i] = n - 1 - i; v.v.resize(n); while (v.v.size() > n) v.v.pop_back(); v = gen_arr(s, t, n, Dist::Exact); if (is_float(t)) for (auto &x : v.v) x = from_d(t, (double) s.range(-9, 9)); ma = gen_mask(s, n); }
    ReduceMode mode = conflict_free ? ReduceMode::NoConflicts : s.pick({ ReduceMode::Local, ReduceMode::Local, ReduceMode::Direct });
    for (size_t i = 0; i < n; ++i) {
        if (!ma.at(i)) continue;
        uint64_t &x = want.v[ix.v[i]], arg[2] = { x, v.v[i] };
        JitOp j = op == ReduceOp::Add ? JitOp::Add : op == ReduceOp::Min ? JitOp::Min : op == ReduceOp::Max ? JitOp::Max : op == ReduceOp::And ? JitOp::And : JitOp::Or;
        if (!ref_op(j, t, arg, x)) return;
    }
    Var tv = mem.map(s, a, s.flip()), vv = make(s, v, s.flip() ? Memory : Lazy), iv = make(s, ix, s.flip() ? Memory : Lazy), mv = make(s, ma, s.flip() ? Memory : Lazy);
    s.note("%s %s, mode %d: target %s, index %s, values %s, mask %s", tname(t), red_name(op), (int) mode, a.str(24).c_str(), ix.str(30).c_str(), v.str(30).c_str(), ma.str(30).c_str());
    Var r = steal(jit_var_scatter(tv.id(), vv.id(), iv.id(), mv.id(), op, mode));
    s.tag(r.id() == tv.id() ? "single reduction in place" : "single reduction of a copy");
    tv.reset();
    expect(r, want, "target");
    r.reset(); vv.reset(); iv.reset(); mv.reset();
    s.nontrivial();
}

static void run(Src &s) {
    Config cfg = gen_config(s);
    if (s.chance(1, 12)) cfg.flags |= (uint32_t) JitFlag::Debug;
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    if (s.chance(1, 6)) { in_place(s); end_case(); return; }
    HistGen g;
    g.reduce = 8; g.scatter = 2; g.packet = 3; g.gather = 1; g.expr = 1; g.write = 1;
    g.max_n = thorough() ? 3000 : 500;
    Hist h(s, g);
    static const std::vector<VarType> types{ VarType::UInt32, VarType::Float32, VarType::Int32, VarType::Float64, VarType::Float16,
                                             VarType::UInt64, VarType::Int64, VarType::UInt16, VarType::Int16 };
    size_t k = 1 + s.below(3);
    for (size_t i = 0; i < k; ++i) {
        size_t n = s.chance(1, 8) ? 1 : s.chance(1, 2) ? (1 + s.below(6)) * s.pick<size_t>({ 2, 4, 8, 16, 24 }) : (size_t) s.small(2, 300);
        if (s.chance(1, 12)) n = 1000 + s.below(3000);
        h.create(s.pick(types), n);
    }
    // Unsupported combinations raise an exception
    if (s.chance(1, 6)) {
        VarType t = s.pick(all_types());
        ReduceOp op = s.pick({ ReduceOp::Mul, ReduceOp::And, ReduceOp::Or, ReduceOp::Min, ReduceOp::Max, ReduceOp::Add });
        bool ok = jit_can_scatter_reduce(BE, t, op);
        Arr a = Arr(t, 8, from_i(t, 1));
        Var tgt = upload(a), val = upload(a), one = boolean(true), ix = ctr(8);
        if (!ok) {
            uint32_t q = 0;
            if (!raises([&] { q = jit_var_scatter(tgt.id(), val.id(), ix.id(), one.id(), op, s.pick({ ReduceMode::Auto, ReduceMode::Local, ReduceMode::Expand })); })) {
                jit_var_dec_ref(q);
                fail("scatter-reduction %s of %s is accepted although it is not supported", red_name(op), tname(t));
            }
            expect(tgt, a, "target of an unsupported reduction");
            s.tag("unsupported");
        }
    }
    size_t steps = 3 + s.below(10);
    for (size_t i = 0; i < steps; ++i) h.step();
    if (h.reductions && h.conflicts) s.nontrivial();
    s.tag("reductions", h.reductions);
    h.finish();
}

// A plain write inside a recorded region evaluates an earlier expanded
// reduction of the target, although a recorded one is pending
static bool known_flush() {
    using namespace prog;
    Config c; c.flags = jit_flags(); c.block = 128; c.threads = 4;
    apply_config(c);
    Prog p = base_prog(4096);
    VarType t = VarType::UInt32;
    Block &b = p.main;
    p.targets.push_back({ Arr(t, 2 * p.n), ReduceOp::Add, ReduceMode::Expand });
    int zero = konst(p, b, t, 0), one = konst(p, b, t, 1);
    auto reduce = [&](Block &b) { Stmt &r = add(p, b, K::Reduce, -1); r.res = 0; r.a = 0; r.b = one; r.c = zero; };
    reduce(b);
    Stmt st; st.k = K::If; st.id = p.max_id++; st.blocks.resize(2); st.list = { zero };
    st.a = op2(p, b, JitOp::Ge, VarType::Bool, 0, one);
    reduce(st.blocks[0]);
    { Stmt &w = add(p, st.blocks[0], K::Store, -1); w.res = 0; w.a = 0; w.b = one; w.val = 1; }
    b.push_back(st);
    try { run_prog(p, { 0 }); } catch (const vt::Fail &) { return true; }
    return false;
}

vt::Property vt::make_property() {
    Property p;
    p.id = "P06";
    p.rule = "A case creates 1-3 arrays (size 1 to 4000) and applies 3-12 operations, mostly scatter-reductions (add, min, max, and, or; modes auto/direct/local/no-conflict/expand; plain and packet; "
             "all conflict patterns; masks; every form of operand; values from other handles; infinities and NaN), mixed with scatters, reads, evaluations and handle copies, under a random thread count, block size and "
             "task schedule. Exact values only, so that the order of additions does not matter. Every handle must equal the model at the end. Unsupported reductions must raise. "
             "Non-trivial: a reduction in which several lanes address the same element.";
    p.setup = init_process;
    p.run = run;
    p.known = { { "a plain scatter recorded inside a conditional, loop or call resets the expanded state of its target, so that contributions of another recorded Expand-mode reduction are lost", known_flush } };
    p.assumptions = { "inside recorded regions, a target of an Expand-mode reduction is not also written by plain scatters (known finding)" };
    return p;
}
