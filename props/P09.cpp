// P09: symbolic loops against per-lane iteration
#include "prog.h"
using namespace prog;
static void run(Src &s) {
    Gen g;
    g.loops = 20; g.ifs = 2; g.calls = 1; g.side = 3; g.stmts = 4 + (uint32_t) s.below(5);
    g.depth = 1 + (uint32_t) s.below(3);
    Model m = check_program(s, g, "loop");
    if (m.iterations) s.nontrivial();
}
static bool known_retry() {
    jit_set_flag(JitFlag::OptimizeLoops, 0);
    Prog p = base_prog();
    Block &b = p.main;
    VarType t = VarType::UInt32;
    p.targets.push_back({ Arr(VarType::UInt64, 1), ReduceOp::Add, ReduceMode::Auto });
    int i = konst(p, b, t, 0), j = konst(p, b, t, 0), two = konst(p, b, t, 2), f = konst(p, b, VarType::Bool, 0), u = konst(p, b, t, 7);
    Stmt outer; outer.k = K::Loop; outer.id = p.max_id++; outer.blocks.resize(2); outer.list = { i, j, u, f };
    Stmt inner; inner.k = K::Loop; inner.id = p.max_id++; inner.blocks.resize(2); inner.list = { j, u };
    outer.a = op2(p, outer.blocks[0], JitOp::Lt, VarType::Bool, i, two);
    inner.a = op2(p, inner.blocks[0], JitOp::Lt, VarType::Bool, j, two);
    int v = konst(p, inner.blocks[1], VarType::UInt64, 1);
    { Stmt &r = add(p, inner.blocks[1], K::Reduce, -1); r.res = 0; r.a = 0; r.b = v; r.c = 0; r.mask = f; }
    int one = konst(p, inner.blocks[1], t, 1);
    op2(p, inner.blocks[1], JitOp::Add, t, j, one, j);
    outer.blocks[1].push_back(inner);
    int one2 = konst(p, outer.blocks[1], t, 1);
    op2(p, outer.blocks[1], JitOp::Add, t, i, one2, i);
    b.push_back(outer);
    try { run_prog(p, { i, j }); } catch (const std::exception &e) { return strstr(e.what(), "presumed to be constant") != nullptr; }
    return false;
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P09";
    p.rule = "Random structured programs (typed operations, casts, masked gathers, captured scalars, scatters and scatter-reductions; "
             "loops, conditionals and indirect calls nested up to three levels) are traced symbolically and evaluated under a random "
             "flag/width/block/thread/schedule configuration, partly cut by intermediate evaluations, and compared lane by lane with an "
             "interpreter that runs every lane on its own; afterwards no variable may be alive. Non-trivial: at least one loop iteration runs.";
    p.setup = init_process;
    p.run = run;
    p.known = { { "with OptimizeLoops disabled, recording a loop around an inner loop with a side effect raises 'was presumed to be constant' when the side effect turns out to be masked", known_retry } };
    return p;
}
