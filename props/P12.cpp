// P12: per-lane arrays against an array model
#include "prog.h"
using namespace prog;
static void run(Src &s) {
    Gen g;
    g.arrays = 30; g.loops = 2; g.ifs = 2; g.calls = s.flip(); g.side = 1; g.stmts = 6 + (uint32_t) s.below(8);
    g.depth = (uint32_t) s.below(3);
    Model m = check_program(s, g, "array");
    if (m.array_ops) s.nontrivial();
}

// Known findings: fixed programs, true if the result differs from the model
static bool differs(Prog &p, int out) {
    try { run_prog(p, { out }); } catch (const vt::Fail &) { return true; }
    return false;
}
static bool known_if() {
    Prog p = base_prog();
    Block &b = p.main;
    int two = konst(p, b, VarType::UInt32, 2), c = reg(p, VarType::Bool);
    { Stmt &st = add(p, b, K::Op, c); st.op = JitOp::Lt; st.a = 0; st.b = two; }
    int arr = reg(p, VarType::UInt32, 2), r = reg(p, VarType::UInt32);
    add(p, b, K::ArrInit, arr).a = two;
    b.emplace_back();
    Stmt st; st.k = K::If; st.a = c; st.blocks.resize(2); st.list = { arr }; st.id = p.max_id++;
    { Stmt &w = add(p, st.blocks[0], K::ArrWrite, arr); w.a = arr; w.c = 0; w.val = 1; }
    b.back() = st;
    { Stmt &rd = add(p, b, K::ArrRead, r); rd.a = arr; rd.val = 1; }
    return differs(p, r);
}
static bool known_loop() {
    Prog p = base_prog();
    Block &b = p.main;
    VarType t = VarType::UInt32;
    int i = konst(p, b, t, 0), two = konst(p, b, t, 2), f = konst(p, b, VarType::Bool, 0);
    int a = reg(p, t, 2), a2 = reg(p, t, 2), r = reg(p, t);
    add(p, b, K::ArrInit, a).a = 0;
    { Stmt &w = add(p, b, K::ArrWrite, a); w.a = a; w.c = two; }
    { Stmt &w = add(p, b, K::ArrWrite, a2); w.a = a; w.c = two; w.mask = f; }
    Stmt st; st.k = K::Loop; st.blocks.resize(2); st.list = { i, a2 }; st.id = p.max_id++;
    int c = reg(p, VarType::Bool);
    { Stmt &o = add(p, st.blocks[0], K::Op, c); o.op = JitOp::Lt; o.a = i; o.b = two; }
    st.a = c;
    { Stmt &w = add(p, st.blocks[1], K::ArrWrite, a2); w.a = a2; w.c = two; w.val = 1; }
    int one = konst(p, st.blocks[1], t, 1);
    { Stmt &o = add(p, st.blocks[1], K::Op, i); o.op = JitOp::Add; o.a = i; o.b = one; }
    b.push_back(st);
    int q = reg(p, t);
    { Stmt &rd = add(p, b, K::ArrRead, r); rd.a = a; rd.val = 1; }
    { Stmt &rd = add(p, b, K::ArrRead, q); rd.a = a2; rd.val = 1; }
    int z = reg(p, t);
    { Stmt &o = add(p, b, K::Op, z); o.op = JitOp::Add; o.a = r; o.b = q; }
    return differs(p, z);
}

vt::Property vt::make_property() {
    Property p;
    p.id = "P12";
    p.rule = "Random structured programs (typed operations, casts, masked gathers, captured scalars, scatters and scatter-reductions; "
             "loops, conditionals and indirect calls nested up to three levels) are traced symbolically and evaluated under a random "
             "flag/width/block/thread/schedule configuration, partly cut by intermediate evaluations, and compared lane by lane with an "
             "interpreter that runs every lane on its own; afterwards no variable may be alive. Programs consist mostly of array creations, reads, writes and selections with constant or per-lane indices and masks. Non-trivial: at least one array read or write is executed.";
    p.setup = init_process;
    p.run = run;
    p.known = { { "a write to a variable array inside the true branch of a symbolic conditional is lost (ArrayPhi returns the storage of the false branch)", known_if },
                { "a variable array passed through a symbolic loop is modified in place although another handle still refers to the version before the loop", known_loop } };
    p.assumptions = { "arrays are modified inside loops only if no other handle refers to them, and not inside conditionals (known findings)" };
    return p;
}
