// Random structured programs over the tracing API, together with a reference
// interpreter that runs them separately in every lane.
#pragma once
#include "jx.h"
#include <tuple>

namespace prog {
using namespace jx;

struct Reg { VarType t; uint32_t len = 0; /* >0: local array */ };
enum class K { Op, Const, Cast, Gather, Capture, Reduce, Store, Loop, If, Call, ArrInit, ArrRead, ArrWrite, ArrSelect };
struct Stmt;
using Block = std::vector<Stmt>;
struct Func { std::vector<int> params, results; Block body; };
struct Stmt {
    K k; JitOp op = JitOp::Add; int dst = -1, a = -1, b = -1, c = -1, mask = -1, res = -1;
    uint64_t val = 0;
    std::vector<Block> blocks;     // Loop: cond, body; If: true, false
    std::vector<int> list;         // Loop: state; If: outputs; Call: arguments
    std::vector<int> outs;         // Call: results
    std::vector<Func> funcs;       // Call: callees
    std::vector<uint32_t> ids;     // Call: instance IDs
    int id = 0;
};
struct Target { Arr init; ReduceOp op; ReduceMode mode = ReduceMode::Auto; };      // op == Identity: one slot per lane and store
struct Input { int reg; Arr a; Form form; };
struct Prog {
    size_t n = 1;
    std::vector<Reg> regs;
    std::vector<Input> inputs;       // inputs[0] is the lane index
    std::vector<Arr> buffers;        // sources of gathers
    std::vector<Arr> scalars;        // evaluated size-1 values
    std::vector<Target> targets;
    Block main;
    std::vector<int> outputs;        // registers visible at the end
    size_t n_loop = 0, n_if = 0, n_call = 0, n_side = 0, n_arr = 0, n_stmt = 0, nested_side = 0;
    int max_id = 0;
    bool oob = false;                // debug mode: indices may be out of bounds
    uint32_t modulus(size_t m) const { return (uint32_t) (oob ? m + m / 2 + 1 : m); }
    std::string str() const;
};

struct Gen {
    uint32_t loops = 2, ifs = 2, calls = 1, arrays = 0, side = 2, ops = 12;
    uint32_t depth = 2, stmts = 8;
    bool wide_only = false;          // all inputs have the full size
    bool literals = true;            // inputs may be literals
    bool oob = false;                // indices may be out of bounds (requires debug mode)
    std::vector<VarType> types;      // element types (chosen at random if empty)
};
Prog gen_program(Src &s, const Gen &g);

/// State of one lane
struct LaneVal { uint64_t x = 0; std::vector<uint64_t> a; };
struct Model {
    std::vector<std::vector<LaneVal>> out; // [lane][index into outputs]
    std::vector<Arr> targets;
    // What the lanes did
    struct Oob { char kind; uint64_t size, pos; int stmt; bool operator<(const Oob &o) const { return std::tie(kind, size, pos, stmt) < std::tie(o.kind, o.size, o.pos, o.stmt); } };
    std::set<Oob> oob;                     // out-of-bounds accesses of (g)ather, (r)educe, array read/write (a/w), (c)all
    uint64_t iterations = 0, taken = 0, not_taken = 0, dispatched = 0, skipped = 0, contributions = 0, array_ops = 0;
};
Model interpret(const Prog &p);

/// The variables a program works on
struct Session {
    std::vector<Var> inputs, buffers, scalars, targets, outputs;
    Var zero; // evaluated
};
/// Creates the variables
void make_inputs(Src &s, const Prog &p, Session &x);
struct ExecOpts {
    uint64_t cuts = 0;        // bit i: evaluate after top-level statement i
    uint64_t cut_kind = 0;    // which evaluation function
    bool fresh_scope = false;
    size_t *done = nullptr;   // number of top-level statements that completed
};
/// Traces the program
void execute(const Prog &p, Session &x, const ExecOpts &o = {});
/// Called before each statement that is traced (by thread)
extern thread_local void (*g_step)();
/// Compare outputs and targets with the model
void compare(const Prog &p, Session &x, const Model &m, const char *what);
/// Generates a program, runs it under a random configuration and compares
Model check_program(Src &s, const Gen &g, const char *what, bool cuts = true);

// ---- Programs written by hand --------------------------------------------
inline Prog base_prog(size_t n = 4) {
    Prog p;
    p.n = n;
    Arr lane(VarType::UInt32, n);
    for (size_t i = 0; i < n; ++i) lane.v[i] = i;
    p.regs.push_back({ VarType::UInt32, 0 });
    p.inputs.push_back({ 0, lane, Memory });
    return p;
}
inline int reg(Prog &p, VarType t, uint32_t len = 0) { p.regs.push_back({ t, len }); return (int) p.regs.size() - 1; }
inline Stmt &add(Prog &p, Block &b, K k, int dst) { b.emplace_back(); b.back().k = k; b.back().dst = dst; b.back().id = p.max_id++; return b.back(); }
inline int konst(Prog &p, Block &b, VarType t, uint64_t v) { int r = reg(p, t); add(p, b, K::Const, r).val = v; return r; }
inline int op2(Prog &p, Block &b, JitOp o, VarType t, int x, int y, int dst = -1) {
    if (dst < 0) dst = reg(p, t);
    Stmt &st = add(p, b, K::Op, dst); st.op = o; st.a = x; st.b = y;
    return dst;
}
/// Runs the program; throws if it misbehaves
inline void run_prog(Prog &p, const std::vector<int> &outs) {
    p.outputs = outs;
    Model m = interpret(p);
    Session x;
    Src s((uint64_t) 1);
    make_inputs(s, p, x);
    execute(p, x);
    compare(p, x, m, "program");
}
} // namespace prog
