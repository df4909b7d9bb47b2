// P21: reference counting releases every variable and buffer exactly when unused
#include "mem.h"
#include "prog.h"
using namespace jx; using namespace prog;

namespace {
// ---- What the library reports ------------------------------------------------
struct Graph {
    std::map<uint32_t, std::map<uint32_t, uint32_t>> deps; // node -> operands (with multiplicity)
    std::map<uint32_t, uint32_t> uses;
    std::set<uint32_t> nodes;
};
Graph read_graph() {
    Graph r; std::string g = jit_var_graphviz(); size_t i = 0;
    while (i < g.size()) {
        size_t e = g.find('\n', i); std::string t = g.substr(i, e - i); i = e + 1;
        unsigned a, b; int pos = 0;
        while (!t.empty() && t[0] == ' ') t.erase(0, 1);
        if (sscanf(t.c_str(), "%u -> %u%n", &a, &b, &pos) == 2 && pos > 0) { r.deps[b][a]++; r.uses[a]++; continue; }
        pos = 0;
        if (sscanf(t.c_str(), "%u [label=%n", &a, &pos) == 1 && pos > 0) r.nodes.insert(a);
    }
    // Arrays that a pending side effect writes to are counted separately
    std::set<uint32_t> ptrs;
    for (uint32_t id : r.nodes) if (jit_var_type(id) == VarType::Void)
        for (auto &d : r.deps[id]) if (jit_var_type(d.first) == VarType::Pointer && ptrs.insert(d.first).second)
            for (auto &q : r.deps[d.first]) r.uses[q.first] -= q.second;
    return r;
}
/// Bytes in use according to the allocator ("x/y used")
bool usage_is(double want, std::string &line) {
    std::string txt = jit_var_whos(); size_t p = txt.find("Memory allocator");
    p = p == std::string::npos ? p : txt.find("- LLVM ", p);
    if (p == std::string::npos) return want == 0;
    line = txt.substr(p, txt.find('\n', p) - p);
    const char *c = strchr(line.c_str(), ':'); if (!c) fail("cannot read '%s'", line.c_str());
    char *e; double d = strtod(c + 1, &e);
    static const char *u[] = { "B/", "KiB/", "MiB/", "GiB/" };
    while (*e == ' ') ++e;
    int k = -1; for (int q = 3; q >= 0 && k < 0; --q) if (!strncmp(e, u[q], strlen(u[q]))) k = q;
    if (k < 0) fail("cannot read '%s'", line.c_str());
    for (int q = 0; q < k; ++q) d *= 1024;
    return std::fabs(d - want) <= 1e-3 * want + 1e-9;
}
void check_usage(uint32_t width, const char *what) {
    jit_sync_thread();
    width = jit_llvm_vector_width(); Graph g = read_graph(); std::set<void *> seen; double want = 0;
    for (uint32_t id : g.nodes) {
        VarState st = jit_var_state(id);
        if (st != VarState::Evaluated) continue;
        void *p = nullptr; Var d = steal(jit_var_data(id, &p));
        if (d.id() != id) fail("%s: the data of r%u is another variable", what, id);
        if (!p || !seen.insert(p).second) fail("%s: r%u shares its storage", what, id);
        size_t ts = tsize(jit_var_type(id)), len = jit_var_size(id), b = ts < 4 ? (len + width - 1) / width * width * ts + 4 - ts : len * ts, q = width < 16 ? 64 : width * 8, r = 1;
        b = (b + q - 1) / q * q; while (r < b) r *= 2;
        want += (double) r;
    }
    std::string line;
    if (!usage_is(want, line)) fail("%s: variables occupy %.0f bytes, but: %s\n%s", what, want, line.c_str(), jit_var_whos());
}

// ---- Callbacks ------------------------------------------------------------------
struct Rec { uint32_t id; int evals = 0, frees = 0; bool detached = false; };
bool g_in_api; // callbacks arrive only during calls
void on_event(uint32_t id, int freed, void *p) {
    Rec *r = (Rec *) p;
    if (r->id != id) { r->frees = 100; return; }
    if (freed) r->frees++; else r->evals++;
}

struct Node { Var v; Arr a; };
struct World {
    Src &s; uint32_t width; std::vector<Node> nodes; std::vector<std::unique_ptr<Rec>> recs; size_t n, steps = 0, released = 0, pending = 0, failures = 0;
    std::map<uint32_t, Rec *> rec_of; std::vector<Node> masks; std::vector<Var> stack;
    World(Src &s, uint32_t w) : s(s), width(w) {}
    std::map<uint32_t, uint32_t> handles() {
        std::map<uint32_t, uint32_t> r;
        for (auto &x : nodes) r[x.v.id()]++;
        for (auto &x : masks) r[x.v.id()]++;
        return r;
    }
    void add(Var v, Arr a) {
        if (jit_var_size(v.id()) != a.size()) fail("size %zu instead of %zu", (size_t) jit_var_size(v.id()), a.size());
        nodes.push_back({ std::move(v), std::move(a) });
    }
    void watch() { // callback of a variable without one
        if (nodes.empty()) return;
        uint32_t id = nodes[s.below(nodes.size())].v.id();
        auto it = rec_of.find(id);
        if (it != rec_of.end() && !it->second->frees) {
            if (s.chance(1, 5)) { jit_var_set_callback(id, nullptr, nullptr); it->second->detached = true; rec_of.erase(it); }
            return;
        }
        recs.emplace_back(new Rec{ id }); rec_of[id] = recs.back().get();
        jit_var_set_callback(id, on_event, recs.back().get()); s.tag("callback");
    }
    void check(const char *what) {
        Graph g = read_graph(); auto H = handles();
        std::vector<uint32_t> todo; std::set<uint32_t> reach;
        auto visit = [&](uint32_t id) { if (reach.insert(id).second) todo.push_back(id); };
        for (auto &h : H) { if (!g.nodes.count(h.first)) fail("%s: r%u was released in spite of %u references", what, h.first, h.second); visit(h.first); }
        size_t side = 0;
        for (uint32_t id : g.nodes) {
            uint32_t refs = (H.count(id) ? H[id] : 0) + (g.uses.count(id) ? g.uses[id] : 0), got = jit_var_ref(id);
            bool se = jit_var_type(id) == VarType::Void;
            if (se) { side++; refs++; visit(id); }
            if (got != refs) fail("%s: r%u has %u references instead of %u\n%s\n%s", what, id, got, refs, jit_var_whos(), std::string(jit_var_graphviz()).c_str());
            VarState st = jit_var_state(id);
            if (jit_var_type(id) != VarType::Pointer && (st == VarState::Evaluated || st == VarState::Dirty || st == VarState::Literal) && g.deps.count(id) && !g.deps[id].empty())
                fail("%s: r%u is %s, but still holds operands", what, id, st == VarState::Literal ? "a literal" : "evaluated");
        }
        if (side > pending) fail("%s: %zu side effects are pending, expected at most %zu", what, side, pending);
        while (!todo.empty()) { uint32_t id = todo.back(); todo.pop_back(); if (g.deps.count(id)) for (auto &d : g.deps[id]) visit(d.first); }
        for (uint32_t id : g.nodes) if (!reach.count(id)) fail("%s: r%u is not used by anything, but still exists\n%s", what, id, jit_var_whos());
        for (auto &r : recs) {
            if (r->detached) { if (r->frees > 1) fail("%s: removed callback of r%u", what, r->id); continue; }
            bool alive = g.nodes.count(r->id) && (rec_of.count(r->id) && rec_of[r->id] == r.get());
            if (r->frees > 1) fail("%s: r%u: callback invoked %d times on evaluation, %d times on release", what, r->id, r->evals, r->frees);
            if (!r->frees && !alive) fail("%s: r%u was released without a callback", what, r->id);
            if (r->frees && !r->detached) {
                if (alive && H.count(r->id)) { // index in use by another variable since
                    // (the callback ran although a handle exists that was never dropped)
                    for (auto &k : keep) if (k == r->id) fail("%s: r%u was reported as released", what, r->id);
                }
                if (rec_of.count(r->id) && rec_of[r->id] == r.get()) { rec_of.erase(r->id); released++; }
                r->detached = true;
            }
        }
        keep.clear(); for (auto &h : H) keep.push_back(h.first);
    }
    std::vector<uint32_t> keep; bool expand = false; // (the storage of expanded arrays is larger)
    Node *wide() { for (int i = 0; i < 5; ++i) { Node &x = nodes[s.below(nodes.size())]; if (x.a.size() == n && x.a.t == VarType::UInt32) return &x; } return nullptr; }
    const char *step() {
        steps++;
        uint64_t k = s.below(30);
        if (nodes.empty()) k = s.below(3);
        switch (k) {
            case 0: { Arr a = gen_arr(s, VarType::UInt32, n); add(upload(a), a); return "upload"; }
            case 1: { Arr a(VarType::UInt32, 1, s.below(4)); add(literal(a), a); return "literal"; }
            case 2: { Arr a(VarType::UInt32, n); for (size_t i = 0; i < n; ++i) a.v[i] = i; add(ctr(n), a); return "counter"; }
            case 3: case 4: case 5: case 6: case 7: {
                Node x = nodes[s.below(nodes.size())], y = nodes[s.below(nodes.size())];
                JitOp op = s.pick({ JitOp::Add, JitOp::Mul, JitOp::Xor, JitOp::Min, JitOp::Sub, JitOp::And, JitOp::Lt });
                if (x.a.size() != y.a.size() && x.a.size() != 1 && y.a.size() != 1) {
                    failures++; std::string msg; Var r;
                    if (!raises([&] { r = jit_op(op, { x.v, y.v }); }, &msg)) fail("operands of different size were accepted");
                    return "failing operation";
                }
                Arr r(op_result(op, x.a.t), std::max(x.a.size(), y.a.size()));
                for (size_t i = 0; i < r.size(); ++i) { uint64_t in[2] = { x.a.at(i), y.a.at(i) }; ref_op(op, x.a.t, in, r.v[i]); }
                Var v = jit_op(op, { x.v, y.v });
                if (op == JitOp::Lt) { masks.push_back({ v, r }); if (masks.size() > 4) masks.erase(masks.begin()); }
                else add(v, r);
                return op_name(op); }
            case 8: { Node *x = masks.size() ? &masks[s.below(masks.size())] : nullptr; if (!x) return "-"; Node y = nodes[s.below(nodes.size())], z = nodes[s.below(nodes.size())];
                size_t m = std::max({ x->a.size(), y.a.size(), z.a.size() }); for (auto *q : { &x->a, &y.a, &z.a }) if (q->size() != m && q->size() != 1) return "-";
                Arr r(VarType::UInt32, m); for (size_t i = 0; i < m; ++i) r.v[i] = x->a.at(i) ? y.a.at(i) : z.a.at(i);
                add(jit_op(JitOp::Select, { x->v, y.v, z.v }), r); return "select"; }
            case 9: case 10: { // gather (also from unevaluated expressions)
                Node x = nodes[s.below(nodes.size())]; Arr ix = gen_index(s, VarType::UInt32, n, x.a.size()); Var iv = upload(ix), m = boolean(true);
                Arr r(VarType::UInt32, n); for (size_t i = 0; i < n; ++i) r.v[i] = x.a.v[ix.v[i]];
                add(steal(jit_var_gather(x.v.id(), iv.id(), m.id())), r); return "gather"; }
            case 11: case 12: case 13: { // side effect, remains pending
                Node *x = wide(); if (!x) return "-"; size_t i = s.below(n); Node y = nodes[s.below(nodes.size())]; if (y.a.size() != 1) return "-";
                Var ix = u32((uint32_t) i), m = boolean(true); bool red = s.flip(), repl = s.flip();
                Arr r = x->a; r.v[i] = red ? (uint32_t) (r.v[i] + y.a.v[0]) : y.a.v[0];
                if (jit_var_state(y.v.id()) == VarState::Literal && red && y.a.v[0] == 0) return "-";
                std::vector<Node> old; if (repl) old.push_back(*x);
                Var o = steal(jit_var_scatter(x->v.id(), y.v.id(), ix.id(), m.id(), red ? ReduceOp::Add : ReduceOp::Identity, red && s.flip() ? (expand = true, ReduceMode::Auto) : ReduceMode::Direct)); pending++;
                s.tag("pending side effect");
                x->v = o; x->a = r; if (repl) nodes.push_back(old[0]);
                return "scatter"; }
            case 14: { nodes.push_back(nodes[s.below(nodes.size())]); return "copy of a handle"; }
            case 15: case 16: case 17: case 18: { size_t i = s.below(nodes.size()); nodes.erase(nodes.begin() + i); return "release"; }
            case 19: { jit_var_schedule(nodes[s.below(nodes.size())].v.id()); return "schedule"; }
            case 20: { pending = 0; jit_eval(); return "evaluation"; }
            case 21: { Node x = nodes[s.below(nodes.size())]; jit_var_eval(x.v.id()); return "evaluation of a variable"; }
            case 22: { Node x = nodes[s.below(nodes.size())]; expect(x.v, x.a, "value"); return "read"; }
            case 23: case 24: watch(); return "callback";
            case 25: { Node x = nodes[s.below(nodes.size())]; Arr r(VarType::UInt32, 1, 0); for (auto q : x.a.v) r.v[0] = (uint32_t) (r.v[0] + q);
                add(steal(jit_var_reduce(BE, VarType::UInt32, ReduceOp::Add, x.v.id())), r); return "reduction"; }
            case 26: { Node x = nodes[s.below(nodes.size())]; Var l = steal(jit_var_set_label(x.v.id(), 1, s.flip() ? "a" : "b")); // label or relabelled copy
                add(l, x.a); return "label"; }
            case 27: { Node x = nodes[s.below(nodes.size())]; Var c = steal(jit_var_copy(x.v.id())); add(c, x.a); return "copy"; }
            case 28: { // recording that fails
                failures++; Node x = nodes[s.below(nodes.size())]; uint32_t cp = jit_record_begin(BE, "region"); std::vector<Var> tmp;
                Var scope; { Var w = steal(jit_var_add(x.v.id(), x.v.id())), m = steal(jit_var_mask_default(BE, (uint32_t) n)); jit_var_mask_push(BE, m.id()); tmp.push_back(w); tmp.push_back(m);
                if (x.a.size() == n && jit_var_type(x.v.id()) == VarType::UInt32 && s.flip()) { Var lit = u32(3), ix = u32(0), t = boolean(true); try { Var o = steal(jit_var_scatter(x.v.id(), lit.id(), ix.id(), t.id())); tmp.push_back(o); } catch (const vt::Fail &) { throw; } catch (const std::exception &) { } }
                jit_var_mask_pop(BE); }
                jit_record_end(BE, cp, 1); tmp.clear(); s.tag("discarded recording");
                return "discarded recording"; }
            case 29: { Node x = nodes[s.below(nodes.size())]; Var f = steal(jit_var_cast(x.v.id(), VarType::Int32, s.flip())); Var u = steal(jit_var_cast(f.id(), VarType::UInt32, 1)); add(u, x.a); return "conversion"; }
        }
        return "-";
    }
};

void case_graph(Src &s) {
    Config c = gen_config(s); apply_config(c);
    World w(s, c.width); w.n = 2 + s.small(0, 60);
    size_t steps = 10 + s.below(60);
    for (size_t i = 0; i < steps; ++i) {
        const char *what = w.step(); s.note("%s", what);
        w.check(what);
    }
    if (s.flip()) { // everything is evaluated, then only storage remains
        for (auto &x : w.nodes) jit_var_schedule(x.v.id());
        for (auto &x : w.masks) jit_var_schedule(x.v.id());
        jit_eval(); w.pending = 0;
        w.check("evaluation of all variables"); if (!w.expand) check_usage(c.width, "evaluation of all variables");
        for (auto &x : w.nodes) expect(x.v, x.a, "final value");
        w.check("reading all values");
    }
    while (!w.nodes.empty()) { w.nodes.erase(w.nodes.begin() + s.below(w.nodes.size())); if (s.chance(1, 4)) w.check("release"); }
    w.masks.clear();
    jit_eval(); w.pending = 0; w.check("release of all handles");
    for (auto &r : w.recs) if (!r->detached && r->frees != 1) fail("r%u: callback invoked %d times on evaluation, %d times on release", r->id, r->evals, r->frees);
    check_usage(c.width, "release of all handles");
    s.tag("released variables with callbacks", w.released);
    if (w.steps > 5) s.nontrivial();
    w.recs.clear();
}

// ---- Programs: storage of inputs, temporaries, loop state, calls; interruptions -----------
struct Interrupt { };
thread_local uint64_t t_steps, t_stop;
void step() { if (++t_steps == t_stop) throw Interrupt(); }
void case_program(Src &s) {
    Config c = gen_config(s); apply_config(c);
    Gen g; g.depth = 1 + s.below(3); g.loops = s.below(3); g.ifs = s.below(3); g.calls = s.below(3); g.side = s.below(4);
    Prog p = gen_program(s, g); Model m = interpret(p);
    g_step = ::step; struct Off { ~Off() { g_step = nullptr; t_stop = 0; } } off;
    t_steps = t_stop = 0;
    uint64_t total = 0; size_t runs = 2 + s.below(3);
    for (size_t k = 0; k < runs; ++k) {
        t_steps = 0; t_stop = k && total ? 1 + s.below(total) : 0;
        bool thrown = false;
        {
            Session x; make_inputs(s, p, x);
            ExecOpts o; if (s.chance(1, 3)) { o.cuts = s.bits() & s.bits(); o.cut_kind = s.bits(); }
            std::vector<std::unique_ptr<Rec>> recs; std::set<uint32_t> ids;
            auto watch = [&](const Var &v) { if (v && ids.insert(v.id()).second) { recs.emplace_back(new Rec{ v.id() }); jit_var_set_callback(v.id(), on_event, recs.back().get()); } };
            bool cb = s.flip();
            if (cb) { for (auto &v : x.inputs) watch(v); for (auto &v : x.buffers) watch(v); for (auto &v : x.scalars) watch(v); }
            try { execute(p, x, o); } catch (const Interrupt &) { thrown = true; }
            if (!k) total = t_steps;
            t_stop = 0;
            if (thrown) s.tag("interrupted recordings");
            bool use = s.flip();
            if (!thrown && use) compare(p, x, m, "program");
            else if (s.flip()) jit_eval();
            for (auto &r : recs) if (r->frees) fail("input r%u was released although the program refers to it", r->id);
            x = Session(); jit_eval(); jit_sync_thread();
            for (auto &r : recs) if (r->frees != 1) fail("input r%u: callback invoked %d times on evaluation, %d times on release%s", r->id, r->evals, r->frees, thrown ? " (interrupted)" : "");
        }
        if (live_vars()) fail("variables remain after %s program\n%s", thrown ? "an interrupted" : "a complete", jit_var_whos());
        check_usage(c.width, thrown ? "after an interrupted program" : "after a complete program");
    }
    if (p.n_loop + p.n_if + p.n_call) s.nontrivial();
}

void run(Src &s) {
    if (s.chance(2, 3)) case_graph(s); else case_program(s);
    end_case();
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P21";
    p.rule = "Two thirds: histories of 10-70 operations (arithmetic, gathers from evaluated and unevaluated arrays, pending scatters, handle copies and releases, scheduling, evaluations, reads, reductions, labels, "
             "failing operations, discarded recordings, callbacks); after each one, the reference count of every node must equal handles + uses + pending side effects, every node must be reachable from a handle or a "
             "pending side effect, evaluated nodes must hold no operands, and callbacks must have been invoked once per release; with all evaluated and at the end the allocator must hold exactly the storage of the "
             "living variables. One third: structured programs with loops, conditionals and calls, complete or interrupted while tracing statement k, with callbacks on their inputs; afterwards nothing may be alive. "
             "Non-trivial: more than 5 operations, or a program with control flow.";
    p.setup = init_process;
    p.run = run;
    p.finish = shutdown_process;
    return p;
}
