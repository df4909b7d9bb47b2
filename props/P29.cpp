// P29: debug mode confines out-of-bounds accesses and reports them
#include "prog.h"
#include <sys/mman.h>
using namespace prog;

namespace {
/// Memory surrounded by a known pattern and inaccessible pages
struct Guarded {
    static constexpr size_t Span = 1 << 20, Body = 1 << 16;
    uint8_t *base;
    Guarded() {
        base = (uint8_t *) mmap(nullptr, Span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED || mprotect(base + Span / 2, Body, PROT_READ | PROT_WRITE)) fail("harness: mmap");
    }
    uint8_t *p = nullptr; size_t n = 0; bool tail = false;
    uint8_t *lo() { return base + Span / 2; }
    /// Place an array of 'bytes' bytes in the middle or at the end
    void *place(size_t bytes, bool at_end, size_t align) {
        memset(lo(), 0xa5, Body);
        n = bytes;
        p = at_end ? lo() + (Body - bytes) / align * align : lo() + Body / 2;
        return p;
    }
    void check() {
        for (uint8_t *q = lo(); q < lo() + Body; ++q)
            if ((q < p || q >= p + n) && *q != 0xa5) fail("memory outside of the array was modified (%ld bytes %s it)", (long) (q < p ? p - q : q - p - (long) n), q < p ? "before" : "after");
    }
};
Guarded *guards() { static Guarded *g = new Guarded[16]; return g; }

struct Report { std::string kind; uint64_t pos, size; };
const char *kinds[][2] = {
    { "drjit.gather(): out-of-bounds read from position ", "gather" },
    { "drjit.gather(): out-of-bounds packet read from position ", "gather" },
    { "drjit.scatter(): out-of-bounds write to position ", "scatter" },
    { "drjit.scatter(): out-of-bounds packet write to position ", "scatter" },
    { "drjit.scatter_reduce(): out-of-bounds write to position ", "reduce" },
    { "drjit.scatter_reduce(): out-of-bounds packet write to position ", "reduce" },
    { "drjit.scatter_inc(): out-of-bounds write to position ", "inc" },
    { "drjit.scatter_xchg(): out-of-bounds write to position ", "exch" },
    { "drjit.scatter_cas(): out-of-bounds write to position ", "cas" },
    { "drjit.Local.read(): out-of-bounds read from position ", "read" },
    { "drjit.Local.write(): out-of-bounds write to position ", "write" },
    { "Attempted to invoke callable with index ", "call" } };
std::vector<Report> reports() {
    std::vector<Report> r;
    for (size_t i = 0; i < g_log.size();) {
        size_t e = g_log.find('\n', i);
        if (e == std::string::npos) e = g_log.size();
        std::string l = g_log.substr(i, e - i);
        i = e + 1;
        for (auto &k : kinds)
            if (l.compare(0, strlen(k[0]), k[0]) == 0) {
                char *end; uint64_t pos = strtoull(l.c_str() + strlen(k[0]), &end, 10);
                const char *m = !strcmp(k[1], "call") ? ", but this value must be strictly smaller than " : " in an array of size ";
                if (strncmp(end, m, strlen(m))) fail("unexpected report: %s", l.c_str());
                r.push_back({ k[1], pos, strtoull(end + strlen(m), nullptr, 10) });
            }
    }
    g_log.clear();
    return r;
}

// ---- A few individual operations ---------------------------------------------
enum Op { Gather, GatherPacket, Scatter, ScatterPacket, Reduce, ReducePacket, Inc, Exch, Cas, Read, Write, OpCount };
const char *oname[] = { "gather", "gather_packet", "scatter", "scatter_packet", "reduce", "reduce_packet", "inc", "exch", "cas", "read", "write" };

uint64_t bad_index(Src &s, VarType it, size_t size, uint32_t mul) {
    uint64_t v;
    bool wide = tsize(it) == 8;
    switch (s.below(wide ? 9 : 6)) {
        case 0: v = size / mul; break;
        case 1: v = size / mul + s.below(40); break;
        case 2: v = UINT64_MAX - s.below(3); break;
        case 3: v = 0x7fffffff + s.below(3); break;
        case 4: v = (1ull << 32) / mul + s.below(size); break; // (wraps when multiplied)
        case 5: v = size + s.below(100000); break;
        case 6: v = (1ull << 32) + s.below(size); break;
        case 7: v = (1ull << 63) + s.below(size); break;
        default: v = (s.bits() << 32) | s.below(size); break;
    }
    if (!wide) v &= 0xffffffffull; // (also the representation of signed values)
    return v;
}
/// The position of an access as seen by the check: values are unsigned, too large ones are clamped
uint64_t position(VarType it, uint64_t ix, uint32_t mul) {
    uint64_t v = tsize(it) == 8 ? std::min<uint64_t>(ix, 0xffffffffull) : (ix & 0xffffffffull);
    return std::min<uint64_t>(v * mul, 0xffffffffull);
}
const VarType elem[] = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };


/// Reports that must (min) and may (max) be issued for an operation
struct Expect { std::string kind; uint64_t size; std::set<uint64_t> pos; size_t lo, hi, n = 0; };
void match(std::vector<Expect> &want) {
    std::vector<Report> got = reports();
    std::string all;
    for (auto &r : got) all += strf("\n  %s %lu of %lu", r.kind.c_str(), (unsigned long) r.pos, (unsigned long) r.size);
    // Operations of equal kind and size are matched with those having the fewest positions first
    std::vector<Expect *> o;
    for (auto &w : want) o.push_back(&w);
    std::sort(o.begin(), o.end(), [](Expect *a, Expect *b) { return a->pos.size() < b->pos.size(); });
    for (int round = 0; round < 2; ++round) // first satisfy the lower bounds, then the rest
        for (auto &r : got) {
            if (r.kind.empty()) continue;
            for (Expect *w : o)
                if (r.kind == w->kind && r.size == w->size && w->pos.count(r.pos) && w->n < (round ? w->hi : w->lo)) { w->n++; r.kind.clear(); break; }
        }
    for (auto &r : got)
        if (!r.kind.empty()) fail("there was no such access: %s, position %lu in an array of size %lu. Reports:%s", r.kind.c_str(), (unsigned long) r.pos, (unsigned long) r.size, all.c_str());
    for (auto &w : want)
        if (w.n < w.lo) fail("an out-of-bounds access (%s, position %lu in an array of size %lu) wasn't reported. Reports:%s", w.kind.c_str(), (unsigned long) *w.pos.begin(), (unsigned long) w.size, all.c_str());
}

struct Single {
    Op op; VarType t, it; ReduceOp rop = ReduceOp::Identity; ReduceMode mode = ReduceMode::Auto;
    uint32_t n = 1; size_t size, slots, lanes;
    Arr ix, m, init; std::vector<Arr> val; Arr cmp;
    std::vector<char> ok;
    Guarded *g = nullptr;
    Var target; std::vector<Var> out; // results
    void gen(Src &s, Guarded *guard, size_t lanes_);
    void trace(Src &s);
    void check();
};
void Single::gen(Src &s, Guarded *guard, size_t lanes_) {
    g = guard; lanes = lanes_;
    op = (Op) s.below(OpCount);
    t = s.pick(std::vector<VarType>(std::begin(elem), std::end(elem)));
    it = s.pick<VarType>({ VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Int64 });
    if (op == GatherPacket || op == ScatterPacket || op == ReducePacket) n = s.pick<uint32_t>({ 2, 4, 3, 8, 6 });
    if (op == Inc) t = VarType::UInt32;
    if (n > 1 || op == Inc || op == Exch || op == Cas || op == Read || op == Write) it = VarType::UInt32;
    if (op == Exch || op == Cas) t = s.pick<VarType>({ VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Int64, VarType::Float32, VarType::Float64 });
    if (op == Reduce || op == ReducePacket) {
        t = s.pick<VarType>({ VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Float32, VarType::Float64 });
        rop = s.pick<ReduceOp>({ ReduceOp::Add, ReduceOp::Min, ReduceOp::Max });
        mode = s.pick<ReduceMode>({ ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Local, ReduceMode::Expand });
        if (!jit_can_scatter_reduce(BE, t, rop)) rop = ReduceOp::Add;
    }
    size = (n > 1 ? 2 * n : 2) + s.below(s.flip() ? 6 : 60);
    size = size / n * n;
    slots = size / n;
    if (op == Read || op == Write) slots = size = 1 + s.below(9);
    ix = Arr(it, lanes);
    m = s.chance(1, 3) ? Arr(VarType::Bool, 1, 1) : gen_mask(s, lanes);
    if (m.size() != 1 && m.size() != lanes) m = Arr(VarType::Bool, lanes, m.v[0]);
    uint32_t rate = s.pick<uint32_t>({ 0, 1, 4, 8 });
    bool distinct = op == Exch || op == Cas || op == Scatter || op == ScatterPacket;
    std::vector<uint64_t> order;
    if (distinct) {
        for (size_t k = 0; k < slots; ++k) order.push_back(k);
        for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[s.below(k)]);
    }
    for (size_t i = 0; i < lanes; ++i) {
        if (s.chance(rate, 8)) { ix.v[i] = bad_index(s, it, size, n); if (position(it, ix.v[i], n) < size) ix.v[i] = tsize(it) == 8 ? UINT64_MAX : 0xffffffff; }
        else if (!distinct) ix.v[i] = s.below(slots);
        else if (i < slots) ix.v[i] = order[i];
        else { ix.v[i] = order[i % slots]; if (m.size() == 1) m = Arr(VarType::Bool, lanes, 1); m.v[i] = 0; }
    }
    ok.resize(lanes);
    for (size_t i = 0; i < lanes; ++i) ok[i] = m.at(i) && position(it, ix.v[i], n) < size;
    if (op != Read && op != Write) init = gen_arr(s, t, size, Dist::Exact);
    else init = gen_arr(s, t, slots, Dist::Exact);
    for (uint32_t k = 0; k < n; ++k) val.push_back(gen_arr(s, t, s.chance(1, 4) ? 1 : lanes, Dist::Exact));
    if (op == Cas) {
        cmp = Arr(t, lanes);
        for (size_t i = 0; i < lanes; ++i) cmp.v[i] = s.flip() && ok[i] ? init.v[ix.v[i]] : init.v[s.below(size)];
    }
    s.note("%s %s x%u, array of %zu, %zu lanes, index %s, mask %s, reduction %s (mode %d)\n", oname[op], tname(t), n, size, lanes, ix.str(40).c_str(), m.str(40).c_str(), red_name(rop), (int) mode);
}
void Single::trace(Src &s) {
    Var i = upload(ix), mv = m.size() == 1 && lanes > 1 ? boolean(m.v[0]) : upload(m);
    if (s.flip()) i = jit_op(JitOp::Add, { i, literal(it, 0, lanes) }); // (may be folded)
    if (s.chance(1, 3)) { uint64_t one = 1; Var z = steal(jit_var_literal(BE, it, &one, 1, 1)); i = jit_op(JitOp::Mul, { i, z }); } // computed by the kernel
    std::vector<Var> v;
    std::vector<uint32_t> vi;
    for (auto &a : val) { v.push_back(a.size() == 1 && a.v[0] && s.flip() ? literal(a) : upload(a)); vi.push_back(v.back().id()); }
    if (op != Read && op != Write) {
        void *p = g->place(size * tsize(t), s.flip(), tsize(t) * (op == ScatterPacket || op == ReducePacket || op == GatherPacket ? (n & (n - 1) ? 1 : n) : 1));
        for (size_t k = 0; k < size; ++k) memcpy((uint8_t *) p + k * tsize(t), &init.v[k], tsize(t));
        target = steal(jit_var_mem_map(BE, t, p, size, 0));
    }
    switch (op) {
        case Gather: out.push_back(steal(jit_var_gather(target.id(), i.id(), mv.id()))); break;
        case GatherPacket: {
            uint32_t o[8];
            jit_var_gather_packet(n, target.id(), i.id(), mv.id(), o);
            for (uint32_t k = 0; k < n; ++k) out.push_back(steal(o[k]));
            break;
        }
        case Scatter: case Reduce: target = steal(jit_var_scatter(target.id(), vi[0], i.id(), mv.id(), rop, op == Scatter ? ReduceMode::Auto : mode)); break;
        case ScatterPacket: case ReducePacket: target = steal(jit_var_scatter_packet(n, target.id(), vi.data(), i.id(), mv.id(), rop, op == ScatterPacket ? ReduceMode::Auto : mode)); break;
        case Inc: { uint32_t id = target.release(); out.push_back(steal(jit_var_scatter_inc(&id, i.id(), mv.id()))); target = steal(id); break; }
        case Exch: { uint32_t id = target.release(); out.push_back(steal(jit_var_scatter_exch(&id, vi[0], i.id(), mv.id()))); target = steal(id); break; }
        case Cas: {
            Var c = upload(cmp);
            uint32_t id = target.release(), a, b;
            jit_var_scatter_cas(&id, c.id(), vi[0], i.id(), mv.id(), &a, &b);
            target = steal(id); out.push_back(steal(a)); out.push_back(steal(b));
            break;
        }
        default: {
            Var arr = steal(jit_array_create(BE, t, 1, slots));
            Var first = upload(Arr(t, 1, init.v[0]));
            arr = steal(jit_array_init(arr.id(), first.id()));
            for (size_t k = 1; k < slots; ++k) {
                Var e = upload(Arr(t, 1, init.v[k]));
                arr = steal(jit_array_write(arr.id(), u32((uint32_t) k).id(), e.id(), boolean(true).id()));
            }
            if (op == Write) {
                arr = steal(jit_array_write(arr.id(), i.id(), vi[0], mv.id()));
                for (size_t k = 0; k < slots; ++k) out.push_back(steal(jit_array_read(arr.id(), u32((uint32_t) k).id(), boolean(true).id())));
            } else
                out.push_back(steal(jit_array_read(arr.id(), i.id(), mv.id())));
        }
    }
    if (op == Inc || op == Exch || op == Cas) for (auto &v : out) jit_var_schedule(v.id());
}
void Single::check() {
    Arr want = init;
    auto lane = [&](const Arr &a, size_t i, uint64_t w, const char *what) {
        if (!same(t, a.at(i), w)) fail("%s: %s in lane %zu is %s instead of %s", oname[op], what, i, vstr(t, a.at(i)).c_str(), vstr(t, w).c_str());
    };
    std::vector<Arr> o;
    for (auto &v : out) { o.push_back(fetch(v)); if (o.back().size() != lanes && o.back().size() != 1) fail("%s: wrong size of the result", oname[op]); }
    switch (op) {
        case Gather: case GatherPacket:
            for (uint32_t k = 0; k < n; ++k) for (size_t i = 0; i < lanes; ++i) lane(o[k], i, ok[i] ? init.v[ix.v[i] * n + k] : 0, ok[i] ? "valid access" : "masked or invalid access");
            break;
        case Scatter: case ScatterPacket: case Reduce: case ReducePacket:
            for (size_t i = 0; i < lanes; ++i) if (ok[i]) for (uint32_t k = 0; k < n; ++k) {
                uint64_t &w = want.v[ix.v[i] * n + k];
                w = rop == ReduceOp::Identity ? val[k].at(i) : ref_reduce(rop, t, w, val[k].at(i));
            }
            break;
        case Inc: {
            std::map<uint64_t, std::set<uint64_t>> tickets;
            for (size_t i = 0; i < lanes; ++i) if (ok[i]) {
                if (!tickets[ix.v[i]].insert(o[0].at(i)).second) fail("inc: a value was handed out twice");
                want.v[ix.v[i]] = (want.v[ix.v[i]] + 1) & 0xffffffffu;
            }
            for (auto &[k, q] : tickets) for (uint64_t x : q) if (((x - init.v[k]) & 0xffffffffu) >= q.size()) fail("inc: returned %lu", (unsigned long) x);
            break;
        }
        case Exch:
            for (size_t i = 0; i < lanes; ++i) if (ok[i]) { lane(o[0], i, init.v[ix.v[i]], "old value"); want.v[ix.v[i]] = val[0].at(i); } else lane(o[0], i, 0, "masked or invalid access");
            break;
        case Cas:
            for (size_t i = 0; i < lanes; ++i) {
                if (!ok[i]) { if (o[1].at(i)) fail("cas: lane %zu without an access was successful", i); lane(o[0], i, 0, "masked or invalid access"); continue; }
                uint64_t old = init.v[ix.v[i]];
                lane(o[0], i, old, "old value");
                bool eq = old == cmp.v[i];
                if ((o[1].at(i) != 0) != eq) fail("cas: lane %zu reports the wrong outcome", i);
                if (eq) want.v[ix.v[i]] = val[0].at(i);
            }
            break;
        case Read: for (size_t i = 0; i < lanes; ++i) lane(o[0], i, ok[i] ? init.v[ix.v[i]] : 0, ok[i] ? "valid access" : "masked or invalid access"); break;
        default:
            for (size_t k = 0; k < slots; ++k) for (size_t i = 0; i < lanes; ++i) lane(o[k], i, ok[i] && ix.v[i] == k ? val[0].at(i) : init.v[k], "entry");
    }
    if (target) { expect(target, want, oname[op]); jit_sync_thread(); g->check(); }
}

void individual(Src &s) {
    size_t nops = 1 + s.below(3), lanes = 1 + s.below(s.flip() ? 4 : 40);
    std::vector<Single> ops(nops);
    std::vector<Expect> want;
    bool bad = false, good = false;
    for (size_t o = 0; o < nops; ++o) {
        Single &q = ops[o];
        q.gen(s, guards() + o, lanes);
        std::string kind = oname[q.op];
        if (kind.size() > 7 && kind.substr(kind.size() - 7) == "_packet") kind.resize(kind.size() - 7);
        Expect e{ kind, q.size, {}, 1, q.n };
        for (size_t i = 0; i < lanes; ++i) {
            bool in = q.m.at(i), oob = in && !q.ok[i];
            good |= q.ok[i]; bad |= oob;
            uint64_t base = position(q.it, q.ix.v[i], q.n);
            if (oob) for (uint32_t k = 0; k < q.n; ++k) e.pos.insert(std::min<uint64_t>(base + k, 0xffffffffull));
        }
        if (!e.pos.empty()) want.push_back(e);
    }
    reports();
    for (auto &q : ops) q.trace(s);
    for (auto &q : ops) for (auto &v : q.out) jit_var_schedule(v.id());
    jit_eval();
    jit_sync_thread();
    for (auto &q : ops) q.check();
    match(want);
    s.tag(bad ? "with out-of-bounds accesses" : "all in bounds");
    for (auto &q : ops) s.tag(oname[q.op]);
    if (good && bad) s.nontrivial();
}

// ---- Programs ------------------------------------------------------------------
const char *kind_of(char k) {
    switch (k) { case 'g': return "gather"; case 'r': return "reduce"; case 'a': return "read"; case 'w': return "write"; default: return "call"; }
}
/// Statements of the top level that access memory as a side effect
void side_effects(const Block &b, std::set<int> &out) {
    for (auto &st : b) {
        if (st.k == K::Reduce) out.insert(st.id);
        for (auto &c : st.blocks) side_effects(c, out);
        for (auto &f : st.funcs) side_effects(f.body, out);
    }
}
void program(Src &s, const Config &c) {
    Gen g;
    g.oob = true; g.arrays = 4; g.side = 3; g.calls = 2; g.literals = false;
    g.stmts = 3 + (uint32_t) s.below(6); g.depth = (uint32_t) s.below(3);
    Prog p = gen_program(s, g);
    s.note("%s", p.str().c_str());
    if (p.nested_side && !(c.flags & (uint32_t) JitFlag::OptimizeLoops)) { // known finding of P09
        Config d = c; d.flags |= (uint32_t) JitFlag::OptimizeLoops; apply_config(d);
    }
    Model m = interpret(p);
    Session x;
    reports();
    make_inputs(s, p, x);
    ExecOpts o;
    if (s.chance(1, 3)) o.cuts = s.bits() & s.bits(), o.cut_kind = s.bits();
    execute(p, x, o);
    compare(p, x, m, "program");
    x = Session();
    jit_eval();
    jit_sync_thread();
    std::vector<Report> got = reports();
    std::string all, model;
    for (auto &r : got) all += strf("\n  %s %lu of %lu", r.kind.c_str(), (unsigned long) r.pos, (unsigned long) r.size);
    for (auto &q : m.oob) model += strf("\n  %s %lu of %lu (statement %d)", kind_of(q.kind), (unsigned long) q.pos, (unsigned long) q.size, q.stmt);
    std::map<int, int> count;
    for (auto &r : got) {
        bool found = false;
        for (auto &q : m.oob) found |= r.kind == kind_of(q.kind) && r.size == q.size && r.pos == q.pos;
        if (!found) fail("there was no such access: %s, position %lu in an array of size %lu. Reports:%s\nExpected:%s", r.kind.c_str(), (unsigned long) r.pos, (unsigned long) r.size, all.c_str(), model.c_str());
    }
    std::set<int> must, todo;
    side_effects(p.main, must);
    for (auto &q : m.oob) if (must.count(q.stmt)) {
        bool found = false;
        for (auto &r : got) found |= r.kind == kind_of(q.kind) && r.size == q.size;
        if (!found) fail("an out-of-bounds access (%s, position %lu in an array of size %lu) wasn't reported. Reports:%s\nExpected:%s", kind_of(q.kind), (unsigned long) q.pos, (unsigned long) q.size, all.c_str(), model.c_str());
    }
    s.tag("programs"); s.tag(got.empty() ? "programs without reports" : "programs with reports");
    s.tag("loops", p.n_loop); s.tag("conditionals", p.n_if); s.tag("calls", p.n_call); s.tag("reports", got.size());
    if (!m.oob.empty()) s.nontrivial();
}
void run(Src &s) {
    Config c = gen_config(s);
    c.flags |= (uint32_t) JitFlag::Debug;
    s.note("%s\n", c.str().c_str());
    apply_config(c);
    struct Off { ~Off() { jit_set_flag(JitFlag::Debug, 0); } } off;
    if (s.chance(2, 5)) program(s, c); else individual(s);
    end_case();
}
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P29";
    p.rule = "Debug mode is enabled. (a) One to three gathers, scatters, scatter-reductions (also of packets), atomic increments, exchanges, "
             "compare-and-swaps and local array accesses are traced into one kernel. Index vectors mix valid values with values at, near and "
             "far beyond the end of the array, negative ones, and ones that overflow when cast or scaled; masks, types, sizes and reduction "
             "modes vary. The arrays live in memory surrounded by canaries and inaccessible pages. Lanes without a valid access must read zero, "
             "all other results and the array contents must match the model, the surroundings must be intact, and exactly one warning of the "
             "right kind, position and size must be logged for every operation with an invalid access in an active lane and no other. "
             "(b) Random programs with loops, conditionals, indirect calls and local arrays, whose indices are partially out of bounds, "
             "are compared with an interpreter that skips invalid accesses, every warning must correspond to an invalid access that the "
             "interpreter saw, and those of scatter-reductions must be reported. Non-trivial: valid and invalid accesses occurred.";
    p.setup = init_process;
    p.run = run;
    return p;
}
