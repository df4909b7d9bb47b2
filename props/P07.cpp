// P07: atomic increment, exchange and compare-and-swap are linearizable
#include "jx.h"
#include "mem.h"
#include "prog.h"
using namespace jx;

namespace {
enum Kind { Inc, Exch, Cas };
const char *kname[] = { "inc", "exch", "cas" };

struct Lane { bool active; size_t cell; uint64_t value, compare; };
/// One atomic operation of every lane. Results become known after evaluation
struct Op {
    Kind k; std::vector<Lane> lanes;
    Var old, ok;                      // results
    bool known = true;                // results are observed
    bool shifted = false; uint64_t shift = 0; // 'old' is xor-ed with a constant
    bool logged = false;              // results are at 'slot' of log arrays (recorded regions)
    std::vector<size_t> slot;
    std::string name;
};
struct Target {
    VarType t; Var v; std::string name;
    std::vector<uint64_t> cur;        // contents before the pending operations
    std::vector<Op> pend;
    std::vector<Var> old_handles;     // earlier versions kept alive
};

struct Run {
    Src &s;
    std::vector<Target> ts;
    std::vector<std::pair<Var, Arr>> kept; // handles with known contents
    uint32_t checks = 0, contended = 0, failures = 0, successes = 0;
    Foreign mem;
    Run(Src &s) : s(s) {}

    /// Compare the results of all pending operations and the final contents
    void check(Target &t, const Arr &fin) {
        if (fin.size() != t.cur.size() || fin.t != t.t) fail("%s has type %s and size %zu", t.name.c_str(), tname(fin.t), fin.size());
        struct Edge { uint64_t from, to; };
        std::map<size_t, std::vector<Edge>> edges;
        std::map<size_t, std::vector<uint64_t>> seen; // observed by failed swaps
        std::map<size_t, uint64_t> unknown;           // increments without result
        std::map<size_t, uint32_t> count;
        for (Op &op : t.pend) {
            Arr old, ok;
            if (op.known) {
                old = fetch(op.old);
                if (old.t != t.t) fail("%s: result type %s", op.name.c_str(), tname(old.t));
                if (op.k == Cas) ok = fetch(op.ok);
                if (!op.logged && old.size() != op.lanes.size()) fail("%s: result size %zu instead of %zu", op.name.c_str(), old.size(), op.lanes.size());
                if (op.k == Cas && ok.size() != old.size()) fail("%s: 'success' has size %zu instead of %zu", op.name.c_str(), ok.size(), old.size());
            }
            for (size_t i = 0; i < op.lanes.size(); ++i) {
                Lane &l = op.lanes[i];
                size_t q = op.logged ? op.slot[i] : i;
                if (!l.active) {
                    if (op.known && op.k == Cas && !op.logged && ok.v[q]) fail("%s: masked lane %zu reports a successful swap", op.name.c_str(), i);
                    continue;
                }
                count[l.cell]++;
                if (!op.known) { unknown[l.cell]++; continue; }
                uint64_t o = old.v[q] ^ op.shift;
                switch (op.k) {
                    case Inc: edges[l.cell].push_back({ o, (o + 1) & 0xffffffffu }); break;
                    case Exch: edges[l.cell].push_back({ o, l.value }); break;
                    default:
                        if (ok.v[q]) {
                            if (o != l.compare) fail("%s: lane %zu reports success although the old value %s differs from %s", op.name.c_str(), i, vstr(t.t, o).c_str(), vstr(t.t, l.compare).c_str());
                            edges[l.cell].push_back({ o, l.value }); successes++;
                        } else {
                            if (o == l.compare) fail("%s: lane %zu reports failure although the old value %s is the expected one", op.name.c_str(), i, vstr(t.t, o).c_str());
                            seen[l.cell].push_back(o); failures++;
                        }
                }
            }
        }
        for (size_t c = 0; c < t.cur.size(); ++c) {
            uint64_t a = t.cur[c], b = fin.v[c];
            if (count.count(c) && count[c] > 1) contended++;
            if (unknown.count(c)) { // only increments
                uint64_t n = unknown[c] + edges[c].size();
                if (((a + n) & 0xffffffffu) != b) fail("%s: element %zu is %s after %lu increments of %s", t.name.c_str(), c, vstr(t.t, b).c_str(), (unsigned long) n, vstr(t.t, a).c_str());
                continue;
            }
            auto &e = edges[c];
            // A sequential history exists iff the edges old->new form a path from a to b
            std::map<uint64_t, int64_t> deg;
            std::map<uint64_t, uint64_t> par;
            std::function<uint64_t(uint64_t)> find = [&](uint64_t x) -> uint64_t { auto it = par.find(x); if (it == par.end()) { par[x] = x; return x; } return it->second == x ? x : (it->second = find(it->second)); };
            find(a); find(b);
            deg[a]--; deg[b]++;
            for (auto &x : e) { deg[x.from]++; deg[x.to]--; par[find(x.from)] = find(x.to); }
            std::string h;
            for (size_t i = 0; i < e.size() && i < 20; ++i) h += strf(" %s->%s", vstr(t.t, e[i].from).c_str(), vstr(t.t, e[i].to).c_str());
            auto bad = [&](const char *why) {
                std::string ops;
                for (Op &op : t.pend) ops += " " + op.name;
                fail("%s: element %zu was %s and became %s: no sequential order explains the results (%s) of%s:%s", t.name.c_str(), c, vstr(t.t, a).c_str(), vstr(t.t, b).c_str(), why, ops.c_str(), h.c_str());
            };
            for (auto &d : deg) if (d.second) bad(strf("value %s was read %ld more times than written", vstr(t.t, d.first).c_str(), (long) d.second).c_str());
            for (auto &x : e) if (find(x.from) != find(a)) bad("unreachable values");
            if (find(b) != find(a)) bad("final value unreachable");
            std::set<uint64_t> values{ a };
            for (auto &x : e) { values.insert(x.from); values.insert(x.to); }
            for (uint64_t x : seen[c]) if (!values.count(x)) bad(strf("a failed swap saw %s", vstr(t.t, x).c_str()).c_str());
        }
        t.cur = fin.v;
        t.pend.clear();
        checks++;
    }
    void resolve(Target &t) {
        if (t.pend.empty()) return;
        if (s.flip()) for (Op &op : t.pend) if (op.known && s.flip()) (void) fetch(op.old); // results first
        Arr fin = fetch(t.v);
        check(t, fin);
    }

    Form form(size_t n) { Form f = s.pick({ Memory, Lazy, Literal, Memory, Scalar, LiteralN }); return n == 1 && f == LiteralN ? Literal : f; }
    uint64_t value(VarType t) {
        if (is_float(t)) return s.chance(1, 20) ? from_d(t, NAN) : from_d(t, (double) s.range(1, 5));
        if (is_bool(t)) return s.below(2);
        return from_i(t, s.chance(1, 10) ? -1 : (int64_t) s.below(5));
    }
    Arr values(VarType t, size_t n) {
        Arr a(t, n);
        Src q(s.bits());
        bool unique = !is_bool(t) && s.flip();
        for (size_t i = 0; i < n; ++i) {
            if (unique) a.v[i] = is_float(t) ? from_d(t, (double) (i + 10)) : from_i(t, (int64_t) (i + 10));
            else { int64_t x = (int64_t) q.below(4); a.v[i] = is_float(t) ? from_d(t, (double) x + 1) : is_bool(t) ? (uint64_t) (x & 1) : from_i(t, x); }
        }
        return a;
    }

    void op(bool masked_scope) {
        Target &t = ts[s.below(ts.size())];
        Kind k = t.t == VarType::UInt32 ? (Kind) s.below(3) : (Kind) (1 + s.below(2));
        size_t m = t.cur.size(), n = s.chance(1, 8) ? 1 : (size_t) s.small(2, thorough() ? 3000 : 400);
        Op op; op.k = k;
        Arr ix = gen_index(s, VarType::UInt32, n, m), ma, va, ca;
        Form xf = form(n), mf = s.chance(2, 5) ? Literal : form(n);
        ma = mf == Literal || mf == Scalar || mf == LiteralN ? Arr(VarType::Bool, mf == LiteralN ? n : 1, !s.chance(1, 8)) : gen_mask(s, n);
        if (ma.size() == n && n > 1 && (xf == Memory || xf == Lazy) && s.flip())
            for (size_t i = 0; i < n; ++i) if (!ma.v[i]) ix.v[i] = 0x7ffffff1u * (uint32_t) (i + 1);
        Var iv, mv = make(s, ma, mf), vv, cv;
        if (n <= m && s.chance(1, 8)) { for (size_t i = 0; i < n; ++i) ix.v[i] = i; iv = ctr(n); }
        else iv = make(s, ix, xf);
        std::string d;
        if (k != Inc) {
            va = values(t.t, n); Form f = form(n); vv = make(s, va, f); d += strf(" value %s %s", form_name(f), va.str(6).c_str());
        }
        if (k == Cas) {
            ca = values(t.t, n);
            if (s.flip()) { Src q(s.bits()); for (auto &x : ca.v) if (q.flip()) x = t.cur[q.below(m)]; } // likely to succeed
            Form f = form(n); cv = make(s, ca, f); d += strf(" compare %s %s", form_name(f), ca.str(6).c_str());
        }
        Arr sm; Var smv;
        if (masked_scope) {
            size_t sz = std::max({ ix.size(), ma.size(), va.size(), ca.size() });
            if (sz == 1) sz = n;
            sm = s.chance(1, 6) ? Arr(VarType::Bool, 1, 1) : gen_mask(s, sz);
            Form f = sm.size() == 1 ? Literal : s.pick({ Memory, Lazy }); smv = make(s, sm, f);
            smv = steal(jit_var_mask_apply(smv.id(), (uint32_t) sm.size()));
            if (s.chance(1, 4)) jit_var_eval(smv.id());
            d += " within mask " + sm.str(8);
        }
        size_t N = std::max({ ix.size(), ma.size(), va.size(), ca.size(), sm.size() });
        for (size_t i = 0; i < N; ++i) {
            Lane l{ ma.at(i) && (sm.v.empty() || sm.at(i)), (size_t) ix.at(i), k == Inc ? 0 : va.at(i), k == Cas ? ca.at(i) : 0 };
            if (l.active && l.cell >= m) fail("harness: index");
            op.lanes.push_back(l);
        }
        op.name = strf("%s(%s)", kname[k], t.name.c_str());
        s.note("%s = %s(idx %s %s, mask %s %s%s) [%zu lanes]", t.name.c_str(), kname[k], form_name(xf), ix.str(8).c_str(), form_name(mf), ma.str(8).c_str(), d.c_str(), N);

        // Operations on a shared array copy it first: the earlier version keeps its contents
        Var old;
        if (s.chance(1, 5)) old = t.v;
        uint32_t before = t.v.id();
        if (masked_scope) jit_var_mask_push(BE, smv.id());
        uint32_t r0 = 0, r1 = 0;
        switch (k) {
            case Inc: r0 = jit_var_scatter_inc(t.v.ptr(), iv.id(), mv.id()); break;
            case Exch: r0 = jit_var_scatter_exch(t.v.ptr(), vv.id(), iv.id(), mv.id()); break;
            default: jit_var_scatter_cas(t.v.ptr(), cv.id(), vv.id(), iv.id(), mv.id(), &r0, &r1);
        }
        if (masked_scope) jit_var_mask_pop(BE);
        op.old = steal(r0); op.ok = steal(r1);
        if (!r0 || (k == Cas && !r1)) fail("%s returned no result", op.name.c_str());
        bool some = false; for (auto &l : op.lanes) some |= l.active;
        if (!some && jit_var_size(r0) != N) { // skipped: a scalar is enough
            op.lanes.resize(jit_var_size(r0)); N = op.lanes.size();
        }
        if (jit_var_size(r0) != N && N > 1) fail("%s: result size %zu instead of %zu", op.name.c_str(), jit_var_size(r0), N);
        // How the result is used
        size_t rs = jit_var_size(r0);
        switch (s.below(N == 1 || k == Cas ? 2 : 4)) {
            case 0: case 1:
                jit_var_schedule(op.old.id()); if (op.ok) jit_var_schedule(op.ok.id());
                break;
            case 2: // expression of the result
                if (rs != N) { jit_var_schedule(op.old.id()); break; }
                if (!is_float(t.t)) {
                    op.shift = is_bool(t.t) ? 1 : from_i(t.t, 5);
                    op.old = jit_op(JitOp::Xor, { op.old, literal(t.t, op.shift) });
                    s.note("  used in an expression");
                }
                jit_var_schedule(op.old.id());
                break;
            default: // ignored
                if (k == Inc) { bool only = true; for (auto &o : t.pend) only &= o.k == Inc;
                    if (only && s.flip()) { op.known = false; op.old.reset(); s.note("  result dropped"); break; } }
                jit_var_schedule(op.old.id());
        }
        if (old && t.v.id() != before) {
            Arr c = fetch(old);
            check(t, c);
            kept.push_back({ old, c });
            s.tag("copied before the operation");
        } else if (old) { // it did nothing
            bool any = false; for (auto &l : op.lanes) any |= l.active && !(k != Inc && t.cur[l.cell] == l.value);
            if (any && t.pend.empty()) fail("%s modified a shared array in place", op.name.c_str());
            old.reset();
        }
        // increments without results do not mix with other operations
        bool blind = !op.known; for (auto &o : t.pend) blind |= !o.known;
        bool mixed = op.k != Inc; for (auto &o : t.pend) mixed |= o.k != Inc;
        t.pend.push_back(std::move(op));
        if (blind && mixed) {
            // evaluate before (not possible any more): results of this operation alone are still checked
            fail("harness: mixed");
        }
    }
    bool blind(Target &t) { for (auto &o : t.pend) if (!o.known) return true; return false; }

    /// Operations within a recorded loop and conditional; the lanes log what they saw
    void recorded() {
        Target &t = ts[s.below(ts.size())];
        if (blind(t)) resolve(t);
        if (is_bool(t.t)) return;
        Kind k = t.t == VarType::UInt32 ? (Kind) s.below(3) : (Kind) (1 + s.below(2));
        size_t m = t.cur.size(), n = (size_t) s.small(2, thorough() ? 1000 : 200), K = 1 + s.below(4);
        Arr trips(VarType::UInt32, n), ix = gen_index(s, VarType::UInt32, n, m), va = values(t.t, n), ca = values(t.t, n);
        Src q(s.bits());
        for (auto &x : trips.v) x = q.below(K + 1);
        bool branch = s.flip(), sym = s.chance(4, 5);
        if (k == Cas && s.flip()) for (auto &x : ca.v) if (q.flip()) x = t.cur[q.below(m)];
        Arr zero(t.t, n * K), zb(VarType::Bool, n * K);
        Var log = upload(zero), logb = upload(zb), lane = ctr(n);
        Var tv = upload(trips), iv = upload(ix), vv = upload(va), cv = upload(ca), i = literal(VarType::UInt32, 0, n);
        Op op; op.k = k; op.logged = true; op.name = strf("%s(%s) in a %s", kname[k], t.name.c_str(), branch ? "loop with a conditional" : "loop");
        s.note("%s: %s loop of up to %zu iterations in %zu lanes, idx %s, trips %s, value %s, compare %s", op.name.c_str(), sym ? "symbolic" : "evaluated", K, n, ix.str(8).c_str(), trips.str(8).c_str(), va.str(8).c_str(), ca.str(8).c_str());
        for (size_t l = 0; l < n; ++l) for (size_t j = 0; j < trips.v[l]; ++j) {
            if (branch && (l + j) % 2) continue;
            op.lanes.push_back({ true, (size_t) (ix.v[l] + j) % m, va.v[l], ca.v[l] });
            op.slot.push_back(l * K + j);
        }
        auto body = [&](const Var &act, const Var &it) {
            Var x = steal(jit_var_mod(steal(jit_var_add(iv.id(), it.id())).id(), u32((uint32_t) m).id()));
            uint32_t r0 = 0, r1 = 0;
            switch (k) {
                case Inc: r0 = jit_var_scatter_inc(t.v.ptr(), x.id(), act.id()); break;
                case Exch: r0 = jit_var_scatter_exch(t.v.ptr(), vv.id(), x.id(), act.id()); break;
                default: jit_var_scatter_cas(t.v.ptr(), cv.id(), vv.id(), x.id(), act.id(), &r0, &r1);
            }
            Var o = steal(r0), ok = steal(r1);
            Var sl = steal(jit_var_add(steal(jit_var_mul(lane.id(), u32((uint32_t) K).id())).id(), it.id()));
            log = steal(jit_var_scatter(log.id(), o.id(), sl.id(), act.id(), ReduceOp::Identity, ReduceMode::NoConflicts));
            if (k == Cas) logb = steal(jit_var_scatter(logb.id(), ok.id(), sl.id(), act.id(), ReduceOp::Identity, ReduceMode::NoConflicts));
        };
        auto step = [&](const Var &it) {
            if (!branch) { Var tr = boolean(true); body(tr, it); return; }
            Var par = steal(jit_var_mod(steal(jit_var_add(lane.id(), it.id())).id(), u32(2).id()));
            Var c = steal(jit_var_eq(par.id(), u32(0).id()));
            body(c, it);
        };
        if (sym) {
            uint32_t st[1] = { i.id() };
            uint32_t cp = jit_record_begin(BE, "loop");
            struct End { uint32_t cp; bool cleanup = true; ~End() { jit_record_end(BE, cp, cleanup); } } end { cp };
            Var lp = steal(jit_var_loop_start("loop", 0, 1, st));
            i = steal(st[0]);
            for (int guard = 0;; ++guard) {
                if (guard > 3) fail("loop recording does not converge");
                Var c = steal(jit_var_lt(i.id(), tv.id()));
                Var act = steal(jit_var_mask_apply(c.id(), (uint32_t) jit_var_size(c.id())));
                c.reset();
                Var lc = steal(jit_var_loop_cond(lp.id(), act.id()));
                jit_var_mask_push(BE, act.id());
                act.reset();
                step(i);
                i = steal(jit_var_add(i.id(), u32(1).id()));
                jit_var_mask_pop(BE);
                st[0] = i.id();
                int done = jit_var_loop_end(lp.id(), lc.id(), st, cp);
                i = steal(st[0]);
                if (done) break;
            }
            end.cleanup = false;
        } else {
            while (true) {
                Var c = steal(jit_var_lt(i.id(), tv.id()));
                Arr ca = fetch(c);
                bool any = false; for (uint64_t x : ca.v) any |= x != 0;
                if (!any) break;
                Var act = steal(jit_var_mask_apply(c.id(), (uint32_t) jit_var_size(c.id())));
                jit_var_mask_push(BE, act.id());
                step(i);
                jit_var_mask_pop(BE);
                i = steal(jit_var_add(i.id(), u32(1).id()));
                if (s.flip()) jit_var_schedule(i.id());
            }
        }
        op.old = log; op.ok = logb;
        log.reset(); logb.reset();
        if (k != Cas) op.ok.reset();
        t.pend.push_back(std::move(op));
        s.tag("recorded operations");
    }
};

void run(Src &s) {
    Config cfg = gen_config(s);
    if (s.chance(1, 12)) cfg.flags |= (uint32_t) JitFlag::Debug;
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    Run r(s);
    size_t k = 1 + s.below(2);
    for (size_t i = 0; i < k; ++i) {
        Target t;
        t.t = s.chance(1, 2) ? VarType::UInt32 : s.pick({ VarType::Int32, VarType::Float32, VarType::UInt64, VarType::Int64, VarType::Float64, VarType::UInt8, VarType::Int8, VarType::UInt16, VarType::Int16, VarType::Float16 });
        t.name = strf("t%zu", i);
        size_t m = s.chance(1, 5) ? 1 : (size_t) s.small(1, s.chance(1, 4) ? 400 : 12);
        Arr a = r.values(t.t, m);
        if (t.t == VarType::UInt32 && s.chance(1, 6)) for (auto &x : a.v) x = 0xffffffffu - s.below(3);
        switch (s.below(5)) {
            case 0: for (auto &x : a.v) x = a.v[0]; t.v = literal(a, m); break;
            case 1: t.v = make(s, a, Lazy); break;
            case 2: t.v = r.mem.map(s, a, false); break;
            default: t.v = upload(a);
        }
        t.cur = a.v;
        s.note("%s = %s", t.name.c_str(), a.str(12).c_str());
        r.ts.push_back(std::move(t));
    }
    size_t steps = 2 + s.below(8);
    for (size_t i = 0; i < steps; ++i) {
        switch (s.below(10)) {
            case 0: case 1: case 2: case 3: case 4: {
                for (auto &t : r.ts) if (r.blind(t)) r.resolve(t);
                r.op(s.chance(1, 4)); break;
            }
            case 5: case 6: r.recorded(); break;
            case 7: jit_eval(); s.note("eval"); break;
            case 8: { auto &t = r.ts[s.below(r.ts.size())]; r.resolve(t); s.note("read %s", t.name.c_str()); break; }
            default: { auto &t = r.ts[s.below(r.ts.size())]; jit_var_schedule(t.v.id()); s.note("schedule %s", t.name.c_str()); }
        }
    }
    for (auto &t : r.ts) r.resolve(t);
    for (auto &[v, a] : r.kept) expect(v, a, "earlier version of an array");
    if (r.contended) s.nontrivial();
    s.tag("elements with several concurrent operations", r.contended);
    s.tag("failed swaps", r.failures); s.tag("successful swaps", r.successes);
}

// The result of a scalar operation, used by a wider expression before being evaluated
bool known_scalar() {
    Config c; c.flags = jit_flags(); c.block = 128; c.threads = 4;
    apply_config(c);
    Var t = literal(VarType::UInt32, 0, 1), ix = u32(0), m = boolean(true);
    Var old = steal(jit_var_scatter_inc(t.ptr(), ix.id(), m.id()));
    Var x = steal(jit_var_add(old.id(), ctr(8).id()));
    bool bad = raises([&] { jit_var_eval(x.id()); });
    Arr a = fetch(t);
    x.reset(); old.reset();
    return bad || a.v[0] != 1;
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P07";
    p.rule = "A case creates 1-2 arrays and applies 2-9 steps: atomic increments, exchanges and compare-and-swaps with all forms of operands, masks (also from the mask stack) and index conflict patterns, at top level "
             "and in recorded or evaluated loops whose lanes log what they saw; evaluations, reads, shared handles; random thread counts, block sizes and task schedules. The returned values of all operations that ran "
             "concurrently on an element must form a path old->new from the previous to the final contents (Eulerian path), and failed swaps saw values on it. Non-trivial: several concurrent operations on one element.";
    p.setup = init_process;
    p.run = run;
    p.known = { { "a scalar atomic operation runs once per lane when its result is used by a wider expression before being evaluated", known_scalar } };
    p.assumptions = { "results of scalar atomic operations are evaluated before wider expressions use them (known finding)" };
    return p;
}
