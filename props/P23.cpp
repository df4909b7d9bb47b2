// P23: concurrent threads obtain the results that they would obtain alone
#include "prog.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace prog;

namespace {
enum class A { Program, Publish, Consume, Memory, Registry, Global, Mask, Error, Callback, Host, Reduce, Misc, Query, Slow, Wait, Count };
const char *aname[] = { "program", "publish", "consume", "memory", "registry", "global", "mask", "error", "callback", "host", "reduce", "misc", "query", "slow", "wait" };
struct Action { A k; uint64_t seed; uint32_t prog = 0; uint64_t cuts = 0, kind = 0; };
struct Plan { std::vector<Action> a; uint32_t flags = 0; };
struct Shared {
    std::vector<Prog> progs;
    std::vector<Model> models;
    std::vector<Plan> plan;
    uint32_t nt = 0;
    // Mailbox
    std::mutex m;
    std::vector<std::pair<Var, Arr>> box;
    std::atomic<uint64_t> published{ 0 }, consumed{ 0 }, foreign_free{ 0 }, finished{ 0 }, switches{ 0 };
    // Callbacks
    std::atomic<int64_t> cb_eval{ 0 }, cb_free{ 0 }, cb_made{ 0 }, host_made{ 0 }, host_ran{ 0 };
    // First error
    std::mutex em; std::string err;
    std::atomic<bool> stop{ false };
    void error(const std::string &e) { std::lock_guard<std::mutex> g(em); if (err.empty()) err = e; stop = true; }
    // Deterministic interleaving: only the thread 'turn' may run
    bool token = false;
    std::mutex tm; std::condition_variable tc; int turn = -1; uint64_t rng = 1; uint32_t keep = 0;
    std::vector<char> alive;
    // Recordings refer to kernels: the cache may not be cleared between recording and replay
    std::mutex fm; uint32_t frozen = 0;
};
Shared *sh = nullptr;
thread_local int tl_id = -1;
struct Frozen { Frozen() { std::lock_guard<std::mutex> g(sh->fm); sh->frozen++; } ~Frozen() { std::lock_guard<std::mutex> g(sh->fm); sh->frozen--; } };
uint64_t mix(uint64_t &s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
int choose() { // tm held
    std::vector<int> c;
    for (uint32_t i = 0; i < sh->nt; ++i) if (sh->alive[i]) c.push_back((int) i);
    return c.empty() ? -1 : c[mix(sh->rng) % c.size()];
}
/// May pass control to another thread
void step() {
    if (!sh || tl_id < 0) return;
    if (!sh->token) { return; }
    std::unique_lock<std::mutex> l(sh->tm);
    if ((mix(sh->rng) & 0xff) < sh->keep) return;
    int n = choose();
    if (n == tl_id) return;
    sh->switches++;
    sh->turn = n;
    sh->tc.notify_all();
    sh->tc.wait(l, [] { return sh->turn == tl_id; });
}

// ---- Actions ----------------------------------------------------------------
size_t small_n(Src &q) { return q.pick<size_t>({ 1, 3, 8, 17, 40, 100, 333 }); }
Var expr(Src &q, Arr &want) { // a lazily evaluated expression
    size_t n = small_n(q);
    Arr a(VarType::UInt32, n), b(VarType::UInt32, n);
    uint64_t sa = q.bits(), sb = q.bits();
    for (size_t i = 0; i < n; ++i) { a.v[i] = mix(sa) & 0xffff; b.v[i] = mix(sb) & 0xff; }
    Var va = upload(a), vb = upload(b), k = u32(1 + (uint32_t) q.below(5));
    uint64_t kv = 0; { Arr t = fetch(k); kv = t.v[0]; }
    Var r = jit_op(JitOp::Add, { jit_op(JitOp::Mul, { va, k }), vb });
    want = a;
    for (size_t i = 0; i < n; ++i) want.v[i] = (uint32_t) (a.v[i] * kv + b.v[i]);
    return r;
}
void use(Src &q, const Var &v, const Arr &want) {
    step();
    switch (q.below(5)) {
        case 0: expect(v, want, "variable of another thread"); break;
        case 1: { // operand
            Arr w = want;
            for (auto &x : w.v) x = (uint32_t) (x * 3 + 1);
            Var r = jit_op(JitOp::Add, { jit_op(JitOp::Mul, { v, u32(3) }), u32(1) });
            step();
            expect(r, w, "expression of a variable of another thread");
            break;
        }
        case 2: { // reversed
            size_t n = want.size();
            Arr w = want, ix(VarType::UInt32, n);
            for (size_t i = 0; i < n; ++i) { ix.v[i] = n - 1 - i; w.v[i] = want.v[n - 1 - i]; }
            Var iv = upload(ix);
            Var r = steal(jit_var_gather(v.id(), iv.id(), boolean(true).id()));
            step();
            expect(r, w, "gather from a variable of another thread");
            break;
        }
        case 3: { // copy on write
            Arr w = want;
            Var keep = v; // (otherwise, the variable may be modified in place)
            uint32_t i = (uint32_t) q.below(want.size());
            w.v[i] = 4711;
            Var r = steal(jit_var_scatter(v.id(), u32(4711).id(), u32(i).id(), boolean(true).id(), ReduceOp::Identity, ReduceMode::Auto));
            step();
            expect(r, w, "modified copy of a variable of another thread");
            expect(v, want, "variable of another thread (after modifying a copy)");
            break;
        }
        default: { // reduction
            uint32_t sum = 0;
            for (auto x : want.v) sum += (uint32_t) x;
            Var r = steal(jit_var_reduce(BE, VarType::UInt32, ReduceOp::Add, v.id()));
            step();
            expect(r, Arr(VarType::UInt32, 1, sum), "sum of a variable of another thread");
        }
    }
}

/// Assorted operations on private data
Arr rnd_u32(Src &q, size_t n, uint32_t bound) { Arr a(VarType::UInt32, n); uint64_t st = q.bits(); for (auto &x : a.v) x = mix(st) % bound; return a; }
void misc(Src &q, uint32_t id) {
    const VarType U = VarType::UInt32;
    size_t n = 2 + q.below(40);
    Arr a = rnd_u32(q, n, 1000);
    Var v = upload(a), yes = boolean(true);
    step();
    switch (q.below(17)) {
        case 0: { // properties
            if (jit_var_type(v.id()) != U || jit_var_size(v.id()) != n || jit_var_state(v.id()) != VarState::Evaluated || jit_var_is_dirty(v.id())) fail("properties of a variable");
            Arr l(VarType::Float32, 1, from_d(VarType::Float32, (double) q.below(3)));
            Var lv = literal(l);
            step();
            if (!!jit_var_is_zero_literal(lv.id()) != (l.v[0] == 0) || jit_var_state(lv.id()) != VarState::Literal || (l.v[0] && !jit_var_is_finite_literal(lv.id()))) fail("properties of a literal");
            VarInfo vi = jit_var_info(v.id());
            if (vi.type != U || vi.size != n) fail("jit_var_info()");
            break;
        }
        case 1: { // labels
            std::string l = strf("label-%u-%zu", id, n);
            Var w = steal(jit_var_set_label(v.id(), 1, l.c_str()));
            step();
            const char *g = jit_var_label(w.id());
            if (!g || l != g) fail("label is '%s' instead of '%s'", g ? g : "(null)", l.c_str());
            expect(w, a, "labeled variable");
            break;
        }
        case 2: { // single entries
            uint32_t i = (uint32_t) q.below(n), x = 0;
            jit_var_read(v.id(), i, &x);
            if (x != a.v[i]) fail("jit_var_read(): %u instead of %lu", x, a.v[i]);
            x = 12345; step();
            Var w = steal(jit_var_write(v.id(), i, &x));
            v.reset();
            step();
            a.v[i] = 12345;
            expect(w, a, "jit_var_write");
            break;
        }
        case 3: {
            Var c = steal(q.flip() ? jit_var_copy(v.id()) : jit_var_copy_opaque(v.id()));
            step();
            expect(c, a, "copy");
            Arr r = a, t(U, 0), p(U, 0);
            std::reverse(r.v.begin(), r.v.end());
            for (int k = 0; k < 3; ++k) t.v.insert(t.v.end(), a.v.begin(), a.v.end());
            for (auto x : a.v) for (int k = 0; k < 2; ++k) p.v.push_back(x);
            expect(steal(jit_var_reverse(v.id())), r, "reverse"); step();
            expect(steal(jit_var_tile(v.id(), 3)), t, "tile"); step();
            expect(steal(jit_var_repeat(v.id(), 2)), p, "repeat");
            break;
        }
        case 4: {
            Arr m = gen_mask(q, n);
            Var mv = upload(m);
            int any = 0, all = 1;
            for (auto x : m.v) { any |= x != 0; all &= x != 0; }
            step();
            if (!!jit_var_any(mv.id()) != any) fail("any()");
            step();
            if (!!jit_var_all(mv.id()) != all) fail("all()");
            step();
            expect(steal(jit_var_any_async(BE, mv.id())), Arr(VarType::Bool, 1, any), "any_async");
            break;
        }
        case 5: {
            Arr b = rnd_u32(q, n, 1000);
            Var w = upload(b);
            uint32_t sum = 0, bs = 1 + (uint32_t) q.below(std::min<size_t>(n, 7));
            for (size_t i = 0; i < n; ++i) sum += (uint32_t) (a.v[i] * b.v[i]);
            step();
            expect(steal(jit_var_reduce_dot(v.id(), w.id())), Arr(U, 1, sum), "dot product");
            Arr r(U, (n + bs - 1) / bs);
            for (size_t i = 0; i < n; ++i) r.v[i / bs] = (uint32_t) (r.v[i / bs] + b.v[i]);
            step();
            expect(steal(jit_var_block_reduce(ReduceOp::Add, w.id(), bs, 0)), r, "block_reduce");
            break;
        }
        case 6: { // packets
            size_t m = n / 2;
            Arr ix(U, m); for (size_t i = 0; i < m; ++i) ix.v[i] = m - 1 - i;
            Arr src(U, m * 2); for (size_t i = 0; i < m * 2; ++i) src.v[i] = a.v[i];
            Var sv = upload(src), iv = upload(ix);
            uint32_t out[2];
            step();
            jit_var_gather_packet(2, sv.id(), iv.id(), yes.id(), out);
            Var o[2] = { steal(out[0]), steal(out[1]) };
            step();
            for (int k = 0; k < 2; ++k) { Arr w(U, m); for (size_t i = 0; i < m; ++i) w.v[i] = src.v[(m - 1 - i) * 2 + k]; expect(o[k], w, "gather_packet"); }
            break;
        }
        case 7: { // counter
            Arr t(U, 1, 0);
            Var tv = upload(t), ix = literal(U, 0, n);
            uint32_t r = jit_var_scatter_inc(tv.ptr(), ix.id(), yes.id());
            Var rv = steal(r);
            jit_var_schedule(rv.id()); jit_eval();
            step();
            Arr g = fetch(rv);
            std::set<uint64_t> set(g.v.begin(), g.v.end());
            if (g.size() != n || set.size() != n || *set.rbegin() != n - 1) fail("scatter_inc(): %s", g.str(64).c_str());
            expect(tv, Arr(U, 1, n), "counter");
            break;
        }
        case 8: { // variable arrays
            Var ar = steal(jit_array_create(BE, U, n, 3)), five = steal(jit_var_resize(u32(5).id(), n));
            ar = steal(jit_array_init(ar.id(), five.id()));
            step();
            ar = steal(jit_array_write(ar.id(), u32(1).id(), v.id(), yes.id()));
            step();
            Var r = steal(jit_array_read(ar.id(), u32(1).id(), yes.id())), z = steal(jit_array_read(ar.id(), u32(2).id(), yes.id()));
            jit_var_schedule(r.id()); jit_var_schedule(z.id()); jit_eval();
            step();
            expect(r, a, "array_read");
            Arr zz = fetch(z);
            for (size_t i = 0; i < n; ++i) if (zz.at(i) != 5) fail("array_read(): %lu instead of 5", zz.at(i));
            break;
        }
        case 9: { // cooperative vectors
            Arr f(VarType::Float32, n), g(VarType::Float32, n), w(VarType::Float32, n);
            for (size_t i = 0; i < n; ++i) { f.v[i] = from_d(f.t, (double) a.v[i]); g.v[i] = from_d(f.t, 7); w.v[i] = from_d(f.t, (double) a.v[i] + 7); }
            Var fv = upload(f), gv = upload(g);
            uint32_t in1[2] = { fv.id(), gv.id() }, in2[2] = { gv.id(), fv.id() }, out[2];
            Var x = steal(jit_coop_vec_pack(2, in1)), y = steal(jit_coop_vec_pack(2, in2));
            step();
            Var z = steal(jit_coop_vec_binary_op(JitOp::Add, x.id(), y.id()));
            step();
            jit_coop_vec_unpack(z.id(), 2, out);
            Var o[2] = { steal(out[0]), steal(out[1]) };
            step();
            expect(o[0], w, "coop_vec"); expect(o[1], w, "coop_vec");
            break;
        }
        case 10: { // matrix product
            uint32_t M = 1 + (uint32_t) q.below(5), N = 1 + (uint32_t) q.below(5), K = 1 + (uint32_t) q.below(5);
            Arr A(VarType::Float32, M * K), B(VarType::Float32, K * N), C(VarType::Float32, M * N);
            for (auto &x : A.v) x = from_d(A.t, (double) q.below(8));
            for (auto &x : B.v) x = from_d(A.t, (double) q.below(8));
            for (uint32_t i = 0; i < M; ++i) for (uint32_t j = 0; j < N; ++j) { double d = 0; for (uint32_t k = 0; k < K; ++k) d += to_d(A.t, A.v[i * K + k]) * to_d(A.t, B.v[k * N + j]); C.v[i * N + j] = from_d(A.t, d); }
            Var av = upload(A), bv = upload(B);
            step();
            Var cv = steal(jit_var_batched_gemm(av.id(), bv.id(), 0, 0, M, N, K, nullptr));
            step();
            expect(cv, C, "batched_gemm");
            break;
        }
        case 11: { // events
            JitEvent e = jit_event_create(BE, q.flip());
            uint32_t *p = (uint32_t *) jit_malloc(BE, n * 4, 1), x = (uint32_t) q.bits();
            jit_memset_async(BE, p, (uint32_t) n, 4, &x);
            step();
            jit_event_record(e);
            step();
            jit_event_wait(e);
            if (!jit_event_query(e)) fail("event is not done after waiting for it");
            for (size_t i = 0; i < n; ++i) if (p[i] != x) fail("work preceding an event was not done");
            jit_event_destroy(e);
            jit_free(p);
            break;
        }
        case 12: { // frozen function
            Frozen frozen;
            uint32_t in = v.id(), out = 0;
            step();
            jit_freeze_start(BE, &in, 1);
            Recording *rec = nullptr;
            {
                Var y = jit_op(JitOp::Add, { jit_op(JitOp::Mul, { v, u32(3) }), u32(1) });
                step();
                jit_var_schedule(y.id());
                jit_eval();
                out = y.id();
                step();
                rec = jit_freeze_stop(BE, &out, 1);
            }
            Arr b = rnd_u32(q, n, 1000), w = b;
            for (auto &x : w.v) x = x * 3 + 1;
            Var bv = upload(b);
            in = bv.id();
            step();
            jit_freeze_replay(rec, &in, &out);
            Var r = steal(out);
            step();
            expect(r, w, "replayed recording");
            jit_freeze_destroy(rec);
            break;
        }
        case 13: { // permutation by key
            Arr k = rnd_u32(q, n, 3);
            for (auto &x : k.v) x += 1;
            Var kv = upload(k);
            uint32_t cnt = 3;
            step();
            CallBucket *b = jit_var_call_reduce(BE, nullptr, nullptr, kv.id(), &cnt);
            std::map<uint32_t, Arr> want;
            for (size_t i = 0; i < n; ++i) { Arr &w = want[(uint32_t) k.v[i]]; w.t = U; w.v.push_back(i); }
            if (cnt != want.size()) fail("call_reduce(): %u buckets instead of %zu", cnt, want.size());
            std::vector<std::pair<uint32_t, Var>> l;
            for (uint32_t i = 0; i < cnt; ++i) l.emplace_back(b[i].id, borrow(b[i].index));
            step();
            for (auto &x : l) { if (!want.count(x.first)) fail("call_reduce(): bucket"); expect(x.second, want[x.first], "call_reduce"); }
            break;
        }
        case 14: { // literals
            static const VarType T[] = { VarType::UInt8, VarType::Int8, VarType::Float16, VarType::Float32, VarType::Float64, VarType::Int64, VarType::UInt64, VarType::Int32, VarType::Bool };
            for (VarType t : T) { Arr l(t, 1, gen_value(q, t, Dist::Small)); Var x = literal(l), y = steal(jit_var_resize(x.id(), n)); l = Arr(t, n, l.v[0]); step(); expect(y, l, "literal"); }
            break;
        }
        case 15: { // stashed references
            uint64_t h = jit_var_stash_ref(v.id());
            step();
            Var w = v;
            jit_var_unstash_ref(h);
            step();
            expect(w, a, "stashed variable");
            break;
        }
        default: { // migration
            Var h = steal(jit_var_migrate(v.id(), JitBackend::None));
            step();
            jit_sync_thread();
            expect(v, a, "migrated variable (source)");
        }
    }
}
/// Requests for information; the text they return is not used, since it may be replaced by another thread
void query(Src &q) {
    for (int i = 0; i < 3; ++i) {
        switch (q.below(9)) {
            case 0: jit_var_whos(); break;
            case 1: jit_var_graphviz(); break;
            case 2: { Var v = upload(Arr(VarType::UInt32, 5, 1)); jit_var_str(v.id()); break; }
            case 3: jit_malloc_watermark(BE); break;
            case 4: { size_t a, b, c; jit_launch_stats(&a, &b, &c); break; }
            case 5: { KernelHistoryEntry *e = jit_kernel_history(); if (e) { for (auto *p = e; (uint32_t) p->backend; ++p) free(p->ir); free(e); } break; }
            case 6: jit_has_backend(BE); jit_llvm_target_cpu(); break;
            case 7: { void *p = jit_malloc(BE, 64, 0); jit_malloc_device(p); jit_free(p); break; }
            default: { int x, y, z; jit_llvm_version(&x, &y, &z); jit_can_scatter_reduce(BE, VarType::Float32, ReduceOp::Add); break; }
        }
        step();
    }
}
/// An evaluation with several kernels that run for a while, all of which must be compiled
void slow(Src &q) {
    std::vector<Var> out; std::vector<Arr> want;
    uint32_t it = 1u << (12 + q.below(11)), c = (uint32_t) q.bits() | 1;
    for (size_t n : { (size_t) 16 + q.below(16), (size_t) 8 + q.below(8), (size_t) 1 + q.below(4) }) {
        Arr a = rnd_u32(q, n, 1000), w = a;
        Var x = upload(a), i = u32(0);
        uint32_t st[2] = { i.id(), x.id() };
        uint32_t cp = jit_record_begin(BE, "slow");
        Var loop = steal(jit_var_loop_start("slow", false, 2, st));
        Var li = steal(st[0]), lx = steal(st[1]);
        x.reset(); i.reset();
        for (int k = 0;; ++k) {
            if (k > 3) fail("loop recording does not converge");
            Var cond = jit_op(JitOp::Lt, { li, u32(it) });
            Var act = steal(jit_var_mask_apply(cond.id(), (uint32_t) jit_var_size(cond.id())));
            cond.reset();
            Var lc = steal(jit_var_loop_cond(loop.id(), act.id()));
            {
                jit_var_mask_push(BE, act.id());
                act.reset();
                lx = jit_op(JitOp::Add, { jit_op(JitOp::Mul, { lx, u32(c) }), u32((uint32_t) n) });
                li = jit_op(JitOp::Add, { li, u32(1) });
                jit_var_mask_pop(BE);
            }
            uint32_t up[2] = { li.id(), lx.id() };
            int rv = jit_var_loop_end(loop.id(), lc.id(), up, cp);
            li = steal(up[0]); lx = steal(up[1]);
            if (rv) break;
        }
        jit_record_end(BE, cp, false);
        uint32_t A = c, B = (uint32_t) n; // x -> A*x+B, composed with itself log2(it) times
        for (uint32_t k = it; k > 1; k /= 2) { B = A * B + B; A *= A; }
        for (auto &v : w.v) v = (uint32_t) (A * (uint32_t) v + B);
        out.push_back(lx); want.push_back(w);
    }
    for (auto &v : out) jit_var_schedule(v.id());
    jit_eval();
    for (size_t k = 0; k < out.size(); ++k) expect(out[k], want[k], "slow loop");
}
struct Cb { std::atomic<int> ev{ 0 }, fr{ 0 }; };
void var_cb(uint32_t, int free, void *p) {
    Cb *c = (Cb *) p;
    if (free) { if (c->fr.fetch_add(1)) sh->error("a variable's callback reports its release twice"); sh->cb_free++; }
    else { c->ev++; sh->cb_eval++; }
}
void perform(const Action &a, uint32_t flags) {
    Src q(a.seed);
    switch (a.k) {
        case A::Program: {
            const Prog &p = sh->progs[a.prog];
            Session x;
            make_inputs(q, p, x);
            step();
            ExecOpts o; o.cuts = a.cuts; o.cut_kind = a.kind;
            execute(p, x, o);
            step();
            compare(p, x, sh->models[a.prog], "program");
            break;
        }
        case A::Publish: {
            Arr want;
            Var v = expr(q, want);
            bool lazy = q.chance(1, 3);
            step();
            if (!lazy) { jit_var_eval(v.id()); step(); }
            jit_sync_thread();
            std::lock_guard<std::mutex> g(sh->m);
            if (q.flip()) sh->box.emplace_back(v, want); else sh->box.emplace_back(std::move(v), want);
            sh->published++;
            break;
        }
        case A::Consume: {
            Var v; Arr want;
            {
                std::lock_guard<std::mutex> g(sh->m);
                if (sh->box.empty()) break;
                size_t i = q.below(sh->box.size());
                want = sh->box[i].second;
                if (q.flip()) { v = std::move(sh->box[i].first); sh->box.erase(sh->box.begin() + (long) i); sh->foreign_free++; }
                else v = sh->box[i].first;
            }
            sh->consumed++;
            jit_new_scope(BE); // (needed when a computation is split across threads)
            use(q, v, want);
            if (q.chance(1, 3)) jit_sync_thread();
            step();
            break;
        }
        case A::Memory: {
            uint32_t k = 1 + (uint32_t) q.below(4);
            std::vector<std::pair<uint32_t *, uint32_t>> bl;
            for (uint32_t i = 0; i < k; ++i) {
                uint32_t n = 1 + (uint32_t) q.below(q.flip() ? 20 : 4000), pat = (uint32_t) q.bits();
                bool host = q.flip();
                uint32_t *p = (uint32_t *) jit_malloc(host ? JitBackend::None : BE, (size_t) n * 4, !host && q.flip());
                if (host) for (uint32_t j = 0; j < n; ++j) p[j] = pat;
                else jit_memset_async(BE, p, n, 4, &pat);
                step();
                if (q.chance(1, 4)) {
                    jit_sync_thread();
                    for (uint32_t j = 0; j < n; ++j) if (p[j] != pat) fail("allocated memory was modified: word %u of %u is 0x%x instead of 0x%x", j, n, p[j], pat);
                }
                if (q.chance(1, 2)) { jit_sync_thread(); jit_free(p); } else bl.push_back({ p, pat });
                if (q.chance(1, 4)) jit_flush_malloc_cache();
                step();
            }
            jit_sync_thread();
            for (auto &b : bl) { if (*b.first != b.second) fail("allocated memory was modified: 0x%x instead of 0x%x", *b.first, b.second); step(); jit_free(b.first); }
            break;
        }
        case A::Registry: {
            static const char *dom[] = { "P23a", "P23b" };
            const char *d = dom[q.below(2)];
            std::vector<std::unique_ptr<uint64_t>> p;
            std::vector<uint32_t> id;
            for (uint32_t i = 0, n = 1 + (uint32_t) q.below(6); i < n; ++i) {
                p.push_back(std::make_unique<uint64_t>());
                id.push_back(jit_registry_put("LLVM", d, p.back().get()));
                step();
                if (jit_registry_id_bound("LLVM", d) < id.back()) fail("the ID %u exceeds the bound", id.back());
            }
            for (uint32_t i = 0; i < p.size(); ++i) {
                if (jit_registry_id(p[i].get()) != id[i]) fail("ID of a registered pointer has changed");
                step();
                if (jit_registry_ptr("LLVM", d, id[i]) != p[i].get()) fail("ID %u refers to another pointer", id[i]);
            }
            for (auto &x : p) { jit_registry_remove(x.get()); step(); }
            break;
        }
        case A::Global:
            switch (q.below(5)) {
                case 0: { std::lock_guard<std::mutex> g(sh->fm); if (!sh->frozen) jit_flush_kernel_cache(); break; }
                case 1: jit_sync_all_devices(); break;
                case 2: jit_sync_device(); break;
                case 3: jit_flush_malloc_cache(); break;
                default: jit_eval(); jit_sync_thread(); break;
            }
            break;
        case A::Mask: {
            size_t n = 8 + q.below(40);
            Arr m = gen_mask(q, n), x = gen_arr(q, VarType::UInt32, n), t(VarType::UInt32, n, 7), w = t;
            for (size_t i = 0; i < n; ++i) if (m.at(i)) w.v[i] = x.v[i];
            Var mv = upload(m), xv = upload(x), tv = upload(t), ix = ctr(n);
            Var ma = steal(jit_var_mask_apply(mv.id(), (uint32_t) n));
            jit_prefix_push(BE, tl_id & 1 ? "odd" : "even");
            jit_var_mask_push(BE, ma.id());
            step();
            Var r;
            std::string err;
            try {
                r = steal(jit_var_scatter(tv.id(), xv.id(), ix.id(), boolean(true).id(), ReduceOp::Identity, ReduceMode::Auto));
                step();
                const char *px = jit_prefix(BE);
                if (!px || strcmp(px, tl_id & 1 ? "odd/" : "even/")) err = strf("prefix of the thread is '%s'", px ? px : "(null)");
            } catch (const std::exception &e) { err = e.what(); }
            jit_var_mask_pop(BE);
            jit_prefix_pop(BE);
            if (!err.empty()) fail("%s", err.c_str());
            step();
            expect(r, w, "masked scatter");
            break;
        }
        case A::Error: {
            Var a = upload(Arr(VarType::UInt32, 3, 1)), b = upload(Arr(VarType::UInt32, 4, 2));
            step();
            if (!raises([&] { jit_op(JitOp::Add, { a, b }); })) fail("operands of different sizes were accepted");
            step();
            if (!raises([&] { jit_op(JitOp::Add, { a, boolean(true) }); })) fail("operands of different types were accepted");
            break;
        }
        case A::Callback: {
            Cb *c = new Cb(); // (leaks on failure)
            Arr want;
            Var v = expr(q, want);
            jit_var_set_callback(v.id(), var_cb, c);
            sh->cb_made++;
            bool eval = q.flip();
            step();
            if (eval) jit_var_eval(v.id());
            if (eval && c->ev != 1) fail("the callback reports %d evaluations", (int) c->ev);
            step();
            v.reset();
            if (c->fr != 1) fail("the callback reports %d releases", (int) c->fr);
            delete c;
            break;
        }
        case A::Host: {
            for (uint32_t i = 0, n = 1 + (uint32_t) q.below(4); i < n; ++i) {
                sh->host_made++;
                jit_enqueue_host_func(BE, [](void *p) { ((Shared *) p)->host_ran++; }, sh);
                step();
            }
            break;
        }
        case A::Reduce: {
            Arr a = gen_arr(q, VarType::UInt32, small_n(q) * 3), w = a;
            uint64_t sum = 0;
            for (size_t i = 0; i < a.size(); ++i) { w.v[i] = (uint32_t) sum; sum += a.v[i]; }
            Var v = upload(a);
            step();
            Var r = steal(jit_var_block_prefix_reduce(ReduceOp::Add, v.id(), (uint32_t) a.size(), 1, 0));
            step();
            expect(r, w, "prefix sum");
            Arr m = gen_mask(q, a.size()), ix(VarType::UInt32, 0);
            for (size_t i = 0; i < m.size(); ++i) if (m.v[i]) ix.v.push_back(i);
            Var mv = upload(m);
            step();
            Var c = steal(jit_var_compress(mv.id()));
            if (!ix.size()) { if (c) fail("compress() of a mask that is false"); } else expect(c, ix, "compress");
            break;
        }
        case A::Misc: misc(q, (uint32_t) tl_id); break;
        case A::Query: query(q); break;
        case A::Slow: slow(q); break;
        default:
            jit_sync_thread();
            if (!sh->token) std::this_thread::sleep_for(std::chrono::microseconds(q.below(400)));
    }
    if (jit_flags() != flags) fail("flags of the thread are 0x%x instead of 0x%x", jit_flags(), flags);
}
void body(uint32_t id) {
    tl_id = (int) id;
    g_step = step;
    Plan &pl = sh->plan[id];
    if (sh->token) { std::unique_lock<std::mutex> l(sh->tm); sh->tc.wait(l, [] { return sh->turn == tl_id; }); }
    jit_set_flags(pl.flags);
    size_t at = 0;
    try {
        for (at = 0; at < pl.a.size() && !sh->stop; ++at) { step(); perform(pl.a[at], pl.flags); }
        if (!sh->stop) { jit_eval(); jit_sync_thread(); }
    } catch (const vt::Fail &f) { sh->error(strf("thread %u, action %zu (%s): %s", id, at, aname[(int) pl.a[std::min(at, pl.a.size() - 1)].k], f.msg.c_str()));
    } catch (const std::exception &e) { sh->error(strf("thread %u, action %zu (%s): exception: %s", id, at, aname[(int) pl.a[std::min(at, pl.a.size() - 1)].k], e.what())); }
    sh->finished++;
    g_step = nullptr;
    if (sh->token) {
        std::lock_guard<std::mutex> l(sh->tm);
        sh->alive[id] = 0;
        sh->turn = choose();
        sh->tc.notify_all();
    }
    tl_id = -1;
}

// ---- Threads that persist ----------------------------------------------------
struct Team {
    std::mutex m; std::condition_variable c;
    std::vector<std::thread> t;
    uint64_t gen = 0; uint32_t n = 0, done = 0;
    void loop(uint32_t id, uint64_t seen) {
        while (true) {
            { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return gen != seen; }); seen = gen; if (id >= n) continue; }
            body(id);
            { std::lock_guard<std::mutex> l(m); done++; c.notify_all(); }
        }
    }
    void run(uint32_t k) {
        std::unique_lock<std::mutex> l(m);
        while (t.size() < k) { uint32_t id = (uint32_t) t.size(); uint64_t g = gen; t.emplace_back([this, id, g] { loop(id, g); }); }
        n = k; done = 0; gen++;
        c.notify_all();
        c.wait(l, [&] { return done == n; });
    }
};
Team *team() { static Team *t = new Team(); return t; }

void run(Src &s) {
    Shared S;
    sh = &S;
    S.token = s.chance(2, 5);
    Config cfg = gen_config(s, CfgWidth | CfgBlock | CfgSched | CfgThreads);
    cfg.mode = S.token ? 1 : (s.chance(1, 6) ? 1 : 0);
    apply_config(cfg);
    S.nt = 2 + (uint32_t) s.below(3);
    S.alive.assign(S.nt, 1);
    S.rng = s.bits();
    S.keep = s.pick<uint32_t>({ 0, 100, 200, 240 });
    uint32_t np = 1 + (uint32_t) s.below(3);
    for (uint32_t i = 0; i < np; ++i) {
        Gen g;
        g.loops = 4; g.ifs = 2; g.calls = 2; g.side = 3; g.arrays = s.chance(1, 4) ? 2 : 0;
        g.stmts = 2 + (uint32_t) s.below(5); g.depth = 1 + (uint32_t) s.below(2);
        S.progs.push_back(gen_program(s, g));
        S.models.push_back(interpret(S.progs.back()));
    }
    bool fresh = s.chance(1, 4);
    s.note("%s, %s, %u %sthreads, keep %u", cfg.str().c_str(), S.token ? "interleaved" : "concurrent", S.nt, fresh ? "new " : "", S.keep);
    for (uint32_t i = 0; i < np; ++i) s.note("program %u:\n%s", i, S.progs[i].str().c_str());
    // Some cases focus on few kinds of actions
    std::vector<uint32_t> w = { 8, 4, 6, 2, 2, 2, 2, 1, 2, 2, 2, 6, 2, S.token ? 0u : 2u, 1 };
    if (s.chance(1, 2)) {
        uint32_t keep = (uint32_t) s.bits() & (uint32_t) s.bits(), sum = 0;
        for (size_t k = 0; k < w.size(); ++k) { if (!((keep >> k) & 1)) w[k] = 0; sum += w[k]; }
        if (!sum) w[0] = 1;
    }
    for (uint32_t i = 0; i < S.nt; ++i) {
        Plan p;
        Config c = gen_config(s, CfgFlags);
        p.flags = c.flags & ~((uint32_t) JitFlag::KernelHistory);
        std::string d;
        for (uint32_t k = 0, n = 1 + (uint32_t) s.below(8); k < n; ++k) {
            Action a;
            a.k = (A) s.weighted(w);
            a.seed = s.bits();
            if (a.k == A::Program) {
                a.prog = (uint32_t) s.below(np);
                if (s.chance(1, 3)) { a.cuts = s.bits() & s.bits(); a.kind = s.bits(); }
                if (S.progs[a.prog].nested_side) p.flags |= (uint32_t) JitFlag::OptimizeLoops; // known finding of P09
            }
            d += strf(" %s", aname[(int) a.k]);
            if (a.k == A::Program) d += strf("(%u)", a.prog);
            p.a.push_back(a);
        }
        s.note("thread %u: flags 0x%x:%s", i, p.flags, d.c_str());
        S.plan.push_back(std::move(p));
    }
    if (S.token) S.turn = choose();
    if (fresh) {
        std::vector<std::thread> t;
        for (uint32_t i = 0; i < S.nt; ++i) t.emplace_back(body, i);
        for (auto &x : t) x.join();
    } else team()->run(S.nt);
    vt_set_mode(1, cfg.sched, cfg.eager);
    if (!S.err.empty()) fail("%s", S.err.c_str());
    // What is left behind by the threads
    jit_sync_all_devices();
    for (auto &b : S.box) expect(b.first, b.second, "variable that was left behind by a thread");
    S.box.clear();
    jit_sync_thread();
    if (S.host_ran != S.host_made) fail("%ld of %ld host functions ran", (long) S.host_ran, (long) S.host_made);
    if (S.cb_free != S.cb_made) fail("%ld of %ld callbacks report the release", (long) S.cb_free, (long) S.cb_made);
    for (const char *d : { "P23a", "P23b" })
        if (jit_registry_id_bound("LLVM", d)) fail("the registry isn't empty");
    s.tag(S.token ? "interleaved" : "concurrent");
    s.tag("threads", S.nt); s.tag("published", S.published); s.tag("consumed", S.consumed); s.tag("moved to another thread", S.foreign_free); s.tag("switches", S.switches);
    uint32_t busy = 0;
    for (auto &p : S.plan) for (auto &a : p.a) if (a.k == A::Program || a.k == A::Publish || a.k == A::Consume || a.k == A::Reduce || a.k == A::Mask) { busy++; break; }
    if (busy >= 2) s.nontrivial();
    end_case();
    sh = nullptr;
}
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P23";
    p.rule = "Two to four threads with their own flags perform lists of actions: random programs with loops, conditionals, calls, side effects and "
             "intermediate evaluations (often the same program at the same time), exchanging variables through a mailbox (evaluated or not; read, "
             "used as operand, modified by copy, released by the receiver), allocation and release of memory, registration of instances, masks and "
             "prefixes, callbacks, host functions, reductions, failing requests, clearing of caches and synchronization of all devices. Either one "
             "thread runs at a time and control passes to another one between statements (deterministic), or all run at the same time on top of "
             "worker threads, under the thread sanitizer. Every result is compared with the sequential model; afterwards nothing may be alive. "
             "Non-trivial: at least two threads compute something.";
    p.setup = init_process;
    p.run = run;
    p.batch = 20;
    p.hang_s = 60;
    p.quick_s = 35;
    return p;
}
