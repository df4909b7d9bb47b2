// P04: gathers read exactly the addressed elements of active lanes
#include "mem.h"
using namespace jx;

namespace {
struct Item { Var v; Arr a; std::string what; bool check = true; };
struct Ctx {
    Src &s;
    Foreign mem;
    std::vector<Item> src, out;
    bool nt = false;
};
}

/// Lane counter plus a constant
static Var shifted_counter(Src &s, size_t n, Arr &idx, std::string &w) {
    uint32_t off = (uint32_t) s.below(9);
    idx = Arr(VarType::UInt32, n);
    for (size_t i = 0; i < n; ++i) idx.v[i] = i + off;
    w = strf("ctr+%u", off);
    return jit_op(JitOp::Add, { ctr(n), u32(off) });
}

static Item gen_source(Ctx &c, bool packet_friendly) {
    Src &s = c.s;
    Item r;
    VarType t = s.pick(all_types());
    size_t n = s.chance(1, 10) ? 1 : s.chance(1, 4) ? (size_t) (1 + s.below(12)) * s.pick<size_t>({ 2, 4, 6, 8, 3 })
             : (size_t) s.small(2, thorough() ? 2000 : 300);
    if (packet_friendly && n > 1) n = (n + 15) / 16 * 16;
    r.a = gen_arr(s, t, n);
    switch (s.below(11)) {
        case 0: r.v = upload(r.a); r.what = "memory"; break;
        case 1: for (auto &x : r.a.v) x = r.a.v[0]; r.v = literal(r.a, n); r.what = "literal"; break;
        case 2: r.v = make(s, r.a, Lazy); r.what = "lazy"; break;
        case 3: case 4: r.what = "expr "; r.v = gen_counter_expr(s, t, n, r.a, r.what); c.nt = true; s.tag("source: counter expression"); break;
        case 5: { // pending scatter
            r.v = upload(r.a);
            size_t k = 1 + s.below(3);
            for (size_t j = 0; j < k; ++j) {
                size_t m = 1 + s.below(n);
                Arr ix(VarType::UInt32, m), val = gen_arr(s, t, m);
                uint64_t off = s.below(n), st = 1;
                for (size_t i = 0; i < m; ++i) { ix.v[i] = (off + i * st) % n; r.a.v[ix.v[i]] = val.v[i]; }
                Var a = upload(ix), b = upload(val), m1 = boolean(true);
                r.v = steal(jit_var_scatter(r.v.id(), b.id(), a.id(), m1.id(), ReduceOp::Identity, ReduceMode::Auto));
            }
            r.what = "pending scatter"; c.nt = true; s.tag("source: pending scatter");
            break;
        }
        case 6: { bool u = s.flip(); r.v = c.mem.map(s, r.a, u); r.what = u ? "mapped, unaligned" : "mapped"; break; }
        case 7: { // gather of something by a computed index
            Arr idx; std::string w;
            Var e, sv, m1 = boolean(true);
            if (s.flip()) { // not reduced to the valid range: wild outer indices reach the inner gather
                e = shifted_counter(s, n, idx, w);
                r.a = gen_arr(s, t, (size_t) idx.v[n - 1] + 1);
                sv = c.mem.guarded(r.a);
            } else {
                e = jit_op(JitOp::Mod, { gen_counter_expr(s, VarType::UInt32, n, idx, w), u32((uint32_t) r.a.size()) });
                sv = upload(r.a);
            }
            size_t base = r.a.size();
            Arr o(t, n);
            for (size_t i = 0; i < n; ++i) o.v[i] = r.a.v[idx.v[i] % base];
            r.v = steal(jit_var_gather(sv.id(), e.id(), m1.id()));
            r.a = o;
            r.what = "gather(memory, " + w + ")"; c.nt = true; s.tag("source: gather by counter expression");
            break;
        }
        case 8: if (n > 1) { // tickets / exchanged values at computed, distinct indices
            bool inc = s.flip();
            if (inc) r.a.t = t = VarType::UInt32;
            if (!inc && tsize(t) < 4 || is_bool(t)) { r.a.t = t = VarType::Int32; }
            Arr buf = gen_arr(s, t, n), val = gen_arr(s, t, 1), idx(VarType::UInt32, n);
            uint64_t off = s.below(n);
            Var e = jit_op(JitOp::Mod, { jit_op(JitOp::Add, { ctr(n), u32((uint32_t) off) }), u32((uint32_t) n) });
            uint32_t tgt = upload(buf).release();
            Var mv = boolean(true), vv = literal(val);
            for (size_t i = 0; i < n; ++i) r.a.v[i] = buf.v[(i + off) % n];
            if (inc) r.v = steal(jit_var_scatter_inc(&tgt, e.id(), mv.id()));
            else r.v = steal(jit_var_scatter_exch(&tgt, vv.id(), e.id(), mv.id()));
            jit_var_schedule(r.v.id()); // can only be evaluated once
            Item after{ steal(tgt), buf, "target of atomic" };
            for (auto &x : after.a.v) x = inc ? (uint32_t) (x + 1) : val.v[0];
            c.out.push_back(after);
            r.what = inc ? "tickets" : "exchanged"; c.nt = true; s.tag("source: atomics");
            break;
        } [[fallthrough]];
        case 9: { // element of a local array
            size_t len = 1 + s.below(6);
            Arr init = gen_arr(s, t, 1), val, idx; std::string w, w2;
            Var v = gen_counter_expr(s, t, n, val, w), e = gen_counter_expr(s, VarType::UInt32, n, idx, w2);
            e = jit_op(JitOp::Mod, { e, u32((uint32_t) len) });
            Var e2 = jit_op(JitOp::Mod, { ctr(n), u32((uint32_t) len) });
            Var arr = steal(jit_array_create(BE, t, 1, len)), iv = literal(init), m1 = boolean(true);
            arr = steal(jit_array_init(arr.id(), iv.id()));
            arr = steal(jit_array_write(arr.id(), e2.id(), v.id(), m1.id()));
            r.v = steal(jit_array_read(arr.id(), e.id(), m1.id()));
            for (size_t i = 0; i < n; ++i) r.a.v[i] = (i % len) == (idx.v[i] % len) ? val.v[i] : init.v[0];
            r.what = "array read " + w + " at " + w2; c.nt = true; s.tag("source: local array");
            break;
        }
        default: { // component of a packet gather by a computed index
            size_t pk = s.pick<size_t>({ 2, 4, 8 }), base = (1 + s.below(40));
            Arr mem, idx; std::string w;
            Var e, sv, m1 = boolean(true);
            if (s.flip()) {
                e = shifted_counter(s, n, idx, w);
                base = (size_t) idx.v[n - 1] + 1;
                mem = gen_arr(s, t, base * pk);
                sv = c.mem.guarded(mem);
            } else {
                e = jit_op(JitOp::Mod, { gen_counter_expr(s, VarType::UInt32, n, idx, w), u32((uint32_t) base) });
                mem = gen_arr(s, t, base * pk);
                sv = upload(mem);
            }
            uint32_t o[8];
            jit_var_gather_packet(pk, sv.id(), e.id(), m1.id(), o);
            size_t k = s.below(pk);
            for (size_t j = 0; j < pk; ++j) { if (j == k) r.v = steal(o[j]); else jit_var_dec_ref(o[j]); }
            r.a = Arr(t, n);
            for (size_t i = 0; i < n; ++i) r.a.v[i] = mem.v[(idx.v[i] % base) * pk + k];
            r.what = strf("component %zu of packet(%zu) at %s", k, pk, w.c_str()); c.nt = true; s.tag("source: packet component");
        }
    }
    s.note("source %zu: %s %s", c.src.size(), r.what.c_str(), r.a.str(12).c_str());
    return r;
}

/// Index and mask of a gather. 'bound' elements may be addressed
static void gen_access(Ctx &c, size_t bound, bool only32, Var &iv, Arr &ia, Var &mv, Arr &ma, std::string &w) {
    Src &s = c.s;
    size_t n = s.chance(1, 8) ? 1 : (size_t) s.small(2, thorough() ? 1500 : 200);
    VarType it = only32 ? VarType::UInt32 : s.pick(int_types());
    if (s.chance(1, 2)) it = VarType::UInt32;
    switch (s.below(8)) {
        case 0: if (it == VarType::UInt32) { // counter, with the size of the source or less
            size_t k = s.flip() ? bound : 1 + s.below(bound);
            if (k > 3000) k = 3000;
            ia = Arr(VarType::UInt32, k);
            for (size_t i = 0; i < k; ++i) ia.v[i] = i;
            iv = ctr(k); w = strf("counter(%zu)", k);
            break;
        } [[fallthrough]];
        case 1: if (it == VarType::UInt32) { // computed
            std::string e;
            iv = gen_counter_expr(s, VarType::UInt32, n, ia, e);
            iv = jit_op(JitOp::Mod, { iv, u32((uint32_t) bound) });
            for (auto &x : ia.v) x %= bound;
            w = e + strf("%%%zu", bound);
            break;
        } [[fallthrough]];
        default: {
            ia = gen_index(s, it, n, bound);
            iv = Var();
        }
    }
    n = ia.size();
    // Mask
    Form mf = s.weighted({ 4, 4, 2, 1, 1 }) == 0 ? Literal : s.pick({ Memory, Lazy, Scalar, LiteralN });
    if (mf == Literal || mf == LiteralN || mf == Scalar) { ma = Arr(VarType::Bool, mf == LiteralN ? n : 1, !s.chance(1, 6)); mv = make(s, ma, mf); }
    else {
        size_t k = n == 1 && s.flip() ? (size_t) s.small(2, 60) : n; // the mask may be larger than the index
        ma = gen_mask(s, k); mv = make(s, ma, mf);
    }
    if (!iv) {
        Form f = s.pick({ Memory, Memory, Lazy, Literal, Scalar, LiteralN });
        bool uniform = f == Literal || f == Scalar || f == LiteralN || n == 1;
        if (ma.size() == n && n > 1 && !uniform && s.chance(1, 2)) { // anything in masked lanes
            uint32_t nb = tsize(ia.t) * 8;
            bool any = false;
            for (size_t i = 0; i < n; ++i)
                if (!ma.v[i]) { ia.v[i] = s.pick<uint64_t>({ bound + i % 19, ~0ull, (uint64_t) 0x7ffffff1 * (i + 1) }) & (nb == 64 ? ~0ull : (1ull << nb) - 1); any = true; }
            if (any) c.s.tag("wild index in masked lanes");
        }
        if (ma.size() == 1 && ma.v[0] == 0 && s.chance(1, 2) && mf != Lazy) ia.v[0] = from_i(ia.t, -1);
        iv = make(s, ia, f);
        // out-of-range literals are rejected with an exception, even when masked
        if (jit_var_size(iv.id()) == 1 && jit_var_size(mv.id()) == 1 && f == Literal) { if (!(ia.v[0] < bound)) { ia.v[0] = 0; iv = literal(ia); } }
        w = strf("%s %s", form_name(f), ia.str(10).c_str());
    }
    w += strf(" mask=%s %s", form_name(mf), ma.str(10).c_str());
}

static void run(Src &s) {
    Ctx c{ s };
    Config cfg = gen_config(s);
    if (s.chance(1, 10)) cfg.flags |= (uint32_t) JitFlag::Debug;
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    size_t ns = 1 + s.below(3), ng = 3 + s.below(6);
    for (size_t i = 0; i < ns; ++i) c.src.push_back(gen_source(c, i == 0));
    for (size_t g = 0; g < ng; ++g) {
        // sources: the arrays above or an earlier result
        bool again = !c.out.empty() && s.chance(1, 4);
        Item &sr = again ? c.out[s.below(c.out.size())] : c.src[s.below(c.src.size())];
        Item src = sr;
        size_t m = src.a.size();
        size_t pk = s.chance(1, 3) ? s.pick<size_t>({ 2, 4, 8, 3, 16, 6, 12, 5 }) : 0;
        if (pk && (m % pk != 0 && m != 1)) pk = 0;
        Var iv, mv; Arr ia, ma; std::string w;
        gen_access(c, pk ? (m == 1 ? 1 : m / pk) : m, pk != 0, iv, ia, mv, ma, w);
        size_t n = std::max(ia.size(), ma.size());
        auto model = [&](size_t k) {
            Arr r(src.a.t, n);
            for (size_t i = 0; i < n; ++i) {
                if (!ma.at(i)) { r.v[i] = 0; continue; }
                uint64_t x = pk ? ia.at(i) * pk + k : ia.at(i);
                r.v[i] = m == 1 ? src.a.v[0] : src.a.v[x];
            }
            return r;
        };
        s.note("%zu: gather%s(%s, %s)", g, pk ? strf("[%zu]", pk).c_str() : "", again ? "result" : src.what.c_str(), w.c_str());
        if (ma.size() > 1 || again) c.nt = true;
        if (!pk) {
            Item o;
            o.v = steal(jit_var_gather(src.v.id(), iv.id(), mv.id()));
            o.a = model(0);
            o.what = strf("gather %zu: %s[%s]", g, src.what.c_str(), w.c_str());
            s.tag("gathers");
            c.out.push_back(o);
        } else {
            std::vector<uint32_t> o(pk, 0);
            jit_var_gather_packet(pk, src.v.id(), iv.id(), mv.id(), o.data());
            uint64_t keep = s.flip() ? ~0ull : s.bits();
            for (size_t k = 0; k < pk; ++k) {
                Item it;
                it.v = steal(o[k]); it.a = model(k);
                it.what = strf("packet gather %zu, component %zu of %zu: %s[%s]", g, k, pk, src.what.c_str(), w.c_str());
                if ((keep >> k) & 1 || k == 0) c.out.push_back(it);
            }
            c.nt = true;
            s.tag("packet gathers");
        }
        if (s.chance(1, 6)) { jit_eval(); s.note("eval"); }
        if (s.chance(1, 8) && !c.out.empty()) { size_t k = s.below(c.out.size()); jit_var_eval(c.out[k].v.id()); s.note("eval %zu", k); }
        if (s.chance(1, 10)) { // the source changes afterwards
            Item &t = c.src[s.below(c.src.size())];
            size_t k = s.below(t.a.size());
            uint64_t x = gen_value(s, t.a.t);
            if (t.a.size() > 1) {
                Var v = literal(t.a.t, x), ix = u32((uint32_t) k), m1 = boolean(true);
                t.v = steal(jit_var_scatter(t.v.id(), v.id(), ix.id(), m1.id(), ReduceOp::Identity, ReduceMode::Auto));
                t.a.v[k] = x;
                s.note("%s[%zu] = %s", t.what.c_str(), k, vstr(t.a.t, x).c_str());
            }
        }
    }
    if (s.flip()) { // everything in one kernel
        for (auto &o : c.out) jit_var_schedule(o.v.id());
        jit_eval();
    }
    for (auto &o : c.out) { expect(o.v, o.a, o.what.c_str()); s.tag("lanes compared", o.a.size()); }
    for (auto &o : c.src) expect(o.v, o.a, ("source afterwards: " + o.what).c_str());
    if (g_log.find("out-of-bounds") != std::string::npos) fail("unexpected warning: %s", g_log.c_str());
    if (c.nt) s.nontrivial();
    c.out.clear(); c.src.clear();
    end_case();
}

vt::Property vt::make_property() {
    Property p;
    p.id = "P04";
    p.rule = "A case builds 1-3 source arrays (evaluated, literal, lazy, expressions over counters and literals, pending scatters, foreign and unaligned memory, "
             "gathers and packet-gather components at computed indices) and issues 3-8 plain or packet gathers (2-16 components) from them or from earlier results, with indices of every integer type "
             "(memory, literal, counter, computed, wild in masked lanes) and masks of every form, mixed with evaluations and later modifications of the source. Every lane is compared with the "
             "indexed element, the sources must be unchanged, no out-of-bounds warning and no leak. Non-trivial: a mask array, computed source, packet gather or gather from a gather.";
    p.setup = init_process;
    p.run = run;
    return p;
}
