// P13: (block) reductions and prefix reductions combine exactly their block
#include "mem.h"
using namespace jx;

namespace {
struct Val { Var v; Arr a; std::string name ; };

bool supported(VarType t, ReduceOp op) {
    if (is_bool(t) || t == VarType::Int8 || t == VarType::Int16 || t == VarType::UInt16) return false;
    return !(is_float(t) && (op == ReduceOp::And || op == ReduceOp::Or));
}
/// Values whose reduction is exact in any order
Arr gen_values(Src &s, VarType t, ReduceOp op, size_t n) {
    Arr a(t, n);
    Src q(s.bits());
    if (is_bool(t)) { uint64_t p = s.pick({ 2, 0, 100, 5000 }); for (auto &x : a.v) x = p == 0 ? 1 : p == 2 ? q.below(2) : q.below(p) != 0;
                      if (s.flip()) for (auto &x : a.v) x = !x; return a; }
    if (!is_float(t)) {
        uint64_t k = s.below(3);
        for (auto &x : a.v) x = k == 0 ? from_i(t, (int64_t) q.bits()) : k == 1 ? from_i(t, (int64_t) q.below(7)) : from_i(t, 2 * (int64_t) q.below(50) + 1);
        return a;
    }
    if (op == ReduceOp::Mul) {
        size_t twos = s.below(6);
        for (auto &x : a.v) x = from_d(t, q.chance(1, 3) ? -1.0 : 1.0);
        for (size_t i = 0; i < twos; ++i) a.v[q.below(n)] = from_d(t, q.flip() ? 2.0 : 0.5);
        if (s.chance(1, 10)) a.v[q.below(n)] = from_d(t, 0.0);
    } else if (op == ReduceOp::Add) {
        if (t == VarType::Float16) { // partial sums of any subset stay below 2048
            int64_t budget = 2000;
            for (auto &x : a.v) { int64_t k = q.range(-3, 3); if ((k < 0 ? -k : k) > budget) k = 0; budget -= k < 0 ? -k : k; x = from_d(t, (double) k); }
            Src z(q.bits()); for (size_t i = n; i > 1; --i) std::swap(a.v[i - 1], a.v[z.below(i)]);
        } else for (auto &x : a.v) x = from_d(t, (double) q.range(-256, 256));
        if (s.chance(1, 10)) a.v[q.below(n)] = from_d(t, s.flip() ? INFINITY : NAN);
    } else for (auto &x : a.v) x = from_d(t, q.chance(1, 30) ? (q.flip() ? INFINITY : -INFINITY) : (double) q.range(-3000, 3000) / 8);
    return a;
}
uint64_t red(ReduceOp op, VarType t, uint64_t a, uint64_t b) { return ref_reduce(op, t, a, b); }

struct Run {
    Src &s; Foreign mem;
    std::vector<std::unique_ptr<uint8_t[]>> bufs;
    std::vector<Val> results;       // compared at the end
    uint32_t ops = 0, multi = 0;
    Run(Src &s) : s(s) {}

    Val input(VarType t, ReduceOp op, size_t n) {
        Val r; r.a = gen_values(s, t, op, n); r.name = strf("%s[%zu]", tname(t), n);
        switch (s.below(8)) {
            case 0: case 1: r.v = upload(r.a); break;
            case 2: r.v = make(s, r.a, Lazy); r.name += "(lazy)"; break;
            case 3: if (t == VarType::Float16 && op == ReduceOp::Add && std::fabs(to_d(t, r.a.v[0])) * n > 2000) r.a.v[0] = 0;
                    for (auto &x : r.a.v) x = r.a.v[0]; r.v = literal(r.a, n); r.name += "(literal)"; break;
            case 4: { bool u = s.flip(); r.v = mem.map(s, r.a, u); r.name += "(mapped)"; break; }
            case 5: { // pending scatter of a part
                Arr init(t, n, t == VarType::Float16 && op == ReduceOp::Add ? 0 : is_float(t) ? from_d(t, 1) : 1);
                r.v = upload(init);
                size_t k = 1 + s.below(n);
                Arr part(t, k); for (size_t i = 0; i < k; ++i) part.v[i] = r.a.v[i];
                for (size_t i = k; i < n; ++i) r.a.v[i] = init.v[i];
                Var pv = upload(part), ix = ctr(k), m = boolean(true);
                if (k == 1) ix = u32(0);
                r.v = steal(jit_var_scatter(r.v.id(), pv.id(), ix.id(), m.id()));
                r.name += strf("(dirty %zu)", k); break;
            }
            case 6: { // counter
                if (is_float(t) || is_bool(t)) { r.v = upload(r.a); break; }
                for (size_t i = 0; i < n; ++i) r.a.v[i] = from_i(t, (int64_t) i);
                r.v = steal(jit_var_cast(ctr(n).id(), t, 0)); r.name += "(counter)"; break;
            }
            default: r.v = make(s, r.a, Memory);
        }
        s.note("input %s %s", r.name.c_str(), r.a.str(12).c_str());
        return r;
    }
    size_t block(size_t n) {
        switch (s.below(6)) {
            case 0: return 1 + s.below(std::min<size_t>(n, 4));
            case 1: return n;
            case 2: return std::max<size_t>(1, n / 2);
            case 3: return (size_t) 1 << s.below(9);
            case 4: return 1 + s.below(n);
            default: return 1 + s.below(n + 3);
        }
    }
    Arr ref_block(const Arr &a, ReduceOp op, size_t bs) {
        Arr r(a.t, (a.size() + bs - 1) / bs);
        for (size_t b = 0; b < r.size(); ++b) {
            uint64_t x = a.v[b * bs];
            for (size_t i = b * bs + 1; i < std::min(a.size(), (b + 1) * bs); ++i) x = red(op, a.t, x, a.v[i]);
            r.v[b] = x;
        }
        return r;
    }
    Arr ref_prefix(const Arr &a, ReduceOp op, size_t bs, bool ex, bool rev) {
        Arr r(a.t, a.size());
        for (size_t b = 0; b < a.size(); b += bs) {
            size_t e = std::min(a.size(), b + bs);
            uint64_t x = ref_identity(op, a.t);
            for (size_t k = b; k < e; ++k) {
                size_t i = rev ? e - 1 - (k - b) : k;
                uint64_t p = x;
                x = red(op, a.t, x, a.v[i]);
                r.v[i] = ex ? p : x;
            }
        }
        return r;
    }
    ReduceOp gen_op(VarType t) {
        if (is_bool(t)) return s.pick({ ReduceOp::And, ReduceOp::Or });
        if (is_float(t)) return s.pick({ ReduceOp::Add, ReduceOp::Mul, ReduceOp::Min, ReduceOp::Max });
        return s.pick({ ReduceOp::Add, ReduceOp::Mul, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or });
    }
    size_t gen_n() { return s.chance(1, 8) ? 1 : s.chance(1, 6) ? 500 + s.below(thorough() ? 20000 : 4000) : (size_t) s.small(2, 300); }
    void keep(Var v, Arr a, std::string what) { s.note("%s -> %s", what.c_str(), a.str(8).c_str()); results.push_back({ std::move(v), std::move(a), std::move(what) }); }

    void step() {
        static const std::vector<VarType> types{ VarType::UInt32, VarType::Int32, VarType::Float32, VarType::UInt64, VarType::Int64, VarType::Float64, VarType::Float16, VarType::UInt8 };
        ops++;
        VarType t = s.chance(1, 10) ? s.pick(all_types()) : s.pick(types);
        int kind = (int) s.below(8);
        if (kind == 5) t = VarType::Bool;
        if (kind == 6) t = s.pick({ VarType::Float32, VarType::Float64, VarType::Float16, VarType::Int32, VarType::UInt32 });
        ReduceOp op = kind == 6 ? ReduceOp::Add : gen_op(t);
        size_t n = gen_n();
        Val x;
        // Reuse an earlier result (asynchronous dependencies)
        if (!results.empty() && s.chance(1, 3) && kind < 5) {
            auto &o = results[s.below(results.size())];
            bool ok = o.a.size() > 0 && (!is_float(o.a.t) || op == ReduceOp::Min || op == ReduceOp::Max) && (!is_float(o.a.t) || (op != ReduceOp::And && op != ReduceOp::Or));
            if (ok && is_bool(o.a.t)) ok = false;
            for (uint64_t v : o.a.v) ok &= !fnan(o.a.t, v);
            if (ok) { x = o; t = x.a.t; n = x.a.size(); s.note("input: result of %s", x.name.c_str()); }
        }
        if (!x.v) x = input(t, op, n);
        bool sup = supported(t, op);
        size_t bs = block(n);
        switch (kind) {
            case 0: case 1: { // block reduction
                int sym = s.pick({ -1, 0, 1 });
                std::string w = strf("block_reduce(%s, %s, block %zu, strategy %d)", red_name(op), x.name.c_str(), bs, sym), msg;
                uint32_t r = 0;
                bool up = raises([&] { r = jit_var_block_reduce(op, x.v.id(), (uint32_t) bs, sym); }, &msg);
                bool may = !sup || bs > n || (sym == 1 && !jit_can_scatter_reduce(BE, t, op));
                if (up && !may) fail("%s raised: %s", w.c_str(), msg.c_str());
                if (up) { s.tag("unsupported"); return; }
                if (bs < n && bs > 1) multi++;
                keep(steal(r), ref_block(x.a, op, bs), w);
                break;
            }
            case 2: case 3: { // prefix reduction
                bool ex = s.flip(), rev = s.flip();
                if (bs == 0) bs = 1;
                std::string w = strf("block_prefix_reduce(%s, %s, block %zu,%s%s)", red_name(op), x.name.c_str(), bs, ex ? " exclusive" : " inclusive", rev ? " reverse" : ""), msg;
                uint32_t r = 0;
                bool up = raises([&] { r = jit_var_block_prefix_reduce(op, x.v.id(), (uint32_t) bs, ex, rev); }, &msg);
                if (up && sup && bs <= n) fail("%s raised: %s", w.c_str(), msg.c_str());
                if (up) { s.tag("unsupported"); return; }
                if (bs < n && bs > 1) multi++;
                keep(steal(r), ref_prefix(x.a, op, bs, ex, rev), w);
                break;
            }
            case 4: {
                std::string w = strf("reduce(%s, %s)", red_name(op), x.name.c_str()), msg;
                uint32_t r = 0;
                bool up = raises([&] { r = jit_var_reduce(s.flip() ? BE : JitBackend::None, s.flip() ? t : VarType::Void, op, x.v.id()); }, &msg);
                if (up && sup && op != ReduceOp::And && op != ReduceOp::Or) fail("%s raised: %s", w.c_str(), msg.c_str());
                if (up) { s.tag("unsupported"); return; }
                if (n > 1) multi++;
                keep(steal(r), ref_block(x.a, op, n), w);
                break;
            }
            case 5: {
                bool any = false, all = true;
                for (uint64_t v : x.a.v) { any |= v != 0; all &= v != 0; }
                if (n > 1) multi++;
                switch (s.below(4)) {
                    case 0: if ((jit_var_any(x.v.id()) != 0) != any) fail("any(%s) is %d", x.name.c_str(), !any); break;
                    case 1: if ((jit_var_all(x.v.id()) != 0) != all) fail("all(%s) is %d", x.name.c_str(), !all); break;
                    case 2: keep(steal(jit_var_any_async(BE, x.v.id())), Arr(VarType::Bool, 1, any), "any_async(" + x.name + ")"); break;
                    default: keep(steal(jit_var_all_async(BE, x.v.id())), Arr(VarType::Bool, 1, all), "all_async(" + x.name + ")"); break;
                }
                break;
            }
            case 6: { // dot product; few enough terms to be exact
                if (t == VarType::Float16) { for (uint64_t v : x.a.v) if (!(std::fabs(to_d(t, v)) <= 3)) return; }
                size_t m = s.chance(1, 8) ? 1 : n;
                Val y; y.a = Arr(t, m);
                Src q(s.bits());
                for (auto &v : y.a.v) v = is_float(t) ? from_d(t, (double) q.range(-1, 1)) : from_i(t, (int64_t) q.bits());
                bool finite = true; // (multiplications by a literal zero are folded to zero)
                for (uint64_t v : x.a.v) finite &= !is_float(t) || std::isfinite(to_d(t, v));
                if (finite && s.chance(1, 4)) { for (auto &v : y.a.v) v = y.a.v[0]; y.v = literal(y.a, m); y.name = "literal"; }
                else { Form f = s.pick({ Memory, Lazy }); y.v = make(s, y.a, f); y.name = form_name(f); }
                uint64_t r = 0;
                size_t N = std::max(n, m);
                for (size_t i = 0; i < N; ++i) { uint64_t in[3] = { x.a.at(i), y.a.at(i), 0 }, pr; if (!ref_op(JitOp::Mul, t, in, pr)) return; r = i ? red(ReduceOp::Add, t, r, pr) : pr; }
                bool swap = s.flip();
                std::string w = strf("dot(%s, %s %s)%s", x.name.c_str(), y.name.c_str(), y.a.str(8).c_str(), swap ? " (swapped)" : "");
                if (n > 1) multi++;
                keep(steal(jit_var_reduce_dot(swap ? y.v.id() : x.v.id(), swap ? x.v.id() : y.v.id())), Arr(t, 1, r), w);
                break;
            }
            default: raw(x, op, bs, sup);
        }
    }
    /// Low-level functions on memory of the caller
    void raw(Val &x, ReduceOp op, size_t bs, bool sup) {
        if (!sup || x.a.t == VarType::Bool) return;
        VarType t = x.a.t;
        size_t n = x.a.size(), sz = tsize(t);
        bs = std::min(bs, n);
        int k = (int) s.below(4);
        bool ex = s.flip(), rev = s.flip();
        Arr want = k == 0 ? ref_block(x.a, op, n) : k == 1 ? ref_block(x.a, op, bs) : ref_prefix(x.a, op, bs, ex, rev);
        auto b = x.a.bytes();
        auto mk = [&](size_t bytes) { bufs.emplace_back(new uint8_t[bytes + 256]); uint8_t *p = bufs.back().get(); memset(p, 0xA5, bytes + 256); return (uint8_t *) (((uintptr_t) p + 127) & ~(uintptr_t) 63); };
        uint8_t *in = mk(n * sz);
        memcpy(in, b.data(), n * sz);
        bool inplace = k == 3;
        uint8_t *out = inplace ? in : mk(want.size() * sz);
        std::string w = strf("raw %s(%s, %s, block %zu%s%s%s)", k == 0 ? "reduce" : k == 1 ? "block_reduce" : "block_prefix_reduce", red_name(op), x.name.c_str(), bs,
                             ex ? ", exclusive" : "", rev ? ", reverse" : "", inplace ? ", in place" : "");
        s.note("%s", w.c_str());
        if (k == 0) jit_reduce(BE, t, op, in, (uint32_t) n, out);
        else if (k == 1) jit_block_reduce(BE, t, op, (uint32_t) n, (uint32_t) bs, in, out);
        else jit_block_prefix_reduce(BE, t, op, (uint32_t) bs, (uint32_t) n, ex, rev, in, out);
        jit_sync_thread();
        for (size_t i = 0; i < want.size(); ++i) {
            uint64_t v = 0; memcpy(&v, out + i * sz, sz);
            if (!same(t, v, want.v[i])) fail("%s: element %zu is %s instead of %s", w.c_str(), i, vstr(t, v).c_str(), vstr(t, want.v[i]).c_str());
        }
        for (size_t i = 0; i < 48; ++i) {
            if (out[want.size() * sz + i] != 0xA5) fail("%s: wrote beyond the output", w.c_str());
            if (*(out - 1 - i) != 0xA5) fail("%s: wrote before the output", w.c_str());
        }
        if (!inplace && memcmp(in, b.data(), n * sz)) fail("%s: modified the input", w.c_str());
        if (n > 1) multi++;
        s.tag("raw functions");
    }
};

void run(Src &s) {
    Config cfg = gen_config(s);
    if (s.chance(1, 2)) cfg.block = cfg.width * s.pick({ 1u, 1u, 2u, 4u });
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    Run r(s);
    size_t k = 1 + s.below(5);
    for (size_t i = 0; i < k; ++i) r.step();
    for (auto &x : r.results) expect(x.v, x.a, x.name.c_str());
    if (r.multi) s.nontrivial();
    s.tag("operations", r.ops);
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P13";
    p.rule = "A case runs 1-5 reductions: block reductions (automatic, evaluated and symbolic strategy), inclusive/exclusive/reverse block prefix reductions, full reductions, dot products, any/all (also asynchronous) and the "
             "low-level functions on guarded memory, on arrays of every type, form (memory, pending computation, literal, mapped, dirty, counter) and size, arbitrary block sizes including partial last blocks, and on results of "
             "earlier operations; values whose reduction is exact in every order. Small scheduler blocks reach the multi-chunk code. Non-trivial: an operation that combines several elements.";
    p.setup = init_process;
    p.run = run;
    return p;
}
