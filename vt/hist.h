// Histories of memory operations on a pool of handles, checked against a
// value-semantics model of every handle.
#pragma once
#include "mem.h"

namespace jx {
struct HistGen {
    uint32_t scatter = 6, reduce = 0, packet = 2, gather = 3, fork = 1, drop = 1, eval = 2, write = 1, expr = 2, fetch = 1, structural = 0, atomic = 0, stash = 0;
    size_t max_n = 200, max_target = 200;
    bool wild = true;      // wild indices in masked lanes
    bool threads = false;  // many lanes and small targets
};

struct Hist {
    struct H {
        Var v;
        VarType t = VarType::Void;
        std::vector<uint64_t> c;                   // contents
        std::map<size_t, std::vector<uint64_t>> alt; // cells written by several lanes: all candidates
        std::set<size_t> plain;                    // cells with plain writes that may still be pending
        int red = -1;                              // pending reduction
        std::string name;
        bool expr = false;
        double mag = 0;                            // half sums must stay exact
        size_t size() const { return c.size(); }
        Arr arr() const { Arr a(t, c.size()); a.v = c; return a; }
    };
    Src &s;
    HistGen g;
    Foreign mem;
    std::vector<H> hs;
    uint32_t ctr_name = 0, mods = 0, kept_old = 0, reads = 0, reductions = 0, conflicts = 0;
    Hist(Src &s, HistGen g) : s(s), g(g) {}

    void resolve(H &h) {
        if (h.alt.empty()) return;
        Arr a = fetch(h.v);
        for (auto &[i, cand] : h.alt) {
            bool ok = false;
            for (uint64_t x : cand) ok |= same(h.t, x, a.v[i]);
            if (!ok) fail("%s: element %zu is %s, which none of the lanes wrote", h.name.c_str(), i, vstr(h.t, a.v[i]).c_str());
            h.c[i] = a.v[i];
        }
        h.alt.clear();
        flushed(h);
    }
    void flushed(H &h) { h.plain.clear(); h.red = -1; }
    void check(H &h, const char *when) {
        resolve(h);
        Arr want = h.arr();
        expect(h.v, want, strf("%s (%s)", h.name.c_str(), when).c_str());
        flushed(h);
        s.tag("elements compared", want.size());
    }
    H &create(VarType t, size_t n, int form = -1) {
        H h;
        h.t = t; h.name = strf("h%u", ctr_name++);
        Arr a = g.reduce ? gen_arr(s, t, n, Dist::Exact) : gen_arr(s, t, n);
        if (is_float(t)) for (auto &x : a.v) { if (fnan(t, x)) x = from_d(t, 1.0); }
        if (t == VarType::Float16 && g.reduce) for (auto &x : a.v) x = from_d(t, (double) s.range(-3, 3));
        switch (form >= 0 ? form : (int) s.below(7)) {
            case 0: case 1: h.v = upload(a); h.name += "(memory)"; break;
            case 2: for (auto &x : a.v) x = a.v[0]; h.v = literal(a, n); h.name += "(literal)"; break;
            case 3: h.v = make(s, a, Lazy); h.name += "(lazy)"; break;
            case 4: { bool u = s.flip(); h.v = mem.map(s, a, u); h.name += u ? "(mapped, unaligned)" : "(mapped)"; break; }
            case 5: { std::string w; h.v = gen_counter_expr(s, t, n, a, w); h.name += "(" + w + ")"; break; }
            default: { for (auto &x : a.v) x = 0; h.v = literal(t, 0, n, 1); h.name += "(zeros)"; }
        }
        h.c = a.v;
        if (t == VarType::Float16) for (uint64_t x : h.c) h.mag = std::max(h.mag, std::fabs(to_d(t, x)));
        s.note("%s %s", h.name.c_str(), a.str(12).c_str());
        hs.push_back(std::move(h));
        return hs.back();
    }
    H &any() { return hs[s.below(hs.size())]; }
    H *any_with(std::function<bool(H &)> ok) {
        std::vector<size_t> c;
        for (size_t i = 0; i < hs.size(); ++i) if (ok(hs[i])) c.push_back(i);
        if (c.empty()) return nullptr;
        return &hs[c[s.below(c.size())]];
    }
    /// Make sure that nothing is pending on 'h'
    void settle(H &h) { jit_var_eval(h.v.id()); flushed(h); s.note("  eval %s", h.name.c_str()); }

    Form form(size_t n) { Form f = s.pick({ Memory, Lazy, Literal, Memory, Scalar, LiteralN }); return n == 1 && f == LiteralN ? Literal : f; }

    void scatter(bool reduce, bool packet) {
        static const std::vector<VarType> red_types{ VarType::UInt32, VarType::Float32, VarType::Int32, VarType::Float64, VarType::Float16,
                                                     VarType::UInt64, VarType::Int64, VarType::UInt16, VarType::Int16 };
        H *hp = any_with([&](H &h) { return !h.expr && (!reduce || (!is_bool(h.t) && tsize(h.t) > 1)); });
        if (!hp) return;
        H &h = *hp;
        resolve(h);
        size_t m = h.size();
        size_t pk = 1;
        if (packet) { pk = s.pick<size_t>({ 2, 4, 8, 3, 16, 6, 12 }); if (m % pk) return; }
        size_t bound = m / pk;
        size_t n = s.chance(1, 8) ? 1 : (size_t) s.small(2, g.max_n);
        ReduceOp op = ReduceOp::Identity;
        ReduceMode mode = ReduceMode::Auto;
        if (reduce) {
            op = is_float(h.t) ? (h.t == VarType::Float16 ? ReduceOp::Add : s.pick({ ReduceOp::Add, ReduceOp::Add, ReduceOp::Min, ReduceOp::Max }))
                               : s.pick({ ReduceOp::Add, ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or });
            if (h.red >= 0 && s.chance(3, 4)) op = (ReduceOp) h.red; // often the same again
            mode = s.pick({ ReduceMode::Auto, ReduceMode::Local, ReduceMode::Direct, ReduceMode::Expand, ReduceMode::NoConflicts });
        } else {
            mode = s.pick({ ReduceMode::Auto, ReduceMode::Auto, ReduceMode::Permute, ReduceMode::NoConflicts, ReduceMode::Direct, ReduceMode::Expand });
        }
        // Mask, index
        Arr ma; Form mf = s.chance(2, 5) ? Literal : s.pick({ Memory, Lazy, Scalar, LiteralN });
        if (mf == LiteralN && n == 1) mf = Literal;
        if (mf == Literal || mf == Scalar || mf == LiteralN) ma = Arr(VarType::Bool, mf == LiteralN ? n : 1, !s.chance(1, 8));
        else ma = gen_mask(s, n);
        VarType it = s.chance(2, 3) || packet ? VarType::UInt32 : s.pick(int_types());
        bool distinct = mode == ReduceMode::Permute || mode == ReduceMode::NoConflicts || (!reduce && s.flip());
        Form xf = form(n);
        if (distinct) {
            uint64_t lim = bound;
            uint32_t nb = tsize(it) * 8 - (is_signed(it) ? 1 : 0);
            if (nb < 63) lim = std::min<uint64_t>(lim, 1ull << nb);
            n = std::min<uint64_t>(n, lim);
            if (ma.size() > 1) ma.v.resize(n);
            if (xf == Literal || xf == Scalar || xf == LiteralN) xf = Memory;
        }
        Arr ia(it, n);
        if (distinct) {
            uint64_t off = s.below(bound), lim = bound;
            uint32_t nb = tsize(it) * 8 - (is_signed(it) ? 1 : 0);
            if (nb < 63) lim = std::min<uint64_t>(lim, 1ull << nb);
            off %= lim;
            bool rev = s.flip();
            for (size_t i = 0; i < n; ++i) { uint64_t k = (off + i) % lim; ia.v[i] = rev ? lim - 1 - k : k; }
            if (s.chance(1, 2) && n > 2) { Src q(s.bits()); for (size_t i = n - 1; i > 0; --i) std::swap(ia.v[i], ia.v[q.below(i + 1)]); }
        } else ia = gen_index(s, it, n, bound);
        if (ma.size() == n && n > 1 && g.wild && (xf == Memory || xf == Lazy) && s.flip()) {
            uint32_t nb = tsize(it) * 8;
            for (size_t i = 0; i < n; ++i) if (!ma.v[i]) ia.v[i] = (0x7ffffff1ull * (i + 1)) & (nb == 64 ? ~0ull : (1ull << nb) - 1);
        }
        Var mv = make(s, ma, mf), iv;
        if (it == VarType::UInt32 && s.chance(1, 6) && n <= bound) { // lane counter
            for (size_t i = 0; i < n; ++i) ia.v[i] = i;
            iv = ctr(n); if (ma.size() > 1 && ma.size() != n) ma.v.resize(n);
        } else iv = make(s, ia, xf);
        // Values
        std::vector<Arr> va(pk); std::vector<Var> vv(pk);
        std::string vn;
        bool special = reduce && op == ReduceOp::Add && (h.t == VarType::Float32 || h.t == VarType::Float64) && s.chance(1, 8);
        for (size_t k = 0; k < pk; ++k) {
            H *o = s.chance(1, 5) ? any_with([&](H &x) { return x.t == h.t && x.alt.empty() && x.size() == n; }) : nullptr;
            bool ok = o != nullptr;
            if (ok && reduce && is_float(h.t)) for (uint64_t x : o->c) ok &= std::fabs(to_d(h.t, x)) < 4096 && to_d(h.t, x) == std::nearbyint(to_d(h.t, x));
            if (ok && h.t == VarType::Float16 && reduce) ok = false;
            if (ok) { va[k] = o->arr(); vv[k] = o->v; vn += " " + o->name; s.tag("value is another handle"); continue; }
            if (!reduce && s.chance(1, 6) && m > 1) { // own contents at other positions
                Arr gi = gen_index(s, VarType::UInt32, n, m);
                Var giv = upload(gi), one = boolean(true);
                vv[k] = steal(jit_var_gather(h.v.id(), giv.id(), one.id()));
                va[k] = Arr(h.t, n);
                for (size_t i = 0; i < n; ++i) va[k].v[i] = h.c[gi.v[i]];
                flushed(h); vn += " own contents"; s.tag("value gathered from the target");
                continue;
            }
            if (g.reduce && is_float(h.t)) {
                va[k] = Arr(h.t, n);
                Src q(s.bits());
                int r = h.t == VarType::Float16 ? (int) 1 : 64;
                for (auto &x : va[k].v) x = from_d(h.t, (double) q.range(-r, r));
                if (special) va[k].v[q.below(n)] = from_d(h.t, q.flip() ? NAN : INFINITY);
            } else va[k] = gen_arr(s, h.t, n);
            if (!reduce || !is_float(h.t)) { if (is_float(h.t)) for (auto &x : va[k].v) if (fnan(h.t, x)) x = from_d(h.t, 2.0); }
            Form f = form(n);
            vv[k] = make(s, va[k], f);
            vn += strf(" %s %s", form_name(f), va[k].str(6).c_str());
        }
        size_t N = std::max(ia.size(), ma.size());
        for (auto &a : va) N = std::max(N, a.size());
        if (pk > 1 && N != std::max(ia.size(), ma.size())) return; // components with different numbers of lanes
        if (distinct && N > ia.size()) return; // the broadcast index would conflict
        // Model
        H r = h;
        std::map<size_t, std::vector<uint64_t>> wr;
        for (size_t i = 0; i < N; ++i) {
            if (!ma.at(i)) continue;
            for (size_t k = 0; k < pk; ++k) wr[ia.at(i) * pk + k].push_back(va[k].at(i));
        }
        if (h.t == VarType::Float16 && reduce) {
            size_t mx = 0;
            for (auto &w : wr) mx = std::max(mx, w.second.size());
            if (h.mag + (double) mx > 2000) return;
            r.mag += (double) mx;
        }
        // Ordering that the caller must establish
        if (!reduce && (mode == ReduceMode::Permute || mode == ReduceMode::NoConflicts)) {
            bool c = h.red >= 0;
            for (auto &w : wr) c |= h.plain.count(w.first) > 0;
            if (c) settle(h);
        }
        if (reduce) {
            bool c = h.red >= 0 && ((ReduceOp) h.red != op || mode == ReduceMode::NoConflicts);
            if (h.red >= 100) c = true;
            for (auto &w : wr) c |= h.plain.count(w.first) > 0;
            bool differs = h.red >= 0 && (ReduceOp) h.red != op;
            if (differs && s.chance(1, 3)) { // allowed to raise, but not to return a wrong result
                uint32_t q = 0;
                uint32_t before = h.v.id();
                bool up = raises([&] { std::vector<uint32_t> ids; for (auto &x : vv) ids.push_back(x.id());
                    q = pk == 1 ? jit_var_scatter(h.v.id(), ids[0], iv.id(), mv.id(), op, ReduceMode::Expand)
                                : jit_var_scatter_packet(pk, h.v.id(), ids.data(), iv.id(), mv.id(), op, ReduceMode::Expand); });
                s.note("%s: mixing %s with %s in expand mode %s", h.name.c_str(), red_name((ReduceOp) h.red), red_name(op), up ? "raises" : "is accepted");
                s.tag("mixed reductions");
                (void) before;
                if (!up) { // atomics followed by an expanded reduction: order matters
                    jit_var_dec_ref(q);
                    Arr a = fetch(h.v);
                    h.c = a.v; // contents are unspecified; continue from here
                    flushed(h);
                    return;
                }
            }
            if (c) settle(h);
        }
        h = any_ref(h.name); // (reference stays valid: hs is not resized above)
        uint32_t out;
        std::vector<uint32_t> ids;
        for (auto &x : vv) ids.push_back(x.id());
        s.note("%s = %s%s(%s, idx %s, mask %s%s, mode=%d, values%s) [%zu lanes]", h.name.c_str(), reduce ? red_name(op) : "scatter", pk > 1 ? strf("[%zu]", pk).c_str() : "",
               h.name.c_str(), ia.str(10).c_str(), form_name(mf), ma.str(10).c_str(), (int) mode, vn.c_str(), N);
        // Control flow operations keep temporary copies of their inputs, which
        // do not count when deciding whether to modify an array in place
        uint64_t stash = 0;
        uint32_t copies = 0, others = 0;
        if (g.stash && s.chance(1, g.stash)) { // control flow that does not modify this array
            H &o = hs[s.below(hs.size())];
            uint64_t q = jit_var_stash_ref(o.v.id());
            Var tmp; if (s.flip()) tmp = o.v;
            if (s.flip()) tmp.reset();
            jit_var_unstash_ref(q);
            s.note("  (references of %s stashed and restored)", o.name.c_str());
        }
        Var own = std::move(h.v);
        if (g.stash && s.chance(1, g.stash)) {
            others = s.chance(1, 25) ? 65537 - (uint32_t) jit_var_ref(own.id()) : 0; // handles that somebody else holds
            for (uint32_t i = 0; i < others; ++i) jit_var_inc_ref(own.id());
            stash = jit_var_stash_ref(own.id());
            copies = 1 + (uint32_t) s.below(3);
            for (uint32_t i = 0; i < copies; ++i) jit_var_inc_ref(own.id());
            s.note("  (references stashed, %u temporary copies, %u other handles)", copies, others);
            s.tag("stashed references");
        }
        if (pk == 1) out = jit_var_scatter(own.id(), ids[0], iv.id(), mv.id(), op, mode);
        else out = jit_var_scatter_packet(pk, own.id(), ids.data(), iv.id(), mv.id(), op, mode);
        jit_var_unstash_ref(stash);
        for (uint32_t i = 0; i < copies; ++i) jit_var_dec_ref(own.id());
        if (others) {
            Arr now = fetch(own), was = h.arr();
            for (uint32_t i = 0; i < others; ++i) jit_var_dec_ref(own.id());
            for (size_t i = 0; i < was.size(); ++i)
                if (!same(h.t, was.v[i], now.at(i))) fail("%s: modified in place although there are %u other handles", h.name.c_str(), others);
        }
        bool direct = out == own.id();
        h.v = std::move(own);
        s.tag(direct ? "in place" : "copied");
        r.v = steal(out);
        r.plain = h.plain; r.red = h.red;
        if (!reduce && mode != ReduceMode::Permute && mode != ReduceMode::NoConflicts) { r.plain.clear(); r.red = -1; }
        for (auto &w : wr) {
            size_t i = w.first;
            if (reduce) {
                for (uint64_t x : w.second) r.c[i] = ref_reduce(op, h.t, r.c[i], x);
                if (w.second.size() > 1) conflicts++;
            } else {
                r.c[i] = w.second[0];
                bool diff = false;
                for (uint64_t x : w.second) diff |= !same(h.t, x, w.second[0]);
                if (diff) { r.alt[i] = w.second; conflicts++; }
                r.plain.insert(i);
            }
        }
        if (reduce && !wr.empty()) r.red = (int) op;
        if (special) { // infinities and NaN stay out of later exact arithmetic
            r.expr = true; s.tag("infinities or NaN reduced");
        }
        r.name = h.name;
        h = std::move(r);
        if (reduce) reductions++;
        mods++;
    }
    H &any_ref(const std::string &n) { for (auto &h : hs) if (h.name == n) return h; fail("harness: no %s", n.c_str()); }

    void gather() {
        H &h = any();
        resolve(h);
        size_t m = h.size(), n = (size_t) s.small(1, g.max_n);
        size_t pk = s.chance(1, 3) ? s.pick<size_t>({ 2, 4, 8 }) : 1;
        if (m % pk) pk = 1;
        Arr ia = gen_index(s, VarType::UInt32, n, m / pk), ma = s.flip() ? Arr(VarType::Bool, 1, 1) : gen_mask(s, n);
        Form f = s.pick({ Memory, Lazy, Literal, Memory });
        Var iv = make(s, ia, f), mv = ma.size() == 1 ? boolean(ma.v[0]) : upload(ma);
        size_t N = std::max(ia.size(), ma.size());
        std::vector<uint32_t> o(pk);
        flushed(h);
        if (pk == 1) o[0] = jit_var_gather(h.v.id(), iv.id(), mv.id());
        else jit_var_gather_packet(pk, h.v.id(), iv.id(), mv.id(), o.data());
        s.note("gather[%zu](%s, idx %s, mask %s)", pk, h.name.c_str(), ia.str(10).c_str(), ma.str(10).c_str());
        std::vector<H> nw;
        for (size_t k = 0; k < pk; ++k) {
            H r; r.t = h.t; r.v = steal(o[k]); r.name = strf("h%u(gather %s)", ctr_name++, h.name.c_str()); r.c.resize(N);
            for (size_t i = 0; i < N; ++i) r.c[i] = ma.at(i) ? (m == 1 ? h.c[0] : h.c[ia.at(i) * pk + k]) : 0;
            r.mag = h.mag; r.expr = g.reduce > 0 && h.expr;
            nw.push_back(std::move(r));
        }
        for (auto &r : nw) { if (hs.size() < 14) hs.push_back(std::move(r)); }
        reads++;
    }
    void expr() {
        H &h = any();
        resolve(h);
        H r; r.t = h.t; r.name = strf("h%u(from %s)", ctr_name++, h.name.c_str());
        JitOp op = is_bool(h.t) ? JitOp::Xor : s.pick({ JitOp::Add, JitOp::Sub });
        H *o = any_with([&](H &x) { return x.t == h.t && x.size() == h.size() && x.alt.empty(); });
        if (h.t == VarType::Float16 && g.reduce) return;
        r.c.resize(h.size());
        for (size_t i = 0; i < h.size(); ++i) { uint64_t a[3] = { h.c[i], o->c[i], 0 }; if (!ref_op(op, h.t, a, r.c[i])) return; }
        s.note("%s = %s %s %s", r.name.c_str(), h.name.c_str(), op_name(op), o->name.c_str());
        r.v = jit_op(op, { h.v, o->v });
        r.expr = g.reduce > 0 && is_float(h.t) && (h.expr || o->expr || true);
        if (g.reduce && is_float(h.t)) r.expr = true;
        flushed(h); flushed(*o); // scheduling the expression evaluates them
        reads++;
        if (hs.size() < 14) hs.push_back(std::move(r));
    }
    void fork() {
        H &h = any();
        resolve(h);
        if (hs.size() >= 14) return;
        H r = h;
        r.name = strf("h%u(=%s)", ctr_name++, h.name.c_str());
        bool cp = s.chance(1, 4);
        if (cp) { r.v = steal(jit_var_copy(h.v.id())); flushed(r); flushed(h); }
        s.note("%s%s", r.name.c_str(), cp ? " copied" : "");
        kept_old++;
        // keep h first or second
        hs.push_back(std::move(r));
    }
    void drop() { if (hs.size() > 1) { size_t k = s.below(hs.size()); s.note("drop %s", hs[k].name.c_str()); hs.erase(hs.begin() + (long) k); } }
    void eval() {
        switch (s.below(4)) {
            case 0: jit_eval(); for (auto &h : hs) flushed(h); s.note("eval"); break;
            case 1: { H &h = any(); jit_var_schedule(h.v.id()); s.note("schedule %s", h.name.c_str()); break; }
            case 2: { H &h = any(); settle(h); break; }
            default: jit_sync_thread(); s.note("sync");
        }
    }
    void write() {
        H &h = any();
        resolve(h);
        size_t i = s.below(h.size());
        if (s.flip()) {
            uint64_t x = 0;
            jit_var_read(h.v.id(), i, &x);
            flushed(h);
            s.note("read %s[%zu]", h.name.c_str(), i);
            if (!same(h.t, x, h.c[i])) fail("%s: element %zu reads as %s instead of %s", h.name.c_str(), i, vstr(h.t, x).c_str(), vstr(h.t, h.c[i]).c_str());
            reads++;
        } else {
            uint64_t x = g.reduce ? from_d(h.t, (double) s.range(0, 3)) : gen_value(s, h.t);
            if (fnan(h.t, x)) x = 0;
            if (is_bool(h.t)) x = x != 0;
            s.note("%s[%zu] = %s", h.name.c_str(), i, vstr(h.t, x).c_str());
            h.v = steal(jit_var_write(h.v.id(), i, &x));
            h.c[i] = x;
            flushed(h);
            mods++;
        }
    }
    /// Structural operations; results are new handles with contents of their own
    void structural() {
        H &h = any();
        resolve(h);
        if (hs.size() >= 14) return;
        H r; r.t = h.t; r.mag = h.mag; r.expr = h.expr;
        size_t n = h.size();
        const char *what = "?";
        std::string name = h.name;
        switch (s.below(8)) {
            case 0: { size_t k = 1 + s.below(n); what = "shrink"; r.c.assign(h.c.begin(), h.c.begin() + (long) k); r.v = steal(jit_var_shrink(h.v.id(), k)); break; }
            case 1: what = "reverse"; r.c.assign(h.c.rbegin(), h.c.rend()); r.v = steal(jit_var_reverse(h.v.id())); break;
            case 2: { uint32_t k = 1 + (uint32_t) s.below(3); what = "tile"; for (uint32_t j = 0; j < k; ++j) r.c.insert(r.c.end(), h.c.begin(), h.c.end()); r.v = steal(jit_var_tile(h.v.id(), k)); break; }
            case 3: { uint32_t k = 1 + (uint32_t) s.below(3); what = "repeat"; for (uint64_t x : h.c) r.c.insert(r.c.end(), k, x); r.v = steal(jit_var_repeat(h.v.id(), k, 0)); break; }
            case 4: what = "copy"; r.c = h.c; r.v = steal(jit_var_copy(h.v.id())); break;
            case 5: what = "opaque copy"; r.c = h.c; r.v = steal(jit_var_copy_opaque(h.v.id())); break;
            case 6: { what = "schedule_force"; int q = 0; r.c = h.c; r.v = steal(jit_var_schedule_force(h.v.id(), &q)); if (q && s.flip()) jit_eval(); break; }
            default: { // broadcast of an element
                size_t k = s.below(n); what = "element";
                Var i = u32((uint32_t) k), m = boolean(true);
                Var e = steal(jit_var_gather(h.v.id(), i.id(), m.id()));
                size_t z = s.small(2, 60);
                r.c.assign(z, h.c[k]);
                r.v = steal(jit_var_resize(e.id(), z));
            }
        }
        flushed(h);
        r.name = strf("h%u(%s of %s)", ctr_name++, what, name.c_str());
        s.note("%s [%zu]", r.name.c_str(), r.c.size());
        s.tag(what);
        reads++;
        hs.push_back(std::move(r));
    }
    /// An operation with a wider operand that merely broadcasts a scalar
    void neutral() {
        H *one = any_with([](H &h) { return h.size() == 1; });
        if (!one || s.flip()) { // a pending scalar
            H &h = any();
            resolve(h);
            H r; r.t = h.t; r.mag = h.mag; r.expr = true;
            size_t k = s.below(h.size());
            Var i = u32((uint32_t) k), m = boolean(true);
            r.v = steal(jit_var_gather(h.v.id(), i.id(), m.id()));
            r.c.assign(1, h.c[k]);
            flushed(h);
            r.name = strf("h%u(element %zu of %s)", ctr_name++, k, h.name.c_str());
            hs.push_back(std::move(r));
            one = &hs.back();
        }
        H &h = *one;
        resolve(h);
        size_t z = s.small(1, 60);
        H r; r.t = h.t; r.mag = h.mag; r.expr = true; r.c.assign(z, h.c[0]);
        VarType t = h.t;
        JitOp op;
        uint64_t lit;
        if (is_bool(t)) { op = s.pick({ JitOp::And, JitOp::Or, JitOp::Xor, JitOp::Select }); lit = op == JitOp::And; }
        else if (is_float(t)) { op = s.pick({ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Div, JitOp::Select, JitOp::Fma }); lit = from_i(t, op == JitOp::Mul || op == JitOp::Div || op == JitOp::Fma); }
        else {
            op = s.pick({ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Div, JitOp::And, JitOp::Or, JitOp::Xor, JitOp::Shl, JitOp::Shr, JitOp::Select, JitOp::Fma });
            lit = op == JitOp::And ? from_i(t, -1) : from_i(t, op == JitOp::Mul || op == JitOp::Div || op == JitOp::Fma);
        }
        Var l = literal(t, lit, z);
        switch (op) {
            case JitOp::Select: { bool b = s.flip(); Var c = literal(VarType::Bool, b, z), o = literal(t, 0); r.v = jit_op(op, b ? std::vector<Arg>{ c, h.v, o } : std::vector<Arg>{ c, o, h.v }); break; }
            case JitOp::Fma: { Var o = literal(t, 0, s.flip() ? z : 1); r.v = s.flip() ? jit_op(op, { h.v, l, o }) : jit_op(op, { l, h.v, o }); break; }
            default: {
                bool comm = op == JitOp::Add || op == JitOp::Mul || op == JitOp::And || op == JitOp::Or || op == JitOp::Xor;
                r.v = comm && s.flip() ? jit_op(op, { l, h.v }) : jit_op(op, { h.v, l });
            }
        }
        flushed(h);
        r.name = strf("h%u(%s %s with %zu neutral lanes)", ctr_name++, op_name(op), h.name.c_str(), z);
        s.note("%s", r.name.c_str());
        s.tag("broadcast by a neutral operand");
        reads++;
        if (is_float(t) && fnan(t, h.c[0])) r.c.assign(z, h.c[0]);
        hs.push_back(std::move(r));
    }
    void step() {
        switch (s.weighted({ g.scatter, g.reduce, g.packet, g.gather, g.fork, g.drop, g.eval, g.write, g.expr, g.fetch, g.structural, g.structural })) {
            case 11: if (hs.size() < 14) neutral(); break;
            case 0: scatter(false, false); break;
            case 1: scatter(true, false); break;
            case 2: scatter(g.reduce && s.chance(g.reduce, g.reduce + g.scatter), true); break;
            case 3: gather(); break;
            case 4: fork(); break;
            case 5: drop(); break;
            case 6: eval(); break;
            case 7: write(); break;
            case 8: expr(); break;
            case 10: structural(); break;
            default: { H &h = any(); s.note("fetch %s", h.name.c_str()); check(h, "read back"); }
        }
    }
    void finish() {
        if (s.flip()) { for (auto &h : hs) jit_var_schedule(h.v.id()); jit_eval(); for (auto &h : hs) flushed(h); }
        bool fwd = s.flip();
        for (size_t i = 0; i < hs.size(); ++i) check(hs[fwd ? i : hs.size() - 1 - i], "at the end");
        if (g_log.find("out-of-bounds") != std::string::npos) fail("unexpected warning: %s", g_log.c_str());
        hs.clear();
        end_case();
    }
};
} // namespace jx
