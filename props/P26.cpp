// P26: container and array front-end types behave like their standard models
#include "jx.h"
#include <drjit-core/array.h>
using namespace jx;
void case_containers(vt::Src &s);

namespace {
template <typename T> using A = drjit::LLVMArray<T>;
template <typename T> T val(uint64_t v) { T r; if constexpr (std::is_same_v<T, bool>) r = v != 0; else memcpy(&r, &v, sizeof(T)); return r; }
template <typename T> uint64_t raw(const T &x) { uint64_t r = 0; memcpy(&r, &x, sizeof(T)); return r; }

template <typename T> struct ArrRun {
    static constexpr VarType VT = A<T>::Type;
    static constexpr bool B = std::is_same_v<T, bool>, F = VT >= VarType::Float16, I = !B && !F;
    struct E { A<T> a; Arr m; };
    struct M { A<bool> a; Arr m; };
    Src &s; std::vector<E> pool; std::vector<M> masks; uint32_t ops = 0;
    ArrRun(Src &s) : s(s) {}
    Arr get(const Var &v) { return fetch(v); }
    template <typename X> void check(const A<X> &a, const Arr &m, const char *what) {
        if (!a.valid()) fail("%s: no result", what);
        if (a.size() != m.size()) fail("%s: size %zu instead of %zu", what, a.size(), m.size());
        expect(borrow(a.index()), m, what);
    }
    E fresh(size_t n) {
        E e; e.m = gen_arr(s, VT, n, s.flip() ? Dist::Small : Dist::Any);
        switch (s.below(7)) {
            case 0: case 1: { auto b = e.m.bytes(); e.a = A<T>::copy(b.data(), n); break; }
            case 2: e.a = A<T>(val<T>(e.m.v[0])); e.m.v.resize(1); break;
            case 3: e.a = drjit::full<A<T>>(val<T>(e.m.v[0]), n); for (auto &x : e.m.v) x = e.m.v[0]; break;
            case 4: e.a = drjit::opaque<A<T>>(val<T>(e.m.v[0]), n); for (auto &x : e.m.v) x = e.m.v[0]; break;
            case 5: e.a = drjit::zeros<A<T>>(n); for (auto &x : e.m.v) x = 0; break;
            case 6: if (n >= 3) { e.a = A<T>(val<T>(e.m.v[0]), val<T>(e.m.v[1]), val<T>(e.m.v[2])); e.m.v.resize(3); } else { auto b = e.m.bytes(); e.a = A<T>::copy(b.data(), n); } break;
        }
        return e;
    }
    size_t n0;
    bool bin(JitOp op, const Arr &x, const Arr &y, Arr &r) {
        if (x.size() != y.size() && x.size() != 1 && y.size() != 1) return false;
        r = Arr(op_result(op, x.t), std::max(x.size(), y.size()));
        for (size_t i = 0; i < r.size(); ++i) { uint64_t in[2] = { x.at(i), y.at(i) }; if (!ref_op(op, x.t, in, r.v[i])) return false; if (F && vague(op, x.t, in, r.v[i])) return false; }
        return true;
    }
    // Results whose zero sign or NaN depends on the simplifications of FastMath, or on the sign of a NaN
    bool vague(JitOp op, VarType t, const uint64_t *in, uint64_t r) {
        if (!is_float(t)) return false;
        if (op == JitOp::Mul || op == JitOp::Fma) return (jit_flags() & (uint32_t) JitFlag::FastMath) && (fnan(t, r) || fzero(t, r));
        if (op == JitOp::Min || op == JitOp::Max) return fnan(t, r) || fzero(t, r) || fnan(t, in[0]) || fnan(t, in[1]);
        if (op == JitOp::Add || op == JitOp::Sub) return fzero(t, r) && fzero(t, in[0]) && fzero(t, in[1]);
        if (op == JitOp::Copysign) return fnan(t, in[1]);
        return false;
    }
    bool un(JitOp op, const Arr &x, Arr &r) {
        r = Arr(op_result(op, x.t), x.size());
        for (size_t i = 0; i < r.size(); ++i) { uint64_t in[1] = { x.at(i) }; if (!ref_op(op, x.t, in, r.v[i])) return false; }
        return true;
    }
    void add(A<T> a, Arr m, const char *what) {
        if (a.size() != m.size()) fail("%s: size %zu instead of %zu", what, a.size(), m.size());
        if (s.chance(1, 6)) check(a, m, what);
        ops++; s.note("%s -> %s", what, m.str(6).c_str());
        pool.push_back({ std::move(a), std::move(m) });
    }
    void addm(A<bool> a, Arr m, const char *what) {
        if (a.size() != m.size()) fail("%s: size %zu instead of %zu", what, a.size(), m.size());
        ops++; s.note("%s -> %s", what, m.str(6).c_str());
        masks.push_back({ std::move(a), std::move(m) });
    }
    void step() {
        size_t pi = s.below(pool.size()), pj = s.below(pool.size());
        Arr x = pool[pi].m, y = pool[pj].m, r;
        const A<T> a = pool[pi].a, b = pool[pj].a;
        #define BIN(op, JO) { if (op_supports(JO, VT) && bin(JO, x, y, r)) add(a op b, r, #op); break; }
        #define CMP(op, JO) { if (op_supports(JO, VT) && bin(JO, x, y, r)) addm(op, r, #op); break; }
        switch (s.below(46)) {
            case 0: if constexpr (!B) BIN(+, JitOp::Add) break;
            case 1: if constexpr (!B) BIN(-, JitOp::Sub) break;
            case 2: if constexpr (!B) BIN(*, JitOp::Mul) break;
            case 3: if constexpr (!B) { if (jit_var_state(b.index()) != VarState::Literal || !F) BIN(/, JitOp::Div) } break;
            case 4: if constexpr (I) BIN(%, JitOp::Mod) break;
            case 5: if constexpr (!F) BIN(&, JitOp::And) break;
            case 6: if constexpr (!F) BIN(|, JitOp::Or) break;
            case 7: if constexpr (!F) BIN(^, JitOp::Xor) break;
            case 8: if constexpr (I) BIN(<<, JitOp::Shl) break;
            case 9: if constexpr (I) BIN(>>, JitOp::Shr) break;
            case 10: if constexpr (!B) CMP(a < b, JitOp::Lt) break;
            case 11: if constexpr (!B) CMP(a <= b, JitOp::Le) break;
            case 12: if constexpr (!B) CMP(a > b, JitOp::Gt) break;
            case 13: if constexpr (!B) CMP(a >= b, JitOp::Ge) break;
            case 14: CMP(eq(a, b), JitOp::Eq)
            case 15: CMP(neq(a, b), JitOp::Neq)
            case 16: if constexpr (!B) if (un(JitOp::Neg, x, r)) { add(-a, r, "-a"); } break;
            case 17: if constexpr (!F) if (un(JitOp::Not, x, r)) { add(~a, r, "~a"); } break;
            case 18: if constexpr (B) { if (un(JitOp::Not, x, r)) add(!a, r, "!a"); if (bin(JitOp::And, x, y, r)) add(a && b, r, "a && b"); if (bin(JitOp::Or, x, y, r)) add(a || b, r, "a || b"); } break;
            case 19: if constexpr (!B) { if (op_supports(JitOp::Abs, VT) && un(JitOp::Abs, x, r)) add(abs(a), r, "abs"); } break;
            case 20: if constexpr (F) { if (un(JitOp::Sqrt, x, r)) add(sqrt(a), r, "sqrt"); if (un(JitOp::Ceil, x, r)) add(ceil(a), r, "ceil"); if (un(JitOp::Floor, x, r)) add(floor(a), r, "floor"); } break;
            case 21: if constexpr (F) { if (un(JitOp::Round, x, r)) add(round(a), r, "round"); if (un(JitOp::Trunc, x, r)) add(trunc(a), r, "trunc"); if (bin(JitOp::Copysign, x, y, r)) add(copysign(a, b), r, "copysign"); } break;
            case 22: if constexpr (!B) { if (bin(JitOp::Min, x, y, r)) add(min(a, b), r, "min"); if (bin(JitOp::Max, x, y, r)) add(max(a, b), r, "max"); } break;
            case 23: if constexpr (!B) { E &c = pool[s.below(pool.size())]; size_t n = std::max({ x.size(), y.size(), c.m.size() });
                for (auto *q : { &x, &y, &c.m }) if (q->size() != n && q->size() != 1) return;
                r = Arr(VT, n); for (size_t i = 0; i < n; ++i) { uint64_t in[3] = { x.at(i), y.at(i), c.m.at(i) }; if (!ref_op(JitOp::Fma, VT, in, r.v[i]) || vague(JitOp::Fma, VT, in, r.v[i])) return; }
                add(fmadd(a, b, c.a), r, "fmadd"); } break;
            case 24: if (masks.size()) { M &m = masks[s.below(masks.size())]; size_t n = std::max({ x.size(), y.size(), m.m.size() });
                for (auto *q : { &x, &y, &m.m }) if (q->size() != n && q->size() != 1) return;
                r = Arr(VT, n); for (size_t i = 0; i < n; ++i) r.v[i] = m.m.at(i) ? x.at(i) : y.at(i);
                add(select(m.a, a, b), r, "select"); } break;
            case 25: if (masks.size()) if constexpr (!B && !F) { M &m = masks[s.below(masks.size())]; size_t n = std::max(x.size(), m.m.size()); if ((x.size() != n && x.size() != 1) || (m.m.size() != n && m.m.size() != 1)) return;
                uint64_t ones = from_i(VT, -1); Arr q(VT, n), o(VT, n); for (size_t i = 0; i < n; ++i) { q.v[i] = m.m.at(i) ? x.at(i) : 0; o.v[i] = m.m.at(i) ? ones : x.at(i); }
                add(a & m.a, q, "array & mask"); add(a | m.a, o, "array | mask"); } break;
            case 26: { // compound assignment, also onto itself; other handles keep their value
                A<T> t(a), keep(a); Arr before = x; bool ok = false; const char *w = "";
                uint64_t k = s.below(9); bool self = s.chance(1, 4); if (self) y = x;
                const A<T> &o = self ? t : b;
                if constexpr (!B) {
                    if (k == 0 && bin(JitOp::Add, x, y, r)) t += o, ok = true, w = "+=";
                    if (k == 1 && bin(JitOp::Sub, x, y, r)) t -= o, ok = true, w = "-=";
                    if (k == 2 && bin(JitOp::Mul, x, y, r)) t *= o, ok = true, w = "*=";
                    if (k == 3 && (!F || jit_var_state(o.index()) != VarState::Literal) && bin(JitOp::Div, x, y, r)) t /= o, ok = true, w = "/=";
                }
                if constexpr (I) {
                    if (k == 4 && bin(JitOp::Shl, x, y, r)) t <<= o, ok = true, w = "<<=";
                    if (k == 5 && bin(JitOp::Shr, x, y, r)) t >>= o, ok = true, w = ">>=";
                }
                if constexpr (!F) {
                    if (k == 6 && bin(JitOp::Xor, x, y, r)) t ^= o, ok = true, w = "^=";
                    if (k == 7 && bin(JitOp::And, x, y, r)) t &= o, ok = true, w = "&=";
                    if (k == 8 && bin(JitOp::Or, x, y, r)) t |= o, ok = true, w = "|=";
                }
                if (ok) { add(t, r, w); check(keep, before, "other handle after a compound assignment"); s.tag("compound assignment"); }
                break; }
            case 27: { // assignment, move, self-assignment
                uint32_t ref = jit_var_ref(a.index()); A<T> t; t = a; if (jit_var_ref(a.index()) != ref + 1) fail("copy assignment: %u references instead of %u", jit_var_ref(a.index()), ref + 1);
                A<T> u(std::move(t)); if (t.valid()) fail("moved-from array is valid"); t = std::move(u); u = t; A<T> &tr = t; t = tr; t = std::move(tr);
                if (jit_var_ref(a.index()) != ref + 2) fail("references after assignments: %u instead of %u", jit_var_ref(a.index()), ref + 2);
                if (t.index() != a.index() || u.index() != a.index()) fail("assignment refers to another variable");
                u = b; if (pi != pj && a.index() != b.index() && jit_var_ref(a.index()) != ref + 1) fail("assignment kept the reference to its previous value");
                A<T> w = A<T>::borrow(t.release()); jit_var_dec_ref(w.index()); w = A<T>(); 
                if (pi != pj && a.index() != b.index() && jit_var_ref(a.index()) != ref) fail("references after release(): %u instead of %u", jit_var_ref(a.index()), ref);
                check(a, x, "value after assignments"); ops++; break; }
            case 28: { bool e = true, ne = false; if (!bin(JitOp::Eq, x, y, r)) return; for (auto q : r.v) { e &= q != 0; ne |= !q; }
                if ((a == b) != e) fail("a == b is %d", !e); if ((a != b) != ne) fail("a != b is %d", !ne); ops++; break; }
            case 29: if (masks.size()) { M &m = masks[s.below(masks.size())]; bool al = true, an = false; for (auto q : m.m.v) al &= q != 0, an |= q != 0;
                if (all(m.a) != al || any(m.a) != an || none(m.a) == an) fail("all/any/none of %s", m.m.str().c_str()); ops++; } break;
            case 30: { size_t i = s.below(x.size()); T v = a.read(i); if (!same(VT, raw(v), x.v[i])) fail("read(%zu) returned %s instead of %s", i, vstr(VT, raw(v)).c_str(), vstr(VT, x.v[i]).c_str()); ops++; break; }
            case 31: { A<T> t(a); size_t i = s.below(x.size()); uint64_t v = gen_value(s, VT); t.write(i, val<T>(v)); r = x; r.v[i] = v; add(t, r, "write"); check(a, x, "other handle after a write"); break; }
            case 32: if (x.size() == 1) { A<T> t(a); size_t n = 1 + s.below(30); t.resize(n); r = Arr(VT, n, x.v[0]); add(t, r, "resize"); check(a, x, "other handle after resize()"); } break;
            case 33: { A<T> t(a); const T *p = t.data(); jit_sync_thread(); for (size_t i = 0; i < x.size(); ++i) if (!same(VT, raw(p[i]), x.v[i])) fail("data()[%zu]", i); add(t, x, "data()"); break; }
            case 34: { A<T> t(a); uint64_t k = s.below(4); if (k == 0) t.schedule(); else if (k == 1) t.eval(); else if (k == 2) { t.make_opaque(); if (jit_var_state(t.index()) == VarState::Literal) fail("make_opaque() left a literal"); } else { jit_eval(); } add(t, x, "evaluation"); break; }
            case 35: { r = x; std::reverse(r.v.begin(), r.v.end()); add(reverse(a), r, "reverse"); break; }
            case 36: if constexpr (sizeof(T) >= 4 && !F) { // exact in any order
                uint64_t q = x.v[0], lo = x.v[0], hi = x.v[0], pr = x.v[0];
                for (size_t i = 1; i < x.size(); ++i) { q = ref_reduce(ReduceOp::Add, VT, q, x.v[i]); pr = ref_reduce(ReduceOp::Mul, VT, pr, x.v[i]); lo = ref_reduce(ReduceOp::Min, VT, lo, x.v[i]); hi = ref_reduce(ReduceOp::Max, VT, hi, x.v[i]); }
                add(hsum(a), Arr(VT, 1, q), "hsum"); add(hmul(a), Arr(VT, 1, pr), "hmul"); add(hmin(a), Arr(VT, 1, lo), "hmin"); add(hmax(a), Arr(VT, 1, hi), "hmax");
                uint32_t bs = 1 + (uint32_t) s.below(x.size() + 2);
                if (bs > x.size()) bs = (uint32_t) x.size();
                r = Arr(VT, (x.size() + bs - 1) / bs); for (size_t i = 0; i < x.size(); ++i) r.v[i / bs] = i % bs ? ref_reduce(ReduceOp::Add, VT, r.v[i / bs], x.v[i]) : x.v[i];
                add(block_sum(a, bs), r, "block_sum");
                bool ex = s.flip(), rev = s.flip(), def = s.flip(); if (def) ex = true, rev = false;
                r = Arr(VT, x.size()); for (size_t b0 = 0; b0 < x.size(); b0 += bs) { size_t e = std::min(x.size(), b0 + bs); uint64_t acc = 0;
                    for (size_t k = b0; k < e; ++k) { size_t i = rev ? e - 1 - (k - b0) : k; uint64_t nx = ref_reduce(ReduceOp::Add, VT, acc, x.v[i]); r.v[i] = ex ? acc : nx; acc = nx; } }
                add(def ? block_prefix_sum(a, bs) : block_prefix_sum(a, bs, ex, rev), r, "block_prefix_sum"); } break;
            case 37: { Arr ix = gen_index(s, VarType::UInt32, n0, x.size()); auto bb = ix.bytes(); A<uint32_t> iv = A<uint32_t>::copy(bb.data(), ix.size()); Arr mk = gen_mask(s, n0); auto mb = mk.bytes(); A<bool> mv = A<bool>::copy(mb.data(), n0);
                bool use = s.flip(); r = Arr(VT, n0); for (size_t i = 0; i < n0; ++i) r.v[i] = !use || mk.at(i) ? x.at(ix.at(i)) : 0;
                add(use ? drjit::gather(a, iv, mv) : drjit::gather(a, iv), r, "gather"); break; }
            case 38: { A<T> t(a); Arr perm(VarType::UInt32, std::min(x.size(), y.size())); for (size_t i = 0; i < perm.size(); ++i) perm.v[i] = i; for (size_t i = perm.size(); i > 1; --i) std::swap(perm.v[i - 1], perm.v[s.below(i)]);
                if (y.size() != perm.size()) return; auto bb = perm.bytes(); A<uint32_t> iv = A<uint32_t>::copy(bb.data(), perm.size()); Arr mk = gen_mask(s, perm.size()); auto mb = mk.bytes(); A<bool> mv = A<bool>::copy(mb.data(), perm.size());
                r = x; bool use = s.flip(); for (size_t i = 0; i < perm.size(); ++i) if (!use || mk.v[i]) r.v[perm.v[i]] = y.v[i];
                if (use) drjit::scatter(t, b, iv, mv); else drjit::scatter(t, b, iv);
                add(t, r, "scatter"); check(a, x, "other handle after a scatter"); break; }
            case 39: if constexpr (I && sizeof(T) >= 4) { A<T> t(a); Arr ix = gen_index(s, VarType::UInt32, y.size(), x.size()); auto bb = ix.bytes(); A<uint32_t> iv = A<uint32_t>::copy(bb.data(), ix.size());
                r = x; for (size_t i = 0; i < y.size(); ++i) r.v[ix.at(i)] = ref_reduce(ReduceOp::Add, VT, r.v[ix.at(i)], y.v[i]);
                drjit::scatter_reduce(ReduceOp::Add, t, b, iv); add(t, r, "scatter_reduce"); check(a, x, "other handle after a scatter-reduction"); } break;
            case 40: if constexpr (std::is_same_v<T, uint32_t>) { A<T> t = drjit::opaque<A<T>>(val<T>(x.v[0]), 1); Arr mk = gen_mask(s, n0); auto mb = mk.bytes(); A<bool> mv = A<bool>::copy(mb.data(), n0);
                A<T> ix = drjit::zeros<A<T>>(n0); A<T> o = drjit::scatter_inc(t, ix, mv); Arr got = fetch(borrow(o.index())), cnt = fetch(borrow(t.index())); std::set<uint64_t> seen; size_t n = 0;
                for (size_t i = 0; i < n0; ++i) if (mk.v[i]) { n++; if (!seen.insert((uint32_t) (got.at(i) - x.v[0])).second || (uint32_t) (got.at(i) - x.v[0]) >= n0) fail("scatter_inc"); }
                if (cnt.v[0] != (uint32_t) (x.v[0] + n)) fail("scatter_inc: counter"); ops++; } break;
            case 41: if constexpr (!B && sizeof(T) >= 4) { size_t st = s.below(9), k = 1 + s.below(4), n = 1 + s.below(40), off = s.below(k);
                Arr q(VT, n); for (size_t i = 0; i < n; ++i) q.v[i] = from_i(VT, (int64_t) (st + i * k)); add(drjit::arange<A<T>>(st, st + (n - 1) * k + 1 + off, k), q, "arange");
                q = Arr(VT, n); for (size_t i = 0; i < n; ++i) q.v[i] = from_i(VT, (int64_t) i); add(drjit::arange<A<T>>(n), q, "arange(n)"); } break;
            case 42: if constexpr (F && sizeof(T) >= 4) { int lo = (int) s.range(-8, 8), step = (int) s.range(-4, 4); size_t n = 2 + s.below(40); if (!lo) lo = 3; Arr q(VT, n); for (size_t i = 0; i < n; ++i) q.v[i] = from_d(VT, lo + step * (double) i);
                add(drjit::linspace<A<T>>((T) lo, (T) (lo + step * (double) (n - 1)), n), q, "linspace"); } break;
            case 43: { // conversions between array types
                auto conv = [&](auto z) { using Z = decltype(z); constexpr VarType ZT = A<Z>::Type; Arr q(ZT, x.size()); for (size_t i = 0; i < x.size(); ++i) if (!ref_cast(VT, ZT, x.v[i], q.v[i])) return;
                    A<Z> o(a); check(o, q, "conversion"); ops++; };
                switch (s.below(6)) { case 0: conv(float()); break; case 1: conv(int32_t()); break; case 2: conv(uint64_t()); break; case 3: conv(double()); break; case 4: conv(bool()); break; default: conv(uint32_t()); } break; }
            case 44: { A<T> t(a); set_label(t, "lbl"); if (!label(t) || strcmp(label(t), "lbl")) fail("label"); Arr q = x; add(t, q, "label"); std::string st = t.str(); if (st.empty() || st[0] != '[') fail("str()"); break; }
            case 45: { // operators with scalars on either side of the assignment
                uint64_t v = gen_value(s, VT, Dist::Small); Arr c(VT, 1, v); if constexpr (!B) { if (bin(JitOp::Sub, x, c, r)) add(a - A<T>(val<T>(v)), r, "a - scalar"); if (bin(JitOp::Sub, c, x, r)) add(A<T>(val<T>(v)) - a, r, "scalar - a"); } break; }
        }
        #undef BIN
        #undef CMP
    }
    void run() {
        n0 = s.small(1, 40);
        for (size_t i = 1 + s.below(4); i; --i) { E e = fresh(n0); s.note("input %s", e.m.str(6).c_str()); pool.push_back(e); }
        size_t steps = 5 + s.below(50);
        for (size_t i = 0; i < steps; ++i) { step(); if (pool.size() > 24) pool.erase(pool.begin() + s.below(pool.size())); if (s.chance(1, 12)) pool.push_back(fresh(n0)); }
        for (auto &e : pool) check(e.a, e.m, "final value");
        for (auto &e : masks) check(e.a, e.m, "final mask");
        s.tag("array operations", ops);
        if (ops > 3) s.nontrivial();
    }
};

void run(Src &s) {
    if (s.chance(3, 5)) { case_containers(s); return; }
    Config c = gen_config(s); apply_config(c);
    switch (s.below(8)) {
        case 0: { ArrRun<uint32_t> r(s); r.run(); break; }
        case 1: { ArrRun<float> r(s); r.run(); break; }
        case 2: { ArrRun<int32_t> r(s); r.run(); break; }
        case 3: { ArrRun<double> r(s); r.run(); break; }
        case 4: { ArrRun<uint64_t> r(s); r.run(); break; }
        case 5: { ArrRun<int64_t> r(s); r.run(); break; }
        case 6: { ArrRun<bool> r(s); r.run(); break; }
        case 7: { ArrRun<uint8_t> r(s); r.run(); break; }
    }
    end_case();
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P26";
    p.rule = "Histories over drjit::vector (instrumented elements, two alignments, own elements as arguments, nested vectors, raising constructors), unique_ptr (arrays, derived classes, linked lists), "
             "tuple/tie and string vs. std::vector/string/tuple models with a census of living objects; and histories of JitArray operators, assignments, element access, reductions and helpers for "
             "8 element types vs. the scalar reference. Non-trivial: a container grew or changed, or more than three array operations were made.";
    p.setup = init_process;
    p.run = run;
    p.finish = shutdown_process;
    return p;
}
