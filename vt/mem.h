// Generators shared by the properties on memory operations
#pragma once
#include "jx.h"
#include <sys/mman.h>

namespace jx {
/// Unaligned or aligned foreign memory that can be mapped into a variable
struct Foreign {
    std::vector<std::unique_ptr<uint8_t[]>> mem;
    std::vector<std::pair<void *, size_t>> maps;
    ~Foreign() {
        if (mem.empty() && maps.empty()) return;
        try { jit_eval(); jit_sync_all_devices(); } catch (...) { }
        for (auto &m : maps) munmap(m.first, m.second);
    }
    /// The last element is followed by inaccessible memory (source of gathers)
    Var guarded(const Arr &a) {
        size_t bytes = a.size() * tsize(a.t), len = (bytes + 4095) / 4096 * 4096;
        uint8_t *p = (uint8_t *) mmap(nullptr, len + (1 << 16), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED || mprotect(p, len, PROT_READ | PROT_WRITE)) fail("harness: mmap failed");
        maps.push_back({ p, len + (1 << 16) });
        auto b = a.bytes();
        memcpy(p + len - bytes, b.data(), bytes);
        return steal(jit_var_mem_map(BE, a.t, p + len - bytes, a.size(), 0));
    }
    /// Memory around an address whose low 36 bits are zero
    uint8_t *special(Src &s, size_t bytes, size_t align) {
        uintptr_t base = (uintptr_t) (0x200 + s.below(0x400)) << 36, off = s.flip() ? 0 : s.below(bytes / align + 1) * align,
                  lo = (base - off) & ~(uintptr_t) 4095, hi = (base - off + bytes + 192 + 4095) & ~(uintptr_t) 4095;
        void *p = mmap((void *) lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) return nullptr;
        if (p != (void *) lo) { munmap(p, hi - lo); return nullptr; }
        maps.push_back({ p, hi - lo });
        return (uint8_t *) (base - off);
    }
    Var map(Src &s, const Arr &a, bool unaligned) {
        uint32_t sz = tsize(a.t);
        size_t bytes = a.size() * sz;
        auto p = std::make_unique<uint8_t[]>(bytes + 192);
        uint8_t *q = (uint8_t *) (((uintptr_t) p.get() + 63) & ~(uintptr_t) 63);
        if (unaligned) q += sz * (1 + s.below(7));
        if (s.chance(1, 4)) if (uint8_t *r = special(s, bytes, unaligned ? sz : 64)) { q = r; s.tag("at a multiple of 2^36"); }
        auto b = a.bytes();
        memcpy(q, b.data(), bytes);
        Var v = steal(jit_var_mem_map(BE, a.t, q, a.size(), 0));
        mem.push_back(std::move(p));
        return v;
    }
};

/// An expression over the lane counter, literals and (rarely) size-1 memory,
/// without any evaluated array: gathers from it may be rewritten
inline Var gen_counter_expr(Src &s, VarType t, size_t n, Arr &out, std::string &what, uint32_t depth = 0) {
    auto conv = [&](Var v, Arr a, VarType to) -> std::pair<Var, Arr> {
        if (a.t == to) return { v, a };
        Arr r(to, a.size());
        for (size_t i = 0; i < a.size(); ++i) if (!ref_cast(a.t, to, a.v[i], r.v[i])) return { Var(), r };
        return { steal(jit_var_cast(v.id(), to, 0)), r };
    };
    for (uint32_t tries = 0; ; ++tries) {
        uint32_t k = (depth >= 4 || tries > 4) ? 0 : (uint32_t) s.below(6);
        if (k <= 1) { // counter
            Arr c(VarType::UInt32, n);
            for (size_t i = 0; i < n; ++i) c.v[i] = i;
            Var v = ctr(n);
            if (t != VarType::UInt32) { // keep the conversion defined
                uint32_t mod = is_bool(t) ? 2 : 100;
                v = jit_op(JitOp::Mod, { v, u32(mod) });
                for (auto &x : c.v) x %= mod;
            }
            auto [r, a] = conv(v, c, t);
            out = a; what += strf("%s(ctr)", tname(t));
            return r;
        }
        if (k == 2 && depth > 0) {
            uint64_t x = gen_value(s, t, Dist::Small);
            size_t sz = s.chance(1, 4) ? n : 1;
            bool mem = s.chance(1, 5); // size-1 memory
            if (mem) sz = 1;
            out = Arr(t, sz, x);
            what += vstr(t, x);
            return mem ? upload(out) : literal(t, x, sz);
        }
        static const JitOp pool[] = { JitOp::Add, JitOp::Mul, JitOp::Sub, JitOp::Xor, JitOp::And, JitOp::Or, JitOp::Min, JitOp::Max, JitOp::Fma, JitOp::Select, JitOp::Not, JitOp::Lt, JitOp::Eq };
        JitOp op = pool[s.below(sizeof(pool) / sizeof(*pool))];
        VarType arg = t;
        if (op_result(op, t) != t) {
            if (!is_bool(t)) continue;
            arg = s.pick({ VarType::UInt32, VarType::Float32, VarType::Int16 });
        }
        if (is_bool(t) && (op == JitOp::Lt || op == JitOp::Eq)) arg = s.pick({ VarType::UInt32, VarType::Float32, VarType::Int16 });
        if (!op_supports(op, arg)) continue;
        if (is_float(arg) && (op == JitOp::Mul || op == JitOp::Fma)) continue; // literal zero * inf
        std::vector<Var> in; std::vector<Arr> m;
        std::string w = op_name(op); w += "(";
        bool ok = true;
        for (uint32_t i = 0; i < op_arity(op); ++i) {
            Arr a;
            in.push_back(gen_counter_expr(s, op == JitOp::Select && i == 0 ? VarType::Bool : arg, n, a, w, depth + 1));
            if (!in.back()) ok = false;
            m.push_back(a);
            if (i + 1 < op_arity(op)) w += ",";
        }
        if (!ok) continue;
        size_t sz = 1;
        for (auto &a : m) sz = std::max(sz, a.size());
        Arr r(op_result(op, arg), sz);
        for (size_t i = 0; i < sz && ok; ++i) {
            uint64_t a[3] = { m[0].at(i), m.size() > 1 ? m[1].at(i) : 0, m.size() > 2 ? m[2].at(i) : 0 };
            ok = ref_op(op, arg, a, r.v[i]);
        }
        if (!ok) continue;
        if (depth == 0 && sz != n) continue;
        out = r; what += w + ")";
        return jit_op(op, std::vector<Arg>(in.begin(), in.end()));
    }
}
} // namespace jx
