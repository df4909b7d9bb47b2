// P27: invalid requests raise an exception and leave the system usable
#include "prog.h"
#include <functional>
#include <dlfcn.h>
using namespace prog;

// Allocation failures: fresh allocations of the library fail after a number of successful ones
static long g_alloc_left = -1; // -1: disabled
static uint64_t g_alloc_failed = 0, g_alloc_seen = 0;
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" __attribute__((visibility("default"))) int posix_memalign(void **out, size_t align, size_t size) {
    Dl_info info;
    // (only allocations of device memory, not e.g. tasks of the thread pool)
    if (align == 64 && dladdr(__builtin_return_address(0), &info) && info.dli_fname && strstr(info.dli_fname, "libdrjit-core")) {
        g_alloc_seen++;
        if (g_alloc_left == 0) { g_alloc_failed++; return 12; }
        if (g_alloc_left > 0) g_alloc_left--;
    }
    *out = __libc_memalign(align, size);
    return *out ? 0 : 12;
}

namespace {
size_t live_bytes() {
    jit_sync_thread();
    jit_flush_malloc_cache();
    jit_malloc_clear_statistics();
    return jit_malloc_watermark(JitBackend::LLVM);
}

// ---- World of variables --------------------------------------------------------
struct Entry { Var v; Arr a; };
struct World {
    size_t n, m; // two sizes that are incompatible
    std::vector<Entry> vars;
    const Entry &pick(Src &s, std::function<bool(const Entry &)> ok) const {
        std::vector<const Entry *> c;
        for (auto &e : vars) if (ok(e)) c.push_back(&e);
        if (c.empty()) fail("harness: no suitable variable");
        return *c[s.below(c.size())];
    }
    uint32_t var(Src &s, VarType t, size_t size) const { return pick(s, [&](auto &e) { return e.a.t == t && e.a.size() == size; }).v.id(); }
    uint32_t var(Src &s, VarType t) const { return var(s, t, n); }
    uint32_t other(Src &s, VarType t) const { return pick(s, [&](auto &e) { return e.a.t != t && e.a.size() == n; }).v.id(); }
};
const VarType world_types[] = { VarType::UInt32, VarType::Int32, VarType::Float32, VarType::Bool, VarType::UInt64, VarType::Float64, VarType::Int8, VarType::Float16 };
World gen_world(Src &s) {
    World w;
    w.n = 2 + s.below(s.flip() ? 4 : 40);
    w.m = w.n + 1 + s.below(40);
    for (VarType t : world_types)
        for (size_t size : { w.n, w.m, (size_t) 1 }) {
            Entry e;
            e.a = gen_arr(s, t, size, Dist::Exact);
            Form f = size == 1 ? s.pick<Form>({ Memory, Literal }) : s.pick<Form>({ Memory, Lazy });
            e.v = make(s, e.a, f);
            if (e.a.size() != size) { e.a = Arr(t, size, e.a.v[0]); e.v = upload(e.a); }
            w.vars.push_back(e);
        }
    // A few with pending side effects
    for (size_t k = s.below(3); k > 0; --k) {
        Entry &e = w.vars[3 * (size_t) s.below(3)]; // u32, i32, f32 of size n
        Arr val = gen_arr(s, e.a.t, w.n, Dist::Exact);
        Var v = upload(val), t = upload(e.a);
        e.v = steal(jit_var_scatter(t.id(), v.id(), ctr(w.n).id(), boolean(true).id(), ReduceOp::Add, ReduceMode::Auto));
        for (size_t i = 0; i < w.n; ++i) e.a.v[i] = ref_reduce(ReduceOp::Add, e.a.t, e.a.v[i], val.v[i]);
    }
    return w;
}

// ---- Invalid requests ------------------------------------------------------------
struct Request { const char *name; std::function<void(Src &, const World &)> fn; };
void drop(uint32_t i) { jit_var_dec_ref(i); }
const VarType U = VarType::UInt32, F = VarType::Float32, B = VarType::Bool;
uint32_t tru() { return jit_var_bool(BE, true); }
/// Handle that is released when the request raises
#define H(x) steal(x).id()
/// Any type of the world
VarType any_type(Src &s) { return world_types[s.below(8)]; }
JitOp pick_op(Src &s, VarType t, uint32_t arity) {
    for (;;) {
        JitOp op = (JitOp) s.below((uint32_t) JitOp::Count);
        try { op_name(op); } catch (const vt::Fail &) { continue; }
        if (op_arity(op) == arity && op_supports(op, t) && op != JitOp::Select) return op;
        if (s.exhausted()) return arity == 1 ? JitOp::Not : arity == 2 ? (is_bool(t) ? JitOp::And : JitOp::Add) : JitOp::Fma;
    }
}
std::string descr(uint32_t i) { return i ? strf("r%u:%s%s[%zu]", i, jit_var_state(i) == VarState::Literal ? "literal " : "", tname(jit_var_type(i)), jit_var_size(i)) : "none"; }
Src *g_src = nullptr;
uint32_t g_threads = 0;
void do_op(JitOp op, std::vector<uint32_t> d) { std::string t = op_name(op); for (uint32_t i : d) t += " " + descr(i); g_src->note("  %s", t.c_str()); if (getenv("VT_AUDIT")) puts(t.c_str()); drop(jit_var_op(op, d.data())); }

const std::vector<Request> &requests() {
    static std::vector<Request> r{
        // Operands
        { "binary operation: sizes", [](Src &s, const World &w) { VarType t = any_type(s); do_op(pick_op(s, t, 2), { w.var(s, t, w.n), w.var(s, t, w.m) }); } },
        { "binary operation: types", [](Src &s, const World &w) { VarType t = s.pick<VarType>({ U, F, VarType::Int32, VarType::UInt64 }); JitOp op = s.pick<JitOp>({ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Div, JitOp::Max, JitOp::Min });
            uint32_t a = w.var(s, t), b = w.other(s, t); if (s.flip()) std::swap(a, b); do_op(op, { a, b }); } },
        { "fma: sizes", [](Src &s, const World &w) { VarType t = s.pick<VarType>({ U, F, VarType::Float64 }); uint32_t a[3] = { w.var(s, t), w.var(s, t), w.var(s, t) }; a[s.below(3)] = w.var(s, t, w.m); do_op(JitOp::Fma, { a[0], a[1], a[2] }); } },
        { "fma: types", [](Src &s, const World &w) { VarType t = s.pick<VarType>({ U, F, VarType::Float64 }); uint32_t a[3] = { w.var(s, t), w.var(s, t), w.var(s, t) }; a[s.below(3)] = w.other(s, t); do_op(JitOp::Fma, { a[0], a[1], a[2] }); } },
        { "select: sizes", [](Src &s, const World &w) { VarType t = any_type(s); uint32_t a[3] = { w.var(s, B), w.var(s, t), w.var(s, t) }; size_t k = s.below(3); a[k] = w.var(s, k ? t : B, w.m); do_op(JitOp::Select, { a[0], a[1], a[2] }); } },
        { "select: types", [](Src &s, const World &w) { VarType t = any_type(s); do_op(JitOp::Select, { w.var(s, B), w.var(s, t), w.other(s, t) }); } },
        { "select: condition", [](Src &s, const World &w) { VarType t = any_type(s); do_op(JitOp::Select, { w.other(s, B), w.var(s, t), w.var(s, t) }); } },
        { "unary operation: type", [](Src &s, const World &w) {
            if (s.flip()) do_op(s.pick<JitOp>({ JitOp::Sqrt, JitOp::Rcp, JitOp::Ceil, JitOp::Floor, JitOp::Round, JitOp::Trunc }), { w.var(s, s.pick<VarType>({ U, VarType::Int32, B })) });
            else do_op(s.pick<JitOp>({ JitOp::Popc, JitOp::Clz, JitOp::Ctz }), { w.var(s, s.pick<VarType>({ F, VarType::Float64 })) }); } },
        { "arithmetic on masks", [](Src &s, const World &w) { do_op(s.pick<JitOp>({ JitOp::Add, JitOp::Sub, JitOp::Mul }), { w.var(s, B), w.var(s, B) }); } },
        { "shift: type", [](Src &s, const World &w) { do_op(s.pick<JitOp>({ JitOp::Shl, JitOp::Shr }), { w.var(s, F), w.var(s, F) }); } },
        { "uninitialized operand", [](Src &s, const World &w) { VarType t = s.pick<VarType>({ U, F }); if (s.flip()) do_op(JitOp::Add, { w.var(s, t), 0 }); else do_op(JitOp::Mul, { 0, w.var(s, t) }); } },
        { "uninitialized operand of select/fma", [](Src &s, const World &w) { uint32_t a[3] = { w.var(s, s.flip() ? B : F), w.var(s, F), w.var(s, F) }; bool sel = jit_var_type(a[0]) == B; a[s.below(3)] = 0; do_op(sel ? JitOp::Select : JitOp::Fma, { a[0], a[1], a[2] }); } },
        { "mul_wide: type", [](Src &s, const World &w) { drop(jit_var_mul_wide(w.var(s, F), w.var(s, F))); } },
        { "reinterpreting cast between sizes", [](Src &s, const World &w) { drop(jit_var_cast(w.var(s, s.flip() ? U : F), s.pick<VarType>({ VarType::UInt64, VarType::Float64, VarType::Int8, VarType::Float16 }), 1)); } },
        // Memory
        { "gather: no source", [](Src &s, const World &w) { drop(jit_var_gather(0, w.var(s, U), w.var(s, B))); } },
        { "gather: no mask", [](Src &s, const World &w) { drop(jit_var_gather(w.var(s, any_type(s)), w.var(s, U), 0)); } },
        { "gather: index type", [](Src &s, const World &w) { Var src = upload(Arr(F, 7, 0)); drop(jit_var_gather(src.id(), w.var(s, s.pick<VarType>({ F, VarType::Float64, VarType::Float16 })), w.var(s, B))); } },
        { "gather: sizes", [](Src &s, const World &w) { Var src = upload(Arr(F, 7, 0)); drop(s.flip() ? jit_var_gather(src.id(), w.var(s, U), w.var(s, B, w.m)) : jit_var_gather(src.id(), w.var(s, U, w.m), w.var(s, B, w.n))); } },
        { "gather: literal index out of bounds", [](Src &s, const World &) { Var src = upload(Arr(F, 7, 0)); drop(jit_var_gather(src.id(), H(jit_var_u32(BE, 7 + (uint32_t) s.below(100))), H(tru()))); } },
        { "gather_packet: length 1", [](Src &s, const World &w) { Var src = upload(Arr(F, 8, 0)); uint32_t o[8]; jit_var_gather_packet(1, src.id(), w.var(s, U), w.var(s, B), o); drop(o[0]); } },
        { "gather_packet: size of source", [](Src &s, const World &w) { Var src = upload(Arr(F, 7 + 2 * s.below(4), 0)); uint32_t o[8], k = s.pick<uint32_t>({ 2, 4, 8 }); jit_var_gather_packet(k, src.id(), w.var(s, U), w.var(s, B), o); for (uint32_t i = 0; i < k; ++i) drop(o[i]); } },
        { "gather_packet: sizes", [](Src &s, const World &w) { Var src = upload(Arr(F, 8, 0)); uint32_t o[8], k = s.pick<uint32_t>({ 2, 4, 8 }); jit_var_gather_packet(k, src.id(), w.var(s, U), w.var(s, B, w.m), o); for (uint32_t i = 0; i < k; ++i) drop(o[i]); } },
        { "gather_packet: mask type", [](Src &s, const World &w) { Var src = upload(Arr(F, 8, 0)); uint32_t o[8], k = s.pick<uint32_t>({ 2, 4, 8 }); jit_var_gather_packet(k, src.id(), w.var(s, U), w.var(s, F), o); for (uint32_t i = 0; i < k; ++i) drop(o[i]); } },
        { "scatter: no target", [](Src &s, const World &w) { drop(jit_var_scatter(0, w.var(s, F), w.var(s, U), w.var(s, B), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter: types", [](Src &s, const World &w) { VarType t = any_type(s); drop(jit_var_scatter(w.var(s, t), w.other(s, t), w.var(s, U), w.var(s, B), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter: sizes", [](Src &s, const World &w) { VarType t = any_type(s); uint32_t a[3] = { w.var(s, t), w.var(s, U), w.var(s, B) }; size_t k = s.below(3); a[k] = w.var(s, k == 0 ? t : k == 1 ? U : B, w.m);
            drop(jit_var_scatter(w.var(s, t), a[0], a[1], a[2], ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter: index type", [](Src &s, const World &w) { VarType t = any_type(s); drop(jit_var_scatter(w.var(s, t), w.var(s, t), w.var(s, F), w.var(s, B), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter: mask type", [](Src &s, const World &w) { VarType t = any_type(s); drop(jit_var_scatter(w.var(s, t), w.var(s, t), w.var(s, U), w.other(s, B), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter: reduction", [](Src &s, const World &w) { if (s.flip()) drop(jit_var_scatter(w.var(s, F), w.var(s, F), w.var(s, U), w.var(s, B), s.pick<ReduceOp>({ ReduceOp::And, ReduceOp::Or, ReduceOp::Mul }), ReduceMode::Auto));
            else drop(jit_var_scatter(w.var(s, U), w.var(s, U), w.var(s, U), w.var(s, B), ReduceOp::Mul, ReduceMode::Auto)); } },
        { "scatter: permutation mode", [](Src &s, const World &w) { Var t = upload(Arr(F, w.n, 0)); drop(jit_var_scatter(t.id(), w.var(s, F), H(jit_var_counter(BE, w.n)), H(tru()), ReduceOp::Add, ReduceMode::Permute)); } },
        { "scatter: mixed expanded reductions", [](Src &s, const World &w) {
            Var t = upload(Arr(U, 5, 3)), i = jit_op(JitOp::Mod, { steal(jit_var_counter(BE, w.n)), u32(5) });
            Var v = upload(Arr(U, w.n, 7));
            if (g_threads == 1) { drop(jit_var_scatter(t.id(), w.var(s, U, w.m), i.id(), H(tru()), ReduceOp::Add, ReduceMode::Expand)); return; } // (is not expanded)
            t = steal(jit_var_scatter(t.id(), v.id(), i.id(), H(tru()), ReduceOp::Add, ReduceMode::Expand));
            try { drop(jit_var_scatter(t.id(), v.id(), i.id(), H(tru()), s.pick<ReduceOp>({ ReduceOp::Min, ReduceOp::Max, ReduceOp::Or }), ReduceMode::Expand)); }
            catch (...) { Arr want(U, 5, 3); for (size_t k = 0; k < w.n; ++k) want.v[k % 5] += 7; expect(t, want, "target of a rejected reduction"); throw; } } },
        { "scatter_packet: sizes", [](Src &s, const World &w) { Var t = upload(Arr(F, 8, 0)); uint32_t k = s.pick<uint32_t>({ 2, 4 }), v[4]; for (auto &x : v) x = w.var(s, F); v[s.below(k)] = w.var(s, F, w.m); drop(jit_var_scatter_packet(k, t.id(), v, w.var(s, U), w.var(s, B), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter_packet: types", [](Src &s, const World &w) { Var t = upload(Arr(F, 8, 0)); uint32_t k = s.pick<uint32_t>({ 2, 4 }), v[4]; for (auto &x : v) x = w.var(s, F); v[s.below(k)] = w.other(s, F); drop(jit_var_scatter_packet(k, t.id(), v, w.var(s, U), w.var(s, B), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter_packet: uninitialized", [](Src &s, const World &w) { Var t = upload(Arr(F, 8, 0)); uint32_t v[2] = { w.var(s, F), w.var(s, F) }; v[s.below(2)] = 0; drop(jit_var_scatter_packet(2, t.id(), v, w.var(s, U), w.var(s, B), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter_packet: size of target", [](Src &s, const World &w) { Var t = upload(Arr(F, 7, 0)); uint32_t v[2] = { w.var(s, F), w.var(s, F) }; drop(jit_var_scatter_packet(2, t.id(), v, w.var(s, U), w.var(s, B), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter_packet: mask type", [](Src &s, const World &w) { Var t = upload(Arr(F, 8, 0)); uint32_t v[2] = { w.var(s, F), w.var(s, F) }; drop(jit_var_scatter_packet(2, t.id(), v, w.var(s, U), w.var(s, F), ReduceOp::Identity, ReduceMode::Auto)); } },
        { "scatter_inc: types", [](Src &s, const World &w) { Var t = upload(Arr(s.flip() ? F : U, 8, 0)); uint32_t id = t.id(); bool fl = jit_var_type(id) == F; drop(jit_var_scatter_inc(&id, w.var(s, fl ? U : s.pick<VarType>({ F, VarType::UInt64 })), w.var(s, B))); } },
        { "scatter_exch: types", [](Src &s, const World &w) { VarType ty = s.pick<VarType>({ U, F }); Var t = upload(Arr(ty, 8, 0)); uint32_t id = t.id(); if (s.flip()) drop(jit_var_scatter_exch(&id, w.other(s, ty), w.var(s, U), w.var(s, B))); else drop(jit_var_scatter_exch(&id, w.var(s, ty), w.other(s, U), w.var(s, B))); } },
        { "scatter_exch: sizes", [](Src &s, const World &w) { Var t = upload(Arr(U, 8, 0)); uint32_t id = t.id(); drop(jit_var_scatter_exch(&id, w.var(s, U), w.var(s, U, w.m), w.var(s, B))); } },
        { "scatter_cas: types", [](Src &s, const World &w) { Var t = upload(Arr(F, 8, 0)); uint32_t id = t.id(), a = 0, b = 0; uint32_t q[3] = { w.var(s, F), w.var(s, F), w.var(s, U) }; size_t k = s.below(3); q[k] = w.other(s, k == 2 ? U : F); jit_var_scatter_cas(&id, q[0], q[1], q[2], w.var(s, B), &a, &b); } },
        { "scatter_cas: sizes", [](Src &s, const World &w) { Var t = upload(Arr(F, 8, 0)); uint32_t id = t.id(), a = 0, b = 0; jit_var_scatter_cas(&id, w.var(s, F), w.var(s, F), w.var(s, U), w.var(s, B, w.m), &a, &b); } },
        // Element access, sizes
        { "read: out of bounds", [](Src &s, const World &w) { uint8_t b[8]; jit_var_read(w.var(s, any_type(s)), w.n + s.below(100), b); } },
        { "write: out of bounds", [](Src &s, const World &w) { uint64_t b = 1; drop(jit_var_write(w.var(s, any_type(s)), w.n + s.below(100), &b)); } },
        { "shrink: larger", [](Src &s, const World &w) { drop(jit_var_shrink(w.var(s, any_type(s)), w.n + 1 + s.below(100))); } },
        { "resize: not scalar", [](Src &s, const World &w) { drop(jit_var_resize(w.pick(s, [&](auto &e) { return e.a.size() == w.n && jit_var_state(e.v.id()) != VarState::Literal; }).v.id(), w.n + 1)); } },
        { "label", [](Src &s, const World &w) { std::string l = s.flip() ? "a\nb" : "a/b"; Var v = borrow(w.var(s, any_type(s))); uint32_t id = jit_var_set_label(v.id(), 1, l.c_str()); drop(id); } },
        // Masks and reductions
        { "mask_apply: type", [](Src &s, const World &w) { drop(jit_var_mask_apply(w.other(s, B), (uint32_t) w.n)); } },
        { "mask_pop: underflow", [](Src &, const World &) { jit_var_mask_pop(BE); } },
        { "any/all: type", [](Src &s, const World &w) { uint32_t v = w.other(s, B); if (s.flip()) jit_var_any(v); else jit_var_all(v); } },
        { "compress: type", [](Src &s, const World &w) { drop(jit_var_compress(w.other(s, B))); } },
        { "reduce: operation", [](Src &s, const World &w) { drop(jit_var_reduce(BE, F, s.pick<ReduceOp>({ ReduceOp::And, ReduceOp::Or }), w.var(s, F))); } },
        { "reduce: type", [](Src &s, const World &w) { drop(jit_var_reduce(BE, F, ReduceOp::Add, w.other(s, F))); } },
        { "block_reduce: block size 0", [](Src &s, const World &w) { drop(jit_var_block_reduce(ReduceOp::Add, w.var(s, F), 0, -1)); } },
        { "block_reduce: strategy", [](Src &s, const World &w) { drop(jit_var_block_reduce(ReduceOp::Add, w.var(s, F), (uint32_t) w.n, 5)); } },
        { "reduce_dot: operands", [](Src &s, const World &w) { switch (s.below(3)) { case 0: drop(jit_var_reduce_dot(w.var(s, F), w.other(s, F))); break; case 1: drop(jit_var_reduce_dot(w.var(s, F), w.var(s, F, w.m))); break; default: drop(jit_var_reduce_dot(w.var(s, F), 0)); } } },
        { "gemm: operands", [](Src &s, const World &w) { GemmBatch b {}; switch (s.below(2)) { case 0: drop(jit_var_batched_gemm(w.var(s, F), 0, 0, 0, 1, 1, 1, &b)); break; default: drop(jit_var_batched_gemm(w.var(s, F), w.other(s, F), 0, 0, 1, 1, 1, &b)); } } },
        // Local arrays
        { "array: length", [](Src &s, const World &) { drop(jit_array_create(BE, F, 1, 65536 + s.below(5))); } },
        { "array_init: operands", [](Src &s, const World &w) { Var a = steal(jit_array_create(BE, F, s.flip() ? w.m : 1, 4)); drop(jit_var_size(a.id()) == 1 ? jit_array_init(a.id(), w.other(s, F)) : jit_array_init(a.id(), w.var(s, F))); } },
        { "array_init: target", [](Src &s, const World &w) { drop(jit_array_init(w.var(s, F), w.var(s, F))); } },
        { "array_read: operands", [](Src &s, const World &w) {
            Var a = steal(jit_array_create(BE, F, 1, 4)); a = steal(jit_array_init(a.id(), w.var(s, F)));
            switch (s.below(5)) { case 0: drop(jit_array_read(a.id(), H(jit_var_u32(BE, 4 + (uint32_t) s.below(9))), H(tru()))); break;
                case 1: drop(jit_array_read(a.id(), w.other(s, U), H(tru()))); break;
                case 2: drop(jit_array_read(a.id(), w.var(s, U), w.other(s, B))); break;
                case 3: drop(jit_array_read(a.id(), w.var(s, U, w.m), w.var(s, B))); break;
                default: drop(jit_array_read(w.var(s, F), w.var(s, U), H(tru()))); } } },
        { "array_write: operands", [](Src &s, const World &w) {
            Var a = steal(jit_array_create(BE, F, 1, 4)); a = steal(jit_array_init(a.id(), w.var(s, F)));
            switch (s.below(6)) { case 0: drop(jit_array_write(a.id(), H(jit_var_u32(BE, 4 + (uint32_t) s.below(9))), w.var(s, F), H(tru()))); break;
                case 1: drop(jit_array_write(a.id(), w.other(s, U), w.var(s, F), H(tru()))); break;
                case 2: drop(jit_array_write(a.id(), w.var(s, U), w.var(s, F), w.other(s, B))); break;
                case 3: drop(jit_array_write(a.id(), w.var(s, U, w.m), w.var(s, F), w.var(s, B))); break;
                case 4: drop(jit_array_write(a.id(), w.var(s, U), w.other(s, F), H(tru()))); break;
                default: drop(jit_array_write(a.id(), w.var(s, U), a.id(), H(tru()))); } } },
        { "arithmetic on local arrays", [](Src &s, const World &w) { Var a = steal(jit_array_create(BE, F, 1, 4)); a = steal(jit_array_init(a.id(), w.var(s, F))); do_op(JitOp::Add, { a.id(), s.flip() ? a.id() : w.var(s, F) }); } },
        // Symbolic operations
        { "loop: no state", [](Src &, const World &) { uint32_t x = 0; drop(jit_var_loop_start("bad", 0, 0, &x)); } },
        { "loop: uninitialized state", [](Src &s, const World &w) { uint32_t x[3] = { w.var(s, F), w.var(s, U), w.var(s, B) }; x[s.below(3)] = 0; drop(jit_var_loop_start("bad", 0, 3, x)); } },
        { "loop: condition, result", [](Src &s, const World &w) {
            struct Rec { uint32_t c = jit_record_begin(BE, "bad"); ~Rec() { jit_record_end(BE, c, true); } } rec;
            uint32_t ix[2] = { w.var(s, U), w.var(s, F) };
            Var lp = steal(jit_var_loop_start("bad", 0, 2, ix)), a = steal(ix[0]), b = steal(ix[1]);
            uint32_t kind = (uint32_t) s.below(4);
            Var c = kind == 0 ? jit_op(JitOp::Add, { a, a }) : steal(jit_var_lt(a.id(), H(jit_var_u32(BE, 5))));
            Var lc = steal(jit_var_loop_cond(lp.id(), c.id()));
            Var a2 = jit_op(JitOp::Add, { a, u32(1) }), b2 = jit_op(JitOp::Add, { b, b });
            ix[0] = a2.id(); ix[1] = b2.id();
            if (kind == 1) ix[s.below(2)] = 0;
            if (kind == 2) ix[1] = w.var(s, F, w.m);
            if (kind == 3) ix[1] = w.other(s, F); // changes its type
            int rv = jit_var_loop_end(lp.id(), lc.id(), ix, rec.c);
            drop(ix[0]); drop(ix[1]);
            if (rv == 0) throw std::runtime_error("(loop is recorded again)"); // fine: abandon the recording
            if (kind != 0) fail("an invalid loop was accepted");
        } },
        { "conditional: results", [](Src &s, const World &w) {
            struct Rec { uint32_t c = jit_record_begin(BE, "bad"); ~Rec() { jit_record_end(BE, c, true); } } rec;
            Var t = borrow(w.var(s, B)), f = jit_op(JitOp::Not, { t });
            Var h = steal(jit_var_cond_start("bad", 0, t.id(), f.id()));
            Var x = borrow(w.var(s, F)), y = jit_op(JitOp::Add, { x, x }), z = jit_op(JitOp::Mul, { x, x });
            uint32_t rv[3] = { x.id(), y.id(), z.id() }, k = (uint32_t) s.below(3);
            // side effects in the true branch
            Var tg = upload(Arr(F, w.n, 0));
            if (s.flip()) tg = steal(jit_var_scatter(tg.id(), x.id(), H(jit_var_counter(BE, w.n)), t.id(), ReduceOp::Add, ReduceMode::Auto));
            Var e1 = steal(jit_var_cond_append(h.id(), rv, 3));
            rv[0] = y.id();
            if (k == 1) rv[1 + s.below(2)] = 0;
            if (k == 2) rv[1 + s.below(2)] = w.var(s, F, w.m);
            Var e2 = steal(jit_var_cond_append(h.id(), rv, k == 0 ? 2 : 3));
            uint32_t out[3];
            jit_var_cond_end(h.id(), out);
            for (uint32_t o : out) drop(o);
        } },
        { "conditional: side effect size", [](Src &s, const World &w) {
            struct Rec { uint32_t c = jit_record_begin(BE, "bad"); ~Rec() { jit_record_end(BE, c, true); } } rec;
            Var t = borrow(w.var(s, B)), f = jit_op(JitOp::Not, { t });
            Var h = steal(jit_var_cond_start("bad", 0, t.id(), f.id()));
            Var x = borrow(w.var(s, F)), y = jit_op(JitOp::Add, { x, x });
            uint32_t rv[1] = { x.id() };
            size_t good = s.below(3);
            std::vector<Var> tg;
            for (size_t i = 0; i < 4; ++i) {
                size_t sz = i < good || i == 3 ? w.n : w.m;
                Var q = upload(Arr(F, sz, 0));
                tg.push_back(steal(jit_var_scatter(q.id(), w.var(s, F, sz), H(jit_var_counter(BE, sz)), H(tru()), ReduceOp::Add, ReduceMode::Auto)));
            }
            Var e1 = steal(jit_var_cond_append(h.id(), rv, 1));
            rv[0] = y.id();
            Var e2 = steal(jit_var_cond_append(h.id(), rv, 1));
            uint32_t out[1];
            jit_var_cond_end(h.id(), out);
            drop(out[0]);
        } },
        { "call: arguments", [](Src &s, const World &w) {
            struct Rec { uint32_t c = jit_record_begin(BE, "bad"); ~Rec() { jit_record_end(BE, c, true); } } rec;
            struct Scope { uint32_t v, i; Scope() { jit_var_self(BE, &v, &i); jit_var_inc_ref(i); } ~Scope() { jit_var_set_self(BE, v, i); jit_var_dec_ref(i); } } sc;
            uint32_t k = (uint32_t) s.below(9);
            jit_new_scope(BE);
            uint32_t scope = jit_new_scope(BE);
            Var in = steal(jit_var_call_input(w.var(s, F)));
            Var m0 = steal(jit_var_call_mask(BE));
            uint32_t cp[3];
            std::vector<Var> o;
            Var tg = upload(Arr(F, 5, 0));
            bool se = s.flip();
            jit_var_mask_push(BE, m0.id());
            try {
                for (uint32_t i = 0; i < 2; ++i) {
                    jit_set_scope(BE, scope);
                    cp[i] = jit_record_checkpoint(BE);
                    jit_var_set_self(BE, i + 1, 0);
                    o.push_back(jit_op(JitOp::Add, { in, in }));
                    if (se) tg = steal(jit_var_scatter(tg.id(), o.back().id(), H(jit_var_u32(BE, 3)), H(tru()), ReduceOp::Add, ReduceMode::Auto));
                }
                jit_set_scope(BE, scope);
                cp[2] = jit_record_checkpoint(BE);
            } catch (...) { jit_var_mask_pop(BE); throw; }
            jit_var_mask_pop(BE);
            jit_new_scope(BE);
            uint32_t inst[2] = { 1, 2 }, ii[1] = { in.id() }, oo[3] = { o[0].id(), o[1].id(), o[1].id() }, out[2];
            uint32_t self = w.var(s, U), mask = w.var(s, B), n_inst = 2, n_out = 2;
            Var tmp;
            switch (k) {
                case 0: n_inst = 0; break;
                case 1: n_out = 3; break;
                case 2: self = w.other(s, U); break;
                case 3: mask = w.other(s, B); break;
                case 4: ii[0] = w.pick(s, [&](auto &e) { return jit_var_state(e.v.id()) != VarState::Literal; }).v.id(); break;
                case 5: tmp = steal(jit_var_u32(BE, 1)); oo[1] = tmp.id(); break;
                case 6: oo[s.below(2)] = w.var(s, F); break;
                case 7: cp[2]++; break;
                default: tmp = steal(jit_var_call_input(w.var(s, F, w.m))); self = w.var(s, U, w.n); ii[0] = tmp.id(); break;
            }
            jit_var_call("bad", 0, self, mask, n_inst, 2, inst, 1, ii, n_out, oo, cp, out);
            for (uint32_t i = 0; i < n_out / 2; ++i) drop(out[i]);
        } },
        { "call: captures a large array", [](Src &s, const World &w) {
            struct Rec { uint32_t c = jit_record_begin(BE, "bad"); ~Rec() { jit_record_end(BE, c, true); } } rec;
            struct Scope { uint32_t v, i; Scope() { jit_var_self(BE, &v, &i); jit_var_inc_ref(i); } ~Scope() { jit_var_set_self(BE, v, i); jit_var_dec_ref(i); } } sc;
            jit_new_scope(BE);
            uint32_t scope = jit_new_scope(BE);
            Var in = steal(jit_var_call_input(w.var(s, F))), big = upload(Arr(F, w.n, 0));
            Var m0 = steal(jit_var_call_mask(BE));
            uint32_t cp[3];
            std::vector<Var> o;
            jit_var_mask_push(BE, m0.id());
            for (uint32_t i = 0; i < 2; ++i) {
                jit_set_scope(BE, scope);
                cp[i] = jit_record_checkpoint(BE);
                jit_var_set_self(BE, i + 1, 0);
                o.push_back(jit_op(JitOp::Add, { in, i == 1 ? big : in }));
            }
            jit_set_scope(BE, scope);
            cp[2] = jit_record_checkpoint(BE);
            jit_var_mask_pop(BE);
            jit_new_scope(BE);
            uint32_t inst[2] = { 1, 2 }, ii[1] = { in.id() }, oo[2] = { o[0].id(), o[1].id() }, out[1];
            jit_var_call("bad", 0, w.var(s, U), w.var(s, B), 2, 2, inst, 1, ii, 2, oo, cp, out);
            Var r = steal(out[0]);
            jit_var_eval(r.id());
        } },
        { "evaluation of a symbolic variable", [](Src &s, const World &w) {
            struct Rec { uint32_t c = jit_record_begin(BE, "bad"); ~Rec() { jit_record_end(BE, c, true); } } rec;
            uint32_t ix[1] = { w.var(s, U) };
            Var lp = steal(jit_var_loop_start("bad", 0, 1, ix)), a = steal(ix[0]);
            Var b = jit_op(JitOp::Add, { a, w.pick(s, [&](auto &e) { return e.a.t == U && e.a.size() == w.n; }).v });
            Var c = steal(jit_var_lt(b.id(), a.id()));
            switch (s.below(11)) { case 0: jit_var_eval(b.id()); break;
                case 5: drop(jit_var_any_async(BE, c.id())); break;
                case 6: drop(jit_var_all_async(BE, c.id())); break;
                case 7: if (s.flip()) jit_var_any(c.id()); else jit_var_all(c.id()); break;
                case 8: drop(jit_var_reduce(BE, U, s.pick<ReduceOp>({ ReduceOp::Add, ReduceOp::Max }), b.id())); break;
                case 9: drop(jit_var_compress(c.id())); break;
                case 10: drop(jit_var_block_prefix_reduce(ReduceOp::Add, b.id(), (uint32_t) w.n, 1, 0)); break;
                case 1: { uint8_t q[8]; jit_var_read(b.id(), 0, q); break; } case 2: jit_var_schedule(b.id()); break;
                case 3: { void *p; drop(jit_var_data(b.id(), &p)); break; } default: drop(jit_var_gather(b.id(), w.var(s, U), w.var(s, B))); }
        } },
        { "use of an array that was modified within a recording", [](Src &s, const World &w) {
            struct Rec { uint32_t c = jit_record_begin(BE, "bad"); ~Rec() { jit_record_end(BE, c, true); } } rec;
            uint32_t ix[1] = { w.var(s, U) };
            VarType ty = s.pick<VarType>({ U, F });
            Var t = upload(Arr(ty, w.n, 3));
            Var lp = steal(jit_var_loop_start("bad", 0, 1, ix)), a = steal(ix[0]);
            Var m = jit_op(JitOp::Mod, { a, literal(U, w.n) });
            t = steal(jit_var_scatter(t.id(), literal(ty, 1).id(), m.id(), H(tru()), ReduceOp::Add, ReduceMode::Direct));
            Var x = ty == U ? a : steal(jit_var_cast(a.id(), F, 0)), y = jit_op(JitOp::Add, { x, x }), c = jit_op(JitOp::Lt, { x, y });
            uint32_t k = (uint32_t) s.below(7), d[3] = { x.id(), y.id(), x.id() };
            switch (k) {
                case 0: case 1: d[k] = t.id(); drop(jit_var_op(JitOp::Add, d)); break;
                case 2: case 3: case 4: d[k - 2] = t.id(); drop(jit_var_op(JitOp::Fma, d)); break;
                default: d[k - 4] = t.id(); d[0] = c.id(); drop(jit_var_op(JitOp::Select, d)); break;
            }
        } },
        { "use of a symbolic variable after its recording", [](Src &s, const World &w) {
            Var b;
            {
                struct Rec { uint32_t c = jit_record_begin(BE, "bad"); ~Rec() { jit_record_end(BE, c, true); } } rec;
                uint32_t ix[1] = { w.var(s, U) };
                Var lp = steal(jit_var_loop_start("bad", 0, 1, ix)), a = steal(ix[0]);
                b = jit_op(JitOp::Add, { a, a });
            }
            switch (s.below(3)) { case 0: jit_var_eval(b.id()); break; case 1: { Var t = upload(Arr(U, w.n, 0)); drop(jit_var_scatter(t.id(), b.id(), b.id(), w.var(s, B), ReduceOp::Identity, ReduceMode::Auto)); break; }
                default: { Var t = upload(Arr(U, w.n, 0)); drop(jit_var_gather(t.id(), b.id(), w.var(s, B))); } }
        } },
        { "second evaluation of an atomic operation", [](Src &s, const World &w) {
            Var t = upload(Arr(U, 8, 0)), i = jit_op(JitOp::Mod, { steal(jit_var_counter(BE, w.n)), u32(8) });
            uint32_t id = t.release();
            Var r = steal(jit_var_scatter_inc(&id, i.id(), H(tru())));
            t = steal(id);
            jit_var_eval(t.id()); // performs the increments
            if (s.flip()) jit_var_eval(r.id());
            else drop(jit_var_add(r.id(), r.id()));
        } },
        { "whole-program queries", [](Src &s, const World &) { if (s.flip()) jit_has_backend((JitBackend) 77); else drop(jit_var_mask_peek((JitBackend) 77)); } },
    };
    return r;
}

struct Snapshot {
    std::vector<uint32_t> ref; size_t live; uint32_t flags; uint64_t mask;
    Snapshot(const World &w) : live(live_vars()), flags(jit_flags()) {
        for (auto &e : w.vars) ref.push_back(jit_var_ref(e.v.id()));
        Var m = steal(jit_var_mask_peek(BE));
        mask = m.id();
    }
};
/// Issues one invalid request
void request(Src &s, const World &w, bool settled, std::string &name) {
    const Request &r = requests()[s.below(requests().size())];
    name = r.name;
    g_src = &s;
    s.note("%s\n", r.name);
    Snapshot before(w);
    std::string msg;
    std::string fl;
    bool rs = false;
    if (getenv("VT_AUDIT")) {
        try { rs = raises([&] { r.fn(s, w); }, &msg); } catch (const vt::Fail &f) { fl = f.msg; }
        FILE *f = fopen("/tmp/audit", "a"); fprintf(f, "%s|%s|%s|%s\n", r.name, rs ? "raised" : "accepted", msg.substr(0, 150).c_str(), fl.c_str()); fclose(f);
        return;
    }
    if (!raises([&] { r.fn(s, w); }, &msg)) fail("the request didn't raise an exception: %s", r.name);
    s.note("  -> %s\n", msg.substr(0, 120).c_str());
    if (msg.empty()) fail("%s: the exception has no message", r.name);
    Snapshot after(w);
    for (size_t i = 0; i < w.vars.size(); ++i)
        if (after.ref[i] > before.ref[i] || (settled && after.ref[i] < before.ref[i]))
            fail("%s: reference count of r%u changed from %u to %u", r.name, w.vars[i].v.id(), before.ref[i], after.ref[i]);
    if (settled ? after.live != before.live : after.live > before.live) fail("%s: there were %zu variables before and %zu after the failed request\n%s", r.name, before.live, after.live, jit_var_whos());
    if (after.flags != before.flags) fail("%s: changed the flags", r.name);
    if (after.mask != before.mask) fail("%s: changed the mask stack", r.name);
}
/// A valid computation
void valid(Src &s, const World &w) {
    const Entry &x = w.pick(s, [&](auto &e) { return e.a.t == U && e.a.size() == w.n; });
    Var y = jit_op(JitOp::Add, { x.v, steal(jit_var_counter(BE, w.n)) });
    Arr want = x.a;
    for (size_t i = 0; i < w.n; ++i) want.v[i] = (want.v[i] + i) & 0xffffffffu;
    // .. in a loop
    if (s.flip()) {
        Var z;
        {
            struct Rec { uint32_t c = jit_record_begin(BE, "ok"); ~Rec() { jit_record_end(BE, c, cleanup); } bool cleanup = true; } rec;
            Var c0 = steal(jit_var_u32(BE, 0));
            uint32_t ix[2] = { c0.id(), y.id() };
            Var lp = steal(jit_var_loop_start("ok", 0, 2, ix)), a = steal(ix[0]), b = steal(ix[1]);
            int rv;
            do {
                Var c = steal(jit_var_lt(a.id(), H(jit_var_u32(BE, 3)))), lc = steal(jit_var_loop_cond(lp.id(), c.id()));
                a = jit_op(JitOp::Add, { a, u32(1) }); b = jit_op(JitOp::Add, { b, u32(2) });
                ix[0] = a.id(); ix[1] = b.id();
                rv = jit_var_loop_end(lp.id(), lc.id(), ix, rec.c);
                a = steal(ix[0]); b = steal(ix[1]);
            } while (!rv);
            rec.cleanup = false;
            z = b;
        }
        for (auto &v : want.v) v = (v + 6) & 0xffffffffu;
        y = z;
    }
    expect(y, want, "a valid operation after the failed request");
}
void invalid(Src &s) {
    World w = gen_world(s);
    bool settled = s.flip();
    if (settled) { for (auto &e : w.vars) jit_var_schedule(e.v.id()); jit_eval(); for (auto &e : w.vars) jit_var_eval(e.v.id()); }
    size_t k = 1 + s.below(4);
    std::string name;
    for (size_t i = 0; i < k; ++i) {
        request(s, w, settled, name);
        if (s.flip() && !getenv("VT_AUDIT")) valid(s, w);
    }
    if (getenv("VT_AUDIT")) return;
    valid(s, w);
    for (auto &e : w.vars) expect(e.v, e.a, strf("operand after '%s'", name.c_str()).c_str());
    s.tag("invalid requests", k);
    s.nontrivial();
}

// ---- Exceptions in recorded functions ---------------------------------------------
struct Interrupt : std::runtime_error { Interrupt() : std::runtime_error("interrupted") { } };
thread_local uint64_t t_steps = 0, t_stop = 0;
void step() { if (++t_steps == t_stop) throw Interrupt(); }
void check_targets(const Prog &p, Session &x, const Model &m, const char *what) {
    Session y;
    y.targets = x.targets;
    Prog q = p;
    q.outputs.clear();
    compare(q, y, m, what);
}
Prog gen(Src &s, const Config &cfg) {
    Gen g;
    g.loops = 3; g.ifs = 3; g.calls = 2; g.side = 4; g.arrays = 1; g.stmts = 3 + (uint32_t) s.below(6); g.depth = 1 + (uint32_t) s.below(3);
    Prog p = gen_program(s, g);
    s.note("%s", p.str().c_str());
    if (p.nested_side && !(cfg.flags & (uint32_t) JitFlag::OptimizeLoops)) { // known finding of P09
        Config d = cfg; d.flags |= (uint32_t) JitFlag::OptimizeLoops; apply_config(d);
    }
    return p;
}

/// The state after the statements that completed
void check_partial(Prog p, Session &y, size_t done, const char *what) {
    p.main.resize(done);
    p.outputs.clear();
    y.outputs.clear();
    compare(p, y, interpret(p), what);
}
void interrupted(Src &s, const Config &cfg) {
    Prog p = gen(s, cfg);
    // Count the steps
    g_step = step;
    struct Off { ~Off() { g_step = nullptr; } } off;
    t_steps = 0; t_stop = 0;
    Model m = interpret(p);
    {
        Session x;
        make_inputs(s, p, x);
        execute(p, x);
        compare(p, x, m, "uninterrupted run");
    }
    uint64_t total = t_steps;
    size_t runs = 1 + s.below(3);
    for (size_t k = 0; k < runs; ++k) {
        size_t live = live_vars();
        Session y;
        make_inputs(s, p, y);
        uint32_t flags = jit_flags();
        Var m0 = steal(jit_var_mask_peek(BE));
        uint32_t mask = m0.id();
        m0.reset();
        t_steps = 0; t_stop = 1 + s.below(total);
        uint64_t stop = t_stop;
        ExecOpts o;
        size_t done = 0;
        o.done = &done;
        if (s.chance(1, 3)) { o.cuts = s.bits() & s.bits(); o.cut_kind = s.bits(); }
        bool thrown = false;
        try { execute(p, y, o); } catch (const Interrupt &) { thrown = true; }
        t_stop = 0;
        s.note("interrupted at step %lu of %lu, %zu statements completed", (unsigned long) stop, (unsigned long) total, done);
        if (!thrown) fail("harness: not interrupted");
        s.tag("interrupted recordings");
        if (jit_flags() != flags) fail("the flags changed");
        m0 = steal(jit_var_mask_peek(BE));
        if (m0.id() != mask && mask) fail("the mask stack changed");
        m0.reset();
        check_partial(p, y, done, "after an interrupted recording");
        // (pending side effects were performed)
        y = Session();
        size_t now = live_vars();
        if (now != live) fail("there are %zu variables instead of %zu after an interrupted recording\n%s", now, live, jit_var_whos());
    }
    Session x;
    make_inputs(s, p, x);
    execute(p, x);
    compare(p, x, m, "complete run after interrupted ones");
    if (p.n_loop + p.n_if + p.n_call) s.nontrivial();
}

// ---- Allocation failures -------------------------------------------------------------
struct Arm {
    Arm(long n) { jit_sync_thread(); jit_flush_malloc_cache(); g_alloc_failed = 0; g_alloc_left = n; }
    ~Arm() { g_alloc_left = -1; }
};
void no_memory(Src &s, const Config &cfg) {
    Prog p = gen(s, cfg);
    Model m = interpret(p);
    uint64_t total;
    {
        Session x;
        make_inputs(s, p, x);
        jit_sync_thread(); jit_flush_malloc_cache();
        uint64_t before = g_alloc_seen;
        execute(p, x);
        for (size_t k = 0; k < x.outputs.size(); ++k) if (!p.regs[p.outputs[k]].len) jit_var_schedule(x.outputs[k].id());
        jit_eval();
        total = g_alloc_seen - before;
        compare(p, x, m, "first run");
    }
    if (!total) return;
    size_t runs = 1 + s.below(3);
    for (size_t k = 0; k < runs; ++k) {
        Session y;
        make_inputs(s, p, y);
        size_t live = live_vars(), done = 0;
        ExecOpts o;
        o.done = &done;
        if (s.chance(1, 4)) { o.cuts = s.bits() & s.bits(); o.cut_kind = s.bits(); }
        bool thrown = false;
        bool traced = false;
        long left = (long) s.below(total);
        std::string msg;
        {
            Arm a(left);
            try {
                execute(p, y, o);
                traced = true;
                for (size_t k = 0; k < y.outputs.size(); ++k) if (!p.regs[p.outputs[k]].len) jit_var_schedule(y.outputs[k].id());
                jit_eval();
            } catch (const vt::Fail &) { throw; } catch (const std::exception &e) { thrown = true; msg = e.what(); }
        }
        s.note("allocation %ld of %lu fails%s -> %s", left, (unsigned long) total, traced ? " (evaluation)" : "", thrown ? msg.substr(0, 100).c_str() : "-");
        if (g_alloc_failed && !thrown) fail("an allocation failed, but there was no exception");
        if (!thrown) { compare(p, y, m, "run without failing allocations"); continue; }
        s.tag(traced ? "failed evaluations" : "failures while tracing");
        // The system is usable: a run on other variables
        if (s.flip()) {
            Session x;
            make_inputs(s, p, x);
            execute(p, x);
            compare(p, x, m, "complete run after an allocation failure");
        }
        // Inputs are intact
        for (size_t i = 0; i < p.inputs.size(); ++i) {
            Arr w = fetch(y.inputs[i]);
            for (size_t j = 0; j < p.n; ++j) if (!same(w.t, w.at(j), p.inputs[i].a.at(j))) fail("input %zu changed", i);
        }
        for (size_t i = 0; i < y.buffers.size(); ++i) expect(y.buffers[i], p.buffers[i], "buffer after an allocation failure");
        for (size_t i = 0; i < y.scalars.size(); ++i) expect(y.scalars[i], p.scalars[i], "scalar after an allocation failure");
        if (traced && !p.n_side) compare(p, y, m, "evaluation that is repeated after an allocation failure");
        y.outputs.clear();
        for (auto &t : y.targets) jit_var_eval(t.id());
        size_t now = live_vars();
        if (now > live) fail("there are %zu variables instead of %zu after an allocation failure\n%s", now, live, jit_var_whos());
    }
    Session x;
    make_inputs(s, p, x);
    execute(p, x);
    compare(p, x, m, "complete run after allocation failures");
    if (total > 1) s.nontrivial();
}

uint64_t g_base = 0;
void run(Src &s) {
    Config cfg = gen_config(s);
    apply_config(cfg);
    g_threads = cfg.threads;
    s.note("%s", cfg.str().c_str());
    size_t base = live_bytes();
    uint64_t what = s.below(5);
    if (const char *e = getenv("VT_MODE")) what = (uint64_t) atoi(e);
    switch (what) {
        case 0: case 1: s.tag("invalid-request histories"); invalid(s); break;
        case 2: case 3: s.tag("interrupted programs"); interrupted(s, cfg); break;
        default: s.tag("allocation failure programs"); no_memory(s, cfg);
    }
    size_t now = live_bytes();
    if (getenv("VT_AUDIT")) return;
    if (now > base) fail("%zu bytes of device memory are in use after the case, %zu before", now, base);
    end_case();
}
} // namespace
vt::Property vt::make_property() {
    Property p;
    p.id = "P27";
    p.rule = "One of: (1) 1-4 of about 70 invalid requests (with random operands, types and sizes, half of them with pending side effects) issued between valid operations on a pool of variables; each must raise an exception, leave all "
             "reference counts, the number of variables, flags, the mask stack and contents unchanged; (2) random programs with nested loops, conditionals and calls that are interrupted by an exception while tracing statement k: "
             "side effects of completed statements take place, those of the interrupted one do not, nothing leaks; (3) random programs in which the k-th memory allocation fails: exception, inputs intact, repeated evaluation "
             "correct, nothing leaks. A complete run afterwards equals the reference interpreter. Non-trivial: always for (1), symbolic operations for (2), more than one allocation for (3).";
    p.setup = [] { init_process(); };
    p.run = run;
    p.hang_s = 30;
    return p;
}
