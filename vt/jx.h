// Shared harness layer: array model, scalar reference semantics, generators,
// RAII handles and session setup on top of the public C API of drjit-core.
#pragma once
#include "vt.h"
#include <drjit-core/jit.h>
#include <nanothread/nanothread.h>
#include <cmath>
#include <map>
#include <set>
#include <memory>
#include <limits>
#include <type_traits>

namespace jx {
using vt::Src; using vt::fail; using vt::strf; using vt::thorough;
using h16 = _Float16;
constexpr JitBackend BE = JitBackend::LLVM;

// ---- Types ---------------------------------------------------------------
inline bool is_float(VarType t) { return t >= VarType::Float16 && t <= VarType::Float64; }
inline bool is_bool(VarType t) { return t == VarType::Bool; }
inline bool is_int(VarType t) { return t >= VarType::Int8 && t <= VarType::UInt64; }
inline bool is_signed(VarType t) {
    return t == VarType::Int8 || t == VarType::Int16 || t == VarType::Int32 || t == VarType::Int64 || is_float(t);
}
inline uint32_t tsize(VarType t) {
    switch (t) {
        case VarType::Bool: case VarType::Int8: case VarType::UInt8: return 1;
        case VarType::Int16: case VarType::UInt16: case VarType::Float16: return 2;
        case VarType::Int32: case VarType::UInt32: case VarType::Float32: return 4;
        default: return 8;
    }
}
inline const char *tname(VarType t) {
    static const char *n[] = { "void", "bool", "int?", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "ptr", "float?", "f16", "f32", "f64" };
    return n[(int) t];
}
inline const std::vector<VarType> &all_types() {
    static std::vector<VarType> v{ VarType::UInt32, VarType::Float32, VarType::Int32, VarType::Bool, VarType::Float64,
        VarType::Float16, VarType::UInt64, VarType::Int64, VarType::UInt8, VarType::Int8, VarType::UInt16, VarType::Int16 };
    return v;
}
inline const std::vector<VarType> &arith_types() {
    static std::vector<VarType> v{ VarType::UInt32, VarType::Float32, VarType::Int32, VarType::Float64,
        VarType::Float16, VarType::UInt64, VarType::Int64, VarType::UInt8, VarType::Int8, VarType::UInt16, VarType::Int16 };
    return v;
}
inline const std::vector<VarType> &int_types() {
    static std::vector<VarType> v{ VarType::UInt32, VarType::Int32, VarType::UInt64, VarType::Int64, VarType::UInt8, VarType::Int8, VarType::UInt16, VarType::Int16 };
    return v;
}
inline const std::vector<VarType> &float_types() {
    static std::vector<VarType> v{ VarType::Float32, VarType::Float64, VarType::Float16 };
    return v;
}

template <typename F> auto dispatch(VarType t, F &&f) {
    switch (t) {
        case VarType::Bool: return f(bool());
        case VarType::Int8: return f(int8_t());
        case VarType::UInt8: return f(uint8_t());
        case VarType::Int16: return f(int16_t());
        case VarType::UInt16: return f(uint16_t());
        case VarType::Int32: return f(int32_t());
        case VarType::UInt32: return f(uint32_t());
        case VarType::Int64: return f(int64_t());
        case VarType::UInt64: return f(uint64_t());
        case VarType::Float16: return f(h16());
        case VarType::Float32: return f(float());
        default: return f(double());
    }
}
template <typename T> T ld(uint64_t v) { T r; memcpy(&r, &v, sizeof(T)); return r; }
template <> inline bool ld<bool>(uint64_t v) { return v != 0; }
template <typename T> uint64_t st(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof(T)); return r; }
template <typename T> constexpr bool isf = std::is_floating_point_v<T> || std::is_same_v<T, h16>;
template <typename T> constexpr bool isi = std::is_integral_v<T> && !std::is_same_v<T, bool>;

inline double to_d(VarType t, uint64_t v) { return dispatch(t, [&](auto x) { return (double) ld<decltype(x)>(v); }); }
inline uint64_t from_d(VarType t, double d) {
    return dispatch(t, [&](auto x) -> uint64_t { using T = decltype(x); return st<T>((T) d); });
}
inline uint64_t from_i(VarType t, int64_t i) {
    return dispatch(t, [&](auto x) -> uint64_t { using T = decltype(x); return st<T>((T) i); });
}
inline std::string vstr(VarType t, uint64_t v) {
    if (is_float(t)) return strf("%.17g(0x%lx)", to_d(t, v), (unsigned long) v);
    if (is_bool(t)) return v ? "1" : "0";
    if (is_signed(t)) return strf("%ld", (long) dispatch(t, [&](auto x) { return (int64_t) ld<decltype(x)>(v); }));
    return strf("%lu", (unsigned long) v);
}
inline bool fnan(VarType t, uint64_t v) { return is_float(t) && std::isnan(to_d(t, v)); }
inline bool fzero(VarType t, uint64_t v) { return is_float(t) && to_d(t, v) == 0; }

/// Bit-exact, except for NaN payloads and the sign of zero
inline bool same(VarType t, uint64_t a, uint64_t b) {
    if (a == b) return true;
    if (!is_float(t)) return false;
    double x = to_d(t, a), y = to_d(t, b);
    return x == y || (std::isnan(x) && std::isnan(y));
}
/// Distance of two floats in units in the last place
inline uint64_t ulps(VarType t, uint64_t a, uint64_t b) {
    if (same(t, a, b)) return 0;
    if (fnan(t, a) || fnan(t, b)) return UINT64_MAX;
    int bitsn = (int) tsize(t) * 8;
    auto key = [&](uint64_t v) { int64_t m = (int64_t) (v & ((1ull << (bitsn - 1)) - 1)); return (v >> (bitsn - 1)) & 1 ? -m : m; };
    int64_t d = key(a) - key(b);
    return (uint64_t) (d < 0 ? -d : d);
}

// ---- Array model ---------------------------------------------------------
struct Arr {
    VarType t = VarType::Void;
    std::vector<uint64_t> v;
    Arr() = default;
    Arr(VarType t, size_t n, uint64_t x = 0) : t(t), v(n, x) {}
    size_t size() const { return v.size(); }
    /// Broadcasting access
    uint64_t at(size_t i) const { return v.size() == 1 ? v[0] : v[i]; }
    bool uniform() const { for (uint64_t x : v) if (x != v[0]) return false; return true; }
    std::vector<uint8_t> bytes() const {
        uint32_t s = tsize(t);
        std::vector<uint8_t> b(v.size() * s + 1);
        for (size_t i = 0; i < v.size(); ++i) memcpy(&b[i * s], &v[i], s);
        return b;
    }
    std::string str(size_t max = 24) const {
        std::string s = strf("%s[%zu]{", tname(t), v.size());
        for (size_t i = 0; i < v.size() && i < max; ++i) s += (i ? ", " : "") + vstr(t, v[i]);
        return s + (v.size() > max ? ", ..}" : "}");
    }
};

// ---- Handles -------------------------------------------------------------
class Var {
public:
    Var() = default;
    Var(const Var &o) : m_i(o.m_i) { jit_var_inc_ref_impl(m_i); }
    Var(Var &&o) noexcept : m_i(o.m_i) { o.m_i = 0; }
    Var &operator=(const Var &o) { if (this != &o) { jit_var_inc_ref_impl(o.m_i); jit_var_dec_ref_impl(m_i); m_i = o.m_i; } return *this; }
    Var &operator=(Var &&o) noexcept { std::swap(m_i, o.m_i); return *this; }
    ~Var() { jit_var_dec_ref_impl(m_i); }
    static Var steal(uint32_t i) { Var v; v.m_i = i; return v; }
    static Var borrow(uint32_t i) { Var v; v.m_i = i; jit_var_inc_ref_impl(i); return v; }
    uint32_t release() { uint32_t i = m_i; m_i = 0; return i; }
    uint32_t id() const { return m_i; }
    uint32_t *ptr() { return &m_i; }
    void reset() { jit_var_dec_ref_impl(m_i); m_i = 0; }
    explicit operator bool() const { return m_i != 0; }
private:
    uint32_t m_i = 0;
};
inline Var steal(uint32_t i) { return Var::steal(i); }
inline Var borrow(uint32_t i) { return Var::borrow(i); }

inline Var literal(VarType t, uint64_t v, size_t size = 1, int eval = 0) { return steal(jit_var_literal(BE, t, &v, size, eval)); }
inline Var literal(const Arr &a, size_t size = 1) { return literal(a.t, a.v[0], size); }
inline Var upload(const Arr &a) {
    auto b = a.bytes();
    return steal(jit_var_mem_copy(BE, a.t, b.data(), a.size(), 1));
}
inline Var u32(uint32_t v) { return steal(jit_var_u32(BE, v)); }
inline Var boolean(bool v) { return steal(jit_var_bool(BE, v)); }
inline Var ctr(size_t n) { return steal(jit_var_counter(BE, n)); }

/// Contents of a variable (evaluates it)
inline Arr fetch(const Var &var) {
    Arr a;
    if (!var) { a.t = VarType::Void; return a; }
    a.t = jit_var_type(var.id());
    void *p = nullptr;
    Var d = steal(jit_var_data(var.id(), &p));
    jit_sync_thread();
    size_t n = jit_var_size(d.id());
    uint32_t s = tsize(a.t);
    a.v.resize(n);
    for (size_t i = 0; i < n; ++i) { uint64_t x = 0; memcpy(&x, (uint8_t *) p + i * s, s); a.v[i] = x; }
    return a;
}
inline void expect(const Var &var, const Arr &want, const char *what) {
    Arr got = fetch(var);
    if (got.t != want.t) fail("%s: type %s instead of %s", what, tname(got.t), tname(want.t));
    if (got.size() != want.size()) fail("%s: size %zu instead of %zu", what, got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        if (!same(want.t, got.v[i], want.v[i]))
            fail("%s: lane %zu is %s instead of %s\n got  %s\n want %s", what, i, vstr(want.t, got.v[i]).c_str(),
                 vstr(want.t, want.v[i]).c_str(), got.str(64).c_str(), want.str(64).c_str());
}

// ---- Scalar reference ----------------------------------------------------
const char *op_name(JitOp op);
uint32_t op_arity(JitOp op);
/// Is this operation defined for the operand type?
bool op_supports(JitOp op, VarType t);
VarType op_result(JitOp op, VarType t);
/// Evaluates 'op' on scalars of type 't'. Select: a[0] is a Boolean.
/// Returns false outside of the defined domain of the operation.
bool ref_op(JitOp op, VarType t, const uint64_t *a, uint64_t &out);
/// Conversion between types; false if the conversion is not defined
bool ref_cast(VarType from, VarType to, uint64_t v, uint64_t &out);
/// Reduction of two values
uint64_t ref_reduce(ReduceOp op, VarType t, uint64_t a, uint64_t b);
uint64_t ref_identity(ReduceOp op, VarType t);
const char *red_name(ReduceOp op);
/// Operands are not copied, so that this does not increase reference counts
struct Arg { uint32_t id; Arg(const Var &v) : id(v.id()) { } };
Var jit_op(JitOp op, const std::vector<Arg> &a);

// ---- Generators ----------------------------------------------------------
enum class Dist { Any, Small, Exact };
/// One value. Any: including special values. Small: magnitude below 16.
/// Exact: sums and products of few of them are exact in every type
uint64_t gen_value(Src &s, VarType t, Dist d = Dist::Any);
Arr gen_arr(Src &s, VarType t, size_t n, Dist d = Dist::Any);
Arr gen_mask(Src &s, size_t n);
Arr gen_index(Src &s, VarType t, size_t n, size_t bound);
enum Form { Memory, Literal, Scalar, Lazy, LiteralN, FormCount };
const char *form_name(Form f);
/// Create a JIT variable with these contents. Uniform forms take the first
/// entry and adapt 'a' to it (its size becomes 1, or stays n for LiteralN)
Var make(Src &s, Arr &a, Form f);
Form gen_form(Src &s);

// ---- Session -------------------------------------------------------------
struct Config {
    uint32_t width = 8, block = 0, threads = 4, flags = 0;
    int mode = 1; uint64_t sched = 1; uint32_t eager = 128;
    std::string str() const;
};
enum ConfigBits { CfgFlags = 1, CfgWidth = 2, CfgBlock = 4, CfgSched = 8, CfgThreads = 16, CfgAll = 31 };
Config gen_config(Src &s, uint32_t what = CfgAll);
void apply_config(const Config &c);
/// jit_init() etc.; once per process
void init_process();
/// Drop state between cases: expects that no variables are alive
void end_case(bool check_leaks = true);
/// Number of live JIT variables according to the library
size_t live_vars();
void shutdown_process();

/// Messages recorded through the log callback
extern std::string g_log;
/// Runs fn, returns true if it raised an exception (message in 'msg')
template <typename F> bool raises(F &&fn, std::string *msg = nullptr) {
    try { fn(); return false; } catch (const vt::Fail &) { throw; }
    catch (const std::exception &e) { if (msg) *msg = e.what(); return true; }
}
} // namespace jx
