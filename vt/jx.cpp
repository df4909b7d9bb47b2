#include "jx.h"
#include <mutex>
#include <cfenv>
#include <unistd.h>

namespace jx {

std::string g_log;
static std::mutex log_m;
static void log_cb(LogLevel l, const char *m) {
    std::lock_guard<std::mutex> guard(log_m);
    if (l == LogLevel::Error) { fputs(m, stderr); fputc('\n', stderr); }
    if (g_log.size() < (1u << 20)) { g_log += m; g_log += '\n'; }
}

// ---- Operations ----------------------------------------------------------
struct OpDesc { JitOp op; const char *name; uint32_t arity; };
static const OpDesc ops[] = {
    { JitOp::Neg, "neg", 1 }, { JitOp::Not, "not", 1 }, { JitOp::Sqrt, "sqrt", 1 }, { JitOp::Abs, "abs", 1 },
    { JitOp::Add, "add", 2 }, { JitOp::Sub, "sub", 2 }, { JitOp::Mul, "mul", 2 }, { JitOp::Div, "div", 2 },
    { JitOp::Mod, "mod", 2 }, { JitOp::MulHi, "mul_hi", 2 }, { JitOp::MulWide, "mul_wide", 2 }, { JitOp::Fma, "fma", 3 },
    { JitOp::Min, "min", 2 }, { JitOp::Max, "max", 2 }, { JitOp::FMin, "fmin", 2 }, { JitOp::FMax, "fmax", 2 },
    { JitOp::Copysign, "copysign", 2 }, { JitOp::Ceil, "ceil", 1 }, { JitOp::Floor, "floor", 1 }, { JitOp::Round, "round", 1 },
    { JitOp::Trunc, "trunc", 1 }, { JitOp::Eq, "eq", 2 }, { JitOp::Neq, "neq", 2 }, { JitOp::Lt, "lt", 2 }, { JitOp::Le, "le", 2 },
    { JitOp::Gt, "gt", 2 }, { JitOp::Ge, "ge", 2 }, { JitOp::Select, "select", 3 }, { JitOp::Popc, "popc", 1 }, { JitOp::Clz, "clz", 1 },
    { JitOp::Ctz, "ctz", 1 }, { JitOp::Brev, "brev", 1 }, { JitOp::And, "and", 2 }, { JitOp::Or, "or", 2 }, { JitOp::Xor, "xor", 2 },
    { JitOp::Shl, "shl", 2 }, { JitOp::Shr, "shr", 2 }, { JitOp::Rcp, "rcp", 1 }, { JitOp::Rsqrt, "rsqrt", 1 } };
static const OpDesc &desc(JitOp op) { for (auto &d : ops) if (d.op == op) return d; fail("unknown op"); }
const char *op_name(JitOp op) { return desc(op).name; }
uint32_t op_arity(JitOp op) { return desc(op).arity; }

bool op_supports(JitOp op, VarType t) {
    bool f = is_float(t), i = is_int(t), b = is_bool(t);
    switch (op) {
        case JitOp::Neg: case JitOp::Abs: case JitOp::Add: case JitOp::Sub: case JitOp::Mul: case JitOp::Div:
        case JitOp::Fma: case JitOp::Min: case JitOp::Max: case JitOp::FMin: case JitOp::FMax: case JitOp::Copysign:
        case JitOp::Lt: case JitOp::Le: case JitOp::Gt: case JitOp::Ge: return f || i;
        case JitOp::Mod: case JitOp::Popc: case JitOp::Clz: case JitOp::Ctz: case JitOp::Brev: case JitOp::Shl: case JitOp::Shr: return i;
        case JitOp::MulHi: return i && tsize(t) >= 4;
        case JitOp::MulWide: return i && tsize(t) == 4;
        case JitOp::Sqrt: case JitOp::Ceil: case JitOp::Floor: case JitOp::Round: case JitOp::Trunc: case JitOp::Rcp: case JitOp::Rsqrt: return f;
        case JitOp::Not: case JitOp::And: case JitOp::Or: case JitOp::Xor: return i || b;
        case JitOp::Eq: case JitOp::Neq: case JitOp::Select: return f || i || b;
        default: return false;
    }
}
VarType op_result(JitOp op, VarType t) {
    switch (op) {
        case JitOp::Eq: case JitOp::Neq: case JitOp::Lt: case JitOp::Le: case JitOp::Gt: case JitOp::Ge: return VarType::Bool;
        case JitOp::MulWide: return t == VarType::UInt32 ? VarType::UInt64 : VarType::Int64;
        default: return t;
    }
}

template <typename T> struct wide { using type = T; };
template <> struct wide<h16> { using type = float; };

template <typename T> static bool ref_t(JitOp op, const uint64_t *a, uint64_t &out) {
    T x = ld<T>(a[0]), y = ld<T>(a[1]), z = ld<T>(a[2]);
    auto B = [&](bool b) { out = b; return true; };
    switch (op) { // for all types
        case JitOp::Eq: return B(x == y);
        case JitOp::Neq: return B(x != y);
        case JitOp::Select: out = a[0] ? a[1] : a[2]; return true;
        default: break;
    }
    if constexpr (std::is_same_v<T, bool>) {
        switch (op) {
            case JitOp::Not: return B(!x);
            case JitOp::And: return B(x && y);
            case JitOp::Or: return B(x || y);
            case JitOp::Xor: return B(x != y);
            default: return false;
        }
    } else {
        switch (op) {
            case JitOp::Lt: return B(x < y);
            case JitOp::Le: return B(x <= y);
            case JitOp::Gt: return B(x > y);
            case JitOp::Ge: return B(x >= y);
            default: break;
        }
    }
    if constexpr (isf<T>) {
        using W = typename wide<T>::type;
        W wx = (W) x, wy = (W) y, wz = (W) z;
        auto R = [&](T v) { out = st<T>(v); return true; };
        constexpr uint64_t sign = 1ull << (sizeof(T) * 8 - 1);
        switch (op) {
            case JitOp::Neg: out = a[0] ^ sign; return true;
            case JitOp::Abs: out = a[0] & ~sign; return true;
            case JitOp::Copysign: out = (a[0] & ~sign) | (a[1] & sign); return true;
            // float arithmetic on halves followed by one rounding is exact
            case JitOp::Add: return R((T) (wx + wy));
            case JitOp::Sub: return R((T) (wx - wy));
            case JitOp::Mul: return R((T) (wx * wy));
            case JitOp::Div: return R((T) (wx / wy));
            case JitOp::Fma: return R((T) std::fma(wx, wy, wz));
            case JitOp::Sqrt: return R((T) std::sqrt(wx));
            case JitOp::Min: return R(x != x ? x : y != y ? y : (x < y ? x : y));
            case JitOp::Max: return R(x != x ? x : y != y ? y : (x > y ? x : y));
            case JitOp::FMin: return R(x != x ? y : y != y ? x : (x < y ? x : y));
            case JitOp::FMax: return R(x != x ? y : y != y ? x : (x > y ? x : y));
            case JitOp::Ceil: return R((T) std::ceil(wx));
            case JitOp::Floor: return R((T) std::floor(wx));
            case JitOp::Trunc: return R((T) std::trunc(wx));
            case JitOp::Round: return R((T) std::nearbyint(wx));
            case JitOp::Rcp: return R((T) (W(1) / wx));
            case JitOp::Rsqrt: return R((T) (1.0 / std::sqrt((double) wx)));
            default: return false;
        }
    }
    if constexpr (isi<T>) {
        using U = std::make_unsigned_t<T>;
        constexpr int bitsn = sizeof(T) * 8;
        constexpr bool sg = std::is_signed_v<T>;
        U ux = (U) x, uy = (U) y, uz = (U) z;
        auto R = [&](U v) { out = st<U>(v); return true; };
        T mn = std::numeric_limits<T>::min();
        switch (op) {
            case JitOp::Neg: return R((U) (0 - (uint64_t) ux));
            case JitOp::Not: return R((U) ~ux);
            case JitOp::Abs: if (sg && x == mn) return false; return R(x < 0 ? (U) (0 - (uint64_t) ux) : ux);
            case JitOp::Copysign: {
                if (sg && x == mn) return false;
                U ab = x < 0 ? (U) (0 - (uint64_t) ux) : ux;
                return R(y < 0 ? (U) (0 - (uint64_t) ab) : ab);
            }
            case JitOp::Add: return R((U) ((uint64_t) ux + uy));
            case JitOp::Sub: return R((U) ((uint64_t) ux - uy));
            case JitOp::Mul: return R((U) ((uint64_t) ux * uy));
            case JitOp::Fma: return R((U) ((uint64_t) ux * uy + uz));
            case JitOp::Div: if (y == 0 || (sg && x == mn && y == (T) -1)) return false; return R((U) (x / y));
            case JitOp::Mod: if (y == 0 || (sg && x == mn && y == (T) -1)) return false; return R((U) (x % y));
            case JitOp::MulHi:
                if constexpr (sizeof(T) == 4) return R(sg ? (U) (((int64_t) x * (int64_t) y) >> 32) : (U) (((uint64_t) x * (uint64_t) y) >> 32));
                if constexpr (sizeof(T) == 8) return R(sg ? (U) (((__int128) x * (__int128) y) >> 64) : (U) (((unsigned __int128) x * (unsigned __int128) y) >> 64));
                return false;
            case JitOp::MulWide:
                if constexpr (sizeof(T) == 4) { out = sg ? (uint64_t) ((int64_t) x * (int64_t) y) : (uint64_t) x * (uint64_t) y; return true; }
                return false;
            case JitOp::Min: case JitOp::FMin: return R((U) (x < y ? x : y));
            case JitOp::Max: case JitOp::FMax: return R((U) (x > y ? x : y));
            case JitOp::And: return R(ux & uy);
            case JitOp::Or: return R(ux | uy);
            case JitOp::Xor: return R(ux ^ uy);
            case JitOp::Shl: if (uy >= (U) bitsn) return false; return R((U) ((uint64_t) ux << uy));
            case JitOp::Shr: if (uy >= (U) bitsn) return false; return R((U) (x >> y));
            case JitOp::Popc: return R((U) __builtin_popcountll((uint64_t) ux));
            case JitOp::Clz: { int n = 0; for (int i = bitsn - 1; i >= 0 && !((ux >> i) & 1); --i) n++; return R((U) n); }
            case JitOp::Ctz: { int n = 0; while (n < bitsn && !((ux >> n) & 1)) n++; return R((U) n); }
            case JitOp::Brev: { U r = 0; for (int i = 0; i < bitsn; ++i) if ((ux >> i) & 1) r |= (U) ((U) 1 << (bitsn - 1 - i)); return R(r); }
            default: return false;
        }
    }
    return false;
}

bool ref_op(JitOp op, VarType t, const uint64_t *a, uint64_t &out) {
    uint64_t b[3] = { a[0], op_arity(op) > 1 ? a[1] : 0, op_arity(op) > 2 ? a[2] : 0 };
    return dispatch(t, [&](auto x) { return ref_t<decltype(x)>(op, b, out); });
}

bool ref_cast(VarType from, VarType to, uint64_t v, uint64_t &out) {
    return dispatch(from, [&](auto x) {
        using A = decltype(x);
        A a = ld<A>(v);
        return dispatch(to, [&](auto y) {
            using B = decltype(y);
            if constexpr (std::is_same_v<B, bool>) {
                out = (a != (A) 0);
                return true;
            } else if constexpr (isf<A> && isi<B>) {
                double d = std::trunc((double) a);
                double lo = std::is_signed_v<B> ? -std::ldexp(1.0, (int) sizeof(B) * 8 - 1) : 0,
                       hi = std::ldexp(1.0, (int) sizeof(B) * 8 - (std::is_signed_v<B> ? 1 : 0));
                if (!(d >= lo && d < hi)) return false;
                out = st<B>((B) d);
                return true;
            } else if constexpr (isf<B> && sizeof(B) == 2) {
                // Conversions to half precision go through single precision
                float f = (float) a;
                out = st<B>((B) f);
                return true;
            } else {
                out = st<B>((B) a);
                return true;
            }
        });
    });
}

const char *red_name(ReduceOp op) {
    static const char *n[] = { "identity", "add", "mul", "min", "max", "and", "or" };
    return n[(int) op];
}
uint64_t ref_reduce(ReduceOp op, VarType t, uint64_t a, uint64_t b) {
    uint64_t x[3] = { a, b, 0 }, out = 0;
    JitOp o;
    switch (op) {
        case ReduceOp::Identity: return b;
        case ReduceOp::Add: o = JitOp::Add; break;
        case ReduceOp::Mul: o = JitOp::Mul; break;
        case ReduceOp::Min: o = JitOp::FMin; break;
        case ReduceOp::Max: o = JitOp::FMax; break;
        case ReduceOp::And: o = JitOp::And; break;
        default: o = JitOp::Or; break;
    }
    if (!ref_op(o, t, x, out)) fail("ref_reduce: unsupported");
    return out;
}
uint64_t ref_identity(ReduceOp op, VarType t) {
    return dispatch(t, [&](auto x) -> uint64_t {
        using T = decltype(x);
        if constexpr (std::is_same_v<T, bool>) {
            return op == ReduceOp::And;
        } else if constexpr (isf<T>) {
            switch (op) {
                case ReduceOp::Mul: return st<T>((T) 1);
                case ReduceOp::Min: return st<T>((T) INFINITY);
                case ReduceOp::Max: return st<T>((T) -INFINITY);
                default: return 0;
            }
        } else {
            switch (op) {
                case ReduceOp::Mul: return 1;
                case ReduceOp::Min: return st<T>(std::numeric_limits<T>::max());
                case ReduceOp::Max: return st<T>(std::numeric_limits<T>::min());
                case ReduceOp::And: return st<T>((T) -1);
                default: return 0;
            }
        }
    });
}

Var jit_op(JitOp op, const std::vector<Arg> &a) {
    uint32_t d[3] = { a[0].id, a.size() > 1 ? a[1].id : 0, a.size() > 2 ? a[2].id : 0 };
    return steal(jit_var_op(op, d));
}

// ---- Generators ----------------------------------------------------------
uint64_t gen_value(Src &s, VarType t, Dist dist) {
    uint32_t nb = tsize(t) * 8;
    uint64_t mask = nb == 64 ? ~0ull : ((1ull << nb) - 1);
    if (is_bool(t)) return s.flip();
    if (dist == Dist::Small || dist == Dist::Exact) {
        int64_t v = s.range(0, dist == Dist::Exact ? 7 : 15);
        if (is_signed(t) && s.chance(1, 4)) v = -v;
        return from_i(t, v);
    }
    if (is_int(t)) {
        switch (s.below(6)) {
            case 0: return s.below(4);
            case 1: return s.below(70) & mask;
            case 2: return (0 - (1 + s.below(20))) & mask;
            case 3: { uint64_t p = 1ull << s.below(nb); return (p + s.below(3) - 1) & mask; }
            case 4: return (s.flip() ? mask : (mask >> 1)) - s.below(2);
            default: return s.bits() & mask;
        }
    }
    switch (s.below(7)) {
        case 0: return from_d(t, (double) s.range(0, 4));
        case 1: return from_d(t, (double) s.range(-40, 40) * 0.5);
        case 2: {
            uint64_t sign = s.flip() ? (1ull << (nb - 1)) : 0;
            int mant = t == VarType::Float16 ? 10 : t == VarType::Float32 ? 23 : 52;
            uint64_t inf = ((1ull << (nb - 1 - mant)) - 1) << mant;
            switch (s.below(8)) {
                case 0: return sign;                                   // +-0
                case 1: return inf | sign;                             // +-inf
                case 2: return inf | (1ull << (mant - 1)) | sign;      // NaN
                case 3: return (1 + s.below(1ull << mant) % ((1ull << mant) - 1)) | sign; // denormal
                case 4: return (inf - 1 - s.below(3)) | sign;          // largest
                case 5: return (1ull << mant) | sign;                  // smallest normal
                case 6: return from_d(t, std::ldexp(1.0, mant) + (double) s.range(-2, 2)) | sign;
                default: return from_d(t, std::ldexp(1.0, (int) s.range(-14, 15))) | sign;
            }
        }
        case 3: return from_d(t, std::ldexp((double) s.range(-4096, 4096), -(int) s.below(13)));
        case 4: return from_d(t, (double) s.range(-2000000, 2000000) / 1024.0);
        case 5: { uint64_t v = s.bits() & mask; return fnan(t, v) ? from_d(t, 1.0) : v; }
        default: return from_d(t, std::ldexp((double) (int64_t) s.bits(), -63) * (s.flip() ? 1.0 : 100.0));
    }
}

Arr gen_arr(Src &s, VarType t, size_t n, Dist d) {
    Arr a(t, n);
    switch (n > 1 ? s.below(5) : 1) {
        case 0: { // long arrays from few values
            uint64_t x = gen_value(s, t, d), y = gen_value(s, t, d);
            uint64_t sel = s.bits();
            for (size_t i = 0; i < n; ++i) a.v[i] = (sel >> (i & 63)) & 1 ? y : x;
            break;
        }
        case 4: if (n > 24) { // few random values, repeated with a period
            size_t p = 3 + s.below(20);
            std::vector<uint64_t> v(p);
            for (auto &x : v) x = gen_value(s, t, d);
            for (size_t i = 0; i < n; ++i) a.v[i] = v[i % p];
            break;
        } [[fallthrough]];
        default:
            if (n <= 96) { for (auto &x : a.v) x = gen_value(s, t, d); }
            else { // bounded number of decisions
                uint64_t seed = s.bits();
                Src q(seed);
                for (auto &x : a.v) x = gen_value(q, t, d);
            }
    }
    return a;
}
Arr gen_mask(Src &s, size_t n) {
    Arr a(VarType::Bool, n);
    switch (s.below(5)) {
        case 0: for (auto &x : a.v) x = 1; break;
        case 1: { uint64_t k = s.below(n ? n : 1); for (size_t i = 0; i < n; ++i) a.v[i] = i == k; break; }
        case 2: { uint64_t k = s.below(n + 1); for (size_t i = 0; i < n; ++i) a.v[i] = i < k; break; }
        case 3: if (s.chance(1, 3)) break; [[fallthrough]];
        default: { uint64_t seed = s.bits(); uint32_t dens = (uint32_t) s.below(4); Src q(seed);
                   for (auto &x : a.v) x = q.below(4) > dens; }
    }
    return a;
}
Arr gen_index(Src &s, VarType t, size_t n, size_t bound) {
    Arr a(t, n);
    uint64_t lim = bound;
    uint32_t nb = tsize(t) * 8 - (is_signed(t) ? 1 : 0);
    if (nb < 63 && lim > (1ull << nb)) lim = 1ull << nb;
    switch (s.below(6)) {
        case 0: for (size_t i = 0; i < n; ++i) a.v[i] = i % lim; break;
        case 1: for (size_t i = 0; i < n; ++i) a.v[i] = (lim - 1 - i % lim); break;
        case 2: { uint64_t k = s.below(lim); for (auto &x : a.v) x = k; break; }
        case 3: { uint64_t m = std::min<uint64_t>(lim, 1 + s.below(4)), o = s.below(lim - m + 1), seed = s.bits(); Src q(seed);
                  for (auto &x : a.v) x = o + q.below(m); break; }
        case 4: { uint64_t st = 1 + s.below(lim), o = s.below(lim); for (size_t i = 0; i < n; ++i) a.v[i] = (o + i * st) % lim; break; }
        default: if (n <= 48) for (auto &x : a.v) x = s.below(lim);
                 else { Src q(s.bits()); for (auto &x : a.v) x = q.below(lim); }
    }
    return a;
}
const char *form_name(Form f) {
    static const char *n[] = { "memory", "literal", "scalar", "lazy", "literal(n)" };
    return n[f];
}
Form gen_form(Src &s) {
    switch (s.weighted({ 6, 4, 2, 4, 1 })) {
        case 0: return Memory; case 1: return Literal; case 2: return Scalar; case 3: return Lazy; default: return LiteralN;
    }
}
Var make(Src &s, Arr &a, Form f) {
    size_t n = a.size();
    switch (f) {
        case Memory: return upload(a);
        case Literal: a.v.resize(1); return literal(a);
        case LiteralN: for (auto &x : a.v) x = a.v[0]; return literal(a, n);
        case Scalar: a.v.resize(1); return s.flip() ? upload(a) : literal(a.t, a.v[0], 1, 1);
        default: {
            // An unevaluated expression with these values
            Var m = upload(a);
            switch (s.below(3)) {
                case 0: { // permuted gather
                    Arr rev = a, idx(VarType::UInt32, n);
                    for (size_t i = 0; i < n; ++i) { rev.v[n - 1 - i] = a.v[i]; idx.v[i] = n - 1 - i; }
                    Var r = upload(rev), ix = upload(idx);
                    return steal(jit_var_gather(r.id(), ix.id(), boolean(true).id()));
                }
                case 1: { // select between two arrays
                    Arr msk(VarType::Bool, n), o = a;
                    uint64_t bits = s.bits();
                    for (size_t i = 0; i < n; ++i) { msk.v[i] = (bits >> (i & 63)) & 1; if (!msk.v[i]) o.v[i] = from_i(a.t, 1); }
                    Arr p = a;
                    for (size_t i = 0; i < n; ++i) if (msk.v[i]) p.v[i] = from_i(a.t, 1);
                    Var mm = upload(msk), x = upload(o), y = upload(p);
                    return steal(jit_var_select(mm.id(), x.id(), y.id()));
                }
                default: { // masked by an array of ones
                    Var one = upload(Arr(VarType::Bool, n, 1));
                    return steal(jit_var_and(m.id(), one.id()));
                }
            }
        }
    }
}

// ---- Session -------------------------------------------------------------
static const JitFlag toggles[] = { JitFlag::ConstantPropagation, JitFlag::ValueNumbering, JitFlag::FastMath, JitFlag::PacketOps,
    JitFlag::OptimizeLoops, JitFlag::OptimizeCalls, JitFlag::MergeFunctions, JitFlag::ScatterReduceLocal, JitFlag::ReuseIndices,
    JitFlag::SymbolicLoops, JitFlag::SymbolicCalls, JitFlag::SymbolicConditionals };

std::string Config::str() const {
    std::string s = strf("width=%u block=%u threads=%u mode=%d sched=%lu eager=%u flags:", width, block, threads, mode, (unsigned long) sched, eager);
    static const char *n[] = { "CP", "VN", "FM", "PO", "OL", "OC", "MF", "SRL", "RI", "SL", "SC", "SIF" };
    for (size_t i = 0; i < sizeof(toggles) / sizeof(*toggles); ++i)
        if (!(flags & (uint32_t) toggles[i])) s += strf(" -%s", n[i]);
    if (flags & (uint32_t) JitFlag::Debug) s += " +Debug";
    if (flags & (uint32_t) JitFlag::KernelHistory) s += " +History";
    if (flags & (uint32_t) JitFlag::LaunchBlocking) s += " +Blocking";
    return s;
}
Config gen_config(Src &s, uint32_t what) {
    Config c;
    c.flags = (uint32_t) JitFlag::Default;
    c.width = 8;
    if (what & CfgWidth) c.width = s.pick<uint32_t>({ 8, 4, 16 });
    if (what & CfgFlags) {
        switch (s.below(3)) {
            case 0: break;
            case 1: { uint64_t k = s.below(sizeof(toggles) / sizeof(*toggles)); c.flags &= ~(uint32_t) toggles[k]; break; }
            default: { uint64_t b = s.bits(); for (auto f : toggles) { if (b & 1) c.flags &= ~(uint32_t) f; b >>= 1; } }
        }
        if (s.chance(1, 12)) c.flags |= (uint32_t) JitFlag::KernelHistory;
        if (s.chance(1, 16)) c.flags |= (uint32_t) JitFlag::LaunchBlocking;
    }
    c.block = 16384;
    if (what & CfgBlock) c.block = s.pick<uint32_t>({ 16384, c.width, c.width * 2, c.width * 4, 64 });
    if (what & CfgThreads) c.threads = s.pick<uint32_t>({ 4, 1, 2, 3, 8 });
    if (what & CfgSched) {
        c.sched = s.bits() >> 32;
        c.eager = s.pick<uint32_t>({ 128, 0, 255, 40 });
    }
    return c;
}
void apply_config(const Config &c) {
    vt_set_mode(c.mode, c.sched, c.eager);
    jit_llvm_set_thread_count(c.threads);
    static uint32_t cur_width = 0;
    if (cur_width != c.width) {
        const char *cpu = "haswell";
        if (c.width == 16 && __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512bw"))
            cpu = "skylake-avx512";
        jit_llvm_set_target(cpu, "", c.width);
        cur_width = c.width;
    }
    jit_llvm_set_block_size(c.block ? c.block : 16384);
    jit_set_flags(c.flags | (getenv("VT_IR") ? (uint32_t) JitFlag::PrintIR : 0));
}
void init_process() {
    vt_set_mode(1, 1, 128);
    jit_set_log_level_stderr(getenv("VT_IR") ? LogLevel::Trace : getenv("VT_LOG") ? LogLevel::Debug : LogLevel::Error);
    if (getenv("VT_IR")) jit_set_log_level_callback(LogLevel::Disable, nullptr); else
    jit_set_log_level_callback(LogLevel::Warn, log_cb);
    jit_init(1u << (uint32_t) JitBackend::LLVM);
    if (!jit_has_backend(JitBackend::LLVM)) { fprintf(stderr, "no LLVM backend\n"); _exit(77); }
}
size_t live_vars() {
    const char *s = jit_var_whos();
    // rows begin with two spaces and the variable index
    size_t n = 0;
    for (const char *p = s; p; p = strchr(p, '\n')) {
        while (*p == '\n') ++p;
        if (!*p) break;
        if (p[0] == ' ' && p[1] == ' ' && p[2] >= '1' && p[2] <= '9') n++;
    }
    return n;
}
void end_case(bool check) {
    jit_eval();
    jit_sync_thread();
    if (check) {
        size_t n = live_vars();
        if (n) fail("%zu variables are still alive after all references were dropped:\n%s", n, jit_var_whos());
    }
    if (jit_flags() & (uint32_t) JitFlag::KernelHistory) jit_kernel_history_clear();
    jit_set_flags((uint32_t) JitFlag::Default);
    g_log.clear();
}
void shutdown_process() {
    jit_sync_thread();
    jit_shutdown(0);
}

} // namespace jx
