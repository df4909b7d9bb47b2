// P25: half precision conversions and scalar arithmetic, both implementations
// (hardware and portable), against the compiler's _Float16
#include "vt.h"
#include "P25.h"
#include <cmath>
#include <limits>
#include <cfenv>
using namespace vt;
extern const HalfImpl half_sw, half_hw;
using h16 = _Float16;

template <typename A, typename B> static B bc(A a) { B b; static_assert(sizeof(A) == sizeof(B)); memcpy(&b, &a, sizeof(a)); return b; }
static bool is_nan(uint16_t v) { return (v & 0x7fff) > 0x7c00; }
static bool same(uint16_t a, uint16_t b) { return a == b || (is_nan(a) && is_nan(b)); }
static float ref_to_float(uint16_t v) {
    int e = (v >> 10) & 31, m = v & 1023;
    double r = e == 31 ? (m ? NAN : INFINITY) : e == 0 ? std::ldexp((double) m, -24) : std::ldexp((double) (m + 1024), e - 25);
    return (float) (v & 0x8000 ? -r : r);
}
/// Nearest-even conversion from first principles: exact in double precision
static uint16_t ref_from_float(float f) {
    uint32_t b = bc<float, uint32_t>(f);
    uint16_t sign = (uint16_t) ((b >> 16) & 0x8000);
    if (std::isnan(f)) return sign | 0x7e00;
    double a = std::fabs((double) f);
    if (a == 0) return sign;
    if (a >= 65520.0) return sign | 0x7c00;
    int e; std::frexp(a, &e); // a = m * 2^e, m in [.5, 1)
    int q = std::max(e - 11, -24);               // exponent of the last place
    double k = std::nearbyint(std::ldexp(a, -q)); // exact scaling, nearest even
    uint32_t n = (uint32_t) k;                    // value = n * 2^q
    if (q == -24 && n < 1024) return sign | (uint16_t) n;
    if (n == 2048) { n = 1024; q++; }
    return sign | (uint16_t) (((q + 25) << 10) | (n & 1023));
}
static const HalfImpl *impl(int i) { return i ? &half_hw : &half_sw; }
static const char *iname(int i) { return i ? "hardware" : "portable"; }
static const char *ops[] = { "+", "-", "*", "/", "+=", "-=", "*=", "/=", "==", "!=", "<", ">", "<=", ">=" };

static uint16_t ref_arith(int op, float a, float b) {
    switch (op & ~0) {
        case 0: case 4: return ref_from_float(a + b);
        case 1: case 5: return ref_from_float(a - b);
        case 2: case 6: return ref_from_float(a * b);
        case 3: case 7: return ref_from_float(a / b);
        case 8: return a == b; case 9: return a != b; case 10: return a < b;
        case 11: return a > b; case 12: return a <= b; default: return a >= b;
    }
}

static uint64_t next_chunk = 0; // exhaustive sweep position of this process

static void run(Src &s) {
    switch (s.weighted({ 2, 3, 3, 3, 5 })) {
        case 0: { // all 2^16 values: conversion to float/double, negation, round trip
            s.note("all half values");
            for (uint32_t i = 0; i < 65536; ++i)
                for (int k = 0; k < 2; ++k) {
                    uint16_t v = (uint16_t) i;
                    float f = impl(k)->to_float(v), r = ref_to_float(v);
                    bool ok = is_nan(v) ? std::isnan(f) : bc<float, uint32_t>(f) == bc<float, uint32_t>(r);
                    if (!ok) fail("%s: half 0x%04x converts to %a instead of %a", iname(k), v, f, r);
                    double d = impl(k)->to_double(v);
                    if (!(std::isnan(r) ? std::isnan(d) : d == (double) r)) fail("%s: half 0x%04x converts to double %a instead of %a", iname(k), v, d, (double) r);
                    if (impl(k)->neg(v) != (uint16_t) (v ^ 0x8000)) fail("%s: negation of 0x%04x", iname(k), v);
                    uint16_t back = impl(k)->from_float(f);
                    if (!same(back, v)) fail("%s: 0x%04x -> float -> 0x%04x", iname(k), v, back);
                }
            s.tag("half values", 65536); s.nontrivial();
            break;
        }
        case 1: { // a slice of the 2^32 float bit patterns
            uint32_t slice = (uint32_t) s.below(4096), count = 1u << 20;
            s.note("float patterns 0x%08x + 2^20", slice << 20);
            std::vector<uint16_t> o0(count), o1(count);
            half_sw.batch(slice << 20, count, o0.data());
            half_hw.batch(slice << 20, count, o1.data());
            for (uint32_t i = 0; i < count; ++i) {
                uint32_t b = (slice << 20) + i;
                float f = bc<uint32_t, float>(b);
                uint16_t want = ref_from_float(f);
                if (!same(o0[i], want)) fail("portable: float 0x%08x (%a) converts to 0x%04x instead of 0x%04x", b, f, o0[i], want);
                if (!same(o1[i], want)) fail("hardware: float 0x%08x (%a) converts to 0x%04x instead of 0x%04x", b, f, o1[i], want);
            }
            s.tag("float patterns", count); s.nontrivial();
            break;
        }
        case 2: { // neighbourhood of rounding boundaries
            for (int j = 0; j < 4096; ++j) {
                uint16_t a = (uint16_t) s.below(0x7c00), sgn = s.flip() ? 0x8000 : 0;
                double mid = ((double) ref_to_float(a) + (a == 0x7bff ? 65536.0 : (double) ref_to_float(a + 1))) * 0.5;
                float f = (float) mid;
                int32_t off = (int32_t) s.range(-2, 2);
                f = bc<uint32_t, float>((bc<float, uint32_t>(f) + off) | (uint32_t) sgn << 16);
                uint16_t want = ref_from_float(f);
                for (int k = 0; k < 2; ++k) {
                    uint16_t g = impl(k)->from_float(f), g2 = impl(k)->from_float_assign(f);
                    if (!same(g, want) || !same(g2, want)) fail("%s: float %a converts to 0x%04x / 0x%04x instead of 0x%04x", iname(k), f, g, g2, want);
                }
            }
            s.tag("boundary floats", 4096); s.nontrivial();
            break;
        }
        case 3: { // doubles, integers: through single precision
            for (int j = 0; j < 512; ++j) {
                uint64_t b = s.bits();
                double d;
                switch (s.below(4)) {
                    case 0: d = bc<uint64_t, double>(b); break;
                    case 1: d = std::ldexp((double) (int64_t) b, (int) s.range(-90, -40)); break;
                    case 2: d = (double) ref_to_float((uint16_t) b) * (1.0 + std::ldexp((double) s.range(-9, 9), -12 - (int) s.below(40))); break;
                    default: d = (double) (int64_t) (b >> s.below(64));
                }
                int64_t i = (int64_t) (b >> s.below(64));
                if (s.flip()) i = -i;
                uint64_t u = (uint64_t) i;
                for (int k = 0; k < 2; ++k) {
                    auto *m = impl(k);
                    if (uint16_t w = ref_from_float((float) d), g = m->from_double(d); !same(w, g)) fail("%s: double %a converts to 0x%04x instead of 0x%04x", iname(k), d, g, w);
                    if (uint16_t w = ref_from_float((float) i), g = m->from_i64(i); w != g) fail("%s: int64 %ld converts to 0x%04x instead of 0x%04x", iname(k), (long) i, g, w);
                    if (uint16_t w = ref_from_float((float) u), g = m->from_u64(u); w != g) fail("%s: uint64 %lu converts to 0x%04x instead of 0x%04x", iname(k), (unsigned long) u, g, w);
                    if (uint16_t w = ref_from_float((float) (int32_t) i), g = m->from_i32((int32_t) i); w != g) fail("%s: int32 %d converts to 0x%04x instead of 0x%04x", iname(k), (int32_t) i, g, w);
                    if (uint16_t w = ref_from_float((float) (uint16_t) i), g = m->from_u16((uint16_t) i); w != g) fail("%s: uint16 %u converts to 0x%04x instead of 0x%04x", iname(k), (uint16_t) i, g, w);
                    if (m->from_bool(i & 1) != ((i & 1) ? 0x3c00 : 0)) fail("%s: bool conversion", iname(k));
                }
            }
            s.tag("doubles and integers", 512); s.nontrivial();
            break;
        }
        default: { // arithmetic
            for (int j = 0; j < 2048; ++j) {
                int op = (int) s.below(14);
                auto gen = [&]() -> uint16_t {
                    switch (s.below(4)) {
                        case 0: return (uint16_t) s.bits();
                        case 1: return (uint16_t) (0x3c00 + s.range(-1500, 1500)) ^ (s.flip() ? 0x8000 : 0);
                        case 2: return s.pick<uint16_t>({ 0, 0x8000, 0x7c00, 0xfc00, 0x7e00, 1, 0x3ff, 0x400, 0x7bff, 0x3c00, 0xbc00 });
                        default: return (uint16_t) s.below(0x800) | (s.flip() ? 0x8000 : 0);
                    }
                };
                uint16_t a = gen(), b = s.chance(1, 6) ? a : gen();
                float fa = ref_to_float(a), fb = ref_to_float(b);
                int n = (int) s.range(-2000, 2000);
                float wf = s.flip() ? fb : fa * (1 + std::ldexp((float) s.range(-5, 5), -12));
                for (int k = 0; k < 2; ++k) {
                    auto chk = [&](uint16_t got, uint16_t want, double rhs, const char *ty) {
                        if (op < 8 ? !same(got, want) : got != want)
                            fail("%s: half(0x%04x = %g) %s %s(%.9g) is 0x%04x instead of 0x%04x", iname(k), a, fa, ops[op], ty, rhs, got, want);
                    };
                    chk(impl(k)->arith_h(op, a, b), ref_arith(op, fa, fb), fb, "half");
                    chk(impl(k)->arith_f(op, a, wf), ref_arith(op, fa, wf), wf, "float");
                    chk(impl(k)->arith_i(op, a, n), ref_arith(op, fa, (float) n), n, "int");
                    chk(impl(k)->arith_d(op, a, wf), ref_arith(op, fa, wf), wf, "double");
                }
            }
            s.tag("arithmetic operations", 2048); s.nontrivial();
        }
    }
    (void) next_chunk;
}

Property vt::make_property() {
    Property p;
    p.id = "P25";
    p.rule = "A case sweeps all 2^16 halves, or all 2^20 float patterns of one of 4096 slices, or thousands of floats next to rounding boundaries, "
             "doubles/integers, or operand pairs of all operators; both the hardware and the portable conversion are compared with a first-principles reference. "
             "Every case is non-trivial (thousands of compared values); distinct by decision sequence.";
    p.run = run;
    p.batch = 64;
    p.quick_s = 15;
    p.assumptions = { "default rounding mode; NaN payloads are not compared", "doubles and integers are converted through single precision (as declared)" };
    return p;
}
