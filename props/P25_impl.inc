// Compiled twice: with the hardware conversion and with the portable one.
// 'drjit' is renamed so that both versions can coexist.
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <cmath>
#include <type_traits>
#include <drjit-core/half.h>
#include "P25.h"
using H = drjit::half;
static H h(uint16_t v) { return H::from_binary(v); }
static uint16_t u(H v) { return v.value; }
template <typename T> static uint16_t arith(int op, uint16_t a, double bv) {
    H x = h(a); T b = (T) bv;
    switch (op) {
        case 0: return u(x + b); case 1: return u(x - b); case 2: return u(x * b); case 3: return u(x / b);
        case 4: x += b; return u(x); case 5: x -= b; return u(x); case 6: x *= b; return u(x); case 7: x /= b; return u(x);
        case 8: return x == b; case 9: return x != b; case 10: return x < b; case 11: return x > b; case 12: return x <= b; default: return x >= b;
    }
}
static uint16_t arith_h(int op, uint16_t a, uint16_t bv) {
    H x = h(a), b = h(bv);
    switch (op) {
        case 0: return u(x + b); case 1: return u(x - b); case 2: return u(x * b); case 3: return u(x / b);
        case 4: x += b; return u(x); case 5: x -= b; return u(x); case 6: x *= b; return u(x); case 7: x /= b; return u(x);
        case 8: return x == b; case 9: return x != b; case 10: return x < b; case 11: return x > b; case 12: return x <= b; default: return x >= b;
    }
}
static float to_float(uint16_t v) { return (float) h(v); }
static double to_double(uint16_t v) { return (double) h(v); }
static uint16_t from_float(float v) { return u(H(v)); }
static uint16_t from_float_assign(float v) { H x = h(0x1234); x = v; return u(x); }
static uint16_t from_double(double v) { return u(H(v)); }
static uint16_t from_i64(int64_t v) { return u(H(v)); }
static uint16_t from_u64(uint64_t v) { return u(H(v)); }
static uint16_t from_i32(int32_t v) { return u(H(v)); }
static uint16_t from_u16(uint16_t v) { return u(H(v)); }
static uint16_t from_bool(bool v) { return u(H(v)); }
static uint16_t neg(uint16_t v) { return u(-h(v)); }
static void batch(uint32_t first, uint32_t count, uint16_t *out) {
    for (uint32_t i = 0; i < count; ++i) { uint32_t b = first + i; float f; memcpy(&f, &b, 4); out[i] = from_float(f); }
}
extern const HalfImpl IMPL_NAME;
const HalfImpl IMPL_NAME = { to_float, to_double, from_float, from_float_assign, from_double, from_i64, from_u64, from_i32, from_u16, from_bool, neg,
    arith_h, arith<float>, arith<int>, arith<double>, batch };
