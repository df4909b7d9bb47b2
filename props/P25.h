#pragma once
#include <cstdint>
struct HalfImpl {
    float (*to_float)(uint16_t); double (*to_double)(uint16_t);
    uint16_t (*from_float)(float); uint16_t (*from_float_assign)(float); uint16_t (*from_double)(double);
    uint16_t (*from_i64)(int64_t); uint16_t (*from_u64)(uint64_t); uint16_t (*from_i32)(int32_t); uint16_t (*from_u16)(uint16_t); uint16_t (*from_bool)(bool);
    uint16_t (*neg)(uint16_t);
    uint16_t (*arith_h)(int, uint16_t, uint16_t);
    uint16_t (*arith_f)(int, uint16_t, double); uint16_t (*arith_i)(int, uint16_t, double); uint16_t (*arith_d)(int, uint16_t, double);
    void (*batch)(uint32_t, uint32_t, uint16_t *);
};
