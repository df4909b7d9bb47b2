#define drjit drjit_sw
#define IMPL_NAME half_sw
#include "P25_impl.inc"
