#define drjit drjit_hw
#define IMPL_NAME half_hw
#include "P25_impl.inc"
