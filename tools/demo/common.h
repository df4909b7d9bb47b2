#include <drjit-core/jit.h>
#include <nanothread/nanothread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <functional>
#include <stdexcept>
static const JitBackend BE = JitBackend::LLVM;
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "FAILED (%s): ", #c); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } } while (0)
template <typename T> std::vector<T> fetch(uint32_t v) {
    void *p = nullptr; uint32_t d = jit_var_data(v, &p); jit_sync_thread();
    std::vector<T> r(jit_var_size(d)); memcpy(r.data(), p, r.size() * sizeof(T)); jit_var_dec_ref(d); return r;
}
template <typename T> uint32_t upload(VarType t, const std::vector<T> &v) { return jit_var_mem_copy(BE, t, v.data(), v.size(), 1); }
template <typename T> uint32_t lit(VarType t, T v, size_t n = 1) { uint64_t x = 0; memcpy(&x, &v, sizeof(T)); return jit_var_literal(BE, t, &x, n, 0); }
static void start(uint32_t width = 8, uint32_t threads = 4) {
    jit_set_log_level_stderr(LogLevel::Error);
    jit_init((uint32_t) 1 << (int) BE);
    pool_set_size(nullptr, threads);
    (void) width;
}
