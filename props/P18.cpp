// P18: batched matrix multiplication equals the reference product
#include "mem.h"
using namespace jx;

namespace {
void run(Src &s) {
    Config cfg = gen_config(s);
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    VarType t = s.pick(float_types());
    bool At = s.flip(), Bt = s.flip();
    auto dim = [&] { return (uint32_t) (s.chance(1, 8) ? 1 : s.chance(1, 10) ? 40 + s.below(100) : s.small(1, 40)); };
    uint32_t M = dim(), N = dim(), K = dim();
    if (s.chance(1, 25)) { K = s.pick({ 1023u, 1024u, 1025u, 2048u, 2050u, 1500u }); M = 1 + M % 14; N = 1 + N % 20; }
    else if (s.chance(1, 60)) { N = s.pick({ 4095u, 4096u, 4097u, 4100u, 8200u }); M = 1 + M % 8; K = 1 + K % 8; }
    if (s.chance(1, 12)) K = 0;
    if (s.chance(1, 30)) M = 0;
    GemmBatch b{};
    bool batch = s.chance(2, 3);
    size_t a_sz = (size_t) M * K, b_sz = (size_t) K * N;
    size_t a_max = 0, b_max = 0; // largest offset
    size_t grid = 1, reduce = 1;
    std::string desc;
    if (batch) {
        uint32_t nb = (uint32_t) s.below(4), nr = (uint32_t) s.below(s.flip() ? 4 : 1);
        if (s.chance(1, 20)) { nb = 6; nr = 0; }
        b.n_bdims = nb; b.n_rdims = nr;
        size_t budget = std::max<size_t>(1, 60000 / std::max<size_t>(1, (size_t) M * N * std::max(K, 1u) / 4 + 1));
        size_t ca = a_sz, cb = b_sz; // strides of a contiguous layout
        for (uint32_t d = 0; d < nb + nr; ++d) {
            uint32_t e = (uint32_t) (s.chance(1, 4) ? 1 : 1 + s.below(5));
            if (e > budget) e = 1;
            if (s.chance(1, 60)) e = 0;
            budget /= std::max(e, 1u);
            b.extent[d] = e;
            auto stride = [&](size_t &c) -> uint32_t {
                switch (s.below(5)) {
                    case 0: return 0;
                    case 1: return (uint32_t) s.below(40);
                    default: { uint32_t r = (uint32_t) c; c *= std::max(e, 1u); return r; }
                }
            };
            b.a_stride[d] = stride(ca); b.b_stride[d] = stride(cb);
            if (e) { a_max += (size_t) (e - 1) * b.a_stride[d]; b_max += (size_t) (e - 1) * b.b_stride[d]; }
            (d < nb ? grid : reduce) *= e;
            desc += strf(" %s%u(a+%u b+%u)", d < nb ? "g" : "r", e, b.a_stride[d], b.b_stride[d]);
        }
    }
    Arr A(t, a_max + a_sz), B(t, b_max + b_sz);
    if (A.size() > 400000 || B.size() > 400000 || grid * M * N > 400000 || (double) grid * reduce * M * N * K > 4e6) { s.tag("too large"); return; }
    Src q(s.bits());
    bool half = t == VarType::Float16;
    uint64_t dens = half && (size_t) K * reduce > 200 ? 10 : 1;
    auto val = [&]() -> uint64_t { if (dens > 1 && q.below(dens)) return 0; return from_d(t, half ? (double) q.range(-2, 2) : (double) q.range(-9, 9)); };
    for (auto &x : A.v) x = val();
    for (auto &x : B.v) x = val();
    s.note("%s At=%d Bt=%d M=%u N=%u K=%u%s", tname(t), At, Bt, M, N, K, desc.c_str());

    std::vector<double> a(A.size()), bb(B.size());
    auto fill = [&] { for (size_t i = 0; i < a.size(); ++i) a[i] = to_d(t, A.v[i]); for (size_t i = 0; i < bb.size(); ++i) bb[i] = to_d(t, B.v[i]); };
    bool var = s.flip() && A.size() > 0 && B.size() > 0;
    Var va, vb;
    if (var) {
        auto mkv = [&](Arr &x, VarType) {
            switch (s.below(5)) {
                case 0: return make(s, x, Lazy);
                case 1: { for (auto &y : x.v) y = x.v[0]; return literal(x, x.size()); }
                default: return upload(x);
            }
        };
        va = mkv(A, t); vb = mkv(B, t);
        for (auto x : A.v) if (!std::isfinite(to_d(t, x))) return;
    }
    fill();
    // Reference (integers: exact in every order of summation, unless half precision overflows)
    Arr C(t, grid * M * N);
    uint32_t nd = b.n_bdims + b.n_rdims;
    for (size_t g = 0; g < grid; ++g) {
        size_t ao = 0, bo = 0, z = g;
        for (uint32_t d = 0; d < b.n_bdims; ++d) { size_t i = z % b.extent[d]; z /= b.extent[d]; ao += i * b.a_stride[d]; bo += i * b.b_stride[d]; }
        std::vector<double> acc((size_t) M * N, 0.0);
        for (size_t r = 0; r < reduce; ++r) {
            size_t ar = ao, br = bo; z = r;
            for (uint32_t d = b.n_bdims; d < nd; ++d) { size_t i = z % b.extent[d]; z /= b.extent[d]; ar += i * b.a_stride[d]; br += i * b.b_stride[d]; }
            for (size_t i = 0; i < M; ++i)
                for (size_t k = 0; k < K; ++k) {
                    double x = a[ar + (At ? k * M + i : i * K + k)];
                    if (x == 0) continue;
                    for (size_t j = 0; j < N; ++j) acc[i * N + j] += x * bb[br + (Bt ? j * K + k : k * N + j)];
                }
        }
        for (size_t i = 0; i < (size_t) M * N; ++i) C.v[g * M * N + i] = from_d(t, acc[i]);
    }
    std::string msg;
    if (var) {
        if (C.size() == 0) return;
        uint32_t r = 0;
        bool up = raises([&] { r = jit_var_batched_gemm(va.id(), vb.id(), At, Bt, M, N, K, batch ? &b : nullptr); }, &msg);
        if (up && !(At && Bt)) fail("jit_var_batched_gemm() raised: %s", msg.c_str());
        if (up) { s.tag("both transposed (rejected)"); return; }
        expect(steal(r), C, "jit_var_batched_gemm");
        expect(va, A, "operand A"); expect(vb, B, "operand B");
    } else {
        uint32_t sz = tsize(t);
        auto buf = [&](size_t n) { std::vector<uint8_t> v((n * sz + 63) / 64 * 64 + 192, 0xA5); return v; };
        auto pa = buf(A.size()), pb = buf(B.size()), pc = buf(C.size());
        auto al = [](std::vector<uint8_t> &v) { return (uint8_t *) (((uintptr_t) v.data() + 127) & ~(uintptr_t) 63); };
        memcpy(al(pa), A.bytes().data(), A.size() * sz); memcpy(al(pb), B.bytes().data(), B.size() * sz);
        auto ka = pa, kb = pb;
        bool up = raises([&] { jit_batched_gemm(BE, t, At, Bt, M, N, K, batch ? &b : nullptr, al(pa), al(pb), al(pc)); }, &msg);
        jit_sync_thread();
        if (up && !(At && Bt)) fail("jit_batched_gemm() raised: %s", msg.c_str());
        if (up) { s.tag("both transposed (rejected)"); return; }
        for (size_t i = 0; i < C.size(); ++i) {
            uint64_t x = 0; memcpy(&x, al(pc) + i * sz, sz);
            if (!same(t, x, C.v[i])) fail("jit_batched_gemm(): batch %zu, row %zu, column %zu is %s instead of %s", i / ((size_t) M * N), i / N % M, i % N, vstr(t, x).c_str(), vstr(t, C.v[i]).c_str());
        }
        uint8_t *e = al(pc);
        for (uint8_t *p = pc.data(); p < pc.data() + pc.size(); ++p) if ((p < e || p >= e + C.size() * sz) && *p != 0xA5) fail("jit_batched_gemm() wrote outside of the result");
        if (pa != ka || pb != kb) fail("jit_batched_gemm() modified its input");
    }
    if (M && N && K > 1) s.nontrivial();
    s.tag("products", grid * reduce);
    if (reduce > 1) s.tag("reduce dimensions");
    if (K == 0 || grid * reduce == 0) s.tag("empty");
    va.reset(); vb.reset();
    end_case();
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P18";
    p.rule = "A case multiplies matrices of integers (exact in every order) with random type, shape (1-140, occasionally beyond the K and N panel sizes, occasionally empty), transposition, and batch/reduction dimensions with "
             "contiguous, broadcast or overlapping strides, through the variable-level and the raw interface (guard bytes around the result), and compares all elements with a triple loop. Non-trivial: K > 1 and a non-empty result.";
    p.setup = init_process;
    p.run = run;
    return p;
}
