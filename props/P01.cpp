// P01: element-wise operations against a scalar reference
#include "jx.h"
using namespace jx;

static const std::vector<JitOp> op_list{
    JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::Div, JitOp::Mod, JitOp::MulHi, JitOp::MulWide, JitOp::Fma,
    JitOp::Neg, JitOp::Not, JitOp::Abs, JitOp::Sqrt, JitOp::Min, JitOp::Max, JitOp::FMin, JitOp::FMax, JitOp::Copysign,
    JitOp::Ceil, JitOp::Floor, JitOp::Round, JitOp::Trunc, JitOp::Eq, JitOp::Neq, JitOp::Lt, JitOp::Le, JitOp::Gt, JitOp::Ge,
    JitOp::Select, JitOp::Popc, JitOp::Clz, JitOp::Ctz, JitOp::Brev, JitOp::And, JitOp::Or, JitOp::Xor, JitOp::Shl, JitOp::Shr,
    JitOp::Rcp, JitOp::Rsqrt };

namespace {
struct Item { Var v; Arr a; bool chain = true; Form form = Memory; };
struct Check { Var v; Arr want; uint32_t ulp = 0; std::vector<uint8_t> any; std::string what; };
}

static void run(Src &s) {
    Config cfg = gen_config(s);
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    bool fm = cfg.flags & (uint32_t) JitFlag::FastMath;
    size_t n = s.weighted({ 1, 6, 3 }) == 0 ? 1 : (size_t) s.small(2, thorough() ? 300 : 80);
    std::vector<VarType> types;
    size_t nt = 1 + s.below(3);
    for (size_t i = 0; i < nt; ++i) types.push_back(s.pick(all_types()));

    std::vector<Item> pool;
    std::vector<Check> checks;
    size_t nops = 2 + s.below(14), literal_mix = 0, special = 0;

    auto operand = [&](VarType t, bool allow_chain) -> Item {
        if (!pool.empty() && s.chance(2, 5)) {
            std::vector<size_t> c;
            for (size_t i = 0; i < pool.size(); ++i)
                if (pool[i].a.t == t && (allow_chain || pool[i].form != FormCount)) c.push_back(i);
            if (!c.empty()) { special++; return pool[c[s.below(c.size())]]; }
        }
        Item it;
        it.form = gen_form(s);
        if (it.form == Literal || it.form == LiteralN || it.form == Scalar) {
            uint64_t v = gen_value(s, t);
            it.a = Arr(t, it.form == LiteralN ? n : 1, v);
        } else {
            it.a = gen_arr(s, t, n);
        }
        it.v = make(s, it.a, it.form);
        if (it.form == Literal || it.form == LiteralN) literal_mix++;
        pool.push_back(it);
        return it;
    };

    for (size_t k = 0; k < nops; ++k) {
        VarType t = s.pick(types);
        std::vector<JitOp> cand;
        for (JitOp o : op_list) if (op_supports(o, t)) cand.push_back(o);
        JitOp op = s.pick(cand);
        uint32_t ar = op_arity(op);
        std::vector<Item> in;
        // Bitwise operation with a mask as second operand
        bool masked = (op == JitOp::And || op == JitOp::Or) && s.chance(1, 3);
        bool same_ops = ar >= 2 && op != JitOp::Select && s.chance(1, 8);
        for (uint32_t i = 0; i < ar; ++i) {
            VarType ti = (op == JitOp::Select && i == 0) || (masked && i == 1) ? VarType::Bool : t;
            if (i > 0 && same_ops && ti == t) in.push_back(in[0]);
            else in.push_back(operand(ti, true));
        }
        // Steer the last operand into the domain of the operation
        if (op == JitOp::Shl || op == JitOp::Shr || op == JitOp::Div || op == JitOp::Mod) {
            Item &b = in[1];
            bool ok = true;
            size_t m = std::max(in[0].a.size(), b.a.size());
            for (size_t i = 0; i < m; ++i) {
                uint64_t a[3] = { in[0].a.at(i), b.a.at(i), 0 }, out;
                ok &= ref_op(op, t, a, out);
            }
            if (!ok) {
                Item c;
                c.form = gen_form(s);
                bool uni = c.form == Literal || c.form == LiteralN || c.form == Scalar;
                c.a = Arr(t, c.form == Literal || c.form == Scalar ? 1 : n);
                auto g = [&]() -> uint64_t {
                    if (op == JitOp::Shl || op == JitOp::Shr) return s.below(tsize(t) * 8);
                    uint64_t v = gen_value(s, t);
                    bool minus1 = is_signed(t) && v == from_i(t, -1);
                    return v == 0 || minus1 ? from_i(t, 1 + (int64_t) s.below(9)) : v;
                };
                if (uni) { uint64_t v = g(); for (auto &x : c.a.v) x = v; }
                else for (auto &x : c.a.v) x = g();
                c.v = make(s, c.a, c.form);
                pool.push_back(c);
                in[1] = c;
            }
        }
        size_t m = 1;
        for (auto &i : in) m = std::max(m, i.a.size());
        VarType rt = op_result(op, t);
        Check c;
        c.want = Arr(rt, m);
        c.any.resize(m, 0);
        bool undefined_domain = false, chain = true;
        for (size_t i = 0; i < m; ++i) {
            uint64_t a[3] = { 0, 0, 0 }, out = 0;
            for (uint32_t j = 0; j < ar; ++j) a[j] = in[j].a.at(i);
            if (masked) {
                uint64_t ones = tsize(t) == 8 ? ~0ull : ((1ull << (tsize(t) * 8)) - 1);
                if (is_bool(t)) ones = 1;
                out = op == JitOp::And ? (a[1] ? a[0] : 0) : (a[1] ? ones : a[0]);
            } else if (!ref_op(op, t, a, out)) {
                undefined_domain = true; c.any[i] = 1;
            }
            c.want.v[i] = out;
            // With FastMath, a multiplication by a literal zero may ignore
            // infinities and NaNs in the other factor
            if (is_float(t) && fm && (op == JitOp::Mul || op == JitOp::Fma) && fnan(t, out)) c.any[i] = 1;
            if (is_float(rt) && (fnan(rt, out) || fzero(rt, out))) chain = false;
        }
        if (undefined_domain) chain = false;
        // Approximate results
        if (op == JitOp::Rsqrt) {
            c.ulp = t == VarType::Float16 ? 2 : 4;
            chain = false;
            for (size_t i = 0; i < m; ++i) {
                double x = to_d(t, in[0].a.at(i));
                // the reciprocal of denormals / huge values over- or underflows
                double lo = t == VarType::Float16 ? 6.2e-5 : t == VarType::Float32 ? 1.2e-38 : 2.3e-308, hi = 0.5 / lo;
                if (!(x >= lo && x <= hi) && !(x != x) && !(x < -lo && std::isfinite(x))) c.any[i] = 1;
                if (t == VarType::Float16 && (x > 16000 || x < 1e-3)) c.any[i] |= 1; // range of the intermediate reciprocal
            }
        }
        bool div_lit = op == JitOp::Div && is_float(t) && t != VarType::Float16 && jit_var_state(in[1].v.id()) == VarState::Literal;
        if (div_lit) {
            c.ulp = 2; chain = false;
            for (size_t i = 0; i < m; ++i) {
                double y = to_d(t, in[1].a.at(i)), z = to_d(t, c.want.v[i]);
                double lo = t == VarType::Float32 ? 1.2e-38 : 2.3e-308;
                // 1/y must be a normal number, and so must the result
                if (!(std::fabs(y) >= 4 * lo && std::fabs(y) <= 0.2 / lo) || !(std::fabs(z) >= 4 * lo) || !std::isfinite(z)) c.any[i] = 1;
            }
        }
        std::vector<Arg> av;
        std::string txt = strf("%s<%s>(", op_name(op), tname(t));
        for (auto &i : in) { av.push_back(i.v); txt += strf("%s%s %s", &i == &in[0] ? "" : ", ", i.form == FormCount ? "result" : form_name(i.form), i.a.str(8).c_str()); }
        txt += masked ? ") masked" : ")";
        s.note("%s", txt.c_str());
        c.v = jit_op(op, av);
        c.what = txt;
        s.tag(strf("op %s", op_name(op)).c_str());
        s.tag(strf("type %s", tname(t)).c_str());
        if (chain && s.chance(2, 3)) pool.push_back({ c.v, c.want, true, FormCount });
        checks.push_back(std::move(c));
        if (s.chance(1, 10)) jit_eval();
    }
    for (auto &c : checks) jit_var_schedule(c.v.id());
    if (s.flip()) jit_eval();
    for (auto &c : checks) {
        Arr got = fetch(c.v);
        if (got.t != c.want.t) fail("%s: result type %s", c.what.c_str(), tname(got.t));
        if (got.size() != c.want.size()) fail("%s: result size %zu instead of %zu", c.what.c_str(), got.size(), c.want.size());
        for (size_t i = 0; i < got.size(); ++i) {
            if (c.any[i]) continue;
            bool ok = same(got.t, got.v[i], c.want.v[i]) || (c.ulp && ulps(got.t, got.v[i], c.want.v[i]) <= c.ulp);
            if (!ok) fail("%s: lane %zu is %s instead of %s", c.what.c_str(), i, vstr(got.t, got.v[i]).c_str(), vstr(got.t, c.want.v[i]).c_str());
            s.tag("lanes compared");
        }
        // element access agrees with bulk access
        if (s.chance(1, 4)) {
            uint64_t off = s.below(got.size()), x = 0;
            jit_var_read(c.v.id(), off, &x);
            if (x != got.v[off]) fail("%s: jit_var_read(%lu) disagrees with the data", c.what.c_str(), (unsigned long) off);
        }
    }
    if (literal_mix || special) s.nontrivial();
    pool.clear(); checks.clear();
    end_case();
}

vt::Property vt::make_property() {
    Property p;
    p.id = "P01";
    p.rule = "A case draws a configuration (SIMD width, block size, threads, task order, flags), 1-3 element types and 2-15 operations whose operands are "
             "literals, size-1 values, evaluated arrays, lazy expressions or earlier results with special and random bit patterns, and compares every lane with a "
             "scalar reference. Non-trivial: at least one operand is a literal or shared with another operation; distinct by decision sequence.";
    p.setup = init_process;
    p.run = run;
    p.assumptions = { "LLVM backend with targets haswell/skylake-avx512; denormals are not flushed",
        "integer division by zero, signed overflow of division and abs, shifts by >= width are outside the domain",
        "with FastMath a product whose reference is NaN is not compared (multiplication by literal zero)" };
    return p;
}
