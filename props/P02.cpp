// P02: conversions and reinterpreting casts against the scalar conversion
#include "jx.h"
using namespace jx;

namespace {
struct Check { Var v; Arr want; std::vector<uint8_t> any; std::string what; };
}

/// Is it fine to see 'got' for this conversion? (double rounding: int64/double -> half)
static bool cast_ok(VarType from, VarType to, uint64_t src, uint64_t got, uint64_t want) {
    if (same(to, got, want)) return true;
    if (to == VarType::Float16 && tsize(from) == 8) { // direct conversion, one rounding
        double d = 0; uint64_t alt = 0;
        if (from == VarType::Float64) d = ld<double>(src);
        else if (from == VarType::Int64) d = (double) (int64_t) src; // exact wherever the result is finite
        else d = (double) src;
        alt = st<h16>((h16) d);
        return same(to, got, alt);
    }
    return false;
}

static void run(Src &s) {
    Config cfg = gen_config(s);
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    size_t n = s.chance(1, 8) ? 1 : (size_t) s.small(2, thorough() ? 300 : 90);
    std::vector<Check> checks;
    size_t k = 2 + s.below(8);
    bool nt = false;
    for (size_t j = 0; j < k; ++j) {
        VarType from = s.pick(all_types()), to = s.pick(all_types());
        Form form = gen_form(s);
        Arr a = (form == Literal || form == Scalar || form == LiteralN) ? Arr(from, form == LiteralN ? n : 1, gen_value(s, from)) : gen_arr(s, from, n);
        bool reint = s.chance(1, 5) && (is_bool(from) == is_bool(to)) && tsize(from) == tsize(to);
        // Values close to the limits of the conversion
        if (is_float(from) && s.chance(1, 2)) {
            int digits = to == VarType::Float16 ? 11 : to == VarType::Float32 ? 24 : is_int(to) ? (int) tsize(to) * 8 : 20;
            Src q(s.bits());
            bool uni = form == Literal || form == Scalar || form == LiteralN;
            uint64_t first = 0;
            for (size_t i = 0; i < a.size(); ++i) {
                double m;
                switch (q.below(4)) {
                    case 0: m = std::ldexp((double) (q.bits() >> 11), -52 + (int) q.range(-16, digits)); break;   // anything in range
                    case 1: m = std::ldexp((double) (2 * q.below(1 << 12) + 1), (int) q.range(-26, 6)); break;      // half-way cases
                    case 2: m = std::ldexp(1.0, (int) q.range(0, digits)) - q.below(3) * 0.5; break;              // near powers of two
                    default: m = (double) q.below(300) * 0.5;
                }
                if (q.flip()) m = -m;
                a.v[i] = from_d(from, m);
                if (uni) { if (i == 0) first = a.v[0]; a.v[i] = first; }
            }
        }
        Check c;
        Var src = make(s, a, form);
        std::string what = strf("%s %s", form_name(form), a.str(8).c_str());
        Arr cur = a;
        bool rounded = false;
        if (is_float(from) && !reint) while (s.flip()) { // rounding operations in front
            JitOp r = s.pick({ JitOp::Floor, JitOp::Ceil, JitOp::Round, JitOp::Trunc });
            Var p = jit_op(r, { src });
            for (auto &x : cur.v) { uint64_t o; uint64_t in[3] = { x, 0, 0 }; ref_op(r, from, in, o); x = o; }
            what = strf("%s(%s)", op_name(r), what.c_str());
            if (s.chance(1, 4)) { jit_var_eval(p.id()); what += " [evaluated]"; }
            else rounded = true;
            src = p;
        }
        if (reint) {
            c.v = steal(jit_var_cast(src.id(), to, 1));
            c.want = cur; c.want.t = to;
        } else {
            c.v = steal(jit_var_cast(src.id(), to, 0));
            c.want = Arr(to, cur.size());
        }
        c.any.assign(cur.size(), 0);
        std::vector<uint64_t> srcv = cur.v;
        for (size_t i = 0; i < cur.size() && !reint; ++i)
            if (!ref_cast(from, to, cur.v[i], c.want.v[i])) c.any[i] = 1;
        c.what = strf("%s<%s>(%s)", reint ? "reinterpret" : "cast", tname(to), what.c_str());
        s.note("%s", c.what.c_str());
        bool chain = true;
        for (uint8_t x : c.any) chain &= !x;
        for (size_t i = 0; i < cur.size(); ++i) { if (is_float(to) && fnan(to, c.want.v[i])) chain = false; }
        if (!reint && to == VarType::Float16 && tsize(from) == 8) chain = false;
        // Mismatched reinterpretation is rejected
        VarType bad = s.pick(all_types());
        if ((is_bool(bad) ? 0 : tsize(bad)) != (is_bool(from) ? 0 : tsize(from))) {
            uint32_t r = 0;
            bool ok = raises([&] { r = jit_var_cast(src.id(), bad, 1); });
            if (!ok) { jit_var_dec_ref(r); fail("reinterpret from %s to %s did not raise an exception", tname(from), tname(bad)); }
        }
        if (rounded || reint || form == Literal || form == LiteralN) nt = true;
        s.tag(strf("%s to %s", tname(from), tname(to)).c_str());
        Check d;
        if (chain && s.chance(1, 3)) { // and onwards
            VarType t3 = s.pick(all_types());
            d.v = steal(jit_var_cast(c.v.id(), t3, 0));
            d.want = Arr(t3, cur.size()); d.any.assign(cur.size(), 0);
            for (size_t i = 0; i < cur.size(); ++i) {
                if (!ref_cast(to, t3, c.want.v[i], d.want.v[i])) d.any[i] = 1;
                if (t3 == VarType::Float16 && tsize(to) == 8) d.any[i] = 1;
                if (is_float(to) && fzero(to, c.want.v[i])) d.any[i] |= 0;
            }
            d.what = strf("cast<%s>(%s)", tname(t3), c.what.c_str());
            nt = true;
        }
        // double rounding: accept either
        if (!reint && to == VarType::Float16 && tsize(from) == 8) {
            Arr got = fetch(c.v);
            for (size_t i = 0; i < got.size(); ++i)
                if (!cast_ok(from, to, srcv[i], got.v[i], c.want.v[i]))
                    fail("%s: lane %zu: %s gives %s instead of %s", c.what.c_str(), i, vstr(from, srcv[i]).c_str(), vstr(to, got.v[i]).c_str(), vstr(to, c.want.v[i]).c_str());
            c.any.assign(cur.size(), 1);
        }
        checks.push_back(std::move(c));
        if (d.v) checks.push_back(std::move(d));
    }
    for (auto &c : checks) jit_var_schedule(c.v.id());
    if (s.flip()) jit_eval();
    for (auto &c : checks) {
        Arr got = fetch(c.v);
        if (got.t != c.want.t) fail("%s: result type %s", c.what.c_str(), tname(got.t));
        if (got.size() != c.want.size()) fail("%s: result size %zu instead of %zu", c.what.c_str(), got.size(), c.want.size());
        for (size_t i = 0; i < got.size(); ++i)
            if (!c.any[i]) {
                if (!same(got.t, got.v[i], c.want.v[i]))
                    fail("%s: lane %zu is %s instead of %s", c.what.c_str(), i, vstr(got.t, got.v[i]).c_str(), vstr(got.t, c.want.v[i]).c_str());
                s.tag("lanes compared");
            }
    }
    if (nt) s.nontrivial();
    checks.clear();
    end_case();
}

vt::Property vt::make_property() {
    Property p;
    p.id = "P02";
    p.rule = "A case draws a configuration and 2-9 conversions (source type, target type, operand form, optional preceding rounding operations, optional reinterpretation, "
             "optional second conversion) on special, half-way and range-limit values; each lane is compared with the C++ conversion. Also attempts a size-changing "
             "reinterpretation, which must raise. Non-trivial: involves a literal, a rounding operation, a reinterpretation or a chain; distinct by decision sequence.";
    p.setup = init_process;
    p.run = run;
    p.assumptions = { "float to integer conversions of NaN, infinities and values outside of the target range are not compared",
        "64-bit sources converted to half may be rounded directly or through single precision",
        "the sign of zero and NaN payloads are not compared" };
    return p;
}
