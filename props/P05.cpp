// P05: scatters write exactly the addressed elements, in program order
#include "hist.h"
using namespace jx;

static void run(Src &s) {
    Config cfg = gen_config(s);
    if (s.chance(1, 12)) cfg.flags |= (uint32_t) JitFlag::Debug;
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    HistGen g;
    g.packet = 4; g.max_n = thorough() ? 600 : 150;
    Hist h(s, g);
    size_t k = 1 + s.below(3);
    VarType shared = s.pick(all_types());
    for (size_t i = 0; i < k; ++i) {
        size_t n = s.chance(1, 10) ? 1 : s.chance(1, 2) ? (1 + s.below(thorough() ? 60 : 12)) * s.pick<size_t>({ 2, 4, 8, 16, 24 }) : (size_t) s.small(2, g.max_n);
        h.create(s.chance(1, 3) ? s.pick(all_types()) : shared, n);
    }
    size_t steps = 4 + s.below(14);
    for (size_t i = 0; i < steps; ++i) h.step();
    if (h.mods >= 2 && h.reads) s.nontrivial();
    s.tag("scatters", h.mods);
    s.tag("conflicting cells", h.conflicts);
    h.finish();
}

vt::Property vt::make_property() {
    Property p;
    p.id = "P05";
    p.rule = "A case creates 1-3 arrays (evaluated, literal, lazy, mapped, computed) and applies 4-17 operations: plain and packet scatters (2-16 components, every mode, index type and "
             "value/mask/index form, values gathered from the target itself), gathers, arithmetic, handle copies, element reads/writes, evaluations. After each read-back and at the end every "
             "handle must equal the array model (elements written by several lanes: one of the candidates), without leaks. Non-trivial: at least two modifications and one read in between.";
    p.setup = init_process;
    p.run = run;
    return p;
}
