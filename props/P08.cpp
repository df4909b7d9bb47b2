// P08: operations on one handle never change what another one refers to
#include "hist.h"
using namespace jx;

static void run(Src &s) {
    Config cfg = gen_config(s);
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    HistGen g;
    g.scatter = 5; g.packet = 2; g.gather = 3; g.fork = 5; g.drop = 2; g.eval = 2; g.write = 5; g.expr = 4; g.fetch = 1; g.structural = 7; g.stash = 4;
    if (s.chance(1, 4)) g.reduce = 4;
    g.max_n = thorough() ? 200 : 60;
    Hist h(s, g);
    VarType shared = s.pick(all_types());
    size_t k = 1 + s.below(2);
    for (size_t i = 0; i < k; ++i) {
        size_t n = s.chance(1, 6) ? 1 : s.chance(1, 2) ? (1 + s.below(6)) * s.pick<size_t>({ 2, 4, 8, 16 }) : (size_t) s.small(2, g.max_n);
        h.create(s.chance(1, 4) ? s.pick(all_types()) : shared, n);
    }
    size_t steps = 5 + s.below(16);
    for (size_t i = 0; i < steps; ++i) h.step();
    if (h.mods && h.kept_old + h.reads >= 2) s.nontrivial();
    s.tag("modifications", h.mods);
    s.tag("handle copies", h.kept_old);
    h.finish();
}

vt::Property vt::make_property() {
    Property p;
    p.id = "P08";
    p.rule = "A case creates 1-2 arrays and applies 5-20 operations: handle copies, views and other structural operations (shrink, reverse, tile, repeat, resize, copies, forced evaluation), "
             "pending computations and gathers, in-place capable modifications (scatters, packet scatters, reductions, element writes; some of them after stashing the references like control flow operations do), evaluations, dropped handles. All handles keep their own model "
             "contents, compared at every read-back and at the end. Non-trivial: a modification and at least two derived handles or reads.";
    p.setup = init_process;
    p.run = run;
    return p;
}
