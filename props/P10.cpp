// P10: symbolic conditionals against per-lane branch selection
#include "prog.h"
using namespace prog;
static void run(Src &s) {
    Gen g;
    g.ifs = 20; g.loops = 1; g.calls = 1; g.side = 3; g.stmts = 4 + (uint32_t) s.below(5);
    g.depth = 1 + (uint32_t) s.below(3);
    Model m = check_program(s, g, "conditional");
    if (m.taken && m.not_taken) s.nontrivial();
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P10";
    p.rule = "Random structured programs (typed operations, casts, masked gathers, captured scalars, scatters and scatter-reductions; "
             "loops, conditionals and indirect calls nested up to three levels) are traced symbolically and evaluated under a random "
             "flag/width/block/thread/schedule configuration, partly cut by intermediate evaluations, and compared lane by lane with an "
             "interpreter that runs every lane on its own; afterwards no variable may be alive. Non-trivial: some lanes take the true and others the false branch.";
    p.setup = init_process;
    p.run = run;
    return p;
}
