// P11: indirect calls against direct calls per lane
#include "prog.h"
using namespace prog;
static void run(Src &s) {
    Gen g;
    g.calls = 20; g.loops = 1; g.ifs = 1; g.side = 3; g.stmts = 3 + (uint32_t) s.below(5);
    g.depth = 1 + (uint32_t) s.below(3);
    Model m = check_program(s, g, "call");
    if (m.dispatched) s.nontrivial();
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P11";
    p.rule = "Random structured programs (typed operations, casts, masked gathers, captured scalars, scatters and scatter-reductions; "
             "loops, conditionals and indirect calls nested up to three levels) are traced symbolically and evaluated under a random "
             "flag/width/block/thread/schedule configuration, partly cut by intermediate evaluations, and compared lane by lane with an "
             "interpreter that runs every lane on its own; afterwards no variable may be alive. Non-trivial: at least one lane dispatches to a function.";
    p.setup = init_process;
    p.run = run;
    return p;
}
