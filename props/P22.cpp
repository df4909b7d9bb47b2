// P22: asynchronous operations, host callbacks, events and reads in program order
#include "blocks.h"
using namespace blk;
using namespace vt;

namespace {
void run(Src &s) {
    std::vector<uint32_t> w(KCount, 0);
    w[KAlloc] = 6; w[KFree] = 4; w[KMemset] = 8; w[KCopy] = 10; w[KSyncCopy] = 2; w[KHostWrite] = 2; w[KHostCheck] = 1; w[KFunc] = 8; w[KMigrate] = 1;
    w[KSync] = 2; w[KKernel] = 8; w[KScatter] = 6; w[KRead] = 4; w[KReduce] = 6; w[KPrefix] = 4; w[KCompress] = 2; w[KMap] = 2; w[KMemCopy] = 4; w[KEvent] = 10; w[KProgress] = 6;
    if (s.chance(1, 20)) w[KFlushKernels] = 1;
    run_history(s, w, 15 + (uint32_t) s.below(thorough() ? 120 : 45), true);
}
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P22";
    p.rule = "Histories of kernels, scatters, copies, fills, reductions, prefix sums, compression, element reads, frees, host callbacks and events over a few memory blocks under an adversarial schedule (deterministic random "
             "interleaving, or worker threads). A model applies everything in issue order; host callbacks check their position and block contents, event queries and waits are compared with the number of callbacks that ran. "
             "Non-trivial: at least one host callback, one kernel and five asynchronous operations.";
    p.setup = [] { init_process(); };
    p.run = run;
    p.hang_s = 30;
    return p;
}
