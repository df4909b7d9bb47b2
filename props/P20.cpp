// P20: allocator histories against a byte-level model of all live blocks
#include "blocks.h"
using namespace blk;
using namespace vt;

namespace {
void run(Src &s) {
    std::vector<uint32_t> w(KCount, 0);
    w[KAlloc] = 24; w[KFree] = 22; w[KMemset] = 5; w[KCopy] = 10; w[KSyncCopy] = 1; w[KHostWrite] = 6; w[KHostCheck] = 3; w[KFunc] = 2; w[KMigrate] = 8;
    w[KFlush] = 1; w[KSync] = 2; w[KProgress] = 6; w[KMisuse] = 1; w[KStats] = 1; w[KMap] = 3;
    if (s.chance(1, 2)) { w[KKernel] = 4; w[KScatter] = 2; w[KMemCopy] = 2; w[KReduce] = 2; w[KPrefix] = 1; w[KCompress] = 1; }
    if (s.chance(1, 8)) w[KOom] = 1;
    run_history(s, w, 20 + (uint32_t) s.below(thorough() ? 160 : 60), false);
}
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P20";
    p.rule = "Histories of allocations (1-3 sizes per case, around powers of two, rarely above 2 MiB; host, LLVM and shared), releases while work is pending, migrations (copy and move), fills, copies, kernels, variables that own blocks, "
             "cache flushes, impossible requests and misuse under an adversarial schedule. A byte-level model holds the contents of every live block in program order; alignment, disjointness, contents, peak usage and the "
             "number of bytes held after a flush are compared. Non-trivial: a block was reused, work was pending, and a block was released meanwhile.";
    p.setup = [] { init_process(); };
    p.run = run;
    p.hang_s = 30;
    return p;
}
