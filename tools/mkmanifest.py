#!/usr/bin/env python3
# Source of MANIFEST.json: claims every property that has a harness in props/
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': 'property-based testing: generated operation sequences vs. a scalar reference model',
 'P02': 'property-based testing: generated conversion chains vs. scalar conversion',
 'P03': 'metamorphic testing: one generated program under several configurations/cuts plus a scalar reference',
 'P04': 'property-based testing: generated gathers vs. an array model',
 'P05': 'stateful model-based testing: scatter/read histories vs. an array model',
 'P06': 'property-based testing over inputs and deterministic task schedules vs. an exact reduction model',
 'P07': 'property-based testing with a linearizability oracle over inputs and schedules',
 'P08': 'stateful model-based testing: histories over handles vs. a value-semantics model',
 'P09': 'generated loop programs vs. a per-lane interpreter',
 'P10': 'generated branch programs vs. a per-lane interpreter',
 'P11': 'generated call targets vs. a per-lane interpreter',
 'P12': 'stateful model-based testing of array variables vs. per-lane arrays',
 'P13': 'property-based testing over inputs, strategies and schedules vs. exact reference reductions',
 'P14': 'property-based testing over inputs and schedules vs. sorting/compaction oracle',
 'P15': 'property-based testing: structural operations vs. an array model, guard bytes around buffers',
 'P16': 'differential testing: replay of a generated recording vs. direct execution',
 'P17': 'differential testing of cooperative vectors vs. element-wise reference arithmetic',
 'P18': 'property-based testing: generated GEMM shapes vs. a reference product',
 'P19': 'stateful model-based testing of the registry vs. a map model, plus concurrent histories',
 'P20': 'stateful model-based testing of the allocator with pattern-filled blocks and controlled schedules',
 'P21': 'stateful testing with leak/use-after-free oracles over API histories and injected failures',
 'P22': 'schedule fuzzing with a deterministic task scheduler vs. program-order model',
 'P23': 'multi-threaded history fuzzing (thread sanitizer, address sanitizer), each thread checked against a sequential model',
 'P24': 'program-pair generation and cache-file fault injection vs. uncached results',
 'P25': 'exhaustive (half) and generated (single/double/int) inputs vs. a wide-precision reference',
 'P26': 'stateful model-based testing vs. the C++ standard library',
 'P27': 'invalid-request injection into generated histories with state-unchanged oracle',
 'P28': 'round-trip testing: print, parse and compare; listings vs. model',
 'P29': 'fault injection: generated out-of-bounds indices in debug mode vs. array model with guards',
}
NOTE = ('Generated-input search against an explicit oracle on the LLVM backend of the real library (clang build of /repo, LLVM 17 JIT at run time). '
        'Trusts the harness\' scalar models, LLVM, and the replacement thread pool/hash table in /verif. CUDA, Metal and OptiX code is out of reach here.')
have = {f[:3] for f in os.listdir(V + '/props') if f.endswith('.cpp')}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='./check.py build', checks=[], not_applicable=[])
for i in ids:
    if i in have:
        m['checks'].append(dict(property=i, quick_cmd='./check.py ' + i, thorough_cmd='./check.py %s --thorough' % i,
            technique=T[i], level='exploration', level_note=NOTE))
    else:
        m['not_applicable'].append(dict(property=i, reason='no check built yet'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
