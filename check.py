#!/usr/bin/env python3
"""Build the library from /repo's working tree and run the check of one property.

  check.py build                       build everything (setup)
  check.py P01 [--thorough]            run a check (tier also from VERIF_TIER)
  check.py P01 --replay FILE           replay a saved case
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.environ.get('VT_BUILD', os.path.join(V, 'build'))
# Flavors of each property (default: rel) and their share of the time
FLAVOR = { 'P21': ['rel', 'intense'], 'P26': ['rel', 'intense'], 'P23': ['tsan', 'intense'], 'P28': ['rel', 'intense'] }
def flavors(pid):
    return FLAVOR.get(pid, ['rel'])

def cc(n):
    return '/usr/bin/' + n if os.path.exists('/usr/bin/' + n) else n

def llvm():
    for p in ('/usr/lib/x86_64-linux-gnu/libLLVM-17.so.1', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1',
              '/usr/lib/llvm-18/lib/libLLVM.so.1'):
        if os.path.exists(p):
            return p
    return None

def build(flavor, targets):
    d = os.path.join(BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, 'log.txt')
    env = dict(os.environ)
    for k in ('CXXFLAGS', 'CFLAGS', 'LDFLAGS'):
        env.pop(k, None)
    cmds = [['cmake', '-G', 'Ninja', '-S', V, '-B', d, '-DVT_FLAVOR=' + flavor, '-DREPO=' + REPO,
             '-DCMAKE_CXX_COMPILER=' + cc('clang++'), '-DCMAKE_C_COMPILER=' + cc('clang')],
            ['ninja', '-C', d] + targets]
    with open(log, 'w') as f:
        for c in cmds:
            if subprocess.call(c, stdout=f, stderr=subprocess.STDOUT, env=env) != 0:
                f.flush()
                sys.stderr.write(open(log).read()[-4000:])
                sys.stderr.write('\nbuild failed\n')
                sys.exit(2)
    return d

def main():
    a = sys.argv[1:]
    props = sorted(f[:-4] for f in os.listdir(os.path.join(V, 'props')) if f.startswith('P') and f.endswith('.cpp'))
    if a[0] == 'build':
        for fl in sorted({f for p in props for f in flavors(p)}):
            build(fl, [p for p in props if fl in flavors(p)])
        return 0
    pid, rest = a[0], a[1:]
    fls = flavors(pid)
    if '--flavor' in rest:
        i = rest.index('--flavor'); fls = [rest[i + 1]]; del rest[i:i + 2]
    dirs = [build(fl, [pid]) for fl in fls]
    env = dict(os.environ)
    if llvm():
        env['DRJIT_LIBLLVM_PATH'] = llvm()
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_segv=1:detect_stack_use_after_return=0'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:second_deadlock_stack=1:suppressions=' + os.path.join(V, 'tsan.supp')
    replay = '--replay' in rest
    ev = os.path.join(V, 'evidence', pid + '.json')
    args = []
    if not replay:
        tier = 'thorough' if '--thorough' in rest or env.get('VERIF_TIER') == 'thorough' else 'quick'
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        if '--seed' not in rest:
            args += ['--seed', str(int(env.get('VERIF_SEED', '1') or 1))]
        args += ['--evidence', ev, '--replay-dir', os.path.join(V, 'replays')]
        if tier == 'thorough' and '--thorough' not in rest:
            args += ['--thorough']
    total = None
    for fl, d in zip(fls, dirs):
        if len(fls) > 1:
            print('[%s] build flavor: %s' % (pid, fl), flush=True)
        rv = subprocess.call([os.path.join(d, pid)] + args + rest, env=env)
        if not replay and len(fls) > 1 and os.path.exists(ev):
            cur = json.load(open(ev))
            c = cur['coverage']
            part = {fl: c['evaluations']}
            if total:
                t = total['coverage']
                for k in ('evaluations', 'distinct_nontrivial', 'batches', 'killed_batches', 'unreproduced', 'known_findings_seen'):
                    c[k] = c.get(k, 0) + t.get(k, 0)
                for k, n in t.get('classes', {}).items():
                    c['classes'][k] = c['classes'].get(k, 0) + n
                c['samples'] = t['samples'][:3] + c['samples'][:2]
                part.update(t['evaluations_by_build_flavor'])
                cur['wall_s'] += total['wall_s']
                cur['violations'] += total['violations']
            c['evaluations_by_build_flavor'] = part
            total = cur
            with open(ev, 'w') as f:
                json.dump(cur, f, indent=1)
        if rv != 0:
            return rv
    return 0

sys.exit(main())
