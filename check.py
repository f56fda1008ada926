#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [more runner arguments]
check.py --replay FILE
Builds the harness from /repo's working tree and decides one property.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
# Properties whose checks run entirely under AddressSanitizer; the others run a
# share of their cases under it and the rest in a plain (faster) build with
# poisoned malloc.
ASAN_ONLY = {'C10', 'C13', 'C14', 'C15', 'C18', 'C20', 'C23', 'C24', 'C26'}
ASAN_SHARE = 0.05

def merge(a, b):
    c, d = a['coverage'], b['coverage']
    for k in ('evaluations', 'discarded', 'distinct_nontrivial'): c[k] += d[k]
    c['time_capped'] = c['time_capped'] or d['time_capped']
    for k, x in d['checks'].items():
        y = c['checks'].setdefault(k, dict.fromkeys(x, 0))
        for f in x: y[f] += x[f]
    for k, x in d['classes'].items(): c['classes'][k] = c['classes'].get(k, 0) + x
    c['samples'] += d['samples']
    a['wall_s'] = round(a['wall_s'] + b['wall_s'], 3)
    a['violations'] += b['violations']
    return a

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    scale = 1.0; rest = []
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--seed': seed = a.pop(0)
        elif x == '--scale': scale = float(a.pop(0))
        else: rest.append(x)
    b = subprocess.run([V + '/build.sh'], stdout=subprocess.PIPE)
    if b.returncode:
        print('build failed', file=sys.stderr); return 2
    B = b.stdout.decode().strip().splitlines()[-1]
    repo = os.environ.get('VP_REPO', '/repo')
    os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replays', exist_ok=True)
    if pid == '--replay':
        plain = 'variant plain' in open(rest[0]).read()
        return subprocess.run([B + ('/vpp' if plain else '/vp'), '--repo', repo, '--build', B, '--replay'] + rest).returncode
    for l in open(V + '/known_findings.txt'):
        l = l.strip()
        if l.startswith('known: property=%s ' % pid):
            print('KNOWN-FINDING: ' + l[len('known: '):])
    sys.stdout.flush()
    evid = '%s/evidence/%s.json' % (V, pid)
    n = int(seed)
    if pid in ASAN_ONLY: runs = [('vp', scale, n)]
    else: runs = [('vp', scale * ASAN_SHARE, n + 1000003), ('vpp', scale, n)]
    out = None
    for i, (exe, sc, sd) in enumerate(runs):
        cap = (9000 if tier == 'thorough' else 600) / (6 if len(runs) == 2 and i == 0 else 1)
        tmp = evid + '.part'
        cmd = [B + '/' + exe, '--prop', pid, '--tier', tier, '--seed', str(sd), '--scale', str(sc), '--evidence', tmp,
               '--replaydir', V + '/replays', '--repo', repo, '--build', B, '--cap', str(int(cap))] + rest
        rc = subprocess.run(cmd).returncode
        if rc not in (0, 1): return rc
        e = json.load(open(tmp)); os.unlink(tmp)
        out = e if out is None else merge(out, e)
        out['seed'] = n
        json.dump(out, open(evid, 'w'), indent=1)
        if rc: return rc
    return 0
sys.exit(main())
