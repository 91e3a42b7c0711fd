#!/usr/bin/env python3
"""seedcheck.py [-all] ID...: in a scratch copy of /repo and /verif, apply each
seeded change and run the check of its property (-all: every check)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = '-all' in args
ids = [a for a in args if a != '-all'] or sorted(os.listdir(V + '/seeded'))
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', VERIF_SEED='1')
d = '/tmp/seedcheck%d' % os.getpid()
os.makedirs(d + '/verif/evidence')
subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
for x in ('harness', 'checks.json', 'known_findings.json'):
    subprocess.run(['cp', '-a', V + '/' + x, d + '/verif/'], check=True)
p = d + '/verif/harness/go.mod'
s = open(p).read().replace('=> /repo', '=> ' + d + '/repo')
open(p, 'w').write(s)
try:
    for i in ids:
        m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        subprocess.run(['git', '-C', d + '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], check=True)
        ps = [m['property']]
        if allc: ps = [c['id'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if False else ['C%02d' % k for k in range(1, 24)]
        for q in ps:
            t = time.time()
            r = subprocess.run([V + '/bin/engine', '-verif', d + '/verif', '-prop', q, '-tier', 'quick', '-workers', os.environ.get('W', '4'), '-budget', '800'], env=env, cwd=d, capture_output=True, text=True)
            o = r.stdout + r.stderr
            if not allc or r.returncode:
                print(i, q, 'rc=%d' % r.returncode, '%.0fs' % (time.time() - t), 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + q in o else 'MISSED', flush=True)
                if r.returncode not in (0, 1): print(o[-600:])
        subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
