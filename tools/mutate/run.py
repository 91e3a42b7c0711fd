#!/usr/bin/env python3
"""Mutation campaign (development aid): run.py OUT LANES N SEED FILE... 
Applies mutants in scratch copies of /repo, and runs the checks on those that
pass the tests. Results: one JSON line each in OUT."""
import json, os, random, shutil, subprocess, sys, threading, queue
out, lanes, n, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', VERIF_SEED='1')
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(here))
ORDER = os.environ.get('ORDER', 'C12 C18 C13 C01 C02 C04 C05 C09 C16 C21 C17 C11 C03 C06 C19 C20 C07 C08 C15 C14 C10').split()
base = '/tmp/mutate'
os.makedirs(base, exist_ok=True)
subprocess.run(['go', 'build', '-o', base + '/mut', '.'], cwd=here, env=env, check=True)
muts = []
for f in files:
    for l in subprocess.run([base + '/mut', f], cwd='/repo', capture_output=True, text=True, check=True).stdout.splitlines():
        m = json.loads(l)
        ln = open('/repo/' + f, 'rb').read().split(b'\n')[m['Line'] - 1]
        if b'panic(' in ln or m['Op'].startswith('str') and (b'Errorf' in ln or b'errors.New' in ln or b'Println("unh' in ln or b'TypeName' in ln or b'Err' in ln): continue
        if m['Fn'].startswith('encode') and b'err' in open('/repo/' + f, 'rb').read()[m['From']:m['To']]: continue # writes to buffers do not fail
        muts.append(m)
random.Random(seed).shuffle(muts)
muts = muts[:n]
print(len(muts), 'mutants')
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r['File'], r['From'], r['To'], r['New']))
q = queue.Queue()
for m in muts:
    if (m['File'], m['From'], m['To'], m['New']) not in done: q.put(m)
lock = threading.Lock()
def lane(i):
    d = '%s/%d' % (base, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    os.makedirs(d + '/verif/evidence')
    for x in ('harness', 'checks.json', 'known_findings.json'):
        subprocess.run(['cp', '-a', V + '/' + x, d + '/verif/'], check=True)
    p = d + '/verif/harness/go.mod'
    s = open(p).read().replace('=> /repo', '=> ' + d + '/repo')
    open(p, 'w').write(s)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        src = open('/repo/' + m['File'], 'rb').read()
        t = d + '/repo/' + m['File']
        open(t, 'wb').write(src[:m['From']] + m['New'].encode() + src[m['To']:])
        m['Old'] = src[m['From']:m['To']].decode()
        def run(c, to, cwd):
            try:
                r = subprocess.run(c, cwd=cwd, env=env, capture_output=True, text=True, errors='replace', timeout=to)
                return r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired: return 99, 'timeout'
        rc, o = run(['go', 'build', './...'], 120, d + '/repo')
        if rc: m['Result'] = 'nobuild'
        else:
            rc, o = run(['go', 'test', './...'], 60, d + '/repo')
            if rc: m['Result'] = 'tests'
            else:
                m['Result'] = 'SURVIVED'
                for c in ORDER:
                    rc, o = run([V + '/bin/engine', '-verif', d + '/verif', '-prop', c, '-tier', 'quick', '-workers', os.environ.get('W', '2'), '-budget', '400'], 800, d)
                    if rc == 1 and 'VIOLATION' in o:
                        m['Result'] = c; m['Why'] = o[:300]; break
                    if rc:
                        m.setdefault('Odd', []).append((c, rc, o[-300:]))
        open(t, 'wb').write(src)
        with lock:
            open(out, 'a').write(json.dumps(m) + '\n')
ts = [threading.Thread(target=lane, args=(i,)) for i in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base, ignore_errors=True)
