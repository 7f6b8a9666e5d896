#!/usr/bin/env python3
"""run.py tests|checks MUTANTS.jsonl OUT.jsonl [-j N] [--secs S] [--files a.go,b.go] [--every K]
tests: which mutants build and pass the stable tests. checks: which of these some check reports."""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf, argparse
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', GOTOOLCHAIN='local', GOPROXY='off',
           GOFLAGS='-mod=mod', GO111MODULE='on', GOWORK='off', GOSUMDB='off', HOME='/root', GOMAXPROCS='2')
ap = argparse.ArgumentParser(); ap.add_argument('stage'); ap.add_argument('inp'); ap.add_argument('out'); ap.add_argument('-j', type=int, default=8)
ap.add_argument('--secs', default='4'); ap.add_argument('--files', default=''); ap.add_argument('--every', type=int, default=1); ap.add_argument('--props', default='')
ap.add_argument('--workers', default='1'); ap.add_argument('--skip', default='')
A = ap.parse_args()
ROOT = '/tmp/mut'; os.makedirs(ROOT, exist_ok=True)
CLEAN = ROOT + '/clean'
shutil.rmtree(CLEAN, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', CLEAN]); shutil.rmtree(CLEAN + '/.git')
for f in ('go.mod', 'go.sum'): shutil.copy('/opt/vp/gomod/' + f, CLEAN)
STABLE = set(t.split('/')[-1] if False else t for t in [])
def passing(overlay, tmp):
    try:
        r = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '60s'] + (['-overlay', overlay] if overlay else []) + ['.'],
                       cwd=CLEAN, env=dict(ENV, TMPDIR=tmp), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    except subprocess.TimeoutExpired: return set(), False
    ok = set(); built = False
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Test'): built = True
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Test'])
    return ok, built
def mutated(m):
    s = open(f'/repo/{m["file"]}', 'rb').read()
    a, b = m['from'], m['to']
    assert s[a:b].decode('utf-8') == m['old'], m
    return s[:a] + m['new'].encode() + s[b:]
def do_tests(m):
    t = tempfile.mkdtemp(dir=ROOT)
    try:
        open(t + '/m.go', 'wb').write(mutated(m))
        json.dump({'Replace': {f'{CLEAN}/{m["file"]}': t + '/m.go'}}, open(t + '/o.json', 'w'))
        ok, built = passing(t + '/o.json', t)
        m['built'] = built; m['fails'] = len(base - ok)
    finally: shutil.rmtree(t, ignore_errors=True)
    return m
def do_checks(m):
    t = tempfile.mkdtemp(dir=ROOT)
    try:
        src = t + '/src'; subprocess.run(['cp', '-a', CLEAN, src])
        open(f'{src}/{m["file"]}', 'wb').write(mutated(m))
        r = subprocess.run(['bash', '/verif/build.sh', t + '/w'], env=dict(ENV, SIM_SRC=src), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: m['caught'] = ['BUILD']; m['log'] = r.stdout[-300:]; return m
        m['caught'] = []; m['log'] = ''
        for p in (A.props.split(',') if A.props else ['C%02d' % i for i in range(1, 15)]):
            os.makedirs(t + '/t', exist_ok=True)
            try:
                r = subprocess.run([t + '/w/simcheck', 'check', '-property', p, '-tier', 'quick', '-seed', '1', '-seconds', A.secs, '-workers', A.workers, '-evidence', t + '/e.json', '-replays', t + '/r', '-tmp', t + '/t', '-known', '/verif/known-findings.txt', '-level', 'exploration'],
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=300)
            except subprocess.TimeoutExpired: m['log'] += p + ' TIMEOUT '; continue
            if r.returncode == 1: m['caught'].append(p); m['log'] += '\n'.join(l for l in r.stdout.splitlines() if ': ' in l)[:300] + '\n'
            elif r.returncode: m['log'] += f'{p} rc={r.returncode} ' + r.stdout[-300:]
            if m['caught']: break
    finally: shutil.rmtree(t, ignore_errors=True)
    return m
ms = [json.loads(l) for l in open(A.inp)]
if A.files: ms = [m for m in ms if m['file'] in A.files.split(',')]
if A.stage == 'checks': ms = [m for m in ms if m.get('built') and not m.get('fails')]
ms = [m for m in ms if m['func'] not in A.skip.split(',')]
ms = ms[::A.every]
done = set()
if os.path.exists(A.out): done = {json.loads(l)['id'] for l in open(A.out)}
ms = [m for m in ms if m['id'] not in done]
if A.stage == 'tests':
    base, _ = passing(None, '/tmp'); print('baseline', len(base))
print(len(ms), 'mutants', flush=True)
n = 0
with cf.ThreadPoolExecutor(A.j) as ex, open(A.out, 'a') as out:
    for m in ex.map(do_tests if A.stage == 'tests' else do_checks, ms):
        out.write(json.dumps(m) + '\n'); out.flush(); n += 1
        if n % 100 == 0: print(n, flush=True)
