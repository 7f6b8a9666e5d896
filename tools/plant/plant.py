#!/usr/bin/env python3
"""Plants bugs: plant.py BUGS.py [ID...] [--nocheck] [--all]

BUGS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=Go test source, race=bool)].
For each one: makes a scratch copy of /repo, applies the edits, confirms that the
changed lines are lines of the original repository, that it builds, that the stable
tests pass, that the demonstration passes without and fails with the change, writes
/verif/seeded/<id>/, and reports whether the property's check catches it."""
import json, os, re, shutil, subprocess, sys, tempfile, time
BASE = '8acfad5'
VERIF = '/verif'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', GOTOOLCHAIN='local', GOPROXY='off',
           GOFLAGS='-mod=mod', GO111MODULE='on', GOWORK='off', GOSUMDB='off', HOME='/root')
DEMO = '''#!/bin/bash
# Exit 0: the property holds for this demonstration. Run in the repository.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
for f in ./*.go; do case $f in *_test.go) ;; *) cp "$f" "$dir/";; esac; done
cp "$here/go.mod.txt" "$dir/go.mod"
cp "$here/go.sum.txt" "$dir/go.sum"
cp "$here/demo_test.go.txt" "$dir/demo_test.go"
cd "$dir" && go test %s-vet=off -count=1 -timeout 120s . 
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
def tests(d):
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '10m', './...'], cwd=d)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Test'])
    return ok, r.stdout
def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    sh(['cp', '-a', '/repo', d])
    shutil.copy('/opt/vp/gomod/go.mod', d); shutil.copy('/opt/vp/gomod/go.sum', d)
def main():
    args = sys.argv[1:]
    nocheck = '--nocheck' in args; args = [a for a in args if a != '--nocheck']
    force = '--force' in args; args = [a for a in args if a != '--force'] # run the check on invalid ones, too
    secs = os.environ.get('SIM_SECONDS', '35')
    ns = {}; exec(open(args[0]).read(), ns)
    bugs = [b for b in ns['BUGS'] if not args[1:] or b['id'] in args[1:]]
    root = '/tmp/plant'; os.makedirs(root, exist_ok=True)
    clean = root + '/clean'; copy(clean); cleanok, out = tests(clean)
    print('clean tests', len(cleanok))
    for b in bugs:
        d = f'{root}/{b["id"]}'; copy(d)
        def fail(msg, extra='', can=False):
            print(f'{b["id"]}: INVALID {msg}\n{extra[-1000:]}', flush=True)
            if can and force: check()
            shutil.rmtree(d, ignore_errors=True)
        def check():
            t0 = time.time()
            e = dict(ENV, SIM_SRC=d, SIM_SECONDS=secs, VERIF_SEED='1')
            r = subprocess.run(['bash', '/verif/check.sh', b['property'], 'quick'], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(f'{b["id"]}: {"CAUGHT" if r.returncode == 1 and v else "MISSED"} rc={r.returncode} {time.time()-t0:.0f}s {v[:1]}', flush=True)
            if r.returncode != 1: print(r.stdout[-1500:])
        bad = None
        for f, old, new in b['edits']:
            p = f'{d}/{f}'; s = open(p).read()
            if s.count(old) != 1: bad = f'{f}: {s.count(old)} occurrences of {old!r}'; break
            open(p, 'w').write(s.replace(old, new))
        if bad: fail(bad); continue
        sh(['gofmt', '-w'] + sorted({f'{d}/{f}' for f, _, _ in b['edits']})) if b.get('fmt') else None
        patch = sh(['git', 'diff', '--', '*.go'], cwd=d).stdout
        # which lines of HEAD are removed
        u0 = sh(['git', 'diff', '-U0', '--', '*.go'], cwd=d).stdout
        removed = []; cur = None
        for l in u0.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m: cur = m.group(1)
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                for i in range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)): removed.append((cur, i))
        blame = {f: sh(['git', 'blame', '-s', 'HEAD', '--', f], cwd=d).stdout.splitlines() for f in {r[0] for r in removed}}
        # blame HEAD of the file
        mine = [(f, i, blame[f][i-1]) for f, i in removed if BASE not in blame[f][i-1].split(')')[0]]
        orig = len(removed) - len(mine)
        if mine: 
            print(b['id'], 'removes lines of fixes:', mine[:4])
        why = None
        if not orig: why = 'changes no original line'
        r = sh(['go', 'build', './...'], cwd=d)
        if r.returncode: fail('does not build', r.stdout); continue
        ok, out = tests(d)
        if cleanok - ok: fail(f'tests fail: {sorted(cleanok-ok)[:8]}', out if not ok else '', 'FilterExpressionParser' in str(sorted(cleanok-ok)) and len(cleanok-ok) == 1); continue
        if why: fail(why, '', True); continue
        s = f'{VERIF}/seeded/{b["id"]}'; t = tempfile.mkdtemp(prefix='seed', dir=root)
        open(t + '/patch.diff', 'w').write(patch)
        open(t + '/demo.sh', 'w').write(DEMO % ('-race ' if b.get('race') else '')); os.chmod(t + '/demo.sh', 0o755)
        shutil.copy('/opt/vp/gomod/go.mod', t + '/go.mod.txt'); shutil.copy('/opt/vp/gomod/go.sum', t + '/go.sum.txt')
        open(t + '/demo_test.go.txt', 'w').write(b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(t + '/meta.json', 'w'), indent=1)
        runs = 5 if b.get('race') else 2
        rc = [sh(['bash', t + '/demo.sh'], cwd='/repo') for _ in range(runs)]
        if any(x.returncode for x in rc): fail('demo fails on the unchanged tree', rc[0].stdout, True); shutil.rmtree(t); continue
        rp = [sh(['bash', t + '/demo.sh'], cwd=d) for _ in range(runs)]
        if any(x.returncode == 0 for x in rp): fail(f'demo passes with the change {[x.returncode for x in rp]}', rp[0].stdout, True); shutil.rmtree(t); continue
        if 'build failed' in rp[0].stdout or 'demo_test.go:' in rp[0].stdout and 'undefined' in rp[0].stdout: fail('demo does not build', rp[0].stdout); shutil.rmtree(t); continue
        shutil.rmtree(s, ignore_errors=True); shutil.move(t, s); os.chmod(s, 0o755)
        if nocheck: print(f'{b["id"]}: valid', flush=True); shutil.rmtree(d); continue
        print(f'{b["id"]}: valid', flush=True)
        check()
        shutil.rmtree(d)
    shutil.rmtree(clean, ignore_errors=True)
main()
