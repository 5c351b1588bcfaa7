#!/usr/bin/env python3
"""Makes and confirms planted bugs.

  plant.py make FILE.py     FILE defines BUGS: id -> dict(property, needs, breaks,
                            edits=[(file, old, new)], pkg, demo=go test source,
                            race=bool)
  plant.py confirm ID...    applies in a scratch copy: builds, stable tests pass,
                            demo fails with the patch and passes without it
  plant.py check ID...      applies to /repo, runs the property's quick check,
                            undoes it
"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def base():
    return sh('git rev-list --max-parents=0 HEAD', REPO).stdout.strip()

DEMO = '''#!/bin/bash
# runs beside /repo's %(pkg)s package without changing it
dir=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$dir" >"$tmp/overlay.json"
go test %(flags)s-vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''

def make(f):
    ns = {}
    exec(open(f).read(), ns)
    for id, b in ns['BUGS'].items():
        d = os.path.join(here, 'seeded', id)
        t = tempfile.mkdtemp()
        try:
            sh('git worktree prune', REPO)
            r = sh('git clone -q %s %s/r' % (REPO, t))
            for fn, old, new in b['edits']:
                p = '%s/r/%s' % (t, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(id, 'edit of', fn, 'matches', s.count(old), 'times:', old[:60]); break
                open(p, 'w').write(s.replace(old, new))
            else:
                sh('gofmt -w $(git ls-files -m)', t + '/r')
                os.makedirs(d, exist_ok=True)
                diff = sh('git diff', t + '/r').stdout
                open(d + '/patch.diff', 'w').write(diff)
                open(d + '/demo_test.go', 'w').write(b['demo'].lstrip('\n'))
                open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=b['pkg'], flags='-race ' if b.get('race') else ''))
                os.chmod(d + '/demo.sh', 0o755)
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
                print('made', id)
        finally:
            shutil.rmtree(t)

def confirm(ids):
    for id in ids:
        d = os.path.join(here, 'seeded', id)
        t = tempfile.mkdtemp()
        try:
            sh('git clone -q %s %s/r' % (REPO, t))
            r = t + '/r'
            shutil.copytree(d, t + '/d')
            for x in ('patch.diff', 'meta.json'):
                os.remove(t + '/d/' + x)
            a = sh('bash %s/d/demo.sh' % t, r)
            if a.returncode != 0:
                print(id, 'DEMO FAILS ON CLEAN TREE\n', a.stdout[-1500:]); continue
            p = sh('git apply %s/patch.diff' % d, r)
            if p.returncode != 0:
                print(id, 'PATCH DOES NOT APPLY', p.stdout); continue
            orig = removed = 0
            basef = {}
            for l in open(d + '/patch.diff'):
                if l.startswith('--- a/'):
                    cur = l[6:].strip()
                    basef[cur] = set(sh('git show %s:%s' % (base(), cur), r).stdout.split('\n'))
                elif l.startswith('-') and l[1:].strip():
                    removed += 1
                    orig += l[1:].rstrip('\n') in basef[cur]
            a = sh('go build ./... && go vet -vettool= ./... >/dev/null 2>&1; go build ./...', r)
            if a.returncode != 0:
                print(id, 'DOES NOT BUILD', a.stdout); continue
            a = sh("go test -json -vet=off -count=1 -timeout 10m ./... ", r)
            bad = []
            passed = set()
            open(t + '/j', 'w').write(a.stdout)
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            sh('python3 /opt/vp/results.py %s/o.json gojson:%s/j' % (t, t))
            passed = set(json.load(open(t + '/o.json'))['passed'])
            bad = [x for x in stable if x not in passed]
            if bad:
                print(id, 'TESTS FAIL', bad[:5]); continue
            a = sh('bash %s/d/demo.sh' % t, r, timeout=300)
            if a.returncode == 0:
                print(id, 'DEMO PASSES WITH THE BUG'); continue
            if 'FAIL' not in a.stdout or '[build failed]' in a.stdout:
                print(id, 'DEMO?', a.stdout[-800:]); continue
            why = [l for l in a.stdout.split('\n') if 'demo_test' in l or 'DATA RACE' in l or 'panic' in l]
            print(id, 'ok: original lines changed %d/%d;' % (orig, removed), (why or ['?'])[0].strip()[:160])
        finally:
            shutil.rmtree(t)

def check(ids, cmd=None):
    for id in ids:
        d = os.path.join(here, 'seeded', id)
        prop = json.load(open(d + '/meta.json'))['property']
        p = sh('git apply %s/patch.diff' % d, REPO)
        if p.returncode != 0:
            print(id, 'PATCH DOES NOT APPLY', p.stdout); continue
        try:
            a = sh('./check.sh ' + prop, here)
            v = [l for l in a.stdout.split('\n') if l.startswith('vsim: run')]
            ok = a.returncode == 1 and ('VIOLATION property=%s ' % prop) in a.stdout
            print(id, 'CAUGHT' if ok else 'MISSED (exit %d)' % a.returncode, (v or [a.stdout[-300:]])[0][:230], flush=True)
        finally:
            sh('git checkout -- .', REPO)

if sys.argv[1] == 'make': make(sys.argv[2])
elif sys.argv[1] == 'confirm': confirm(sys.argv[2:])
elif sys.argv[1] == 'check': check(sys.argv[2:])
