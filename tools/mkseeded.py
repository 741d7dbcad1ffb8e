#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the table in seeds.py: patch, demonstration, meta. Checks in a scratch copy that the changed
tree builds, passes the tests, and that the demonstration tells the two trees apart.
usage: mkseeded.py [id ...]"""
import os, sys, json, shutil, subprocess, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS

DEMO = '''#!/bin/bash
# exit 0: the repository in the current directory treats every generated case of the property as it should
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"
trap 'rm -r "$T"' EXIT
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
unset APKSIG_PATH
cp "$R/go.mod" "$T/h.mod"; [ -f "$R/go.sum" ] && cp "$R/go.sum" "$T/h.sum"
python3 - "$D/demo" "$R" "$T" <<'P'
import json, os, sys
d, r, t = sys.argv[1:]
rep = {}
for base, _, fs in os.walk(d):
    rel = os.path.relpath(base, d)
    for f in fs:
        if rel == '.':
            p = os.path.join('verifharness', f)
        elif rel.startswith('x_'):
            q = rel[2:].replace('__', '/')
            p = f if q == 'root' else os.path.join(q, f)
        else:
            p = os.path.join('verifharness', rel, f)
        rep[os.path.join(r, p)] = os.path.join(base, f)
json.dump({'Replace': rep}, open(t + '/o.json', 'w'))
P
go build -mod=mod -modfile="$T/h.mod" -overlay "$T/o.json" -o "$T/h" ./verifharness || exit 3
cd "$T" && timeout 200 ./h -prop @PROP@ -seed 1 -budget @BUDGET@ -out "$T/r.json" -stats "$T/s.json"
C=$?
[ -f "$T/r.json" ] && head -c 1500 "$T/r.json"
exit $C
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        w = tempfile.mkdtemp(prefix='seed.')
        repo = w + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        ok = True
        for f, a, b in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s['id'], 'TEXT OCCURS', t.count(a), 'TIMES IN', f)
                ok = False
                break
            open(p, 'w').write(t.replace(a, b))
        if not ok:
            shutil.rmtree(w)
            continue
        d = os.path.join(V, 'seeded', s['id'])
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d + '/demo')
        sh(f'git -C {repo} diff > {d}/patch.diff')
        src = os.path.join(V, 'harness')
        if s.get('demo'):
            open(d + '/demo.sh', 'w').write(s['demo'])
        else:
            for x in os.listdir(src):
                if os.path.isdir(os.path.join(src, x)):
                    shutil.copytree(os.path.join(src, x), d + '/demo/' + x)
                else:
                    shutil.copy(os.path.join(src, x), d + '/demo/' + x)
            open(d + '/demo.sh', 'w').write(DEMO.replace('@PROP@', s['property']).replace('@BUDGET@', str(s.get('budget', 15))))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        t0 = time.time()
        r = sh(f'cd {repo} && . /opt/vp/env.sh; go build ./... && go vet . ./signingblock >/dev/null; go test ./... 2>&1 | grep -v "no test files"')
        bad = [l for l in r.stdout.splitlines() if l.startswith('FAIL') or l.startswith('---') or 'error' in l.lower()]
        t1 = time.time()
        r1 = sh(f'cd {repo} && bash {d}/demo.sh')
        t2 = time.time()
        r0 = sh(f'cd /repo && bash {d}/demo.sh') if '--orig' in os.environ.get('SEED', '') else None
        print(s['id'], s['property'], 'tests', 'ok' if not bad else bad[:3], 'demo with patch', r1.returncode, f'{t2-t1:.1f}s', 'without', r0.returncode if r0 else '-')
        if r1.returncode == 0 or r1.returncode > 2:
            print(r1.stdout[-800:])
        shutil.rmtree(w)


main()
