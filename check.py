#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

1. builds the verifier govc and discharges every obligation of the contracts that carry the property (and of the
   contracts they rely on) from the current source;
2. runs the harness (bounded, labelled so) against the compiled repository: it looks for concrete failing inputs.
A failed obligation is a violation; the harness' failing input, when it has one, is the replay."""
import json, os, subprocess, sys, time, tempfile, shutil, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
prop = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2:
    tier = sys.argv[2]
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
t0 = time.time()
EV = os.path.join(VERIF, 'evidence')
os.makedirs(EV, exist_ok=True)
CACHE = '/tmp/verif-build'
os.makedirs(CACHE, exist_ok=True)
GOVC_TOTAL = 480 if tier == 'quick' else 3000
FN_LIMIT = 240 if tier == 'quick' else 1200
HARNESS_S = 12 if tier == 'quick' else 900
HARNESS_DEEP = 60 if tier == 'quick' else 900


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def build_govc():
    out = os.path.join(CACHE, 'govc')
    r = sh(f'flock {CACHE}/lock bash {VERIF}/build.sh {out}')
    if r.returncode:
        die('cannot build the verifier:\n' + r.stdout)
    return out


ENV = '''export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on; unset APKSIG_PATH; '''


def build_harness(tmp):
    """the harness is compiled inside the repository's module through an overlay; nothing is written to the repository"""
    src = os.path.join(VERIF, 'harness')
    if not os.path.isdir(src):
        return None, 'no harness'
    shutil.copy(os.path.join(REPO, 'go.mod'), tmp + '/h.mod')
    if os.path.exists(os.path.join(REPO, 'go.sum')):
        shutil.copy(os.path.join(REPO, 'go.sum'), tmp + '/h.sum')
    rep = {}
    for f in sorted(os.listdir(src)):
        if f.endswith('.go'):
            rep[os.path.join(REPO, 'verifharness', f)] = os.path.join(src, f)
    for pk in sorted(os.listdir(src)):
        d = os.path.join(src, pk)
        if pk.startswith('x_') and os.path.isdir(d):
            # exported windows on unexported functions: x_<package path with _>/*.go is added to that package
            target = pk[2:].replace('__', '/')
            for f in sorted(os.listdir(d)):
                rep[os.path.join(REPO, '' if target == 'root' else target, f)] = os.path.join(d, f)
    json.dump({'Replace': rep}, open(tmp + '/overlay.json', 'w'))
    out = tmp + '/harness'
    r = sh(f'{ENV} cd {REPO} && go build -mod=mod -modfile={tmp}/h.mod -overlay {tmp}/overlay.json -o {out} ./verifharness', timeout=600)
    if r.returncode:
        return None, r.stdout
    return out, None


def main():
    tmp = tempfile.mkdtemp(prefix='verif.')
    try:
        return run(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(tmp):
    # the repository has to compile
    r = sh(f'{ENV} cd {REPO} && cp go.mod {tmp}/b.mod && cp go.sum {tmp}/b.sum && go build -mod=mod -modfile={tmp}/b.mod ./...', timeout=600)
    if r.returncode:
        die('the repository does not build:\n' + r.stdout[-3000:])
    govc = build_govc()
    rep_file = tmp + '/report.json'
    cmd = f'{govc} -repo {REPO} -specs {VERIF}/contracts -prop {prop} -limit {FN_LIMIT} -total {GOVC_TOTAL} -json {rep_file}'
    if tier != 'quick':
        cmd += ' -sanity'
    try:
        v = sh(cmd, timeout=GOVC_TOTAL + 120)
        vout, vcode = v.stdout, v.returncode
    except subprocess.TimeoutExpired as e:
        vout, vcode = (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), -1
    rep = {}
    if os.path.exists(rep_file):
        rep = json.load(open(rep_file))
    funcs = rep.get('funcs') or []
    err = rep.get('error') or ('' if rep else 'verifier gave no report: ' + vout[-2000:])
    failed, undecided, trusted = [], [], {}
    nob = ndis = 0
    by = {}
    for f in funcs:
        for t in f.get('trusted') or []:
            trusted.setdefault(t, []).append(f['key'])
        if f['status'] == 'trusted':
            trusted.setdefault('assumed contract: ' + f['key'], []).append(f['contract'])
            continue
        if f['status'] == 'undecided':
            undecided.append(f)
        for o in f.get('obligations') or []:
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
                by[o.get('by') or '?'] = by.get(o.get('by') or '?', 0) + 1
            else:
                failed.append((f, o))
    slow = [f for f in undecided if f.get('reason') == 'time limit']
    # bounded search for a concrete failing input
    hb, herr = build_harness(tmp)
    hres, hfound, hout = {}, False, ''
    rp = os.path.join(EV, f'replay-{prop}.json')
    if os.path.exists(rp):
        os.unlink(rp)
    if hb:
        secs = HARNESS_DEEP if failed or undecided or err else HARNESS_S
        try:
            h = subprocess.run([hb, '-prop', prop, '-seed', str(seed), '-budget', str(secs), '-out', tmp + '/replay.json', '-stats', tmp + '/stats.json'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs * 2 + 60, cwd=tmp)
            hout = h.stdout[-4000:]
            if h.returncode == 1 and os.path.exists(tmp + '/replay.json'):
                hfound = True
            elif h.returncode not in (0, 4):
                # the harness itself died: a crash of the code under test on a recorded input counts, anything else does not
                if os.path.exists(tmp + '/replay.json'):
                    hfound = True
                else:
                    herr = f'harness exited with {h.returncode}: ' + hout[-1500:]
        except subprocess.TimeoutExpired:
            if os.path.exists(tmp + '/replay.json'):
                hfound = True
                hout = 'timed out on the recorded input'
            else:
                herr = 'harness timed out'
        if os.path.exists(tmp + '/stats.json'):
            try:
                hres = json.load(open(tmp + '/stats.json'))
            except ValueError:
                pass
    violation = bool(failed) or bool(slow) or hfound
    fns = [{'function': f['key'], 'status': f['status'], 'reason': f.get('reason', ''), 'contract': f['contract'], 'obligations': len(f.get('obligations') or []),
            'discharged': sum(o['status'] == 'proved' for o in f.get('obligations') or []), 'paths': f['paths'], 'inlined': f.get('inlined') or [], 'ms': f['ms']}
           for f in funcs if f['status'] != 'trusted']
    vp = os.path.join(EV, f'verifier-{prop}.txt')
    open(vp, 'w').write(vout)
    line = None
    if violation:
        rdoc = {'property': prop, 'failed_obligations': [{'function': f['key'], 'kind': o['kind'], 'name': o['name'], 'pos': o.get('pos', ''), 'by': o.get('by', ''),
                                                         'path': o.get('trail', ''), 'goal': (o.get('detail') or '')[:4000]} for f, o in failed],
                'not_finished': [f['key'] for f in slow], 'verifier_output': vout[-20000:]}
        if hfound:
            rdoc['failing_input'] = json.load(open(tmp + '/replay.json'))
            rdoc['failing_input_output'] = hout
        json.dump(rdoc, open(rp, 'w'), indent=1)
        for f, o in failed[:20]:
            print(f"failed obligation: {f['key']}: {o['kind']} {o['name']} {o.get('pos','')}")
        for f in slow:
            print(f"not discharged in time: {f['key']}")
        if hfound:
            print('failing input: ' + json.dumps(rdoc['failing_input'])[:600])
        line = f'VIOLATION property={prop} replay={rp}' + ('' if hfound else ' no-failing-input-found')
    for f in undecided:
        if f not in slow:
            print(f"undecided by the verifier ({f.get('reason','')[:200]}): {f['key']}; covered by the bounded search only")
    if err:
        print('verifier: ' + err[:500])
    trusted_base = sorted(trusted) + ['the verifier itself (govc, go/ssa front end, SMT solvers z3, cvc5)', 'termination is not proved',
                                      'logical definitions (rec) in the contracts are well-founded: each recursive call shortens a view or lowers an index',
                                      'objects reached through interface parameters of the public API are not modified concurrently']
    cov = {'obligations': nob, 'discharged': ndis, 'checker_cmd': cmd, 'trusted_base': trusted_base, 'functions_under_contract': fns,
           'discharged_by': by, 'solver_ms': rep.get('solver_ms', 0), 'queries': rep.get('queries', 0),
           'undecided_functions': [f['key'] for f in undecided],
           'bounded_search': {'label': 'bounded, not counted as proved', 'evaluations': hres.get('evaluations', 0), 'distinct_nontrivial': hres.get('distinct', 0),
                              'rule': hres.get('rule', ''), 'samples': (hres.get('samples') or [])[:5], 'error': herr or ''}}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': trusted_base,
          'wall_s': round(time.time() - t0, 2), 'violations': [line] if line else []}
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    print(f'{prop}: {ndis}/{nob} obligations of {len(fns)} functions discharged; bounded search: {hres.get("evaluations",0)} cases; {time.time()-t0:.1f}s')
    if line:
        print(line)
        return 1
    if herr and hb:
        print('harness: ' + herr[:500])
    if (err or not fns or (nob == 0)) and not hres:
        return 2
    return 0


sys.exit(main())
