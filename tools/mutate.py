#!/usr/bin/env python3
"""mutate.py FILE.py [ID...] : for each mutant (id, property, file, old, new) in FILE.py, in a scratch copy of /repo:
build, run the tests, run the property's quick check, report. Keeps the patch in /tmp/mut/<id>.diff."""
import json, os, subprocess, sys, tempfile, shutil, time
muts = {}
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
os.makedirs('/tmp/mut', exist_ok=True)
def sh(c, cwd, t=900):
    try: r = subprocess.run(c, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired: return 124, ''
    return r.returncode, r.stdout.decode(errors='replace')
for id, m in MUTANTS.items():
    if want and not any(id.startswith(w) for w in want): continue
    prop, edits = m[0], m[1:]
    s = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', s], check=True)
        bad = None
        for f, old, new in edits:
            t = open(f'{s}/{f}').read()
            if t.count(old) < 1: bad = f'no match in {f}: {old[:50]}'; break
            open(f'{s}/{f}', 'w').write(t.replace(old, new, 1))
        if bad: print(id, 'ERR', bad); continue
        open(f'/tmp/mut/{id}.diff', 'w').write(sh('git diff', s)[1])
        rc, out = sh('go build ./...', s)
        if rc: print(id, 'NOBUILD', out[:300]); continue
        pk = ' '.join(sorted({'./' + os.path.dirname(f) for f, _, _ in edits} | {'.'}))
        rc, out = sh(f'go test -json -vet=off -count=1 {pk}', s)
        ok, seen = set(), set()
        for l in out.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Test'):
                seen.add(e['Package'] + '/' + e['Test'])
                if e['Action'] == 'pass': ok.add(e['Package'] + '/' + e['Test'])
        pkgs = {'github.com/yahoojapan/athenz-authorizer/v5' + ('/' + os.path.dirname(f) if os.path.dirname(f) else '') for f, _, _ in edits} | {'github.com/yahoojapan/athenz-authorizer/v5'}
        mod = 'github.com/yahoojapan/athenz-authorizer/v5/'
        def pkgof(x):
            r = x[len(mod):]
            for p in ('access/','client/','internal/url/','jwk/','policy/','pubkey/','role/'):
                if r.startswith(p): return mod + p[:-1]
            return mod[:-1]
        miss = [x for x in base if pkgof(x) in pkgs and x not in ok]
        st = time.time()
        rc, out = sh(f'/tmp/symgo check {prop} quick -verif /verif -repo {s}', '/verif')
        why = [l.strip() for l in out.splitlines() if 'VIOLATION' in l or 'assert in' in l or 'panic' in l][:1]
        print(f"{id} {prop} tests-killed={len(miss)} {miss[:1]} check={'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc} {time.time()-st:.0f}s {why}", flush=True)
        if rc not in (0, 1): print(out[-600:])
    finally:
        shutil.rmtree(s)
