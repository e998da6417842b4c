#!/usr/bin/env python3
"""seed.py verify ID...   confirm planted changes in the scratch copy /tmp/seedwork
   seed.py catch ID...    run the check of the property (or KV_CHECKS="C01 C02") on a
                          copy of /repo with the change applied
   (development aid; no check uses it)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)
def setup():
    if not os.path.isdir('/tmp/seed'): os.mkdir('/tmp/seed')
    for f in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp/build.sh', '/tmp/seed/build.sh')
        open('/tmp/seed/' + f, 'w').write(s)
    if not os.path.isdir(W):
        sh(f'cp -a /repo {W} && rm -rf {W}/_build')
    sh(f'git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q FETCH_HEAD')
def demo(i):
    d = tempfile.mkdtemp(prefix='/tmp/seeddemo')
    for f in os.listdir(f'{V}/seeded/{i}'):
        if f != 'meta.json' and not f.endswith(('.diff', '.patch')): shutil.copy(f'{V}/seeded/{i}/{f}', d)
    try:
        r = sh(f'timeout 300 bash {d}/demo.sh', cwd=W)
    finally: shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-300:]
def verify(i):
    sh(f'git -C {W} checkout -q -- .')
    r = sh('bash /tmp/seed/build.sh')
    if r.returncode: return 'clean build failed ' + r.stdout[-300:]
    rc, o = demo(i)
    if rc: return f'demo fails on clean tree rc={rc}: {o}'
    r = sh(f'git -C {W} apply {V}/seeded/{i}/patch.diff')
    if r.returncode: return 'patch does not apply: ' + r.stderr
    try:
        r = sh('bash /tmp/seed/build.sh')
        if r.returncode: return 'build failed ' + r.stdout[-500:]
        sh('bash /tmp/seed/test.sh /tmp/seed/out.json')
        o = json.load(open('/tmp/seed/out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
        miss = set(b['stable']) - set(o['passed'])
        if miss: return f'tests fail: {sorted(miss)}'
        sh('bash /tmp/seed/build.sh')
        rc, out = demo(i)
        if rc == 0: return 'demo passes with patch'
        # every line removed must be one of the original repository
        base = sh(f'git -C {W} rev-list --max-parents=0 HEAD').stdout.strip()
        return f'OK (demo rc={rc}: {out.strip()[-120:]!r})'
    finally:
        sh(f'git -C {W} checkout -q -- .')
def catch(i):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    d = tempfile.mkdtemp(prefix='/tmp/seedcatch')
    try:
        sh(f'cp -a /repo/src {d}/src; mkdir {d}/b {d}/o {d}/e; cd {d} && git init -q . && git apply {V}/seeded/{i}/patch.diff')
        res = []
        for c in os.environ.get('KV_CHECKS', m['property']).split():
            env = dict(os.environ, KV_REPO=d, KV_BUILD=d + '/b', KV_OUT=d + '/o', KV_EVIDENCE=d + '/e')
            r = sh(f'timeout 900 {V}/run.py {c}', env=env)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            tail = (r.stdout + r.stderr).strip().splitlines()[-1:] if not v else v[:1]
            res.append(f'{c}: rc={r.returncode} {"CAUGHT" if r.returncode == 1 and v else "MISSED"} {tail[0][:160] if tail else ""}')
        return '; '.join(res)
    finally: shutil.rmtree(d)
setup()
ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
for i in ids: print(i, {'verify': verify, 'catch': catch}[sys.argv[1]](i), flush=True)
