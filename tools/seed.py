#!/usr/bin/env python3
"""seed.py confirm ID...   confirms planted bugs in a scratch copy: demo passes, patch applies, builds, stable tests pass, demo fails
   seed.py run ID [PROP...] applies the patch to /repo, runs the check(s) of its property and undoes it"""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif/seeded'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOENV='off', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
base = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd=None, t=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def tests(w):
    tmp = tempfile.mkdtemp(prefix='seedt-')
    pk = "$(go list -e ./... | grep -vE '^github.com/masagroup/soft.go/test/(empty|library|tournament|tournament-reflective)(/|$)')"
    rc, out = sh("TMPDIR=%s go test -json -vet=off -count=1 -timeout 5m -skip '^TestSQLEncoder_' %s" % (tmp, pk), w)
    shutil.rmtree(tmp)
    fails = set()
    for l in out.splitlines():
        if l.startswith('{'):
            d = json.loads(l)
            if d.get('Action') == 'fail':
                fails.add(d.get('Package', '') + ' ' + d.get('Test', ''))
    return fails


def confirm(i):
    d = os.path.join(V, i)
    w = tempfile.mkdtemp(prefix='seedw-')
    r = w + '/repo'
    try:
        sh('git -C /repo worktree prune'); sh('cp -a /repo %s' % r)
        rc, out = sh('bash %s/demo.sh' % d, r, 300)
        if rc: return 'demo fails on the unchanged tree: ' + out[-1500:]
        rc, out = sh('git apply %s/patch.diff' % d, r)
        if rc: return 'patch does not apply: ' + out
        rc, out = sh('go build ./ecore', r)
        if rc: return 'does not build: ' + out
        f = tests(r)
        if f: return 'tests fail: ' + ', '.join(sorted(f))[:1500]
        rc, out = sh('bash %s/demo.sh' % d, r, 300)
        if rc == 0: return 'demo passes with the patch'
        return None
    finally:
        shutil.rmtree(w)


if sys.argv[1] == 'confirm':
    for i in sys.argv[2:]:
        e = confirm(i)
        print(i, 'OK' if e is None else 'BAD ' + e, flush=True)
else:
    i = sys.argv[2]
    props = sys.argv[3:] or [json.load(open(os.path.join(V, i, 'meta.json')))['property']]
    assert sh('git -C /repo status --short')[1] == ''
    rc, out = sh('git -C /repo apply %s/patch.diff' % os.path.join(V, i))
    assert rc == 0, out
    try:
        for p in props:
            rc, out = sh('python3 /verif/bin/check.py %s' % p, '/verif', 900)
            print(i, p, 'caught' if rc == 1 else 'MISSED' if rc == 0 else 'NOVERDICT', out[-300:] if rc != 1 else [l for l in out.splitlines() if l.startswith('VIOLATION') or 'REJECTED' in l][:2], flush=True)
    finally:
        sh('git -C /repo checkout -- .')
