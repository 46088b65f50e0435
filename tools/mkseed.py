#!/usr/bin/env python3
"""Developer tool (not used by any check): turn bug definitions into seeded/<id>/ and confirm them.
usage: mkseed.py DEFS.py [ids..]   DEFS.SEEDS = [dict(id, property, subs=[(file, old, new)], needs, what, demo)]
       mkseed.py --recheck [ids..] : only rerun the checks of existing seeds against patched copies
Each bug: copy /repo, patch, the stable tests must pass, the demo must fail; then the check's verdict."""
import json, os, shutil, subprocess, sys, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# run with cwd = the repository; exits 0 when the behaviour is right
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export MPLCONFIGDIR="$t" PYTHONPYCACHEPREFIX="$t/pyc"
here=$(cd "$(dirname "$0")" && pwd)
/opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call('git -C /repo archive HEAD src tests | tar x -C %s' % d, shell=True)


def tests(d):
    w = d + '.t'
    os.makedirs(w, exist_ok=True)
    env = dict(PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=w,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPYCACHEPREFIX=w + '/pyc')
    sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --tb=no --rootdir=%s --timeout=300 '
       '--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/junit.xml %s/tests' % (d, w, d), cwd=w, env=env)
    sh('/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml' % (w, w))
    r = json.load(open(w + '/out.json'))
    shutil.rmtree(w, ignore_errors=True)
    return sorted(BASE - set(r['passed']))


def check(pid, d):
    ev = d + '.ev'
    rc, out = sh('python3 check.py %s quick' % pid, cwd=V, env=dict(VERIF_REPO=d, VERIF_SEED='1', VERIF_EVIDENCE=ev))
    shutil.rmtree(ev, ignore_errors=True)
    return rc, out


def one(s):
    d = os.path.join(W, s['id'])
    try:
        fresh(d)
        sd = os.path.join(V, 'seeded', s['id'])
        tmp = d + '.seed'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO)
        open(tmp + '/demo.py', 'w').write(s['demo'])
        rc, out = sh('bash %s/demo.sh' % tmp, cwd=d, timeout=300)
        if rc != 0:
            return s['id'], 'DEMO FAILS ON CLEAN TREE\n' + out[-1500:]
        sh('git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x', cwd=d)
        for f, a, b in s['subs']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(a) != 1:
                return s['id'], 'pattern occurs %d times: %s' % (t.count(a), a[:200])
            open(p, 'w').write(t.replace(a, b))
        rc, diff = sh('git diff', cwd=d)
        rc, out = sh('bash %s/demo.sh' % tmp, cwd=d, timeout=300)
        if rc == 0:
            return s['id'], 'DEMO PASSES WITH THE BUG'
        missing = tests(d)
        if missing:
            return s['id'], 'TESTS NOTICE: %s' % missing[:5]
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(tmp + '/meta.json', 'w'),
                  indent=1)
        shutil.rmtree(sd, ignore_errors=True)
        shutil.copytree(tmp, sd)
        rc, out = check(s['property'], d)
        return s['id'], 'kept; check %s exit %d\n%s' % (s['property'], rc, out[-700:])
    except Exception as e:
        return s['id'], 'ERROR %r' % e
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.seed', ignore_errors=True)


def again(i):
    d = os.path.join(W, i)
    try:
        fresh(d)
        m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
        sh('git init -q .', cwd=d)
        rc, out = sh('git apply %s' % os.path.join(V, 'seeded', i, 'patch.diff'), cwd=d)
        if rc:
            return i, 'PATCH DOES NOT APPLY ' + out[-300:]
        rc, out = check(m['property'], d)
        return i, 'check %s exit %d %s' % (m['property'], rc, out[-300:] if rc != 1 else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    os.makedirs(W, exist_ok=True)
    par = int(os.environ.get('PAR', '4'))
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        with ThreadPoolExecutor(par) as ex:
            for i, r in ex.map(again, ids):
                print(i, r, flush=True)
        return
    spec = importlib.util.spec_from_file_location('defs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(par) as ex:
        for i, r in ex.map(one, todo):
            print('==', i, r, flush=True)


main()
