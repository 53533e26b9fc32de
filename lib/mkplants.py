"""Regenerates seeded/<id>/ from meta/plants.py.   python3 lib/mkplants.py [id ...]
   python3 lib/mkplants.py --try id ...   applies each in a scratch copy of /repo, runs its demo and its property's check there.
   python3 lib/mkplants.py --tests id ... additionally runs the repository's tests with it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'meta'))
from plants import PLANTS  # noqa
DEMO = '''#!/bin/bash
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
d="$(cd "$(dirname "$0")" && pwd)"
s="$(mktemp -d)"; export MPLCONFIGDIR="$s"
cd "$s" && timeout 280 python -W ignore "$d/demo.py"; rc=$?
cd / && rm -rf "$s"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(p):
    edits = p['edits'] if 'edits' in p else [(p['file'], p['old'], p['new'])]
    w = tempfile.mkdtemp(prefix='mkplant_', dir='/tmp')
    try:
        for top in ('a', 'b'):
            for fn in {e[0] for e in edits}:
                os.makedirs(os.path.dirname('%s/%s/%s' % (w, top, fn)), exist_ok=True)
                open('%s/%s/%s' % (w, top, fn), 'wb').write(
                    subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + fn], stdout=subprocess.PIPE, check=True).stdout)
        for fn, old, new in edits:
            path = w + '/b/' + fn
            src = open(path, newline='').read()
            if '\r\n' in src:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            cnt = src.count(old)
            if cnt != 1:
                sys.exit('%s: old text occurs %d times in %s' % (p['id'], cnt, fn))
            open(path, 'w', newline='').write(src.replace(old, new))
        diff = subprocess.run('git diff --no-index --no-prefix a b', shell=True, cwd=w, stdout=subprocess.PIPE).stdout
    finally:
        shutil.rmtree(w)
    d = os.path.join(VERIF, 'seeded', p['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(p['demo'].lstrip('\n'))
    json.dump(dict(property=p['prop'], needs=p['needs'], what_it_breaks=p['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return d


def copy_of_repo(w):
    """A scratch copy of /repo with its own build and test scripts; returns the environment to use it."""
    shutil.copytree('/repo', w + '/repo', symlinks=True)
    os.makedirs(w + '/vp/cache')
    for f in os.listdir('/opt/vp'):
        if os.path.isfile('/opt/vp/' + f):
            s = open('/opt/vp/' + f).read()
            if f.endswith(('.sh', '.py')):
                s = s.replace('/opt/vp', w + '/vp').replace('/repo', w + '/repo').replace(
                    'unset PYTHONPATH', 'export PYTHONPATH=%s/repo/src' % w)
            open(w + '/vp/' + f, 'w').write(s)
    e = dict(os.environ, PYTHONPATH=w + '/repo/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1', MKL_NUM_THREADS='1',
             PATH='/opt/venv/bin:' + os.environ['PATH'], VERIF_EVIDENCE=w + '/evidence')
    return e


def run(p, tests):
    d = os.path.join(VERIF, 'seeded', p['id'])
    w = '/tmp/plant_' + p['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        e = copy_of_repo(w)
        R = w + '/repo'
        r0 = sh(d + '/demo.sh', cwd=R, env=e)
        print(p['id'], 'demo clean rc', r0.returncode, r0.stdout[-300:] if r0.returncode else '')
        a = sh('git apply %s/patch.diff' % d, cwd=R)
        if a.returncode:
            print('APPLY', a.stdout)
            return
        b = sh('bash %s/vp/build.sh' % w, env=e)
        if b.returncode:
            print('BUILD', b.stdout[-500:])
        r1 = sh(d + '/demo.sh', cwd=R, env=e)
        print(p['id'], 'demo bug rc', r1.returncode, r1.stdout.strip()[-200:])
        for prop in p.get('also', []) + [p['prop']]:
            os.makedirs(w + '/s', exist_ok=True)
            c = sh('python %s/lib/vk.py %s quick' % (VERIF, prop), cwd=w + '/s', env=dict(e, SCRATCH=w + '/s'))
            print(p['id'], prop, 'check rc', c.returncode, (re.findall('VIOLATION.*', c.stdout) or ['-'])[0])
            if c.returncode == 1:
                print('    ', '\n     '.join([l for l in c.stdout.split('\n') if 'FAIL' in l or 'EXC' in l][:2])[:500])
        if tests:
            sh('bash %s/vp/test.sh %s/out.json' % (w, w), env=e)
            o = json.load(open(w + '/out.json'))
            b = json.load(open('/opt/vp/BASELINE.json'))
            print(p['id'], 'tests broken by it:', sorted(set(b['stable']) - set(o.get('passed', [])))[:10])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        sys.stdout.flush()


def main():
    a = sys.argv[1:]
    tests = '--tests' in a
    tr = '--try' in a or tests
    ids = [x for x in a if not x.startswith('-')]
    for p in PLANTS:
        if ids and p['id'] not in ids:
            continue
        make(p)
        if tr:
            run(p, tests)


if __name__ == '__main__':
    main()
