#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).

  seed.py make DEFS.py [ID..]   plant the bugs defined in DEFS.py (a list BUGS of dicts with id, property,
                                edits [(file, old, new)], needs, breaks, demo): confirm in a scratch copy
                                that only original lines change, tests pass, demo 0 without / nonzero with
  seed.py run [ID..]            run the property's quick check against each planted bug in a scratch copy
"""
import json, os, subprocess, sys, shutil, tempfile, re, importlib.util
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'de30793'
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    shutil.rmtree(d)
    sh('cp -a /repo ' + d)
    return d


def make(bug):
    d = copy()
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(d, 'warcio', f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit does not apply (%d): %r' % (s.count(old), old)
            base = sh('git show %s:warcio/%s' % (BASE, f), cwd='/repo').stdout.split('\n')
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=d).stdout
        cur = None
        for line in diff.split('\n'):
            if line.startswith('--- a/'):
                base = sh('git show %s:%s' % (BASE, line[6:]), cwd='/repo').stdout.split('\n')
            elif line.startswith('-') and line[1:].strip() and line[1:] not in base:
                return 'changes a line that is not original: ' + line
        os.makedirs(d + '-tmp')
        t = sh('AWS_EC2_METADATA_DISABLED=true LANG=C.UTF-8 TZ=UTC TMPDIR=%s-tmp PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s %s -m pytest -q '
               '-p no:cacheprovider --no-cov --timeout=120 2>&1 | grep -E "^(FAILED|ERROR|[0-9= ]+ failed)"' % (d, d, PY), cwd=d)
        shutil.rmtree(d + '-tmp')
        if '254 passed' not in t.stdout and not ('= 2 failed' in t.stdout and all('test_s3' in x for x in t.stdout.split('\n') if x.startswith('ERROR'))):
            return 'tests: ' + t.stdout[-900:]
        out = os.path.join(d, '..', 'seedout_' + bug['id'])
        out = os.path.abspath(out)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/sh\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        a = sh('timeout 250 sh %s/demo.sh' % out, cwd='/repo')
        if a.returncode != 0:
            return 'demo fails without: ' + a.stdout[-900:]
        b = sh('timeout 250 sh %s/demo.sh' % out, cwd=d)
        if b.returncode == 0:
            return 'demo passes with'
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        dst = os.path.join(SEEDED, bug['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.move(out, dst)
        return 'planted (%s)' % b.stdout.strip().split('\n')[-1][:110]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rebase(i):
    """the patch as a diff against the current HEAD"""
    d = copy()
    try:
        f = '%s/%s/patch.diff' % (SEEDED, i)
        if sh('git apply --check ' + f, cwd=d).returncode == 0:
            return
        r = sh('patch -p1 --fuzz=3 --no-backup-if-mismatch < ' + f, cwd=d)
        if r.returncode:
            return print(i, 'does not apply:', r.stdout)
        open(f, 'w').write(sh('git diff', cwd=d).stdout)
        b = sh('timeout 250 sh %s/%s/demo.sh' % (SEEDED, i), cwd=d)
        print(i, 'rebased', 'DEMO PASSES' if b.returncode == 0 else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(i, seed='1'):
    meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    prop = meta['property']
    d = copy()
    try:
        a = sh('git apply %s/%s/patch.diff' % (SEEDED, i), cwd=d)
        if a.returncode:
            return i, prop, 'DOES NOT APPLY', a.stdout
        r = sh('VERIF_SEED=%s VERIF_REPO=%s timeout 900 python3 %s/run.py %s' % (seed, d, VERIF, prop), cwd=VERIF)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        return i, prop, 'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, (r.stdout[-400:] if not v else v[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        spec = importlib.util.spec_from_file_location('defs', sys.argv[2])
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        bugs = [b for b in m.BUGS if not sys.argv[3:] or b['id'] in sys.argv[3:]]
        with ThreadPoolExecutor(4) as ex:
            for b, r in zip(bugs, ex.map(make, bugs)):
                print(b['id'], r, flush=True)
    elif sys.argv[1] == 'rebase':
        for i in sorted(os.listdir(SEEDED)):
            rebase(i)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
            for r in ex.map(lambda i: run(i, os.environ.get('VERIF_SEED', '1')), ids):
                print(*r, flush=True)
