"""Creates and validates planted bugs: python3 tools/plant.py DEFS.py [id...]

DEFS.py holds BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)].
Each is applied to a scratch copy of /repo; kept in seeded/<id> only if the demonstration passes
without and fails with it and the stable tests still pass.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run in the root of the repository
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def tests(wt):
    x = os.path.join(wt, '..', 'junit.xml')
    o = os.path.join(wt, '..', 'out.json')
    env = dict(os.environ, PYTHONPATH=wt)
    sh('. /opt/vp/env.sh; export PYTHONPATH=%s; /opt/venv/bin/python -m pytest -q -p '
       'no:cacheprovider -n 8 --timeout=300 -o junit_family=xunit2 --junitxml=%s '
       "-o python_files='test_*.py *_test.py *_test_*.py' coax" % (wt, x), wt, env=env)
    sh(f'/usr/bin/python3 /opt/vp/results.py {o} junit:{x}', wt)
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open(o))
    return base, out


def passed(d):
    for k in ('passed', 'stable', 'pass', 'tests'):
        if k in d:
            v = d[k]
            return set(v) if not isinstance(v, int) else set()
    raise KeyError(list(d))


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    for b in bugs:
        if want and b['id'] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix='plant')
        wt = os.path.join(tmp, 'repo')
        try:
            sh(f'git clone -q /repo {wt}', tmp)
            sd = os.path.join(tmp, 'seed')
            os.makedirs(sd)
            open(os.path.join(sd, 'demo.sh'), 'w').write(DEMO_SH)
            open(os.path.join(sd, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            r0 = sh(f'bash {sd}/demo.sh', wt)
            for f, old, new in [(e if len(e) == 3 else (b['file'],) + tuple(e))
                                for e in b['edits']]:
                p = os.path.join(wt, f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git diff', wt).stdout
            r1 = sh(f'bash {sd}/demo.sh', wt)
            if r0.returncode != 0 or r1.returncode == 0:
                print(b['id'], 'DEMO', r0.returncode, r1.returncode)
                print((r0.stdout if r0.returncode else r1.stdout)[-1500:])
                continue
            base, out = tests(wt)
            miss = passed(base) - passed(out)
            if miss:
                print(b['id'], 'TESTS FAIL', sorted(miss)[:5])
                continue
            dst = os.path.join(ROOT, 'seeded', b['id'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(sd, dst)
            open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']},
                      open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
            open(os.path.join(dst, 'meta.json'), 'a').write('\n')
            print(b['id'], 'kept', flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
