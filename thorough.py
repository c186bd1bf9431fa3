"""Thorough tier: the check is judged on rewritten sources, in memory.

Every function a property is anchored in is rewritten (a) by behaviour preserving refactorings, on
which the obligations have to stay quiet, and (b) by small semantic edits, of which the share that is
reported is recorded.  Nothing of the repository is executed and no file is written.
"""
import os
import sys
import time
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(HERE, 'specs')
BUDGET = 600.


def work(a):
    pid, root, path, kind, label, q, src = a
    sys.setrecursionlimit(40000)
    from sa.check import Suite
    import registry
    st = 'ok'
    try:
        s = Suite(root, SPECS, overrides={path: src})
        for o in registry.PROPERTIES[pid](s):
            r = o.run(s)
            if r.status == 'violation':
                st = 'violation'
                break
            if r.status == 'undetermined':
                st = 'undetermined'
    except Exception:
        st = 'undetermined'
    return kind, f'{os.path.relpath(path, root)}:{q} [{label}]', st


def run(pid, root, suite):
    from sa import mutate
    import registry
    t0 = time.time()
    files = {}
    for o in registry.PROPERTIES[pid](suite):
        f, _, q = o.run(suite).where.partition(':')
        files.setdefault(f, set()).add(q)
    jobs = []
    for f in sorted(files):
        path = os.path.join(root, f)
        if not os.path.isfile(path):
            continue
        src = open(path).read()
        names = {q.split('.')[-1] for q in files[f]}

        def keep(q):
            return q.split('.')[-1] in names or q.split('.')[-1] == '__init__'
        for kind, gen in (('refactoring', mutate.refactors(src, keep)),
                          ('edit', mutate.bugs(src, keep))):
            for label, q, new in gen:
                jobs.append((pid, root, path, kind, label, q, new))
    out = {'refactoring': {}, 'edit': {}}
    loud, silent = [], []
    with Pool(8, maxtasksperchild=50) as pool:
        for kind, what, st in pool.imap_unordered(work, jobs, chunksize=4):
            out[kind][st] = out[kind].get(st, 0) + 1
            if kind == 'refactoring' and st == 'violation':
                loud.append(what)
            if kind == 'edit' and st != 'violation':
                silent.append(what)
            if time.time() - t0 > BUDGET:
                pool.terminate()
                break
    return {'source_variants': out, 'refactorings_reported': sorted(loud),
            'edits_not_reported': sorted(silent)[:80]}
