"""python3 tools/mut.py refactor|bugs PID... [-f substr] : judge the checks with rewritten sources"""
import os, random, sys, time
from multiprocessing import Pool
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(40000)
from sa.check import Suite
from sa import mutate
import registry
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(ROOT, 'specs')


def files_of(pid):
    s = Suite(REPO, SPECS)
    out = {}
    for o in registry.PROPERTIES[pid](s):
        r = o.run(s)
        f, _, q = r.where.partition(':')
        out.setdefault(f, set()).add(q)
    return out


def work(a):
    pids, path, label, q, src = a
    t0 = time.time()
    out = []
    try:
        s = Suite(REPO, SPECS, overrides={path: src})
        for pid in pids:
            for o in registry.PROPERTIES[pid](s):
                r = o.run(s)
                if r.status != 'ok':
                    out.append((pid, r.status, r.name, r.detail))
    except Exception as ex:
        out.append((pids[0], 'crash', repr(ex), ''))
    return path, label, q, out, time.time() - t0


def main():
    mode, pids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
    flt = next((a[2:] for a in sys.argv if a.startswith('-f')), '')
    verbose = '-v' in sys.argv
    if pids == ['all']:
        pids = list(registry.PROPERTIES)
    byfile = {}
    for p in pids:
        for f, qs in files_of(p).items():
            byfile.setdefault(f, {}).setdefault(p, set()).update(qs)
    jobs = []
    for f, d in sorted(byfile.items()):
        path = os.path.join(REPO, f)
        if not os.path.isfile(path):
            continue
        src = open(path).read()
        qs = set().union(*d.values())
        names = {q.split('.')[-1] for q in qs}
        gen = mutate.refactors(src) if mode == 'refactor' else mutate.bugs(
            src, keep=lambda q: q.split('.')[-1] in names or q.split('.')[-1] in (
                '__init__',) or q.split('.')[-1].startswith('_'))
        for label, q, new in gen:
            if flt and flt not in label and flt not in q and flt not in f:
                continue
            jobs.append((sorted(d), path, label, q, new))
    n = next((int(a[2:]) for a in sys.argv if a.startswith('-s')), 0)
    if n and n < len(jobs):
        jobs = random.Random(int(os.environ.get('VERIF_SEED', '1'))).sample(jobs, n)
    print(len(jobs), 'variants', flush=True)
    n = {'quiet': 0, 'violation': 0, 'undetermined': 0, 'crash': 0}
    slow = 0
    with Pool(8, maxtasksperchild=10) as pool:
        for path, label, q, out, dt in pool.imap_unordered(work, jobs, chunksize=1):
            st = {o[1] for o in out}
            k = 'crash' if 'crash' in st else 'violation' if 'violation' in st else \
                'undetermined' if st else 'quiet'
            n[k] += 1
            slow = max(slow, dt)
            show = k != 'quiet' if mode == 'refactor' else k != 'violation'
            if show:
                rel = os.path.relpath(path, REPO)
                first = next((o for o in out if o[1] == k), ('', '', '', ''))
                print(f'{k[:5]} {rel}:{q} [{label}] {first[0]} {first[2]}', flush=True)
                if verbose:
                    print('      ' + first[3][:1500])
    print(n, f'slowest {slow:.1f}s')


if __name__ == '__main__':
    main()
