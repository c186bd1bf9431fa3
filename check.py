#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--repo DIR]

Decides one property from the source in /repo: every obligation of the property compares the
value graph of one entry point with its reference definition (specs/), or evaluates a rule
over the syntax tree / call graph.  Exit 0: holds.  Exit 1 + VIOLATION line: does not.
"""
import argparse
import json
import os
import resource
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(40000)


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property='):
                rest = line[len('finding: property='):]
                pid, _, rest = rest.partition(' ')
                oid, _, what = rest.partition(' :: ')
                out[(pid, oid.strip())] = what.strip()
    return out


class Budget(BaseException):
    pass


def _expired(*_):
    raise Budget


def decide(pid, root, tier='quick', total=700, each=90):
    """run every obligation; one that exceeds its share of time or memory is undetermined"""
    from sa.check import Suite, Result
    import registry
    suite = Suite(root, os.path.join(HERE, 'specs'))
    obls = registry.PROPERTIES[pid](suite)
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGALRM, _expired)
    end, out = time.time() + total, []
    for o in obls:
        try:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, min(each, end - time.time())))
            r = o.run(suite)
        except Budget:
            r = Result(o.id, o.id, 'undetermined', 'time budget')
        except MemoryError:
            r = Result(o.id, o.id, 'undetermined', 'memory budget')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out.append(r)
    return suite, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    suite, res = decide(pid, a.repo, a.tier)
    extra = {}
    if a.tier == 'thorough':
        import thorough
        extra = thorough.run(pid, a.repo, suite)
    known = known_findings()
    bad = [r for r in res if r.status == 'violation']
    new = [r for r in bad if (pid, r.name) not in known]
    for r in bad:
        if (pid, r.name) in known:
            print(f'KNOWN-FINDING: property={pid} {r.name}: {known[(pid, r.name)]}')
    und = [r for r in res if r.status == 'undetermined']
    for r in und:
        print(f'undetermined: {r.name} ({r.where})')
        if a.v:
            print('    ' + r.detail)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, f'{pid}.violations.txt')
    if new:
        with open(replay, 'w') as f:
            for r in new:
                f.write(f'{r.name}\n  construct: {r.where}\n  rule: {r.rule}\n    {r.detail}\n\n')
        for r in new:
            print(f'  {r.where}: {r.name}: {r.rule}')
            print('    ' + r.detail[:1500])
    elif os.path.exists(replay):
        os.remove(replay)
    ok = [r for r in res if r.status == 'ok']
    sites = sum(r.facts.get('terms', 0) + r.facts.get('sites', 0) for r in res)
    doc = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': (
                f'{len(res)} obligations over {len({r.where for r in res})} source constructs: '
                f'{len(ok)} discharged, {len(und)} undetermined, {len(bad)} violated; '
                f'{sites} value-graph terms / sites compared; '
                f'{len(suite.ix.modules)} modules indexed from {a.repo}'),
            'obligation_list': [{
                'name': r.name, 'construct': r.where, 'rule': r.rule, 'status': r.status,
                **{k: v for k, v in r.facts.items()}} for r in res],
            **extra,
        },
        'assumptions': [
            'third-party callables (jax, numpy, haiku, optax, gymnasium) are uninterpreted pure '
            'functions except for the algebraic identities listed in DESIGN.md',
            'real arithmetic: polynomial identities are applied without rounding',
        ],
        'violations': len(new),
        'wall_s': round(time.time() - t0, 3),
    }
    with open(os.path.join(ev, f'{pid}.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    if new:
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    print(f'{pid}: {len(ok)}/{len(res)} obligations discharged '
          f'({len(und)} undetermined) in {doc["wall_s"]}s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
