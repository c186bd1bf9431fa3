"""runs every check against every planted bug (in a scratch clone): python3 tools/runbugs.py [id..]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    tmp = tempfile.mkdtemp(prefix='rb')
    try:
        wt = tmp + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
        d = os.path.join(ROOT, 'seeded', b)
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=wt)
        if r.returncode:
            return b, 'PATCH', {}
        pid = json.load(open(d + '/meta.json'))['property']
        out = {}
        for p in ([pid] if not ALL else ALL):
            r = subprocess.run([sys.executable, '-c', f'''
import sys; sys.path.insert(0,{ROOT!r}); sys.setrecursionlimit(40000); sys.dont_write_bytecode=True
import check
s,res=check.decide({p!r},{wt!r})
v=[x.name for x in res if x.status=='violation']; u=[x.name for x in res if x.status=='undetermined']
print(len(v),'|',len(u),'|',';'.join((v or u)[:3]))'''], stdout=subprocess.PIPE, text=True)
            out[p] = r.stdout.strip()
        return b, pid, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ALL = []
if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(ROOT + '/seeded'))
    if '--all' in sys.argv:
        sys.path.insert(0, ROOT)
        import registry
        ALL = list(registry.PROPERTIES)
    with ThreadPoolExecutor(8) as ex:
        for b, pid, out in ex.map(one, ids):
            hit = out.get(pid, '').split('|')[0].strip() not in ('', '0')
            others = [p for p, o in out.items() if p != pid and o and not o.startswith('0 ')]
            print(f'{"caught" if hit else "MISSED":7} {pid} {b:28} {out.get(pid, "")[:110]} {others or ""}')
