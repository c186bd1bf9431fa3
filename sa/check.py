"""Obligations: value-graph equivalence of an entry point with its reference definition."""
import ast
import os
import time
from fractions import Fraction
import itertools
import traceback

from . import terms as t
from .terms import mk, ite, sym, BOT, b_or, FALSE, show
from .loader import Index, ClassInfo
from .normal import normal, minmax_by_cases, present, eta, keyed
from .engine import (Engine, Frame, Closure, erase_keys, has_opaque, later_mutated,
                     self_stores, gamma_leaves)

DC = mk('dontcare')
# errors that only say "this argument is not acceptable": behaviour after them is not compared
DONTCARE = {'TypeError', 'ValueError', 'AssertionError', 'NotImplementedError', 'AttributeError',
            'IndexError', 'KeyError', 'RuntimeError_'}
OPAQUE_FUNCS = {'is_stochastic', 'is_vfunction', 'is_qfunction', 'is_policy', 'is_transition_model',
                'is_reward_function'}


CONSTRUCTED = {'EntropyRegularizer': ('f',), 'KLDivRegularizer': ('f',), 'ModelUpdater': ('model',),
               'DeterministicPG': ('q_targ',), 'SoftPG': ('q_targ_list',)}


class Result:
    def __init__(self, name, where, status, detail='', facts=None,
                 rule='value graph equals reference definition'):
        self.name, self.where, self.status, self.detail = name, where, status, detail
        self.rule = rule
        self.facts = facts or {}


class Suite:
    """loads the repository and the reference modules once"""

    def __init__(self, root, specdir, overrides=None):
        self.root = root
        extra = []
        for fn in sorted(os.listdir(specdir)):
            if fn.endswith('.py'):
                extra.append(('spec_' + fn[:-3], os.path.join(specdir, fn)))
        self.ix = Index(root, extra=extra, overrides=overrides)
        self.stats = {'functions': set(), 'terms': 0}

    def spec(self, mod):
        return self.ix.modules['spec_' + mod]


def spec_members(specmod, clsname):
    """{(kind, name): FunctionDef} of a reference class"""
    for n in specmod.tree.body:
        if isinstance(n, ast.ClassDef) and n.name == clsname:
            out = {}
            for f in n.body:
                if isinstance(f, ast.FunctionDef):
                    kind = 'method'
                    for d in f.decorator_list:
                        s = ast.unparse(d)
                        if s == 'property':
                            kind = 'prop'
                        elif s.endswith('.setter'):
                            kind = 'setter'
                        elif s == 'classmethod':
                            kind = 'classmethod'
                        elif s == 'staticmethod':
                            kind = 'static'
                    out[(kind, f.name)] = f
            return out
    raise KeyError(clsname)


def spec_func(specmod, name):
    for n in specmod.tree.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return n
    raise KeyError(name)


def self_attrs(node):
    return {n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute)
            and isinstance(n.value, ast.Name) and n.value.id == 'self'}


def spec_attrs(specmod, nodes):
    """attributes of ``self`` the reference functions use, transitively"""
    funcs = {n.name: n for n in specmod.tree.body if isinstance(n, ast.FunctionDef)}
    out, seen, todo = set(), set(), list(nodes)
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        out |= self_attrs(n)
        todo += [funcs[m.id] for m in ast.walk(n) if isinstance(m, ast.Name) and m.id in funcs]
    return out


class Obl:
    """compare entry `name` of repo class/module with the reference function"""

    def __init__(self, spec, cls=None, func=None, name=None, kind='method', ref=None, when=(),
                 opaque_funcs=(), inline=(), opaque_methods=(), args=None, dontcare=DONTCARE,
                 only=None, ignore=(), selfless=False, erase=True, label='', argsyms=None,
                 refcls=None, nonnone=(), strict=False, project=None, optional=False, traced=False,
                 finder=None, rejects=False, stale=True, lazy=True,
                 effectful=(), lens=(), scalars=(), fixed=()):
        self.spec, self.cls, self.func, self.name, self.kind = spec, cls, func, name, kind
        self.ref, self.when = ref, tuple(when)
        self.opaque_funcs, self.inline = set(opaque_funcs), set(inline)
        self.opaque_methods, self.args = set(opaque_methods), args or {}
        self.dontcare, self.only, self.ignore = set(dontcare), only, set(ignore)
        self.erase, self.argsyms, self.refcls = erase, argsyms, refcls
        self.project = project
        self.optional = optional
        self.finder = finder
        self.lazy = lazy
        # public attributes that nothing but the constructor assigns
        self.fixed = () if kind == 'init' else tuple(fixed) or CONSTRUCTED.get(cls, ())
        self.scalars = {sym(a) for a in scalars}
        self.lens = [tuple(t.attr(sym('self'), a) for a in p) for p in lens]
        self.effectful = set(effectful)
        self.opaque_methods |= self.effectful
        self.stale = stale       # apply the rule about cached state
        self.rejects = rejects   # inputs the code rejects are not compared
        self.traced = traced     # runs inside a compiled function
        w = ', '.join(('' if v else 'not ') + e for e, v in self.when)
        base = f'{cls}.{name}' if cls else f'{func[0]}.{func[1]}'
        if kind in ('setter', 'init'):
            base += f' ({kind})'
        self.id = base + (f' [{w}]' if w else '') + (f' {label}' if label else '')

    # ------------------------------------------------------------------
    def engine(self, suite, assume=None):
        e = Engine(suite.ix, assume=assume, opaque_funcs=OPAQUE_FUNCS | self.opaque_funcs,
                   inline_classes=self.inline, opaque_methods=self.opaque_methods)
        e.lazy = self.lazy
        e.effectful = self.effectful
        return e

    def atoms(self, suite, cls, specmod):
        """evaluate the configuration expressions to decision atoms"""
        out = {}
        for expr, val in self.when:
            e = self.engine(suite, dict(out))
            if cls is not None:
                s = e.instance(cls, argsyms=self.argsyms, run_init=self.kind != 'init')
            fr = Frame(specmod, cls)
            e.frame = fr
            if cls is not None:
                fr.env['self'] = s
                fr.selfv = s
            node = ast.parse(expr, mode='eval').body
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and n.id not in fr.env and \
                        n.id in (self.params or ()):
                    fr.env[n.id] = mk('loc', sym(n.id))
            c = e.evcond(node)
            if c.op == 'gamma' and c.args[1] is t.TRUE and c.args[2] is t.FALSE:
                out[c.args[0]] = val
            elif c.op == 'gamma' and c.args[1] is t.FALSE and c.args[2] is t.TRUE:
                out[c.args[0]] = not val
            elif c in (t.TRUE, t.FALSE):
                if (c is t.TRUE) != val:
                    return None       # configuration impossible
            else:
                for a in t.gamma_atoms(c):
                    lo, hi = t.restrict(c, {a: False}), t.restrict(c, {a: True})
                    if lo is t.const(not val):
                        out[a] = True
                    elif hi is t.const(not val):
                        out[a] = False
        return out

    def run(self, suite):
        try:
            return self._run(suite)
        except RecursionError:
            return Result(self.id, self.id, 'undetermined', 'recursion limit')
        except Exception as ex:      # analysis gap, not a verdict
            return Result(self.id, self.id, 'undetermined',
                          f'analysis error {type(ex).__name__}: {ex}\n{traceback.format_exc()}')

    def repo_node(self, suite, cls):
        if self.finder:
            return self.finder(suite)
        if self.cls:
            if self.kind == 'setter':
                f = cls.lookup_setter(self.name)
            else:
                f = cls.lookup('__init__' if self.kind == 'init' else self.name)
            return f
        return suite.ix.func(*self.func)

    def _run(self, suite):
        specmod = suite.spec(self.spec)
        ix = suite.ix
        cls = None
        members = {}
        if self.cls:
            try:
                cls = ix.cls(self.cls)
            except KeyError:
                return Result(self.id, self.cls, 'violation',
                              f'public class {self.cls} does not exist any more')
        if self.ref:
            ref = spec_func(specmod, self.ref)
        elif self.cls:
            members = spec_members(specmod, self.refcls or self.cls)
            k = {'init': 'method'}.get(self.kind, self.kind)
            ref = members.get((k, '__init__' if self.kind == 'init' else self.name))
            if ref is None:
                raise KeyError(f'reference for {self.id}')
        else:
            ref = spec_func(specmod, self.func[1])
        self.params = [p.arg for p in ref.args.posonlyargs + ref.args.args + ref.args.kwonlyargs]
        try:
            f = self.repo_node(suite, cls)
        except KeyError:
            f = None
        if f is None:
            if self.optional:
                return Result(self.id, self.id, 'ok', 'not defined')
            return Result(self.id, self.id, 'violation',
                          f'public entry point {self.id} does not exist any more')
        owner, node = f
        path = (owner.module if isinstance(owner, ClassInfo) else owner).path
        where = f'{os.path.relpath(path, ix.root)}:{getattr(owner, "name", "")}.{node.name}'
        bad = defaults_differ(node, ref)
        if bad:
            return Result(self.id, where, 'violation', bad, {}, rule='default argument values')
        assume = self.atoms(suite, cls, specmod)
        if assume is None:
            return Result(self.id, where, 'ok', 'configuration excluded by the code')
        # private state names used by the reference that the class no longer has
        maps = [{}]
        if cls is not None:
            used = {a for a in spec_attrs(specmod, [ref] + list(members.values()))
                    if a.startswith('_') and not a.startswith('__')}
            have = set()
            for c in cls.mro:
                if isinstance(c, ClassInfo):
                    have |= self_attrs(c.node) | set(c.methods) | set(c.attrs)
            missing = sorted(used - have)
            if missing:
                cand = sorted(a for a in have - used if a.startswith('_')
                              and not a.startswith('__') and not cls.lookup(a))
                if len(missing) > 4 or len(cand) < len(missing) or len(cand) > 8:
                    return Result(self.id, where, 'undetermined',
                                  f'private state {missing} has no counterpart')
                maps = [dict(zip(missing, p)) for p in itertools.islice(
                    itertools.permutations(cand, len(missing)), 60)]
        last = None
        t0 = time.time()
        for m in maps:
            if time.time() - t0 > 60:
                break
            self.alias = m
            r = self.compare(suite, cls, owner, node, ref, specmod, assume, where)
            if r.status == 'ok':
                return r
            last = last or r
        if len(maps) > 1 or maps[0]:
            last.status = 'undetermined' if last.status == 'violation' and len(maps) > 1 \
                else last.status
        return last

    def bindings(self, e, node, ref, skip_self):
        """one symbol per parameter position, named as in the reference"""
        def names(n):
            ps = [p.arg for p in n.args.posonlyargs + n.args.args]
            return ps[1:] if skip_self else ps
        rn, sn = names(node), names(ref)
        ra, sa = {}, {}
        for i, p in enumerate(sn):
            v = self.args.get(p, mk('loc', sym(p)))
            if callable(v):
                v = v(e)
            if v is None:
                continue
            sa[p] = v
            if p in rn:
                ra[p] = v
            elif i < len(rn) and rn[i] not in sn:
                ra[rn[i]] = v
        for p in ref.args.kwonlyargs:
            v = mk('loc', sym(p.arg))
            sa[p.arg] = v
            ra[p.arg] = v
        return ra, sa

    def summary(self, e, owner, node, module, cls, selfv, args):
        o = owner if module is None else _Owner(module, cls)
        return run_function(e, o, node, selfv, args)

    def compare(self, suite, cls, owner, node, ref, specmod, assume, where):
        def one(is_ref):
            e = self.engine(suite, assume)
            if is_ref:
                e.alias = self.alias
            selfv = None
            static = self.kind == 'static'
            if cls is not None and self.kind != 'classmethod' and not static:
                selfv = e.instance(cls, argsyms=self.argsyms, run_init=self.kind != 'init')
            elif self.kind == 'classmethod':
                selfv = mk('cls', val=cls.qual)
            n = ref if is_ref else node
            ra, sa = self.bindings(e, node, ref, selfv is not None)
            if self.kind == 'init':
                def rn(x):
                    return mk('loc', sym('init:' + x.args[0].val)) \
                        if x.op == 'loc' and x.args[0].op == 'sym' else x
                ra = {k: rn(v) for k, v in ra.items()}
                sa = {k: rn(v) for k, v in sa.items()}
            e.jit_depth = int(self.traced)
            e.initialising = self.kind == 'init'
            if self.kind == 'init' and self.rejects:
                e.only_attrs = {self.alias.get(x, x) for x in spec_attrs(specmod, [ref])}
            s = self.summary(e, owner, n, specmod if is_ref else None, cls, selfv,
                             sa if is_ref else ra)
            return e, s
        e1, s1 = one(False)
        e2, s2 = one(True)
        suite.stats['functions'].add(where)
        return self.verdict(suite, e1, s1, e2, s2, ref, where, cls)

    def verdict(self, suite, e1, s1, e2, s2, ref, where, cls):
        dc = FALSE
        for c, v, _ in s2.raises:
            if v.op == 'raise' and v.val in self.dontcare:
                dc = b_or(dc, c)
        if self.rejects:
            for c, v, _ in s1.raises:
                if v.op == 'raise' and v.val in self.dontcare:
                    dc = b_or(dc, c)
        a, b = {}, {}
        if self.kind != 'init':
            a['return value'], b['return value'] = s1.ret, s2.ret
            if self.name == '__bool__':      # only its truth is ever used
                a, b = ({k: t.cond(v) for k, v in z.items()} for z in (a, b))
        own = {x for x in e1.selfs}
        refattrs = {self.alias.get(x, x) for x in self_attrs(ref)}
        for k in set(s1.heap) | set(s2.heap):
            base, name = k
            if k == e1.RANDOM:
                continue
            key = f'{show(base, 4)}.{name}'
            if base in own and name.startswith('_') and k not in s2.heap \
                    and name not in refattrs and (cls is None or self.private_extra(cls, name)):
                continue
            if self.kind == 'init' and k not in s2.heap:
                continue
            d = t.attr(base, name)
            a[key], b[key] = (
                s.heap[k] if k in s.heap else e.d(e.heap[k]) if k in e.heap else d
                for e, s in ((e1, s1), (e2, s2)))
        st1, st2 = (self.canon_store(e, s) for e, s in ((e1, s1), (e2, s2)))
        for x in set(st1) | set(st2):
            key = 'contents of ' + show(x, 4)
            if self.kind == 'init' and x not in st2:
                continue
            if x.op == 'attr' and x.args[0] in own and x.val.startswith('_') \
                    and x not in st2 and x.val not in refattrs:
                continue
            a[key], b[key] = st1.get(x, x), st2.get(x, x)
        for x in set(st1) | set(st2):
            # a private container is rebound or changed in place
            k = (x.args[0], x.val) if x.op == 'attr' else None
            key, con = f'{show(x.args[0], 4)}.{x.val}' if k else '', 'contents of ' + show(x, 4)
            if k and k[0] in own and x.val.startswith('_') and key in a and con in a:
                for o, st in ((a, st1), (b, st2)):
                    o[key] = t.apply_gamma(lambda y: st.get(x, x) if y is x else y, (o[key],))
                del a[con], b[con]
        if self.only is not None:
            a = {k: v for k, v in a.items() if k in self.only}
            b = {k: v for k, v in b.items() if k in self.only}
        diffs = []
        nterms = 0
        for k in sorted(a):
            if k in self.ignore:
                continue
            x, y = a[k], b[k]
            if self.erase:
                x, y = erase_keys(x), erase_keys(y)
            if self.project:
                x, y = self.project(k, x), self.project(k, y)
            if dc is not FALSE:
                m = erase_keys(dc) if self.erase else dc
                x, y = ite(m, DC, x), ite(m, DC, y)
            nterms += sum(1 for _ in t.walk(y))
            if x is not y:
                x, y = rejections(x, self.dontcare), rejections(y, self.dontcare)
                x = t.exclusive(overlay(x, y))
                y = t.exclusive(y)
            if x is not y:
                x, y = keyed(eta(x), eta(y))
                u, v = _products(x), _products(y)
                x, y = (contractions(z, u & v, u != v) for z in (x, y))
            if x is not y:
                x, y = (normal(present(z), self.lens, self.scalars, self.fixed) for z in (x, y))
            if x is not y:
                x, y = minmax_by_cases(x, y)
            if x is not y:
                for p, u, v in diff(x, y):
                    diffs.append((k, p, u, v))
        suite.stats['terms'] += nterms
        facts = {'observables': len(a), 'terms': nterms}
        stale = stale_state(e1, s1, cls) if self.stale else []
        if stale:
            return Result(self.id, where, 'violation', '\n    '.join(stale[:4]), facts,
                          rule='state that may change is read when it is used, not cached')
        if not diffs:
            return Result(self.id, where, 'ok', '', facts)
        sure = [d for d in diffs if not has_opaque(d[2]) and not has_opaque(d[3])]
        txt = []
        for k, p, u, v in (sure or diffs)[:6]:
            pc = f' when {p}' if p else ''
            txt.append(f'{k}{pc}:\n      code : {show(u, 9)[:600]}\n      spec : {show(v, 9)[:600]}')
        det = '\n    '.join(txt)
        if not sure or e1.unsupported:
            un = '; '.join(f'{w}: {x}' for w, x in e1.unsupported[:3])
            return Result(self.id, where, 'undetermined', f'{un}\n    {det}', facts)
        return Result(self.id, where, 'violation', det, facts)

    def canon_store(self, e, s):
        out = {}
        for k, v in s.store.items():
            if k.op == 'ref':
                continue
            x = erase_keys(k.args[0]) if self.erase else k.args[0]
            if not rooted(x):
                continue      # a fresh value: visible through what returns or stores it
            out[x] = v
        return out

    def private_extra(self, cls, name):
        return True


def _contraction(x):
    """the two factors of a row-wise dot product, None if x is not one"""
    if x.op != 'call' or x.val:
        return None
    f, pos, _ = t.call_parts(x)
    if f.op == 'ext' and f.val == 'np:einsum' and len(pos) == 3:
        p = t.const_str(pos[0])
        p = p.replace(' ', '') if p else ''
        a, _, rest = p.partition(',')
        b, _, out = rest.partition('->')
        if len(a) == 2 and a[0] != a[1] and a == b and out == a[0]:
            return pos[1:]
    if f.op == 'call' and f.args[0].op == 'ext' and f.args[0].val == 'jax.vmap' and \
            not f.val and len(f.args) == 2 and f.args[1] is t.ext('np:dot') and len(pos) == 2 \
            and pos[0].op != 'call':
        return pos
    return None


def contractions(x, both, rows):
    """einsum('ij,ij->i', a, b), vmap(dot)(a, b) and the sum of a * b over the last axis agree"""
    def rowsum(y):
        return t.lift(lambda z: t._from_poly(_distribute(z)), y)

    def _distribute(z):
        out = {}
        for m, c in t._to_poly(z).items():
            k = ((mk('rowsum', t._from_mono(m)), Fraction(1)),)
            out[k] = out.get(k, 0) + c
        return out

    def f(n):
        ab = _contraction(n)
        if ab:
            return rowsum(t.mul(*ab))
        if n.op == 'call' and n.args[0].op == 'ext' and n.args[0].val == 'np:sum' and not n.val \
                and len(n.args) == 3 and n.args[2].op == 'num' and (
                    n.args[2].val == -1 or n.args[2].val == 1 and (
                        rows or any(_flat(z) for z in t.walk(n.args[1])))):
            return rowsum(n.args[1])
        if n.op == 'sub' and n.args[0].op == 'attr' and n.args[0].val == 'shape' and \
                n.args[1].op == 'num' and n.args[1].val in (1, -1) and _flat(n.args[0].args[0]):
            return mk('flatdim')        # factors of one contraction have the same shape
        if n.op == 'call' and n not in both and n.args[0].op == 'ext' and \
                n.args[0].val == 'np:einsum':
            return mk('opaque', val=('einsum', n.key))
        return n
    return t.map_terms(x, f)


def _flat(x):
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].val == 'np:clip':
        x = x.args[1]
    return x.op == 'call' and x.args[0].op == 'ext' and x.args[0].val == 'np:reshape' and \
        len(x.args) == 3 and x.args[2].op == 'tuple' and len(x.args[2].args) == 2 and \
        x.args[2].args[1].op == 'num' and x.args[2].args[1].val == -1


def _products(x):
    return {n for n in t.walk(x) if n.op == 'call' and (
        _contraction(n) or n.args[0].op == 'ext' and n.args[0].val == 'np:einsum')}


class GuardObl(Obl):
    """the inputs for which an entry point raises (anything) are exactly those of the reference"""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.id = 'refused: ' + self.id

    def verdict(self, suite, e1, s1, e2, s2, ref, where, cls):
        def guard(s):
            g = FALSE
            for c, v, _ in s.raises:
                g = b_or(g, c)
            return erase_keys(g) if self.erase else g
        x, y = t.exclusive(guard(s1)), t.exclusive(guard(s2))
        nterms = sum(1 for _ in t.walk(y))
        suite.stats['terms'] += nterms
        facts = {'observables': 1, 'terms': nterms, 'raises': len(s1.raises)}
        if x is not y:
            x, y = (normal(present(eta(z)), self.lens, self.scalars, self.fixed) for z in (x, y))
        if x is y:
            return Result(self.id, where, 'ok', '', facts)
        det = '\n    '.join(
            f'refused{" when " + p if p else ""}:\n      code : {show(u, 9)[:500]}\n'
            f'      spec : {show(v, 9)[:500]}' for p, u, v in diff(x, y)[:4])
        if has_opaque(x) or has_opaque(y) or e1.unsupported:
            return Result(self.id, where, 'undetermined', det, facts)
        return Result(self.id, where, 'violation', det, facts,
                      rule='an entry point refuses exactly the inputs it is documented to refuse')


class KeyObl:
    """no PRNG key is consumed twice on one path through an entry point; `obl` names the entry
    point and its configuration"""

    def __init__(self, obl):
        self.obl = obl
        self.id = 'keys: ' + obl.id

    def run(self, suite):
        o = self.obl
        try:
            return self._run(suite, o)
        except RecursionError:
            return Result(self.id, self.id, 'undetermined', 'recursion limit')
        except Exception as ex:
            return Result(self.id, self.id, 'undetermined',
                          f'analysis error {type(ex).__name__}: {ex}\n{traceback.format_exc()}')

    def _run(self, suite, o):
        specmod, ix = suite.spec(o.spec), suite.ix
        rule = 'each PRNG key is consumed at most once per path'
        cls = None
        if o.cls:
            try:
                cls = ix.cls(o.cls)
            except KeyError:
                return Result(self.id, o.cls, 'ok', 'no such class', rule=rule)
        try:
            f = o.repo_node(suite, cls)
        except KeyError:
            f = None
        if f is None:
            return Result(self.id, self.id, 'ok', 'no such entry point', rule=rule)
        owner, node = f
        path = (owner.module if isinstance(owner, ClassInfo) else owner).path
        where = f'{os.path.relpath(path, ix.root)}:{getattr(owner, "name", "")}.{node.name}'
        o.params = [p.arg for p in node.args.posonlyargs + node.args.args]
        o.alias = {}
        assume = o.atoms(suite, cls, specmod)
        if assume is None:
            return Result(self.id, where, 'ok', 'configuration excluded by the code', rule=rule)
        e = o.engine(suite, assume)
        selfv = None
        if o.kind == 'classmethod':
            selfv = mk('cls', val=cls.qual)
        elif cls is not None and o.kind != 'static':
            selfv = e.instance(cls, argsyms=o.argsyms, run_init=o.kind != 'init')
        ra, _ = o.bindings(e, node, node, selfv is not None)
        e.events = []
        s = run_function(e, owner, node, selfv, ra)
        suite.stats['functions'].add(where)
        uses, bad = {}, []
        for ev in e.events:
            if ev[0] != 'keyuse':
                continue
            _, key, what, at, lits, p = ev
            uses.setdefault(key, {}).setdefault(p, (what, at, lits))
            if key in e.keypath or key.op == 'sym':
                made = [x for x in e.keypath.get(key, ()) if isinstance(x, tuple)
                        and x[0] == 'loop']
                loops = [x for x in p if isinstance(x, tuple) and x[0] == 'loop']
                if loops[:len(made)] == made and len(loops) > len(made):
                    bad.append(f'{at}: a key made before the loop is consumed in every iteration '
                               f'by {what}')
        for key, d in uses.items():
            evs = list(d.values())
            for i, (w1, a1, l1) in enumerate(evs):
                for w2, a2, l2 in evs[i + 1:]:
                    if all(l2.get(k, v) == v for k, v in l1.items()):
                        bad.append(f'{a2}: key already consumed at {a1} by {w1} is consumed again '
                                   f'by {w2}')
        facts = {'keys': len(uses), 'uses': sum(len(d) for d in uses.values())}
        if o.name == 'rng' and o.kind == 'prop':
            bad += self.fresh_key(e, s)
        if bad:
            bad = [b.replace(ix.root + '/', '') for b in dict.fromkeys(bad)]
            return Result(self.id, where, 'violation', '\n    '.join(bad[:6]), facts, rule=rule)
        return Result(self.id, where, 'ok', '', facts, rule=rule)

    def fresh_key(self, e, s):
        """a key handed out is neither the stored key nor handed out again"""
        stored = [v for k, v in s.heap.items() if k[0] in e.selfs]
        if s.ret.op != 'key':
            olds = [t.attr(b, n) for b in e.selfs for n in ('_random_key',)]
            return ['the stored key itself is handed out'] if s.ret in olds else []
        if any(v is s.ret for v in stored):
            return ['the key handed out is stored as the next key']
        return []


# state that callers replace between calls of a compiled function
LIVE = {'params', 'function_state', 'rng', 'optimizer', 'optimizer_state', 'hyperparams', 'beta',
        'priors', 'epsilon', 'temperature', 'tau', 'gamma', 'target_params',
        'target_function_state'}
# collaborators that are fixed by construction
FIXED = {'loss_function', 'policy_regularizer', 'regularizer', 'model', 'q_targ_list',
         'pi_targ_list', 'pi_targ', 'q_targ', 'proba_dist'}


def stale_state(e, s, cls):
    out = []
    for ev in e.events:
        if ev[0] == 'jitread':
            i, n, where = ev[1], ev[2], ev[3]
            c = e.types.get(i)
            if c is not None:
                live = n in LIVE or (n in later_mutated(c) and n not in FIXED
                                     and not n.endswith('_func'))
            else:
                live = n in LIVE and i.op in ('sym', 'attr', 'loc')
            if live:
                out.append(f'{where}: {show(i, 3)}.{n} is read while the function is compiled; '
                           'later changes are not seen')
        elif ev[0] == 'memo':
            i, n, where = ev[1], ev[2], ev[3]
            v = e.heap.get((i, n))
            c = e.types.get(i)
            if v is None:
                continue
            writers = {m for m in effective(c) if n in self_stores(effective(c)[m])}
            if len(writers - {'__init__'}) > 1:
                out.append(f'{where}: cache {n} is shared by {sorted(writers)}')
            elif v.op not in ('clo', 'jitted', 'func', 'lam', 'const'):
                x = e.d(v)
                if all(y.op == 'lam' or y is t.attr(i, n) for y in gamma_leaves(x)):
                    continue
                if any(y.op in ('sym', 'attr', 'loc', 'sub') for y in t.walk(x)):
                    out.append(f'{where}: {n} caches {show(x, 5)[:200]} on first use')
    return out


REJ = mk('raise', val='rejected')


def rejections(x, kinds):
    """which of the 'argument not acceptable' errors a function value raises is not compared"""
    if not t.contains(x, lambda y: y.op == 'raise'):
        return x
    return t.map_terms(x, lambda y: REJ if y.op == 'raise' and y.val in kinds else y)


def overlay(x, y):
    """x, with the inputs that the reference function value y rejects left out"""
    if x is y or not t.contains(y, lambda z: z is REJ):
        return x
    if x.op == 'gamma' or y.op == 'gamma':
        return t.apply_gamma(lambda u, v: v if v is REJ else overlay(u, v), (x, y))
    if x.op == 'lam' and y.op == 'lam' and x.val == y.val:
        tmps = [mk('tmp', val=('ov', i, id(x))) for i in range(y.args[0].val[1])]
        if x.args[0].val[1] != len(tmps):
            return x
        u, v = t.unbind(x.args[0], tmps), t.unbind(y.args[0], tmps)
        return mk('lam', t.bind(tmps, overlay(u, v)), val=x.val)
    return x


def effective(cls):
    out = {}
    for c in cls.mro:
        if isinstance(c, ClassInfo):
            for k, v in c.methods.items():
                out.setdefault(k, v)
    return out


def default_map(f):
    a = f.args
    ps = a.posonlyargs + a.args
    out = {p.arg: None for p in ps + a.kwonlyargs}
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        out[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out[p.arg] = d
    return out


def defaults_differ(node, ref):
    """literal defaults of like-named parameters must agree"""
    have, want = default_map(node), default_map(ref)
    for p, d in want.items():
        if d is None or p not in have:
            continue
        try:
            w = ast.literal_eval(d)
        except ValueError:
            continue
        if have[p] is None:
            return f'parameter {p} has no default value any more (expected {w!r})'
        try:
            h = ast.literal_eval(have[p])
        except ValueError:
            continue
        if h is None and w is not None:
            continue      # may be filled in by the body
        if h != w or (type(h) is bool) != (type(w) is bool):
            return f'parameter {p} defaults to {h!r}, expected {w!r}'
    return None


def pytree_node(modname, clsname, which):
    """finder: the (un)flatten function registered with jax for a class"""
    def find(suite):
        m = suite.ix.modules[modname]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and ast.unparse(n.func).rpartition('.')[2] == \
                    'register_pytree_node' and ast.unparse(n.args[0]) == clsname:
                a = (list(n.args) + [k.value for k in n.keywords])[1 + which]
                if isinstance(a, ast.Lambda):
                    f = ast.FunctionDef('<lambda>', a.args, [ast.Return(a.body)], [],
                                        type_params=[])
                    return m, ast.fix_missing_locations(ast.copy_location(f, a))
                if isinstance(a, ast.Name):
                    return suite.ix.func(modname, a.id)
                raise ValueError('registered function not recognised')
        if 'register_pytree' in m.src:
            raise ValueError('registration not recognised')
        return None
    return find


def rooted(x):
    """is x a part of a parameter, of the instance or of module state (not a call result)"""
    while x.op in ('attr', 'sub', 'gamma'):
        x = x.args[1] if x.op == 'gamma' else x.args[0]
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].val.rpartition('.')[2] == 'open':
        return True
    return x.op not in ('call', 'res', 'tmp')


class _Owner:
    def __init__(self, module, cls):
        self.module, self.cls = module, cls


def run_function(e, owner, node, selfv, args):
    if isinstance(owner, _Owner):
        m, c = owner.module, owner.cls
    elif isinstance(owner, ClassInfo):
        m, c = owner.module, owner
    else:
        m, c = owner, None
    return e.run(owner if not isinstance(owner, _Owner) else (m, c), node, selfv, args)


def diff(x, y, path=(), out=None, limit=12):
    """minimal differing sub-terms with the decision path leading to them"""
    out = [] if out is None else out
    if x is y or len(out) >= limit:
        return out
    if x.op == 'gamma' or y.op == 'gamma':
        a = t._top((x, y))
        if len(path) < 14:
            for pol in (True, False):
                u, v = t._cof(x, a, pol), t._cof(y, a, pol)
                if u is not v:       # the same decision may recur below a binder
                    u, v = t.restrict(u, {a: pol}), t.restrict(v, {a: pol})
                    diff(u, v, path + (('' if pol else 'not ') + show(a, 5),), out, limit)
            return out
    if x.op == y.op and x.val == y.val and len(x.args) == len(y.args) and x.op not in (
            'sum', 'mono'):
        for u, v in zip(x.args, y.args):
            diff(u, v, path, out, limit)
        return out       # empty: the parts agree in every case
    out.append((' and '.join(path)[:300], x, y))
    return out
