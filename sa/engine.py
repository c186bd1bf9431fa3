"""Gated-SSA value-graph construction for Python functions (flow-sensitive, inlining).

Given a function of the analysed source, builds the value graph of its result, of every
attribute / container it writes, and of every exceptional exit, as normalised terms
(`terms.py`).  Branches are joined with gating (gamma) nodes and loops are summarised by
binder terms, so no path is enumerated and no analysed code is run.
"""
import ast
from . import terms as t
from .terms import (mk, T, TRUE, FALSE, NONE, ZERO, ONE, BOT, num, const, sym, ext, fresh,
                    opaque, tup, lst, dct, ite, cond, b_and, b_or, b_not, const_str, call,
                    is_const, pyval, bind, subst, walk)
from .loader import ClassInfo, Module

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
          ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|',
          ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

MUTATORS = {'append', 'appendleft', 'extend', 'extendleft', 'insert', 'remove', 'clear', 'pop',
            'popleft', 'popitem', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
            'rotate', 'fill', '__setitem__', 'set_values', 'seed', 'setstate', 'step', 'reset',
            'close', 'write', 'flush'}
# methods returning a value AND mutating the receiver
MUT_RESULT = {'pop', 'popleft', 'popitem', 'setdefault', 'step', 'reset'}

# array methods that exist both as x.f(...) and np.f(x, ...)
ARRAY_METHODS = {'sum', 'mean', 'max', 'min', 'reshape', 'squeeze', 'dot', 'any', 'all',
                 'transpose', 'ravel', 'clip', 'argmax', 'argmin', 'std', 'var', 'cumsum',
                 'cumprod', 'prod', 'repeat', 'swapaxes', 'round', 'argsort'}

# canonical positional signatures: np functions (after namespace unification)
NP_SIGS = {
    'sum': ('a', 'axis', 'dtype', 'out', 'keepdims'), 'mean': ('a', 'axis', 'dtype'),
    'max': ('a', 'axis', 'out', 'keepdims'), 'min': ('a', 'axis', 'out', 'keepdims'),
    'argmax': ('a', 'axis'), 'argmin': ('a', 'axis'), 'std': ('a', 'axis'),
    'any': ('a', 'axis'), 'all': ('a', 'axis'), 'prod': ('a', 'axis'),
    'clip': ('a', 'a_min', 'a_max'), 'stack': ('arrays', 'axis'),
    'concatenate': ('arrays', 'axis'), 'expand_dims': ('a', 'axis'),
    'squeeze': ('a', 'axis'), 'tile': ('a', 'reps'), 'repeat': ('a', 'repeats', 'axis'),
    'reshape': ('a', 'newshape'), 'full': ('shape', 'fill_value', 'dtype'),
    'zeros': ('shape', 'dtype'), 'ones': ('shape', 'dtype'), 'asarray': ('a', 'dtype'),
    'array': ('a', 'dtype'), 'where': ('condition', 'x', 'y'), 'power': ('x1', 'x2'),
    'take': ('a', 'indices', 'axis'), 'arange': ('start', 'stop', 'step', 'dtype'),
    'cumsum': ('a', 'axis'), 'cumprod': ('a', 'axis'), 'argsort': ('a', 'axis'),
    'zeros_like': ('a', 'dtype'), 'ones_like': ('a', 'dtype'),
    'full_like': ('a', 'fill_value', 'dtype'), 'dot': ('a', 'b'),
    'isclose': ('a', 'b', 'rtol', 'atol'), 'moveaxis': ('a', 'source', 'destination'),
    'roll': ('a', 'shift', 'axis'), 'einsum': None,
}
NP_DEFAULTS = {('sum', 'axis'): NONE, ('mean', 'axis'): NONE, ('max', 'axis'): NONE,
               ('min', 'axis'): NONE, ('stack', 'axis'): ZERO, ('concatenate', 'axis'): ZERO,
               ('squeeze', 'axis'): NONE, ('any', 'axis'): NONE, ('all', 'axis'): NONE,
               ('argmax', 'axis'): NONE, ('argmin', 'axis'): NONE, ('std', 'axis'): NONE,
               ('prod', 'axis'): NONE, ('asarray', 'dtype'): NONE, ('array', 'dtype'): NONE,
               ('sum', 'dtype'): NONE, ('sum', 'out'): NONE, ('max', 'out'): NONE,
               ('min', 'out'): NONE, ('sum', 'keepdims'): FALSE, ('max', 'keepdims'): FALSE,
               ('min', 'keepdims'): FALSE, ('mean', 'dtype'): NONE}
EXT_SIGS = {
    'jax.nn.softmax': ('x', 'axis'), 'jax.nn.log_softmax': ('x', 'axis'),
    'jax.nn.one_hot': ('x', 'num_classes'),
    'jax.scipy.special.logsumexp': ('a', 'axis'),
    'jax.grad': ('fun', 'argnums', 'has_aux'),
    'jax.value_and_grad': ('fun', 'argnums', 'has_aux'), 'jax.vmap': ('fun', 'in_axes', 'out_axes'),
    'jax.random.uniform': ('key', 'shape'), 'jax.random.normal': ('key', 'shape'),
}
EXT_DEFAULTS = {('jax.nn.softmax', 'axis'): num(-1), ('jax.nn.log_softmax', 'axis'): num(-1),
                ('jax.grad', 'argnums'): ZERO, ('jax.grad', 'has_aux'): FALSE,
                ('jax.value_and_grad', 'argnums'): ZERO, ('jax.value_and_grad', 'has_aux'): FALSE,
                ('jax.vmap', 'in_axes'): ZERO, ('jax.vmap', 'out_axes'): ZERO,
                ('jax.scipy.special.logsumexp', 'axis'): NONE}
# signatures of interface callables reached through opaque objects
ATTR_SIGS = {
    'affine_transform': (('dist_params', 'scale', 'shift', 'value_transform'),
                         {'value_transform': NONE}),
    'postprocess_variate': (('rng', 'X', 'index', 'batch_mode'),
                            {'index': ZERO, 'batch_mode': FALSE}),
    'preprocess_variate': (('rng', 'X'), {}),
    'log_proba': (('dist_params', 'X'), {}), 'sample_func': None,
    'entropy': (('dist_params',), {}),
    'cross_entropy': (('dist_params_p', 'dist_params_q'), {}),
    'kl_divergence': (('dist_params_p', 'dist_params_q'), {}),
    'observation_preprocessor': (('rng', 'X'), {}),
    'action_preprocessor': (('rng', 'X'), {}),
    'batch_eval': (('params', 'hyperparams', 'state', 'rng', 'transition_batch'), {}),
    'mean_func_type1': (('params', 'state', 'rng', 'S', 'A'), {}),
    'mean_func_type2': (('params', 'state', 'rng', 'S'), {}),
    'mode_func': (('params', 'state', 'rng', 'S'), {}),
    'loss_function': (('y_true', 'y_pred', 'w'), {}),
}
UNARY_NP = {'square': lambda a: t.mul(a, a), 'negative': t.neg,
            'reciprocal': lambda a: t.div(ONE, a)}
BIN_NP = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/',
          'power': '**', 'float_power': '**', 'mod': '%', 'remainder': '%',
          'floor_divide': '//', 'matmul': '@', 'bitwise_and': '&', 'bitwise_or': '|'}
CMP_NP = {'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>',
          'greater_equal': '>='}
OPERATOR = {'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*',
            'operator.truediv': '/', 'operator.mod': '%', 'operator.pow': '**'}
IGNORED_CALLS = ('warnings.', 'chex.assert', 'print', 'logging.')
KEY = mk('KEY')


# operations on a key that do not use it up
KEYPARAMS = {'rng', 'key', 'rng_key', 'prng_key', 'random_key'}
NOT_CONSUMING = {'jax.random.fold_in', 'jax.random.key_data', 'jax.random.clone',
                 'jax.random.PRNGKey', 'jax.random.key'}


# records under different names may be written in any order
COMMUTING = {'add_scalar': ('tag', 'scalar_value', 'global_step', 'walltime'),
             'add_histogram': ('tag', 'values', 'global_step', 'bins', 'walltime', 'max_bins')}


def commuting(name, xs):
    cur, tag = xs[0], xs[1]
    if cur.op == 'mut' and cur.val[0] in COMMUTING and cur.val[1] == 'by tag' and \
            const_str(tag) is not None and const_str(cur.args[1]) is not None and \
            const_str(tag) < const_str(cur.args[1]):
        return mk('mut', commuting(name, (cur.args[0],) + tuple(xs[1:])), *cur.args[1:],
                  val=cur.val)
    return mk('mut', *xs, val=(name, 'by tag'))


class Closure:
    def __init__(self, node, frame, module, cls=None, selfv=None, jitted=False, pre=(), prekw=()):
        self.node, self.frame, self.module, self.cls = node, frame, module, cls
        self.selfv, self.jitted, self.pre, self.prekw = selfv, jitted, tuple(pre), tuple(prekw)

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')


class Frame:
    def __init__(self, module, cls=None, parent=None, func=None):
        self.env, self.module, self.cls, self.parent, self.func = {}, module, cls, parent, func
        self.selfv = None
        self.discard = False    # the caller ignores the result


class Exit:
    __slots__ = ('cond', 'kind', 'val', 'heap', 'store', 'env', 'line')

    def __init__(self, cond, kind, val, heap, store, env, line):
        self.cond, self.kind, self.val = cond, kind, val
        self.heap, self.store, self.env, self.line = heap, store, env, line


class Summary:
    """value graph of one function"""

    def __init__(self, ret, heap, store, raises):
        self.ret, self.heap, self.store, self.raises = ret, heap, store, raises


class TooDeep(Exception):
    pass


class Engine:
    MAXDEPTH = 40

    def __init__(self, index, assume=None, opaque_funcs=(), inline_classes=(), opaque_methods=()):
        self.ix = index
        self.assume = dict(assume or {})
        self.opaque_funcs = set(opaque_funcs)
        self.inline_classes = set(inline_classes)
        self.opaque_methods = set(opaque_methods)   # attr names never inlined on typed self
        self.clos = {}
        self.heap, self.store = {}, {}
        self.types = {}
        self.frame = None
        self.exits = [[]]
        self.stack = []
        self.effectful = set()  # uninterpreted methods whose calls are kept in order
        self.initialising = False
        self.lazy = True        # a missing private attribute is a cache not yet filled
        self.path = ()          # call sites and loop iterations leading here
        self.keypath = {}       # key -> path where it was made
        self.lits = {}
        self.events = []
        self.jit_depth = 0
        self.selfs = set()
        self.opaque_props = {'rng'}
        self.lam_cache = {}
        self.unsupported = []
        self.modvals = {}
        self.known_nonnone = set()
        self.src = {}
        self.alias = {}      # reference name -> current name of private state

    # ------------------------------------------------------------------ state
    def snap(self):
        return dict(self.heap), dict(self.store), dict(self.frame.env)

    def restore(self, s):
        self.heap, self.store, self.frame.env = dict(s[0]), dict(s[1]), dict(s[2])

    def merge(self, c, s1, s2):
        """state := if c then s1 else s2 (either may be None = unreachable)"""
        if s1 is None or c is FALSE:
            self.restore(s2)
            return
        if s2 is None or c is TRUE:
            self.restore(s1)
            return
        h1, st1, e1 = s1
        h2, st2, e2 = s2
        heap, store, env = {}, {}, {}
        for k in list(h1) + [k for k in h2 if k not in h1]:
            a, b = h1.get(k), h2.get(k)
            if a is None:
                a = self._heap_default(k)
            if b is None:
                b = self._heap_default(k)
            heap[k] = ite(c, a, b)
        for k in list(st1) + [k for k in st2 if k not in st1]:
            a, b = st1.get(k), st2.get(k)
            if a is None:
                a = self._store_default(k)
            if b is None:
                b = self._store_default(k)
            store[k] = ite(c, a, b)
        for k in list(e1) + [k for k in e2 if k not in e1]:
            env[k] = ite(c, e1.get(k, BOT), e2.get(k, BOT))
        self.heap, self.store, self.frame.env = heap, store, env

    def _heap_default(self, k):
        base, name = k
        if base.op == 'ref':
            return BOT
        return mk('loc', t.attr(base, name))

    def _store_default(self, k):
        if k.op == 'ref':
            return BOT
        return k.args[0]

    # ------------------------------------------------------------------ values
    def newref(self, content=None, cls=None):
        r = fresh('ref', cls.name if cls else '')
        if content is not None:
            self.store[r] = content
        if cls is not None:
            self.types[r] = cls
        return r

    def clo(self, c):
        _id = len(self.clos)
        self.clos[_id] = c
        return mk('clo', val=(_id, c.name))

    def identity(self, v):
        return v.args[0] if v.op == 'loc' else v

    def content(self, v):
        """shallow content of a loc/ref value"""
        if v.op == 'loc':
            return self.store.get(v, v.args[0])
        if v.op == 'ref':
            return self.store.get(v, v)
        if v.op == 'gamma':
            return t.apply_gamma(self.content, (v,))
        return v

    def d(self, v, depth=0):
        """deep dereference to a pure term"""
        cache = {}

        def rec(x, dep):
            if x.op in ('num', 'const', 'sym', 'ext', 'bvar', 'tmp', 'key'):
                return x
            r = cache.get(x.key)
            if r is not None:
                return r
            if dep > 30:
                return opaque('cyclic structure')
            if x.op == 'loc':
                y = self.store.get(x)
                r = rec(y, dep + 1) if y is not None else x.args[0]
                b = x.args[0]
                if b not in self.selfs:
                    mods = sorted(((n, v) for (bb, n), v in self.heap.items() if bb is b))
                    mods = [(n, v) for n, v in mods
                            if not (v.op == 'loc' and v.args[0].op == 'attr'
                                    and v.args[0].args[0] is b and v.args[0].val == n)]
                    if mods:
                        r = mk('with', r, *[rec(v, dep + 1) for _, v in mods],
                               val=tuple(n for n, _ in mods))
            elif x.op == 'ref':
                cls = self.types.get(x)
                if cls is not None:
                    if x in self.selfs:
                        r = x
                    else:
                        items = sorted(((n, v) for (bb, n), v in self.heap.items() if bb is x),
                                       key=lambda z: z[0])
                        r = mk('obj', *[rec(v, dep + 1) for _, v in items],
                               val=(cls.name, tuple(n for n, _ in items)))
                else:
                    y = self.store.get(x)
                    r = rec(y, dep + 1) if y is not None else x
            elif x.op == 'clo':
                r = self.lam(x)
            elif x.op == 'bound':
                r = t.attr(rec(x.args[0], dep + 1), x.val)
            elif x.op == 'jitted':
                r = rec(x.args[0], dep + 1)
            else:
                if not x.args:
                    return x
                args = tuple(rec(a, dep) for a in x.args)
                r = x if args == x.args else t.rebuild(x, args)
            cache[x.key] = r
            return r
        return rec(v, depth)

    def lam(self, x):
        c = self.clos[x.val[0]]
        if isinstance(c, Closure) and c.selfv is not None and not c.pre and not c.prekw \
                and isinstance(c.node, ast.FunctionDef):
            pass
        key = x.key
        if key in self.lam_cache:
            return self.lam_cache[key]
        if key in [k for k, _ in self.stack if isinstance(k, str)]:
            return mk('call', ext('rec:' + c.name))
        a = c.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        if c.selfv is not None:
            pos = pos[1:]
        npre = len(c.pre)
        pos = pos[npre:]
        pos = [p for p in pos if p not in dict(c.prekw)]
        tmps = [fresh('tmp', 'rng' if p == 'rng' else '') for p in pos]
        kwt = [fresh('tmp') for _ in a.kwonlyargs]
        args = [(None, x_) for x_ in tmps]
        if a.vararg:
            va = fresh('tmp')
            tmps.append(va)
            args.append(('*', va))
        kws = [(k.arg, v) for k, v in zip(a.kwonlyargs, kwt)]
        s = self.snap()
        self.exits.append([])
        self.stack.append((key, c.name))
        try:
            # positional params with defaults: bind explicitly
            r = self.call_closure(c, args, kws, force=True)
            r = self.d(r) if r is not None else BOT
        finally:
            self.stack.pop()
        ex = self.exits.pop()
        for e in reversed(ex):
            if e.kind == 'raise':
                r = ite(e.cond, e.val, r)
        self.restore(s)
        node = mk('lam', bind(tmps + kwt, r), val=(len(tmps), bool(a.vararg)))
        # eta: lambda x: f(x) -> f
        self.lam_cache[key] = node
        return node

    # ------------------------------------------------------------------ names
    def lookup(self, name):
        f = self.frame
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is not BOT:
                    return v
            f = f.parent
        if name.startswith('init__') and self.frame.module.name.startswith('spec_'):
            return mk('loc', sym('init:' + name[6:]))     # the constructor's argument
        return self.module_name(self.frame.module, name)

    def module_name(self, m, name):
        r = self.ix.resolve(m, name)
        return self.resolved(r, name)

    def resolved(self, r, name=''):
        if r is None:
            return ext(name)
        if r[0] == 'ext':
            return ext(canon_ext(r[1]))
        if r[0] == 'mod':
            return mk('mod', val=r[1].name)
        if r[0] == 'class':
            return mk('cls', val=r[1].qual)
        if r[0] == 'func':
            qual = f'{r[1].name}.{r[2].name}'
            return mk('func', val=qual)
        if r[0] == 'value':
            k = (r[1].name, name)
            if k not in self.modvals:
                self.modvals[k] = opaque('cyclic module constant')
                fr = self.frame
                self.frame = Frame(r[1])
                try:
                    self.modvals[k] = self.ev(r[2])
                finally:
                    self.frame = fr
            return self.modvals[k]
        return ext(name)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            self.unsupported.append((self.where(e), type(e).__name__))
            return opaque(type(e).__name__)
        return m(e)

    def where(self, node):
        m = self.frame.module
        return f'{m.path}:{getattr(node, "lineno", 0)}'

    def pure(self, e):
        return self.d(self.ev(e))

    def ev_Constant(self, e):
        return const(e.value) if e.value is not Ellipsis else t.ELLIPSIS

    def ev_Name(self, e):
        return self.lookup(e.id)

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.frame.env[e.target.id] = v
        return v

    def ev_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.pure(v.value)
                if v.format_spec is not None or v.conversion != -1:
                    x = mk('fmt', x, val=(v.conversion, ast.unparse(v.format_spec)
                                          if v.format_spec else ''))
                parts.append(x)
        if any(p.op == 'gamma' for p in parts):
            return t.lift(lambda *xs: t.fstr(list(xs)), *parts)
        return t.fstr(parts)

    def ev_Tuple(self, e):
        return self.seq('tuple', e.elts)

    def ev_List(self, e):
        return self.newref(self.seq('list', e.elts))

    def ev_Set(self, e):
        xs = [self.pure(x) for x in e.elts]
        return self.newref(mk('set', *sorted(xs, key=lambda x: x.key)))

    def seq(self, op, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.content(self.ev(x.value))
                v = self.as_seq(v)
                if v.op in ('tuple', 'list'):
                    out += v.args
                else:
                    out.append(mk('star', self.d(v)))
            else:
                out.append(self.ev(x))
        return mk(op, *out)

    def as_seq(self, v):
        v = self.content(v)
        if v.op == 'dict':
            return lst(*v.args[::2])
        return v

    def ev_Dict(self, e):
        cur = []
        acc = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.content(self.ev(v))
                if x.op == 'dict':
                    cur += t.dict_items(x)
                else:
                    base = dct(cur)
                    acc = self.dmerge(acc, base) if acc is not None else base
                    acc = self.dmerge(acc, self.d(x))
                    cur = []
            else:
                cur.append((self.pure(k), self.ev(v)))
        r = dct(cur)
        if acc is not None:
            r = self.dmerge(acc, r)
        return self.newref(r)

    def dmerge(self, a, b):
        def f(a, b):
            if a.op == 'dict' and b.op == 'dict':
                return dct(t.dict_items(a) + t.dict_items(b))
            if b.op == 'dict' and not b.args:
                return a
            if a.op == 'dict' and not a.args:
                return b
            if a.op == 'dmerge' and b.op == 'dict' and a.args[1].op == 'dict':
                return mk('dmerge', a.args[0], dct(t.dict_items(a.args[1]) + t.dict_items(b)))
            return mk('dmerge', a, b)
        return t.lift(f, a, b)

    def ev_BinOp(self, e):
        if isinstance(e.op, ast.Mult) and isinstance(e.left, (ast.List, ast.Tuple)) and \
                len(e.left.elts) == 1 and isinstance(e.left.elts[0], (
                    ast.Name, ast.Attribute, ast.Constant)):
            n = self.pure(e.right)
            if n.op != 'num':
                k = fresh('tmp', 'i')
                dom, _ = self.iter_dom(call(ext('range'), [n]), k)
                r = self.mkmap(dom, k, TRUE, self.pure(e.left.elts[0]),
                               'list' if isinstance(e.left, ast.List) else 'tuple')
                return self.newref(r) if isinstance(e.left, ast.List) else r
        a, b = self.pure(e.left), self.pure(e.right)
        if isinstance(e.op, ast.Add) and any(
                x.op == 'fstr' or const_str(x) is not None for x in (a, b)) and not any(
                x.op == 'gamma' for x in (a, b)):
            return t.fstr([a, b])
        if isinstance(e.op, ast.Mod) and const_str(a) is not None:
            r = percent_format(const_str(a), b)
            if r is not None:
                return r
        r = t.binop(BINOPS[type(e.op)], a, b)
        if r.op in ('list',) or (r.op == 'concat' and a.op in ('list', 'map')):
            return self.newref(r)
        return r

    def ev_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return b_not(self.evcond(e.operand))
        v = self.pure(e.operand)
        if isinstance(e.op, ast.USub):
            return t.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return t.lift(lambda x: mk('invert', x), v)

    def ev_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        if self._boolish(e):
            return self.evcond(e)
        v = self.ev(e.values[0])
        c = self.truth(v)
        if c is TRUE or c is FALSE:
            if (c is TRUE) == is_and:
                rest = e.values[1:]
                return self.ev(rest[0]) if len(rest) == 1 else self.ev(
                    ast.copy_location(ast.BoolOp(op=e.op, values=rest), e))
            return v
        rest = e.values[1:]
        re = rest[0] if len(rest) == 1 else ast.copy_location(
            ast.BoolOp(op=e.op, values=rest), e)
        w = self.under(c if is_and else b_not(c), lambda: self.ev(re))
        return ite(c, w, v) if is_and else ite(c, v, w)

    def _boolish(self, e):
        if isinstance(e, ast.BoolOp):
            return all(self._boolish(v) for v in e.values)
        if isinstance(e, ast.Compare):
            return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        if isinstance(e, ast.Constant) and isinstance(e.value, bool):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
                'isinstance', 'bool', 'any', 'all', 'hasattr', 'callable', 'issubclass',
                'is_stochastic', 'is_policy', 'is_qfunction', 'is_vfunction'):
            return True
        return False

    def evcond(self, e):
        """boolean diagram of expression e, short-circuiting"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            c = self.evcond(e.values[0])
            for v in e.values[1:]:
                if is_and:
                    if c is FALSE:
                        return c
                    c = b_and(c, self.under(c, lambda: self.evcond(v)))
                else:
                    if c is TRUE:
                        return c
                    c = b_or(c, self.under(b_not(c), lambda: self.evcond(v)))
            return c
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return b_not(self.evcond(e.operand))
        return self.truth(self.ev(e))

    def truth(self, v):
        v = self.resolve_truth(v)
        return self.simp(v)

    def resolve_truth(self, v):
        if v.op == 'gamma':
            return t.apply_gamma(lambda x: self.resolve_truth(x), (v,))
        i = self.identity(v)
        cls = self.types.get(i)
        if cls is not None:
            for nm in ('__bool__', '__len__'):
                f = cls.lookup(nm)
                if f is not None:
                    r = self.call_method(v, f[0], f[1], [], [])
                    return cond(self.d(r))
            return TRUE
        if v.op in ('clo', 'func', 'cls', 'bound', 'jitted'):
            return TRUE
        pv = self.d(v)
        if self.is_container(v, pv) and pv.op not in ('list', 'tuple', 'dict', 'set'):
            return cond(call(ext('len'), [pv]))
        return cond(pv)

    def is_container(self, v, pv):
        if v.op == 'ref' and v not in self.types:
            return True
        return pv.op in ('mut', 'map', 'concat', 'dictmap', 'dmerge') or \
            (pv.op == 'attr' and pv.key in getattr(self, 'container_attrs', ()))

    def simp(self, c):
        """restrict boolean diagram under assumptions and current literals"""
        if c.op == 'gamma' and (self.assume or self.lits):
            env = dict(self.assume)
            env.update(self.lits)
            return t.apply_gamma(lambda x: x, (self._restr(c, env),))
        return c

    def _restr(self, c, env, memo=None):
        if c.op != 'gamma':
            return c
        memo = {} if memo is None else memo
        r = memo.get(c)
        if r is None:
            a = c.args[0]
            v = self.lit(a, env)
            if v is not None:
                r = self._restr(c.args[1] if v else c.args[2], env, memo)
            else:
                r = t._gnode(a, self._restr(c.args[1], env, memo),
                             self._restr(c.args[2], env, memo))
            memo[c] = r
        return r

    def lit(self, a, env):
        if a in env:
            return env[a]
        return None

    def under(self, c, thunk):
        """evaluate thunk knowing c (only literals of a cube are remembered)"""
        old = self.lits
        self.lits = dict(old)
        self.lits.update(cube(c))
        try:
            return thunk()
        finally:
            self.lits = old

    def ev_Compare(self, e):
        left = self.ev(e.left)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            o = CMPOPS[type(op)]
            res = b_and(res, self.cmp(o, left, right))
            left = right
        return self.simp(res)

    def cmp(self, o, a, b):
        if o in ('is', 'is not') and (a.op in ('ref',) or b.op in ('ref',)):
            if a is b:
                return const(o == 'is')
            if NONE in (a, b):
                return const(o != 'is')
        for x, y in ((a, b), (b, a)):
            if o in ('is', 'is not') and y is NONE and self.identity(x) in self.known_nonnone:
                return const(o != 'is')
        return t.compare(o, self.d(a), self.d(b))

    def ev_IfExp(self, e):
        c = self.evcond(e.test)
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        s0 = self.snap()
        a = self.under(c, lambda: self.ev(e.body))
        s1 = self.snap()
        self.restore(s0)
        b = self.under(b_not(c), lambda: self.ev(e.orelse))
        s2 = self.snap()
        self.merge(c, s1, s2)
        return ite(c, a, b)

    def ev_Lambda(self, e):
        return self.clo(Closure(e, self.frame, self.frame.module, self.frame.cls))

    def ev_Starred(self, e):
        return mk('star', self.pure(e.value))

    def ev_Slice(self, e):
        f = lambda x: NONE if x is None else self.pure(x)
        return mk('slice', f(e.lower), f(e.upper), f(e.step))

    def ev_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev(e.slice)
        return self.getitem(b, i)

    def getitem(self, b, i):
        b = t.bval(b)
        if b.op == 'gamma':
            return self.over_gamma(b, lambda x: self.getitem(x, i))
        cls = self.types.get(self.identity(b))
        if cls is not None:
            f = cls.lookup('__getitem__')
            if f is not None and f[1].name not in self.opaque_methods:
                return self.call_method(b, f[0], f[1], [(None, i)], [])
        c = self.content(b)
        i = self.d(i)
        if c.op in ('tuple', 'list', 'dict'):
            r = t.subscript(c, i)
            if r.op != 'sub':
                return r
        c = self.d(c)
        if i.op == 'slice' and i.args[0] is ZERO:
            i = mk('slice', NONE, i.args[1], i.args[2])
        if i.op == 'slice' and i.args[2] is ONE:
            i = mk('slice', i.args[0], i.args[1], NONE)
        if c.op == 'prngsplit' or (c.op == 'call' and c.args[0].op == 'ext'
                                   and c.args[0].val == 'jax.random.split'):
            return self.newkey('split')
        r = t.subscript(c, i)
        if r.op in ('sub',):
            return mk('loc', r)
        return r

    def over_gamma(self, g, f):
        """apply an (effectful) operation to each leaf of a gamma value"""
        a, hi, lo = g.args
        c = mk('gamma', a, TRUE, FALSE)
        v = self.lit(a, {**self.assume, **self.lits})
        if v is not None:
            return f(hi if v else lo)
        s0 = self.snap()
        x = self.under(c, lambda: f(hi))
        s1 = self.snap()
        self.restore(s0)
        y = self.under(b_not(c), lambda: f(lo))
        s2 = self.snap()
        self.merge(c, s1, s2)
        return ite(c, x, y)

    def ev_Attribute(self, e):
        b = self.ev(e.value)
        name = self.aliased(e)
        if name.startswith('__') and not name.endswith('__') and self.frame_cls() is not None:
            name = f'_{self.frame_cls().name}{name}'
        return self.getattr(b, name, e)

    def aliased(self, e):
        if self.alias and e.attr in self.alias and isinstance(e.value, ast.Name) and \
                e.value.id == 'self' and self.frame.module.name.startswith('spec_'):
            return self.alias[e.attr]
        return e.attr

    def frame_cls(self):
        f = self.frame
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def getattr(self, b, name, e=None):
        b = t.bval(b)
        if name == 'maxlen':
            ml = t.deque_maxlen(self.content(b))
            if ml is not None and ml.op != 'attr':
                return ml
        if b.op == 'gamma':
            return self.over_gamma(b, lambda x: self.getattr(x, name, e))
        if b.op == 'ext':
            return ext(canon_ext(f'{b.val}.{name}'))
        if b.op == 'mod':
            m = self.ix.modules[b.val]
            r = self.ix.resolve_from(b.val, name)
            if r is not None:
                return self.resolved(r, name)
            return ext(f'{b.val}.{name}')
        if b.op == 'super':
            inst = b.args[0]
            cls = self.types[self.identity(inst)]
            f = cls.lookup(name, after=self.ix.classes[b.val])
            if f is None:
                if name in ('step', 'reset', 'render', 'close') and any(
                        isinstance(b_, str) and b_.rpartition('.')[2] == 'Wrapper'
                        for b_ in cls.mro):
                    return self.getattr(self.getattr(inst, 'env'), name, e)
                return ext(f'object.{name}')
            return self.bind_method(inst, cls, f, name)
        if b.op == 'cls':
            c = self.ix.classes[b.val]
            f = c.lookup(name)
            if f is not None and name in self.opaque_methods:
                return mk('bound', b, val=name)
            if f is not None:
                if name in f[0].clsm:
                    return self.clo(Closure(f[1], None, f[0].module, f[0], selfv=b))
                return self.clo(Closure(f[1], None, f[0].module, f[0]))
            a = c.lookup_attr(name)
            if a is not None:
                return self.class_attr(a, name)
            return t.attr(b, name)
        i = self.identity(b)
        v = self.heap.get((i, name))
        if v is not None:
            self.note_read(i, name, e)
            return v
        cls = self.types.get(i)
        if cls is not None:
            f = cls.lookup(name)
            if f is not None and name in f[0].abstract and name not in f[0].props:
                return mk('bound', b, val=name)
            if f is not None and name not in self.opaque_props and \
                    name not in self.opaque_methods and f'{cls.name}.{name}' not in self.opaque_methods:
                return self.bind_method(b, cls, f, name)
            if f is not None and name in self.opaque_methods:
                if name in f[0].props:
                    return mk('loc', t.attr(self.d(b), name))
                return mk('bound', b, val=name)
            a = cls.lookup_attr(name)
            if a is not None and (i.op in ('ref', 'new') or self.initialising
                                  or not cls.assigns(name)):
                v = self.class_attr_raw(a, name)
                if v.op == 'clo' and self.clos[v.val[0]].selfv is None:
                    c = self.clos[v.val[0]]
                    return self.clo(Closure(c.node, c.frame, c.module, c.cls, selfv=b))
                return self.class_attr(a, name)
        if name == 'rng':
            return self.newkey(f'attr:{t.show(self.d(b), 3)}')
        self.note_read(i, name, e)
        if i.op in ('tuple', 'list', 'dict') or b.op == 'ref' and cls is None:
            return mk('bound', b, val=name)
        if i.op == 'obj':
            nm, names = i.val
            if name in names:
                return i.args[names.index(name)]
        if i.op == 'with' and name in i.val:
            return i.args[1 + i.val.index(name)]
        base = i if i.op != 'with' else i.args[0]
        return mk('loc', t.attr(self.d(b) if b.op not in ('loc', 'ref') else base, name))

    def note_read(self, i, name, e):
        if self.jit_depth and e is not None:
            self.events.append(('jitread', i, name, self.where(e), tuple(
                n for _, n in self.stack)))

    def class_attr_raw(self, a, name):
        """a function assigned as a class attribute (possibly taken from another class)
        is a method of the instances, unless it was a staticmethod"""
        owner, expr = a
        if isinstance(expr, (ast.Attribute, ast.Lambda)):
            fr = self.frame
            self.frame = Frame(owner.module)
            try:
                v = self.ev(expr)
            finally:
                self.frame = fr
            if v.op == 'clo':
                c = self.clos[v.val[0]]
                if c.cls is not None and c.name in c.cls.static:
                    return NONE
            return v
        return NONE

    def class_attr(self, a, name):
        owner, expr = a
        k = ('cattr', owner.qual, name)
        if k not in self.modvals:
            self.modvals[k] = opaque('cyclic class constant')
            fr = self.frame
            self.frame = Frame(owner.module)
            for n2, ex2 in owner.attrs.items():
                if n2 == name:
                    break
                if isinstance(ex2, ast.Constant):
                    self.frame.env[n2] = const(ex2.value)
            try:
                self.modvals[k] = self.d(self.ev(expr))
            finally:
                self.frame = fr
        return self.modvals[k]

    def bind_method(self, b, cls, f, name):
        owner, node = f
        if name in owner.props:
            return self.call_method(b, owner, node, [], [])
        if name in owner.static:
            return self.clo(Closure(node, None, owner.module, owner))
        if name in owner.clsm:
            return self.clo(Closure(node, None, owner.module, owner,
                                    selfv=mk('cls', val=cls.qual)))
        return self.clo(Closure(node, None, owner.module, owner, selfv=b))

    # comprehension -----------------------------------------------------
    def ev_ListComp(self, e):
        r = self.comp(e.generators, e.elt, 'list')
        return self.newref(r)

    def ev_GeneratorExp(self, e):
        return self.comp(e.generators, e.elt, 'gen')

    def ev_SetComp(self, e):
        return self.newref(self.comp(e.generators, e.elt, 'set'))

    def ev_DictComp(self, e):
        r = self.comp(e.generators, ast.copy_location(
            ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e), 'dict')
        return self.newref(self.mkdict(r))

    def mkdict(self, r):
        r = self.as_seq(self.content(r))
        if r.op in ('list', 'tuple') and all(
                x.op == 'tuple' and len(x.args) == 2 for x in r.args):
            return dct([(self.d(x.args[0]), x.args[1]) for x in r.args])
        if r.op == 'map':
            return mk('map', *r.args, val='dict')
        return call(ext('dict'), [self.d(r)])

    def comp(self, gens, elt, kind):
        saved = dict(self.frame.env)
        try:
            return self._comp(list(gens), elt, kind)
        finally:
            env = self.frame.env
            # comprehension targets are local; keep walrus out
            self.frame.env = {k: env[k] for k in env if k in saved}
            for k in saved:
                self.frame.env.setdefault(k, saved[k])
            for g in gens:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        if n.id in saved:
                            self.frame.env[n.id] = saved[n.id]
                        else:
                            self.frame.env.pop(n.id, None)

    def _comp(self, gens, elt, kind):
        g = gens[0]
        it = self.iterable(self.ev(g.iter))
        items = self.concrete_iter(it)
        rest = gens[1:]
        path = self.path
        if items is not None:
            out = []
            ok = True
            for j, x in enumerate(items):
                self.path = path + (('it', j),)
                self.assign(g.target, x)
                c = TRUE
                for f in g.ifs:
                    c = b_and(c, self.evcond(f))
                if c is FALSE:
                    continue
                if c is not TRUE:
                    ok = False
                    break
                if rest:
                    sub_ = self._comp(rest, elt, kind)
                    if sub_.op in ('list', 'gen', 'tuple'):
                        out += sub_.args
                    else:
                        out.append(mk('star', sub_))
                else:
                    out.append(self.ev(elt))
            self.path = path
            if ok:
                if kind == 'set':
                    return mk('set', *sorted([self.d(x) for x in out], key=lambda x: x.key))
                return mk('list', *out)
        k = fresh('tmp', 'i')
        dom, el = self.iter_dom(it, k)
        self.assign(g.target, el)
        c = TRUE
        for f in g.ifs:
            c = b_and(c, self.evcond(f))
        self.path = path + (('loop', id(g)),)
        if rest:
            body = self.d(self._comp(rest, elt, kind))
            self.path = path
            return self.mkmap(dom, k, c, body, kind, flat=True)
        body = self.under(c, lambda: self.d(self.ev(elt)))
        self.path = path
        return self.mkmap(dom, k, c, body, kind)

    def mkmap(self, dom, k, c, body, kind, flat=False):
        dom = self.reduce_dom(dom, k, (c, body))
        if c is TRUE and not flat and len(dom) == 0 and body.op == 'sub' and body.args[1] is k \
                and not t.mentions(body.args[0], k):
            base = body.args[0]
            if kind == 'gen':
                return mk('map', tup(), bind([k], tup(c, body)), val='gen')
        return mk('flatmap' if flat else 'map', tup(*dom), bind([k], tup(c, body)), val=kind)

    def reduce_dom(self, dom, k, bodies):
        used = set()
        for b in bodies:
            for x in walk(b):
                if x.op == 'sub' and x.args[1] is k:
                    used.add(x.args[0])
        out = []
        for x in dom:
            if x in used or x in out:
                continue
            out.append(x)
        return sorted(out, key=lambda x: x.key)

    def concrete_iter(self, it):
        """list of element values if the iterable is statically known and small"""
        c = self.content(it)
        if c.op in ('tuple', 'list') and not any(a.op == 'star' for a in c.args):
            return list(c.args) if len(c.args) <= 24 else None
        if c.op == 'dict' and all(is_const(k) for k in c.args[::2]):
            return list(c.args[::2])
        if c.op == 'call' and c.args[0].op == 'ext':
            n = c.args[0].val
            if n == 'range':
                try:
                    r = range(*[pyval(x) for x in c.args[1:]])
                except (KeyError, TypeError, ValueError):
                    return None
                if len(r) <= 8:
                    return [num(x) for x in r]
            if n == 'zip':
                subs = [self.concrete_iter(x) for x in c.args[1:]]
                if all(s is not None for s in subs) and subs and not c.val:
                    return [tup(*x) for x in zip(*subs)]
            if n == 'enumerate' and len(c.args) == 2:
                s = self.concrete_iter(c.args[1])
                if s is not None:
                    return [tup(num(i), x) for i, x in enumerate(s)]
            if n == 'reversed':
                s = self.concrete_iter(c.args[1])
                return None if s is None else s[::-1]
            if n == 'dict.items' or n == 'dict.values':
                pass
        if c.op == 'lazy':
            pass
        return None

    def countdown(self, c):
        """(first, end) of range(first, end, -1), also written reversed(range(..))"""
        f, pos, kw = t.call_parts(c)
        if f.val == 'range' and len(pos) == 3 and not kw and pos[2] is num(-1):
            return pos[0], pos[1]
        if f.val == 'reversed' and len(pos) == 1:
            c = self.content(pos[0])
            if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].val == 'range' and \
                    len(c.args) in (2, 3) and not c.val:
                lo, hi = (ZERO, c.args[1]) if len(c.args) == 2 else c.args[1:]
                return t.sub(hi, num(1)), t.sub(lo, num(1))
        return None

    def iter_dom(self, it, k):
        """(domain terms, element value at index k) for a symbolic iterable"""
        c = self.content(it)
        if c.op == 'call' and c.args[0].op == 'ext':
            f, pos, kw = t.call_parts(c)
            n = f.val
            if n == 'enumerate' and pos:
                dom, el = self.iter_dom(pos[0], k)
                start = pos[1] if len(pos) > 1 else kw.get('start', ZERO)
                return dom, tup(t.add(k, start), el)
            if n == 'zip' and not kw:
                doms, els = [], []
                for p in pos:
                    if p.op == 'star':
                        break
                    dd, el = self.iter_dom(p, k)
                    doms += dd
                    els.append(el)
                else:
                    return doms, tup(*els)
            if n == 'range' and 1 <= len(pos) <= 2:
                lo, hi = (ZERO, pos[0]) if len(pos) == 1 else pos
                cnt = t.sub(hi, lo)
                if t._is_len(cnt):
                    return [cnt.args[1]], k
                return [call(ext('range'), [cnt])], t.add(k, lo)
            down = self.countdown(c)
            if down is not None:
                cnt = t.sub(*down)
                el = t.sub(down[0], k)
                return [cnt.args[1] if t._is_len(cnt) else call(ext('range'), [cnt])], el
            if n in ('list', 'tuple', 'iter') and len(pos) == 1:
                return self.iter_dom(pos[0], k)
            if n == 'itertools.islice' and len(pos) in (2, 3):
                lo, hi = (ZERO, pos[1]) if len(pos) == 2 else (pos[1], pos[2])
                if lo is NONE:
                    lo = ZERO
                src = pos[0]
                dom, el = self.iter_dom(src, k)
                if lo is not ZERO:
                    el = subst(el, {k: t.add(k, lo)})
                if hi is not NONE:
                    dom = dom + [call(ext('range'), [t.sub(hi, lo)])]
                return dom, el
            if n == 'jax.numpy.m:items':
                pass
        if c.op == 'call' and c.args[0].op == 'attr' and len(c.args) == 1:
            nm, base = c.args[0].val, c.args[0].args[0]
            if nm in ('items', 'keys', 'values') and base.op == 'map' and base.val == 'dict':
                b = t.unbind(base.args[1], [k])
                if b.args[0] is TRUE:
                    key, val = b.args[1].args
                    el = {'items': tup(key, val), 'keys': key, 'values': val}[nm]
                    return list(base.args[0].args), el
            if nm in ('items', 'keys', 'values'):
                key = mk('sub', call(ext('keys'), [base]), k)
                val = t.subscript(base, key)
                el = {'items': tup(key, val), 'keys': key, 'values': val}[nm]
                return [call(ext('keys'), [base])], el
        if c.op == 'map' and c.val in ('list', 'gen', 'tuple'):
            b = t.unbind(c.args[1], [k])
            if b.args[0] is TRUE:
                return list(c.args[0].args), b.args[1]
        if c.op == 'map' and c.val == 'dict':
            b = t.unbind(c.args[1], [k])
            if b.args[0] is TRUE:
                return list(c.args[0].args), b.args[1].args[0]
        if c.op == 'sub' and c.args[1].op == 'slice' and c.args[1].args[2] is NONE \
                and c.args[1].args[0] is NONE and c.args[1].args[1] is not NONE \
                and not (c.args[1].args[1].op == 'num' and c.args[1].args[1].val < 0):
            dom, el = self.iter_dom(c.args[0], k)
            return dom + [call(ext('range'), [c.args[1].args[1]])], el
        p = self.d(c)
        return [p], mk('sub', p, k)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.lookup('super').op == 'ext':
            if not e.args:
                f = self.frame
                while f is not None and f.selfv is None:
                    f = f.parent
                if f is None:
                    return opaque('super')
                return mk('super', f.selfv, val=self.frame_cls().qual)
            c = self.ev(e.args[0])
            return mk('super', self.ev(e.args[1]), val=c.val)
        fv = self.ev(e.func)
        args, kws = self.ev_args(e)
        return self.apply(fv, args, kws, e)

    def ev_args(self, e):
        args, kws = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.content(self.ev(a.value))
                cls = self.types.get(self.identity(v))
                if cls is not None and cls.lookup('__iter__'):
                    f = cls.lookup('__iter__')
                    v = self.content(self.call_method(v, f[0], f[1], [], []))
                v = self.as_seq(v)
                if v.op in ('tuple', 'list') and not any(x.op == 'star' for x in v.args):
                    args += [(None, x) for x in v.args]
                else:
                    args.append(('*', v))
            else:
                args.append((None, self.ev(a)))
        for k in e.keywords:
            if k.arg is None:
                v = self.content(self.ev(k.value))
                if v.op == 'dict' and all(const_str(x) is not None for x in v.args[::2]):
                    kws += [(const_str(a), b) for a, b in t.dict_items(v)]
                else:
                    kws.append((None, v))
            else:
                kws.append((k.arg, self.ev(k.value)))
        return args, kws

    def apply(self, fv, args, kws, e=None):
        if fv.op == 'gamma':
            return self.over_gamma(fv, lambda f: self.apply(f, args, kws, e))
        if fv.op == 'jitted':
            inner = fv.args[0]
            self.jit_depth += 1
            try:
                return self.apply(inner, args, kws, e)
            finally:
                self.jit_depth -= 1
        if fv.op == 'clo':
            c = self.clos[fv.val[0]]
            return self.call_closure(c, args, kws, e=e)
        if fv.op == 'func':
            return self.call_func(fv.val, args, kws, e)
        if fv.op == 'cls':
            return self.instantiate(fv.val, args, kws, e)
        if fv.op == 'bound':
            return self.call_bound(fv.args[0], fv.val, args, kws, e)
        if fv.op == 'ext':
            return self.call_ext(fv.val, args, kws, e)
        if fv.op == 'loc' and fv.args[0].op == 'attr':
            base, name = fv.args[0].args[0], fv.args[0].val
            # method call on an opaque object (receiver identity = loc(base))
            recv = mk('loc', base) if base.op in ('sym', 'attr', 'sub') else base
            return self.call_bound(recv, name, args, kws, e)
        if fv.op in ('ref', 'loc'):
            cls = self.types.get(self.identity(fv))
            if cls is not None and '__call__' not in self.opaque_methods:
                m = cls.lookup('__call__')
                if m is not None:
                    return self.call_method(fv, m[0], m[1], args, kws, e)
        if fv.op == 'rectype':
            got = dict(zip(fv.val, [v for k, v in args if k is None]))
            got.update((k, v) for k, v in kws)
            if set(got) == set(fv.val) and not any(k for k, _ in args):
                return mk('obj', *[self.d(got[k]) for k in fv.val], val=('record', fv.val))
        if fv.op == 'lam':
            n, va = fv.val
            pos = [self.d(v) for k, v in args if k is None]
            if not va and len(pos) == n and not kws and len(pos) == len(args):
                return t.unbind(fv.args[0], pos)
        f = self.d(fv)
        pos, kw = self.pure_args(args, kws)
        self.keyuse(f, pos, kw, e)
        # jax transformation applied to arguments
        return self.norm_call(f, pos, kw)

    def pure_args(self, args, kws):
        pos = []
        for k, v in args:
            p = self.d(v)
            pos.append(mk('star', p) if k == '*' else p)
        kw = [(k if k is not None else '**', self.d(v)) for k, v in kws]
        return pos, kw

    def newkey(self, hint):
        k = fresh('key', hint)
        self.keypath[k] = self.path
        return k

    def keyuse(self, f, pos, kw, e):
        if f.op == 'ext' and not f.val.startswith('coax:') and (
                not f.val.startswith(('jax.random.', 'haiku.')) or f.val in NOT_CONSUMING):
            return
        for p in list(pos) + [v for _, v in kw]:
            if p.op == 'key' or (p.op == 'sym' and p.val in KEYPARAMS) or (
                    p.op == 'tmp' and p.val[1] in KEYPARAMS):
                self.events.append(('keyuse', p, t.show(f, 4), self.where(e) if e is not None
                                    else '?', dict(self.lits), self.path + (id(e),)))

    def norm_call(self, f, pos, kw):
        if f.op == 'ext':
            f = ext(canon_ext(f.val))
        return call(f, pos, kw)

    def call_func(self, qual, args, kws, e):
        mod, _, name = qual.rpartition('.')
        m, node = self.ix.modules[mod], self.ix.modules[mod].names[name][1]
        if name in ('jit',) and mod.startswith('coax.utils'):
            f = args[0][1]
            if f.op in ('clo', 'func', 'jitted'):
                st = [self.d(v) for k, v in kws if k == 'static_argnums'] + \
                    [self.d(v) for _, v in args[1:2]]
                self.events.append(('jit', f, st, self.where(e) if e is not None else ''))
                return mk('jitted', f)
            return f
        if name in self.opaque_funcs or qual in self.opaque_funcs:
            b = self.bind_args(Closure(node, None, m), args, kws, deffr=m)
            names = [p.arg for p in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
            if node.args.vararg:
                names.append(node.args.vararg.arg)
            if node.args.kwarg:
                names.append(node.args.kwarg.arg)
            pos = [self.d(b[n]) for n in names]
            self.keyuse(ext('coax:' + name), pos, [], e)
            r = call(ext('coax:' + name), pos)
            if name.startswith('is_'):
                return self.simp(t.lift(lambda x: t._gnode(
                    mk('atom', x, val='truth') if x.op != 'gamma' else x, TRUE, FALSE), r))
            return r
        decs = [ast.unparse(d) for d in node.decorator_list]
        c = Closure(node, None, m)
        if any(d.endswith('vectorize') for d in decs):
            lam = self.lam(self.clo(c))
            pos, kw = self.pure_args(args, kws)
            return call(call(ext('np:vectorize'), [lam]), pos, kw)
        if any(d.split('(')[0] in ('jit', 'jax.jit') for d in decs):
            self.jit_depth += 1
            try:
                return self.call_closure(c, args, kws, e=e)
            finally:
                self.jit_depth -= 1
        return self.call_closure(c, args, kws, e=e)

    def instantiate(self, qual, args, kws, e):
        cls = self.ix.classes[qual]
        init = cls.lookup('__init__')
        if cls.name in self.inline_classes or qual in self.inline_classes:
            ref = self.newref(None, cls)
            if init is not None:
                self.call_method(ref, init[0], init[1], args, kws)
            return ref
        if any(isinstance(b, str) and b.endswith('Exception') or b in ('Exception',)
               for b in cls.mro if isinstance(b, str)):
            return mk('exc', val=cls.name)
        if init is not None:
            b = self.bind_args(Closure(init[1], None, init[0].module, init[0],
                                       selfv=NONE), args, kws, deffr=init[0].module)
            a = init[1].args
            names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs][1:]
            kw = [(n, self.d(b[n])) for n in names]
            if a.vararg:
                kw.append(('*' + a.vararg.arg, self.d(b[a.vararg.arg])))
            if a.kwarg:
                kw.append(('**' + a.kwarg.arg, self.d(b[a.kwarg.arg])))
            return call(mk('cls', val=qual), [], kw)
        pos, kw = self.pure_args(args, kws)
        return call(mk('cls', val=qual), pos, kw)

    def call_method(self, selfv, owner, node, args, kws, e=None):
        return self.call_closure(Closure(node, None, owner.module, owner, selfv=selfv),
                                 args, kws, e=e)

    def bind_args(self, c, args, kws, deffr=None):
        a = c.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        if c.selfv is not None:
            pos = [(None, c.selfv)] + pos
        if c.pre:
            k = 1 if c.selfv is not None else 0
            pos = pos[:k] + [(None, x) for x in c.pre] + pos[k:]
        kwd = [(k, v) for k, v in c.prekw if k not in [n for n, _ in kws]] + list(kws)
        i = 0
        rest = []
        for j, (k, v) in enumerate(pos):
            if k is None:
                if i < len(params):
                    out[params[i]] = v
                    i += 1
                else:
                    rest.append(v)
            else:       # symbolic star
                if a.vararg and i >= len(params):
                    rest.append(mk('star', self.d(v)))
                else:
                    off = 0
                    n_after = len(pos) - j - 1
                    named = {n for n, _ in kwd}
                    while i < len(params) - n_after and params[i] not in named:
                        out[params[i]] = self.getitem(v, num(off))
                        off += 1
                        i += 1
        if a.vararg:
            if len(rest) == 1 and rest[0].op == 'star':
                out[a.vararg.arg] = rest[0].args[0]
            else:
                out[a.vararg.arg] = tup(*rest)
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = []
        dyn = []
        for k, v in kwd:
            if k is None:
                dyn.append(v)
            elif k in params or k in kwonly:
                out[k] = v
            else:
                extra.append((const(k), v))
        # defaults
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defaults.update({p: dv for p, dv in zip(kwonly, a.kw_defaults) if dv is not None})
        for p in params + kwonly:
            if p in out:
                continue
            dv = None
            if p in defaults:
                fr = self.frame
                self.frame = c.frame or Frame(c.module, c.cls)
                try:
                    dv = self.ev(defaults[p])
                finally:
                    self.frame = fr
            if dyn:
                src = self.d(dyn[-1])
                v = t.subscript(src, const(p))
                if dv is not None:
                    v = ite(t.compare('in', const(p), src), v, dv)
                out[p] = v
            elif dv is not None:
                out[p] = dv
            else:
                out[p] = opaque(f'missing argument {p} of {c.name}')
        if a.kwarg:
            kwd_ = dct(extra)
            for v in dyn:
                kwd_ = self.dmerge(kwd_, self.d(v))
            out[a.kwarg.arg] = self.newref(kwd_)
        return out

    def call_closure(self, c, args, kws, e=None, force=False):
        node = c.node
        depth = sum(1 for k, _ in self.stack if k is node)
        if (depth >= 2 or len(self.stack) > self.MAXDEPTH) and not force:
            pos, kw = self.pure_args(args, kws)
            return call(ext('rec:' + c.name), ([self.d(c.selfv)] if c.selfv is not None else [])
                        + pos, kw)
        if not isinstance(node, ast.Lambda) and not force:
            for dec in node.decorator_list:
                pass
        binding = self.bind_args(c, args, kws)
        fr = Frame(c.module, c.cls, c.frame, node)
        fr.discard, self.discard = self.discard, False
        fr.env = dict(binding)
        if c.selfv is not None:
            fr.selfv = c.selfv
        old, oldlits = self.frame, self.lits
        self.frame = fr
        self.stack.append((node, c.name))
        oldpath = self.path
        self.path += (id(e) if e is not None else c.name,)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            gen = is_generator(node)
            if gen:
                fr.env['$yield'] = self.newref(lst())
            self.exits.append([])
            fall = self.block(node.body)
            exits = self.exits.pop()
            val = NONE
            if gen:
                val = fr.env.get('$yield', NONE)
            # fold exits: raise -> propagate; return -> merge
            rets = [x for x in exits if x.kind == 'return']
            raises = [x for x in exits if x.kind == 'raise']
            if gen:
                exits = [x if x.kind != 'return' else Exit(
                    x.cond, x.kind, x.env.get('$yield', NONE), x.heap, x.store, x.env, x.line)
                    for x in exits]
                rets = [x for x in exits if x.kind == 'return']
            cur = (self.heap, self.store, fr.env) if fall else None
            curv = val if fall else BOT
            if not rets:
                pass
            elif len(rets) == 1 and not fall and not raises:
                cur = (rets[0].heap, rets[0].store, rets[0].env)
                curv = rets[0].val
            else:
                # exits are in program order; earlier conditions take precedence
                for x in reversed(exits):
                    if x.kind == 'raise':
                        continue
                    s = (x.heap, x.store, x.env)
                    if cur is None:
                        cur, curv = s, x.val
                    else:
                        self.merge(x.cond, s, cur)
                        cur = (self.heap, self.store, fr.env)
                        curv = ite(x.cond, x.val, curv)
            # conditions for raising exits are relative to this call; they must exclude
            # earlier returns
            done = FALSE
            for x in exits:
                if x.kind == 'raise':
                    cnd = b_and(b_not(done), x.cond) if done is not FALSE else x.cond
                    if cnd is not FALSE:
                        self.exits[-1].append(Exit(cnd, 'raise', x.val, x.heap, x.store,
                                                   None, x.line))
                else:
                    done = b_or(done, x.cond)
            if cur is not None:
                self.heap, self.store = dict(cur[0]), dict(cur[1])
                self.alive = True
                return curv
            self.alive = False
            self.dead = True
            return BOT
        finally:
            self.stack.pop()
            self.path = oldpath
            self.frame = old
            self.lits = oldlits

    # -- builtins / externals
    # the module-level generator of `random` is one piece of global state
    RANDOM = (mk('ext', val='random'), 'state')

    def random_module(self, n, args, kws):
        cur = self.heap.get(self.RANDOM, mk('sym', val='random.state'))
        pos, kw = self.pure_args(args, kws)
        if n == 'random.getstate':
            return cur
        if n == 'random.setstate' and len(pos) == 1:
            self.heap[self.RANDOM] = pos[0]
            return NONE
        if n == 'random.seed':
            self.heap[self.RANDOM] = call(ext(n), pos, kw)
            return NONE
        v = call(ext(n), [cur] + pos, kw)
        self.heap[self.RANDOM] = mk('after', v)
        return v

    def call_ext(self, n, args, kws, e):
        n = canon_ext(n)
        if n.startswith('random.') and n.count('.') == 1 and n[7:8].islower():
            return self.random_module(n, args, kws)
        if any(n == p or n.startswith(p) for p in IGNORED_CALLS):
            return NONE
        m = getattr(self, 'x_' + n.replace('.', '_').replace(':', '_'), None)
        if m is not None:
            r = m(args, kws, e)
            if r is not None:
                return r
        if n in ('jax.jit',):
            f = args[0][1]
            if f.op in ('clo', 'func', 'jitted'):
                return mk('jitted', f)
            return f
        pos, kw = self.pure_args(args, kws)
        self.keyuse(ext(n), pos, kw, e)
        return self.ext_value(n, pos, kw)

    def ext_value(self, n, pos, kw):
        kwd = dict(kw)
        if n == 'slice' and not kw and 1 <= len(pos) <= 3:
            lo, hi, st = ((NONE, pos[0], NONE) if len(pos) == 1 else (*pos, NONE)[:3])
            return mk('slice', NONE if lo is ZERO else lo, hi, NONE if st is ONE else st)
        if n.startswith('np:'):
            f = n[3:]
            if f in UNARY_NP and len(pos) == 1 and not kw:
                return t.lift(UNARY_NP[f], pos[0])
            if f in BIN_NP and len(pos) == 2 and not kw:
                return t.binop(BIN_NP[f], *pos)
            if f in CMP_NP and len(pos) == 2 and not kw:
                return t.compare(CMP_NP[f], *pos)
            if f in ('minimum', 'maximum', 'logical_and', 'logical_or', 'fmin', 'fmax') \
                    and len(pos) == 2 and not kw:
                return t.lift(lambda a, b: mk('comm', *sorted((a, b), key=lambda x: x.key),
                                              val='np:' + f), *pos)
            if f == 'logical_not' and len(pos) == 1:
                return b_not(pos[0])
            if f == 'where' and len(pos) + len(kw) == 3:
                a = self.sigargs(('condition', 'x', 'y'), pos, kwd)
                if a is not None:
                    if a[0].op == 'gamma' and t.gamma_atoms(a[0]):
                        return ite(cond(a[0]), a[1], a[2])
            if f == 'reshape' and len(pos) > 2 and not kw:
                pos = [pos[0], tup(*pos[1:])]
            if f in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod', 'clip', 'stack',
                     'concatenate', 'array', 'asarray') and pos and pos[0].op == 'map' \
                    and pos[0].val == 'gen' and f in ('stack', 'concatenate'):
                pos = [mk('map', *pos[0].args, val='list')] + pos[1:]
            sig = NP_SIGS.get(f)
            if sig:
                a = self.sigargs(sig, pos, kwd, lambda nm: NP_DEFAULTS.get((f, nm)))
                if a is not None:
                    return call(ext('np:' + f), a[0:], ())
            return call(ext(n), pos, kw)
        sig = EXT_SIGS.get(n)
        if sig:
            a = self.sigargs(sig, pos, kwd, lambda nm: EXT_DEFAULTS.get((n, nm)))
            if a is not None:
                return call(ext(n), a)
        return call(ext(n), pos, kw)

    def sigargs(self, sig, pos, kwd, default=lambda nm: None):
        """positional tuple with trailing defaults stripped, or None if not normalisable"""
        if any(p.op == 'star' for p in pos) or '**' in kwd or len(pos) > len(sig):
            return None
        out = list(pos)
        kwd = dict(kwd)
        for i in range(len(pos), len(sig)):
            out.append(kwd.pop(sig[i], None))
        if kwd:
            return None
        for i, nm in enumerate(sig):
            if out[i] is None or (i >= 1 and out[i] is default(nm)):
                out[i] = None
        while out and out[-1] is None:
            out.pop()
        res = []
        for i, o in enumerate(out):
            if o is None:
                o = default(sig[i])
                if o is None:
                    o = mk('dflt', val=sig[i])
            res.append(o)
        return res

    # individual builtins
    def a1(self, args, kws, n=1):
        return len(args) == n and not kws and all(k is None for k, _ in args)

    def x_isinstance(self, args, kws, e):
        if not self.a1(args, kws, 2):
            return None
        v, c = args[0][1], self.content(args[1][1])
        if v.op == 'gamma':
            return self.over_gamma(v, lambda x: self.x_isinstance([(None, x), args[1]], kws, e))
        cs = list(c.args) if c.op in ('tuple', 'list') else [c]
        flat = []
        for x in cs:
            x = self.content(x)
            flat += x.args if x.op in ('tuple', 'list') else [x]
        res = FALSE
        pv = self.d(v)
        for x in flat:
            x = self.d(x)
            r = None
            if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].val == 'type' \
                    and x.args[1] is NONE:
                r = self.cmp('is', v, NONE)
            elif pv is NONE:
                r = FALSE
            else:
                cls = self.types.get(self.identity(v))
                if cls is not None and x.op == 'cls':
                    r = const(self.ix.classes[x.val] in cls.mro)
                elif pv.op == 'num' and x.op == 'ext' and x.val in ('int', 'float'):
                    r = None
                elif pv.op == 'const' and x.op == 'ext' and x.val in (
                        'str', 'bool', 'int', 'float', 'bytes'):
                    r = const(pv.val[0] == x.val or (pv.val[0] == 'bool' and x.val == 'int'))
                elif pv.op in ('tuple', 'list', 'dict') and x.op == 'ext' and x.val in (
                        'tuple', 'list', 'dict', 'str', 'int', 'float'):
                    r = const(pv.op == x.val)
                elif x.op == 'cls' and pv.op == 'call' and pv.args[0].op == 'cls':
                    r = const(self.ix.classes[x.val] in self.ix.classes[pv.args[0].val].mro)
            if r is None:
                r = t.lift(lambda p: t._gnode(mk('atom', p, x, val='isinstance'), TRUE, FALSE), pv)
            res = b_or(res, r)
        return self.simp(res)

    def x_len(self, args, kws, e):
        if not self.a1(args, kws):
            return None
        v = args[0][1]
        if v.op == 'gamma':
            return self.over_gamma(v, lambda x: self.x_len([(None, x)], kws, e))
        cls = self.types.get(self.identity(v))
        if cls is not None:
            f = cls.lookup('__len__')
            if f is not None:
                return self.call_method(v, f[0], f[1], [], [])
        c = self.content(v)
        if c.op in ('tuple', 'list', 'set') and not any(x.op == 'star' for x in c.args):
            return num(len(c.args))
        if c.op == 'dict' and all(is_const(k) for k in c.args[::2]):
            return num(len(c.args) // 2)
        s = const_str(c)
        if s is not None:
            return num(len(s))
        c = self.d(c)
        return t.lift(lenof, c)

    def x_bool(self, args, kws, e):
        if self.a1(args, kws):
            return self.truth(args[0][1])

    def x_float(self, args, kws, e):
        if self.a1(args, kws):
            v = self.d(args[0][1])
            return t.lift(lambda x: x if x.op == 'num' or isfloat(x) else (
                num(1 if x is TRUE else 0) if x in (TRUE, FALSE) else
                (const(float(const_str(x))) if const_str(x) in ('inf', '-inf', 'nan') else
                 call(ext('float'), [x]))), v)

    def x_int(self, args, kws, e):
        if self.a1(args, kws):
            v = self.d(args[0][1])
            return t.lift(lambda x: x if (x.op == 'num' and x.val.denominator == 1) else (
                num(1 if x is TRUE else 0) if x in (TRUE, FALSE) else
                (x if t._is_len(x) else call(ext('int'), [x]))), v)

    def x_tuple(self, args, kws, e):
        if not args and not kws:
            return tup()
        if self.a1(args, kws):
            v = self.iterated(args[0][1])
            c = self.as_seq(v)
            if c.op in ('tuple', 'list'):
                return mk('tuple', *c.args)
            if c.op == 'call' and c.args[0] is ext('deque') and c.args[1].op == 'map' and \
                    c.args[1].args[0] is tup(call(ext('range'), [c.args[2]])):
                c = c.args[1]
            if c.op == 'map':
                return mk('map', *c.args, val='tuple')
            return call(ext('tuple'), [self.strip_iter(self.d(c))])

    def iterable(self, v):
        """v, or what its class says that iterating over it gives"""
        cls = self.types.get(self.identity(v))
        f = cls.lookup('__iter__') if cls is not None else None
        return v if f is None else self.content(self.call_method(v, f[0], f[1], [], []))

    def iterated(self, v):
        """value of iterating over v (honouring __iter__ of known classes)"""
        cls = self.types.get(self.identity(v))
        if cls is not None:
            f = cls.lookup('__iter__')
            if f is not None:
                return self.content(self.call_method(v, f[0], f[1], [], []))
        it = self.concrete_iter(v)
        if it is not None:
            return mk('list', *it)
        return self.content(v)

    def strip_iter(self, x):
        while x.op == 'call' and x.args[0].op == 'ext' and x.args[0].val in (
                'list', 'tuple', 'iter') and len(x.args) == 2:
            x = x.args[1]
        return x

    def x_list(self, args, kws, e):
        if not args and not kws:
            return self.newref(lst())
        if self.a1(args, kws):
            c = self.as_seq(self.iterated(args[0][1]))
            if c.op in ('tuple', 'list'):
                return self.newref(mk('list', *c.args))
            if c.op == 'map':
                return self.newref(mk('map', *c.args, val='list'))
            return self.newref(call(ext('list'), [self.strip_iter(self.d(c))]))

    def x_collections_deque(self, args, kws, e):
        kw = dict(kws)
        mx = kw.get('maxlen', args[1][1] if len(args) > 1 else None)
        c = self.as_seq(self.iterated(args[0][1])) if args else lst()
        c = self.d(c)
        ml = NONE if mx is None else self.d(mx)
        if c.op == 'map' and c.val != 'dict':
            c = mk('map', *c.args, val='list')
        return self.newref(call(ext('deque'), [c, ml]))

    def x_set(self, args, kws, e):
        if not args:
            return self.newref(mk('set'))
        if self.a1(args, kws):
            c = self.as_seq(self.iterated(args[0][1]))
            if c.op in ('tuple', 'list', 'set'):
                return self.newref(mk('set', *sorted(set(self.d(x) for x in c.args),
                                                     key=lambda x: x.key)))

    def x_dict(self, args, kws, e):
        if any(k is None for k, _ in kws) or len(args) > 1:
            return None
        base = dct([])
        if args:
            v = args[0][1]
            c = self.content(v)
            if c.op == 'dict':
                base = c
            elif c.op in ('list', 'tuple', 'map'):
                base = self.mkdict(c)
            else:
                f = c.args[0].val if c.op == 'call' and c.args[0].op == 'ext' else ''
                if str(f).split('.')[0] in ('zip', 'enumerate', 'map', 'filter', 'sorted',
                                            'reversed', 'itertools', 'list', 'tuple'):
                    base = call(ext('dict'), [self.d(c)])
                else:
                    base = call(t.attr(self.d(c), 'copy'))
        if kws:
            base = self.dmerge(base, dct([(const(k), v) for k, v in kws]))
        return self.newref(base)

    def x_iter(self, args, kws, e):
        if self.a1(args, kws):
            return self.iterated(args[0][1])

    def x_next(self, args, kws, e):
        if not args:
            return None
        v = args[0][1]
        c = self.content(v)
        if c.op == 'prngseq':
            return self.newkey('next')
        if c.op in ('list', 'tuple') and v.op == 'ref' and c.args:
            self.store[v] = mk(c.op, *c.args[1:])
            return c.args[0]
        if c.op == 'map' and len(args) == 2:
            return call(ext('next'), [self.d(c), self.d(args[1][1])])
        return self.mutate_call(v, 'next', args[1:], kws, e)

    def x_haiku_PRNGSequence(self, args, kws, e):
        pos, kw = self.pure_args(args, kws)
        self.keyuse(ext('haiku.PRNGSequence'), pos, kw, e)
        return self.newref(mk('prngseq', pos[0]))

    def x_jax_random_split(self, args, kws, e):
        pos, kw = self.pure_args(args, kws)
        self.keyuse(ext('jax.random.split'), pos, kw, e)
        n = pos[1] if len(pos) > 1 else dict(kw).get('num', num(2))
        if n.op == 'num' and 0 < n.val <= 8:
            return tup(*[self.newkey('split') for _ in range(int(n.val))])
        return call(ext('jax.random.split'), pos, kw)

    def x_haiku_data_structures_to_immutable_dict(self, args, kws, e):
        return args[0][1]

    def x_getattr(self, args, kws, e):
        if len(args) < 2:
            return None
        n = const_str(self.d(args[1][1]))
        v = args[0][1]
        if n is None:
            pos, kw = self.pure_args(args, kws)
            return call(ext('getattr'), pos, kw)
        if len(args) == 2:
            return self.getattr(v, n, e)
        if v.op == 'gamma':
            return self.over_gamma(v, lambda x: self.x_getattr([(None, x)] + args[1:], kws, e))
        if v is NONE:
            return args[2][1]
        i = self.identity(v)
        if (i, n) in self.heap or (i in self.types and (
                self.types[i].lookup(n) or self.types[i].lookup_attr(n))):
            return self.getattr(v, n, e)
        pv = self.d(v)
        has = self.simp(t.lift(lambda p: FALSE if p is NONE else t._gnode(
            mk('atom', p, val='hasattr:' + n), TRUE, FALSE), pv))
        return ite(has, self.under(has, lambda: self.getattr(v, n, e)), args[2][1])

    def x_hasattr(self, args, kws, e):
        n = const_str(self.d(args[1][1]))
        if n is None:
            return None
        i = self.identity(args[0][1])
        cls = self.types.get(i)
        v = self.heap.get((i, n))
        if v is not None and t.contains(v, lambda y: y.op == 'deleted'):
            return t.lift(lambda y: FALSE if y.op == 'deleted' else TRUE, v)
        if v is not None or (cls and (cls.lookup(n) or cls.lookup_attr(n))):
            return TRUE
        if self.lazy and cls is not None and i in self.selfs and n.startswith('_') \
                and n in mutated_attrs(cls):
            self.events.append(('memo', i, n, self.where(e)))
            return FALSE        # lazily cached: the value is the one built on first use
        pv = self.d(args[0][1])
        return self.simp(t.lift(lambda p: t._gnode(
            mk('atom', p, val='hasattr:' + n), TRUE, FALSE), pv))

    def x_setattr(self, args, kws, e):
        n = const_str(self.d(args[1][1]))
        if n is None:
            v = args[0][1]
            key = mk('loc', mk('attr', self.identity(v), val='$dynattrs'))
            cur = self.store.get(key, key.args[0])
            self.store[key] = mk('mut', cur, self.d(args[1][1]), self.d(args[2][1]),
                                 val=('setattr', ()))
            return NONE
        self.setattr(args[0][1], n, args[2][1])
        return NONE

    def x_callable(self, args, kws, e):
        if args[0][1].op in ('clo', 'func', 'cls', 'jitted', 'bound'):
            return TRUE
        pv = self.d(args[0][1])
        return self.simp(t._gnode(mk('atom', pv, val='callable'), TRUE, FALSE))

    def x_type(self, args, kws, e):
        if self.a1(args, kws):
            v = self.d(args[0][1])
            if v is NONE:
                return call(ext('type'), [NONE])
            return t.attr(v, '__class__')

    def x_any(self, args, kws, e):
        return self.quant(args, kws, True)

    def x_all(self, args, kws, e):
        return self.quant(args, kws, False)

    def quant(self, args, kws, ex):
        if not self.a1(args, kws):
            return None
        c = self.as_seq(self.iterated(args[0][1]))
        if c.op in ('list', 'tuple', 'set') and not any(x.op == 'star' for x in c.args):
            r = FALSE if ex else TRUE
            for x in c.args:
                r = b_or(r, self.truth(x)) if ex else b_and(r, self.truth(x))
            return self.simp(r)
        if c.op == 'map':
            dom, bd = c.args
            k = fresh('tmp', 'i')
            b = t.unbind(bd, [k])
            g, body = b.args
            cc = b_and(g, cond(body)) if ex else b_and(g, b_not(cond(body)))
            r = exists(list(dom.args), k, cc)
            return self.simp(r if ex else b_not(r))
        k = fresh('tmp', 'i')
        dom, el = self.iter_dom(c, k)
        cc = cond(self.d(el)) if ex else b_not(cond(self.d(el)))
        r = exists(self.reduce_dom(dom, k, (cc,)), k, cc)
        return self.simp(r if ex else b_not(r))

    def x_sum(self, args, kws, e):
        if len(args) not in (1, 2) or kws:
            return None
        start = self.d(args[1][1]) if len(args) == 2 else ZERO
        c = self.as_seq(self.iterated(args[0][1]))
        if c.op in ('list', 'tuple') and not any(x.op == 'star' for x in c.args):
            r = start
            for x in c.args:
                r = t.add(r, self.d(x))
            return r
        return t.add(start, sumof(self.genkind(self.d(c))))

    def genkind(self, c):
        if c.op == 'map' and c.val in ('list', 'tuple'):
            return mk('map', *c.args, val='gen')
        return self.strip_iter(c)

    def _minmax(self, n, args, kws):
        if len(args) >= 2 and not kws:
            xs = [self.d(v) for _, v in args]
            return t.lift(lambda *a: commfold(n, a), *xs)
        if len(args) == 1:
            c = self.as_seq(self.iterated(args[0][1]))
            if c.op in ('list', 'tuple') and len(c.args) >= 2 and not kws:
                return t.lift(lambda *a: commfold(n, a), *[self.d(x) for x in c.args])
            pos, kw = self.pure_args(args, kws)
            return call(ext(n), [self.genkind(self.d(c))], kw)

    def x_min(self, args, kws, e):
        return self._minmax('min', args, kws)

    def x_max(self, args, kws, e):
        return self._minmax('max', args, kws)

    def x_map(self, args, kws, e):
        if len(args) < 2:
            return None
        f = args[0][1]
        its = [v for _, v in args[1:]]
        conc = [self.concrete_iter(self.iterated(v)) for v in its]
        if all(c is not None for c in conc):
            return mk('list', *[self.apply(f, [(None, x) for x in xs], [], e)
                                for xs in zip(*conc)])
        k = fresh('tmp', 'i')
        doms, els = [], []
        for v in its:
            dd, el = self.iter_dom(self.iterated(v), k)
            doms += dd
            els.append(el)
        body = self.d(self.apply(f, [(None, x) for x in els], [], e))
        return self.mkmap(doms, k, TRUE, body, 'gen')

    def x_zip(self, args, kws, e):
        if kws or any(k for k, _ in args):
            return None
        its = [self.iterated(v) for _, v in args]
        conc = [self.concrete_iter(v) for v in its]
        if conc and all(c is not None for c in conc):
            return mk('list', *[tup(*x) for x in zip(*conc)])
        return call(ext('zip'), [self.strip_iter(self.d(v)) for v in its])

    def x_enumerate(self, args, kws, e):
        v = self.iterated(args[0][1])
        pos, kw = self.pure_args(args[1:], kws)
        conc = self.concrete_iter(v)
        start = pos[0] if pos else dict(kw).get('start', ZERO)
        if conc is not None:
            return mk('list', *[tup(t.add(start, num(i)), x) for i, x in enumerate(conc)])
        a = [self.strip_iter(self.d(v))] + ([start] if start is not ZERO else [])
        return call(ext('enumerate'), a)

    def x_reversed(self, args, kws, e):
        v = self.as_seq(self.iterated(args[0][1]))
        if v.op in ('list', 'tuple') and not any(x.op == 'star' for x in v.args):
            return mk('list', *v.args[::-1])
        return call(ext('reversed'), [self.strip_iter(self.d(v))])

    def x_collections_namedtuple(self, args, kws, e):
        if len(args) == 2 and not kws and all(k is None for k, _ in args):
            f = self.d(args[1][1])
            if f.op in ('tuple', 'list') and all(x.op == 'const' for x in f.args):
                return mk('rectype', val=tuple(x.val for x in f.args))
            if f.op == 'const' and isinstance(f.val, str):
                return mk('rectype', val=tuple(f.val.replace(',', ' ').split()))
        return None

    def x_types_SimpleNamespace(self, args, kws, e):
        if not args and kws and all(k for k, _ in kws):
            return mk('obj', *[self.d(v) for _, v in kws],
                      val=('record', tuple(k for k, _ in kws)))
        return None

    def x_functools_partial(self, args, kws, e):
        f = args[0][1]
        if f.op == 'jitted':
            f = f.args[0]
        if f.op == 'func':
            mod, _, name = f.val.rpartition('.')
            m = self.ix.modules[mod]
            c = Closure(m.names[name][1], None, m)
        elif f.op == 'clo':
            c = self.clos[f.val[0]]
        else:
            pos, kw = self.pure_args(args, kws)
            return call(ext('functools.partial'), pos, kw)
        if any(k for k, _ in args):
            return None
        return self.clo(Closure(c.node, c.frame, c.module, c.cls, c.selfv, c.jitted,
                                c.pre + tuple(v for _, v in args[1:]),
                                tuple(c.prekw) + tuple(kws)))

    def x_functools_reduce(self, args, kws, e):
        its = self.concrete_iter(self.iterated(args[1][1]))
        if its is not None and its:
            xs = ([args[2][1]] if len(args) > 2 else []) + its
            r = xs[0]
            for x in xs[1:]:
                r = self.apply(args[0][1], [(None, r), (None, x)], [], e)
            return r
        return None

    def x_jax_tree_util_tree_map(self, args, kws, e):
        return None

    def x_jax_tree_util_Partial(self, args, kws, e):
        return self.x_functools_partial(args, kws, e)

    def x_copy_copy(self, args, kws, e):
        return None

    def x_str(self, args, kws, e):
        if self.a1(args, kws):
            v = self.d(args[0][1])
            if const_str(v) is not None:
                return v

    def x_abs(self, args, kws, e):
        if self.a1(args, kws):
            return call(ext('np:abs'), [self.d(args[0][1])])

    def x_operator_itemgetter(self, args, kws, e):
        return None

    # -- method calls on containers / opaque objects
    def dict_update(self, recv, name, args, kws):
        """obj.__dict__.update(...) with known names sets attributes"""
        if not (name == 'update' and recv.op == 'loc' and recv.args[0].op == 'attr' and
                recv.args[0].val == '__dict__' and recv not in self.store and len(args) <= 1):
            return False
        x = self.content(args[0][1]) if args else dct([])
        if x.op != 'dict' or any(const_str(k) is None for k in x.args[::2]) or \
                any(k is None for k, _ in kws):
            return False
        b = recv.args[0].args[0]
        own = [y for y in self.selfs if self.d(y) is b or y is b]
        b = own[0] if own else mk('loc', b)
        for k, v in [(const_str(k), v) for k, v in t.dict_items(x)] + list(kws):
            self.heap[(self.identity(b), k)] = v
        return True

    def call_bound(self, recv, name, args, kws, e):
        if recv.op == 'gamma':
            return self.over_gamma(recv, lambda r: self.call_bound(r, name, args, kws, e))
        if name in self.effectful:
            return self.mutate_call(recv, name, args, kws, e)
        if name in self.opaque_methods:
            r = self.opaque_call(recv, name, args, kws, e)
            if r is not None:
                return r
        if self.dict_update(recv, name, args, kws):
            return NONE
        c = self.content(recv)
        if c.op in ('list', 'tuple', 'dict', 'set', 'const', 'fstr', 'map', 'dmerge') or \
                recv.op == 'ref' and self.types.get(recv) is None:
            r = self.container_method(recv, c, name, args, kws, e)
            if r is not None:
                return r
        if name in ARRAY_METHODS and recv.op != 'ref' and not self.looks_object(c):
            pos, kw = self.pure_args(args, kws)
            return self.ext_value('np:' + name, [self.d(c)] + pos, kw)
        if name == 'astype':
            pos, kw = self.pure_args(args, kws)
            return call(ext('np:astype'), [self.d(c)] + pos, kw)
        if name in MUTATORS and not self.pure_receiver(recv, name):
            return self.mutate_call(recv, name, args, kws, e)
        if name == 'get' and len(args) in (1, 2) and not kws:
            pass
        pos, kw = self.pure_args(args, kws)
        rt = self.d(recv)
        f = t.attr(rt, name)
        self.keyuse(f, pos, kw, e)
        sig = ATTR_SIGS.get(name)
        if sig:
            names, dfl = sig
            a = self.sigargs(names, pos, dict(kw), lambda nm: dfl.get(nm))
            if a is not None:
                pos, kw = a, ()
        return self.wrapcall(call(f, pos, kw))

    def opaque_call(self, recv, name, args, kws, e):
        """call of an in-repo method that is kept uninterpreted: arguments in signature order"""
        cls = self.ix.classes[recv.val] if recv.op == 'cls' else self.types.get(self.identity(recv))
        f = cls.lookup(name) if cls is not None else None
        if f is None:
            return None
        owner, node = f
        if name in owner.props:
            pos, kw = self.pure_args(args, kws)
            ft = t.attr(self.d(recv), name)
            self.keyuse(ft, pos, kw, e)
            return call(ft, pos, kw)
        bound = not (recv.op == 'cls' and name not in owner.clsm) and name not in owner.static
        b = self.bind_args(Closure(node, None, owner.module, owner,
                                   selfv=recv if bound else None), args, kws)
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs][1 if bound else 0:]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        pos = [self.d(b[n]) for n in names]
        ft = t.attr(self.d(recv), name)
        self.keyuse(ft, pos, [], e)
        return call(ft, pos)

    def wrapcall(self, v):
        return v

    def looks_object(self, c):
        """receiver is an interface object rather than an array"""
        return c.op == 'attr' and c.val in ('proba_dist', '_proba_dist', 'random', '_structure',
                                            '_normal_dist') or c.op == 'sub' and \
            c.args[0].op == 'attr' and c.args[0].val == '_structure'

    def pure_receiver(self, recv, name):
        i = self.identity(recv)
        if name == 'update':
            # optax optimizer.update(grads, state, params) is pure; dict.update is a statement
            return not self.in_stmt
        if name in ('add', 'set', 'max', 'min') and i.op == 'sub' and i.args[0].op == 'attr' \
                and i.args[0].val == 'at':
            return True
        if i.op == 'sub' and i.args[0].op == 'attr' and i.args[0].val == 'at':
            return True
        return False

    in_stmt = False
    discard = False

    def mutate_call(self, recv, name, args, kws, e):
        pos, kw = self.pure_args(args, kws)
        key = recv
        if recv.op not in ('loc', 'ref'):
            key = mk('loc', recv)
        cur = self.d(self.store.get(key, self._store_default(key)))
        if cur is BOT:
            cur = key
        if name in COMMUTING:
            a = self.sigargs(COMMUTING[name], pos, dict(kw), lambda nm: NONE)
            if a is not None:
                pos, kw = a, ()
                self.store[key] = t.lift(lambda *xs: commuting(name, xs), cur, *pos)
                return NONE
        if name == 'clear' and not pos and not kw:
            n = t.deque_maxlen(cur)
            if n is not None and n.op != 'attr':
                self.store[key] = call(ext('deque'), [lst(), n])
                return NONE
        if name == 'extend' and len(pos) == 1 and not kw and t.deque_maxlen(cur) is not None:
            x = pos[0]
            if x.op == 'repeat' and x.args[0].op in ('list', 'tuple') and \
                    len(x.args[0].args) == 1:
                x = mk('map', tup(call(ext('range'), [x.args[1]])),
                       bind([t.fresh()], tup(TRUE, x.args[0].args[0])), val='list')
            if x.op == 'map':
                r = t._concat(cur, mk('map', *x.args, val='list'))
                if r.op == 'call':
                    self.store[key] = r
                    return NONE
        names = tuple(k for k, _ in kw)
        sig = (name, names)
        res = t.lift(lambda *xs: mk('res', *xs, val=sig), cur, *pos, *[v for _, v in kw])
        self.store[key] = t.lift(lambda *xs: mk('mut', *xs, val=sig), cur, *pos,
                                 *[v for _, v in kw])
        if name in ('pop', 'popleft') and cur.op == 'mut':
            pass
        return res

    def container_method(self, recv, c, name, args, kws, e):
        if name == 'format' and const_str(c) is not None and all(k is None for k, _ in args) \
                and all(k is not None for k, _ in kws):
            r = brace_format(const_str(c), [self.d(v) for _, v in args],
                             {k: self.d(v) for k, v in kws})
            if r is not None:
                return r
        pos = [v for k, v in args if k is None]
        if len(pos) != len(args):
            return None
        mutable = recv.op in ('ref', 'loc')
        if name == 'clear' and mutable and not pos and t.deque_maxlen(c) is not None \
                and t.deque_maxlen(c).op != 'attr':
            self.store[recv] = call(ext('deque'), [lst(), t.deque_maxlen(c)])
            return NONE
        if c.op == 'list' and mutable and not any(x.op == 'star' for x in c.args):
            if name == 'append' and len(pos) == 1:
                self.store[recv] = mk('list', *c.args, pos[0])
                return NONE
            if name == 'extend' and len(pos) == 1:
                x = self.as_seq(self.iterated(pos[0]))
                if x.op in ('list', 'tuple'):
                    self.store[recv] = mk('list', *(c.args + x.args))
                    return NONE
                x = self.d(x)
                if x.op == 'map':
                    x = mk('map', *x.args, val='list')
                self.store[recv] = t._concat(self.d(c), x)
                return NONE
            if name == 'insert' and len(pos) == 2 and pos[0].op == 'num':
                xs = list(c.args)
                xs.insert(int(pos[0].val), pos[1])
                self.store[recv] = mk('list', *xs)
                return NONE
            if name == 'pop' and c.args:
                i = -1 if not pos else (int(pos[0].val) if pos[0].op == 'num' else None)
                if i is not None and -len(c.args) <= i < len(c.args):
                    xs = list(c.args)
                    r = xs.pop(i)
                    self.store[recv] = mk('list', *xs)
                    return r
            if name == 'clear':
                self.store[recv] = lst()
                return NONE
            if name == 'reverse':
                self.store[recv] = mk('list', *c.args[::-1])
                return NONE
        if mutable and c.op != 'list' and name == 'extend' and len(pos) == 1:
            x = self.d(self.as_seq(pos[0]))
            if x.op == 'map' and x.val != 'dict':
                self.store[recv] = t._concat(self.d(c), mk('map', *x.args, val='list'))
                return NONE
        if mutable and c.op in ('map', 'concat') and name == 'append' and len(pos) == 1:
            self.store[recv] = t._concat(self.d(c), lst(self.d(pos[0])))
            return NONE
        if c.op in ('dict', 'dmerge') or (c.op == 'map' and c.val == 'dict'):
            const_keys = c.op == 'dict' and all(is_const(k) for k in c.args[::2])
            if name == 'items' and const_keys:
                return mk('list', *[tup(k, v) for k, v in t.dict_items(c)])
            if name == 'keys' and const_keys:
                return mk('list', *c.args[::2])
            if name == 'values' and const_keys:
                return mk('list', *c.args[1::2])
            if name == 'get' and pos:
                k = self.d(pos[0])
                dfl = pos[1] if len(pos) > 1 else NONE
                r = t.compare('in', k, self.d(c) if c.op != 'dict' else c)
                if r is TRUE:
                    return t.subscript(c, k)
                if r is FALSE:
                    return dfl
                return ite(r, self.getitem(recv, k), dfl)
            if name == 'update' and mutable:
                add = dct([])
                if pos:
                    x = self.content(pos[0])
                    if x.op in ('list', 'tuple') or (x.op == 'map' and x.val != 'dict'):
                        x = self.mkdict(x)
                    add = x if x.op == 'dict' else self.d(x)
                if kws:
                    add = self.dmerge(add, dct([(const(k), v) for k, v in kws if k]))
                self.store[recv] = self.dmerge(c, add)
                return NONE
            if name == 'copy' and not pos:
                return self.newref(c)
            if name == 'setdefault' and const_keys and mutable and len(pos) == 2:
                k = self.d(pos[0])
                if is_const(k):
                    if t.compare('in', k, c) is TRUE:
                        return t.subscript(c, k)
                    self.store[recv] = dct(t.dict_items(c) + [(k, pos[1])])
                    return pos[1]
            if name == 'pop' and const_keys and mutable and pos:
                k = self.d(pos[0])
                if is_const(k) and t.compare('in', k, c) is TRUE:
                    r = t.subscript(c, k)
                    self.store[recv] = dct([(a, b) for a, b in t.dict_items(c)
                                            if not t._pyeq(a, k)])
                    return r
                if is_const(k) and len(pos) == 2:
                    return pos[1]
        if c.op == 'tuple' and name == '__getitem__' and len(pos) == 1:
            return self.getitem(c, pos[0])
        if c.op in ('const', 'fstr'):
            s = const_str(c)
            xs = [self.d(p) for p in pos]
            if s is not None and name in ('split', 'rsplit') and xs and all(
                    const_str(x) is not None or x.op == 'num' for x in xs):
                return self.newref(lst(*[const(y) for y in getattr(s, name)(
                    *[const_str(x) if const_str(x) is not None else int(x.val) for x in xs])]))
            if s is not None and name in ('startswith', 'endswith') and len(xs) == 1 \
                    and const_str(xs[0]) is not None:
                return const(getattr(s, name)(const_str(xs[0])))
            if s is not None and name == 'join' and len(xs) == 1:
                return call(ext('str.join'), [c, self.genkind(xs[0])])
            pos2, kw2 = self.pure_args(args, kws)
            return call(t.attr(self.d(c), name), pos2, kw2)
        if c.op == 'list' and name == 'copy' and not pos:
            return self.newref(c)
        return None

    # ------------------------------------------------------------------ assignment
    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.frame.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v)
        elif isinstance(target, ast.Attribute):
            b = self.ev(target.value)
            name = self.aliased(target)
            if name.startswith('__') and not name.endswith('__') and self.frame_cls():
                name = f'_{self.frame_cls().name}{name}'
            self.setattr(b, name, v)
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value)
            i = self.ev(target.slice)
            self.setitem(target.value, b, i, v)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v)
        else:
            self.unsupported.append((self.where(target), 'target'))

    def unpack(self, elts, v):
        star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if v.op == 'gamma':
            parts = []
            n = len(elts)
            if not star:
                for i in range(n):
                    parts.append(self.over_gamma(v, lambda x: self.item(x, i, n)))
                for x, p in zip(elts, parts):
                    self.assign(x, p)
                return
        if not star:
            vals = [self.item(v, i, len(elts)) for i in range(len(elts))]
            for x, p in zip(elts, vals):
                self.assign(x, p)
            return
        s = star[0]
        c = self.as_seq(v)
        n_after = len(elts) - s - 1
        if c.op in ('tuple', 'list'):
            xs = list(c.args)
            for x, p in zip(elts[:s], xs[:s]):
                self.assign(x, p)
            self.assign(elts[s].value, self.newref(mk('list', *xs[s:len(xs) - n_after])))
            for x, p in zip(elts[s + 1:], xs[len(xs) - n_after:]):
                self.assign(x, p)
            return
        p = self.d(c)
        for j, x in enumerate(elts[:s]):
            self.assign(x, t.subscript(p, num(j)))
        self.assign(elts[s].value, t.subscript(p, mk(
            'slice', num(s), num(-n_after) if n_after else NONE, NONE)))
        for j, x in enumerate(elts[s + 1:]):
            self.assign(x, t.subscript(p, num(j - n_after)))

    def item(self, v, i, n):
        cls = self.types.get(self.identity(v))
        if cls is not None and cls.lookup('__iter__'):
            v = self.iterated(v)
        c = self.as_seq(v)
        if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].val == 'jax.random.split':
            return self.newkey('split')
        if c.op in ('tuple', 'list'):
            return self.getitem(c, num(i))
        if v.op in ('loc', 'ref') or c.op not in ('tuple', 'list'):
            p = self.d(c)
            r = t.subscript(p, num(i))
            return mk('loc', r) if r.op == 'sub' else r
        return self.getitem(v, num(i))

    def setattr(self, b, name, v):
        if b.op == 'gamma':
            self.over_gamma(b, lambda x: (self.setattr(x, name, v), NONE)[1])
            return
        i = self.identity(b)
        cls = self.types.get(i)
        if cls is not None:
            s = cls.lookup_setter(name)
            if s is not None and name not in self.opaque_props:
                self.call_method(b, s[0], s[1], [(None, v)], [])
                return
        self.heap[(i, name)] = v

    def setitem(self, texpr, b, i, v):
        if b.op == 'gamma':
            self.over_gamma(b, lambda x: (self.setitem(texpr, x, i, v), NONE)[1])
            return
        c = self.content(b)
        i = self.d(i)
        if c.op == 'dict' and all(is_const(k) for k in c.args[::2]) and is_const(i):
            new = dct(t.dict_items(c) + [(i, v)])
        elif c.op == 'list' and i.op == 'num' and i.val.denominator == 1 and \
                -len(c.args) <= i.val < len(c.args) and not any(x.op == 'star' for x in c.args):
            xs = list(c.args)
            xs[int(i.val)] = v
            new = mk('list', *xs)
        else:
            new = t.lift(lambda *xs: mk('setitem', *xs), self.d(c), i, self.d(v))
        self.rebind(texpr, b, new)

    def rebind(self, texpr, b, new):
        if b.op in ('loc', 'ref'):
            self.store[b] = new
        elif isinstance(texpr, ast.Name):
            self.frame.env[texpr.id] = new
        elif isinstance(texpr, ast.Attribute):
            self.setattr(self.ev(texpr.value), self.aliased(texpr), new)
        elif isinstance(texpr, ast.Subscript):
            bb = self.ev(texpr.value)
            self.setitem(texpr.value, bb, self.ev(texpr.slice), new)
        else:
            self.unsupported.append((self.where(texpr), 'setitem target'))

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        """execute statements; returns True if control can fall through"""
        for s in stmts:
            self.dead = False
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                self.unsupported.append((self.where(s), type(s).__name__))
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.frame.env[n.id] = opaque(type(s).__name__)
                continue
            if m(s) is False or self.dead:
                self.dead = False
                return False
        return True

    dead = False

    def exit(self, kind, val, node, cnd=TRUE):
        self.exits[-1].append(Exit(cnd, kind, val, dict(self.heap), dict(self.store),
                                   dict(self.frame.env), getattr(node, 'lineno', 0)))

    def st_Pass(self, s):
        pass

    def st_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.frame.env[nm] = ext(a.name if a.asname else a.name.split('.')[0])

    def st_ImportFrom(self, s):
        m = self.frame.module
        mod = s.module or ''
        if s.level:
            pkg = m.package().split('.')
            if s.level > 1:
                pkg = pkg[:-(s.level - 1)]
            mod = '.'.join(pkg + ([mod] if mod else []))
        for a in s.names:
            self.frame.env[a.asname or a.name] = self.resolved(
                self.ix.resolve_from(mod, a.name), a.name)

    def st_Global(self, s):
        self.unsupported.append((self.where(s), 'global'))

    st_Nonlocal = st_Global

    def st_Delete(self, s):
        for x in s.targets:
            if isinstance(x, ast.Name):
                self.frame.env.pop(x.id, None)
            elif isinstance(x, ast.Subscript):
                b = self.ev(x.value)
                i = self.d(self.ev(x.slice))
                # the removed element is not used: del c[i] and c.pop(i) agree
                how = 'del' if i.op == 'slice' else 'pop'
                self.rebind(x.value, b, t.lift(
                    lambda *y: mk('mut', *y, val=(how, ())), self.d(self.content(b)), i))
            elif isinstance(x, ast.Attribute):
                self.setattr(self.ev(x.value), self.aliased(x), mk('deleted'))

    def st_Assert(self, s):
        return None

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value)
            return
        old = self.in_stmt
        self.in_stmt = isinstance(s.value, ast.Call)
        try:
            if isinstance(s.value, ast.Call):
                self.stmt_call(s.value)
            else:
                self.ev(s.value)
        finally:
            self.in_stmt = old

    def stmt_call(self, e):
        """call whose result is discarded: it matters only for its effect"""
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            self.ev(e)
            return
        fv = self.ev(e.func)
        args, kws = self.ev_args(e)
        self.in_stmt = True
        self.apply_stmt(fv, args, kws, e)

    def apply_stmt(self, fv, args, kws, e):
        if fv.op == 'gamma':
            self.over_gamma(fv, lambda f: (self.apply_stmt(f, args, kws, e), NONE)[1])
            return
        if fv.op == 'loc' and fv.args[0].op == 'attr':
            base, name = fv.args[0].args[0], fv.args[0].val
            recv = mk('loc', base)
            if base is NONE or base.op == 'attr' and base.val == 'logger':
                return          # logging
            if self.dict_update(recv, name, args, kws):
                return
            c = self.content(recv)
            if c.op in ('list', 'dict', 'set') or name in ARRAY_METHODS:
                self.in_stmt = True
                self.call_bound(recv, name, args, kws, e)
                return
            self.mutate_call(recv, name, args, kws, e)
            return
        if fv.op == 'bound' and fv.args[0] is NONE:
            return
        if fv.op == 'bound':
            self.in_stmt = True
            c = self.content(fv.args[0])
            r = self.container_method(fv.args[0], c, fv.val, args, kws, e)
            if r is None:
                self.mutate_call(fv.args[0], fv.val, args, kws, e)
            return
        if fv.op == 'ext':
            n = canon_ext(fv.val)
            if any(n == p or n.startswith(p) for p in IGNORED_CALLS) or n.startswith('object.'):
                return
            if hasattr(self, 'x_' + n.replace('.', '_').replace(':', '_')):
                self.call_ext(n, args, kws, e)
                return
            pos, kw = self.pure_args(args, kws)
            self.keyuse(ext(n), pos, kw, e)
            if n.startswith(('numpy.testing', 'np:testing')):
                return
            key = mk('loc', ext(n.rpartition('.')[0] or n))
            cur = self.store.get(key, key.args[0])
            self.store[key] = mk('mut', cur, *pos, *[v for _, v in kw],
                                 val=(n, tuple(k for k, _ in kw)))
            return
        self.in_stmt = False
        self.discard = fv.op == 'clo'
        self.apply(fv, args, kws, e)
        self.discard = False

    def ev_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        y = self.frame.env.get('$yield')
        if y is not None:
            c = self.content(y)
            if c.op == 'list' and not any(x.op == 'star' for x in c.args):
                self.store[y] = mk('list', *c.args, v)
            else:
                self.store[y] = t.lift(lambda a, b: mk('mut', a, b, val=('append', ())),
                                       self.d(c), self.d(v))
        return NONE

    def ev_YieldFrom(self, e):
        v = self.ev(e.value)
        y = self.frame.env.get('$yield')
        if y is not None:
            self.container_method(y, self.content(y), 'extend', [(None, v)], [], e)
        return NONE

    def ev_Await(self, e):
        return self.ev(e.value)

    def st_Assign(self, s):
        v = self.ev(s.value)
        if self.dead:
            return False
        for x in s.targets:
            self.assign(x, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s))
        elif isinstance(s.target, ast.Attribute):
            cur = self.ev(ast.copy_location(ast.Attribute(
                value=s.target.value, attr=s.target.attr, ctx=ast.Load()), s))
        else:
            cur = self.ev(ast.copy_location(ast.Subscript(
                value=s.target.value, slice=s.target.slice, ctx=ast.Load()), s))
        v = self.ev(s.value)
        c = self.content(cur)
        if op == '+' and cur.op in ('ref', 'loc') and c.op == 'list':
            self.container_method(cur, c, 'extend', [(None, v)], [], s)
            return
        r = t.binop(op, self.d(cur), self.d(v))
        self.assign(s.target, r)

    def st_Return(self, s):
        if self.frame.discard and isinstance(s.value, ast.Call):
            self.st_Expr(s)
            v = NONE
        else:
            v = self.ev(s.value) if s.value is not None else NONE
        if self.dead:
            return False
        self.exit('return', v, s)
        return False

    def st_Raise(self, s):
        v = mk('raise', val='reraise')
        if s.exc is not None:
            x = s.exc
            if isinstance(x, ast.Call):
                x = x.func
            xv = self.ev(x)
            nm = xv.val if xv.op in ('ext', 'cls') else t.show(self.d(xv), 3)
            v = mk('raise', val=str(nm).rpartition('.')[2])
        self.exit('raise', v, s)
        return False

    def st_FunctionDef(self, s):
        c = self.clo(Closure(s, self.frame, self.frame.module, self.frame.cls))
        for d in reversed(s.decorator_list):
            nm = ast.unparse(d).split('(')[0]
            if nm in ('jit', 'jax.jit', 'coax.utils.jit'):
                c = mk('jitted', c)
            elif nm in ('wraps', 'functools.wraps', 'staticmethod'):
                pass
            else:
                c = self.apply(self.ev(d), [(None, c)], [], s)
        self.frame.env[s.name] = c

    def st_ClassDef(self, s):
        self.frame.env[s.name] = opaque('local class')

    def st_If(self, s):
        c = self.evcond(s.test)
        if c is TRUE:
            return self.block(s.body)
        if c is FALSE:
            return self.block(s.orelse) if s.orelse else True
        return self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, f, g):
        s0 = self.snap()
        self.exits.append([])
        fa = self.under(c, f)
        ea, sa = self.exits.pop(), self.snap()
        self.restore(s0)
        self.exits.append([])
        fb = self.under(b_not(c), g)
        eb, sb = self.exits.pop(), self.snap()
        nc = b_not(c)
        for x in ea:
            x.cond = b_and(c, x.cond)
        for x in eb:
            x.cond = b_and(nc, x.cond)
        self.exits[-1] += ea + eb
        if fa is False and fb is False:
            return False
        if fa is False:
            self.restore(sb)
            self.lits = dict(self.lits)
            self.lits.update(cube(nc))
            return True
        if fb is False:
            self.restore(sa)
            self.lits = dict(self.lits)
            self.lits.update(cube(c))
            return True
        self.merge(c, sa, sb)
        return True

    def st_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            else:
                pv = self.d(v)
                key = mk('loc', ext('with'))
                self.store[key] = mk('mut', self.store.get(key, key.args[0]), pv,
                                     val=('with', ()))
        return self.block(s.body)

    def st_Try(self, s):
        s0 = self.snap()
        self.exits.append([])
        fb = self.block(s.body)
        eb, sb = self.exits.pop(), self.snap()
        other = [x for x in eb if x.kind != 'raise' or not s.handlers]
        summ = [x.val for x in eb if x.kind == 'raise']
        body_sig = mk('trybody', *[self._sig(s.body)])
        if s.handlers:
            c = t._gnode(mk('atom', body_sig, val='raises'), TRUE, FALSE)
            outs = []
            for h in s.handlers:
                self.restore(s0)
                if h.name:
                    self.frame.env[h.name] = mk('exc', val=h.name)
                self.exits.append([])
                fh = self.block(h.body)
                eh, sh = self.exits.pop(), self.snap()
                outs.append((fh, eh, sh))
            fh, eh, sh = outs[0]
            for (f2, e2, s2), h in zip(outs[1:], s.handlers[1:]):
                cc = t._gnode(mk('atom', const(ast.unparse(h.type) if h.type else ''),
                                 val='handler'), TRUE, FALSE)
                for x in e2:
                    x.cond = b_and(cc, x.cond)
                eh = eh + e2
                if f2 and fh:
                    self.merge(cc, s2, sh)
                    sh = self.snap()
                elif f2:
                    fh, sh = f2, s2
            for x in eh:
                x.cond = b_and(c, x.cond)
            self.exits[-1] += eh
            for x in other:
                x.cond = b_and(b_not(c), x.cond)
            self.exits[-1] += other
            if fb and fh:
                self.merge(c, sh, sb)
                r = True
            elif fb:
                self.restore(sb)
                r = True
            elif fh:
                self.restore(sh)
                r = True
            else:
                r = False
        else:
            self.exits[-1] += other
            r = fb
            self.restore(sb)
        if s.orelse and r:
            r = self.block(s.orelse)
        if s.finalbody:
            r2 = self.block(s.finalbody)
            r = r and r2
        return True if r else False

    def _sig(self, body):
        vals = []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call):
                    vals.append(const(ast.unparse(n.func)))
        return tup(*vals)

    # loops --------------------------------------------------------------
    def st_For(self, s):
        it = self.iterable(self.ev(s.iter))
        it = self.iterated(it) if self.types.get(self.identity(it)) else it
        items = self.concrete_iter(it)
        if items is not None:
            return self.unroll(s, items)
        k = fresh('tmp', 'i')
        dom, el = self.iter_dom(it, k)
        return self.symloop(s, k, dom, lambda: self.assign(s.target, el), None)

    def st_While(self, s):
        if not s.orelse and not isinstance(s.test, ast.Constant) and not any(
                isinstance(n, (ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b)):
            s0, nev, n0 = self.snap(), len(self.events), len(self.exits[-1])
            for _ in range(12):         # the number of iterations is known
                c = self.evcond(s.test)
                if c is FALSE:
                    return True
                if c is not TRUE:
                    break
                if not self.block(s.body):
                    return False
            self.restore(s0)
            del self.events[nev:], self.exits[-1][n0:]
        return self.symloop(s, fresh('tmp', 'i'), [], lambda: None, s.test)

    def unroll(self, s, items):
        pend, over = [], FALSE      # break states
        path = self.path
        for j, x in enumerate(items):
            self.assign(s.target, x)
            self.exits.append([])
            self.path = path + (('it', j),)
            fall = self.block(s.body)
            self.path = path
            ex = self.exits.pop()
            cont = [y for y in ex if y.kind == 'continue']
            brk = [y for y in ex if y.kind == 'break']
            rest = [y for y in ex if y.kind in ('return', 'raise')]
            for y in rest:
                y.cond = b_and(b_not(over), y.cond)
            self.exits[-1] += rest
            for y in brk:
                y.cond = b_and(b_not(over), y.cond)
                over = b_or(over, y.cond)
                pend.append(y)
            for y in cont:
                st = (y.heap, y.store, y.env)
                if fall:
                    self.merge(y.cond, st, self.snap())
                else:
                    self.restore(st)
                    fall = True
            if not fall:
                break
        else:
            fall = True
            if s.orelse:
                if pend:
                    return self.symfail(s, 'else after break in unrolled loop')
                return self.block(s.orelse)
        for y in reversed(pend):
            st = (y.heap, y.store, y.env)
            if fall:
                self.merge(y.cond, st, self.snap())
            else:
                self.restore(st)
                fall = True
        return fall

    def symfail(self, s, why):
        self.unsupported.append((self.where(s), why))
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.frame.env[n.id] = opaque(why)
        return True

    def symloop(self, s, k, dom, bindt, test):
        s0 = self.snap()
        h0, st0, e0 = s0
        mod_e, mod_h, mod_s = set(), set(), set()
        tmps = {}
        path, nev = self.path, len(self.events)
        for _round in range(5):
            self.restore(s0)
            del self.events[nev:]
            tmps = {}
            for n in sorted(mod_e):
                tmps[('e', n)] = fresh('tmp')
                self.frame.env[n] = tmps[('e', n)]
            for kk in sorted(mod_h, key=lambda z: (z[0].key, z[1])):
                tmps[('h', kk)] = fresh('tmp')
                self.heap[kk] = tmps[('h', kk)]
            for kk in sorted(mod_s, key=lambda z: z.key):
                tmps[('s', kk)] = fresh('tmp')
                self.store[kk] = tmps[('s', kk)]
            pre = self.snap()
            self.exits.append([])
            tc = TRUE
            if test is not None:
                tc = self.evcond(test)
            lits0 = self.lits
            self.lits = {**self.lits, **cube(tc)}
            bindt()
            self.path = path + (('loop', id(s)),)
            fall = self.block(s.body)
            self.path = path
            self.lits = lits0
            ex = self.exits.pop()
            cont = [y for y in ex if y.kind == 'continue']
            brk = [y for y in ex if y.kind == 'break']
            rest = [y for y in ex if y.kind in ('return', 'raise')]
            # fold continue + break states into the step state
            for y in cont + brk:
                stt = (y.heap, y.store, y.env)
                if fall:
                    self.merge(y.cond, stt, self.snap())
                else:
                    self.restore(stt)
                    fall = True
            post = self.snap()
            new = False
            for n, v in post[2].items():
                if pre[2].get(n) is not v and n in e0 and n not in mod_e and e0[n] is not BOT:
                    mod_e.add(n)
                    new = True
            for kk, v in post[0].items():
                if pre[0].get(kk) is not v and kk not in mod_h and self.outer(kk[0], st0, h0):
                    mod_h.add(kk)
                    new = True
            for kk, v in post[1].items():
                if pre[1].get(kk) is not v and kk not in mod_s and self.outer(kk, st0, h0):
                    mod_s.add(kk)
                    new = True
            if not new:
                break
        else:
            self.restore(s0)
            return self.symfail(s, 'loop did not stabilise')
        brkc = FALSE
        for y in brk:
            brkc = b_or(brkc, y.cond)
        # step terms (pure), evaluated in the post state
        steps, inits = {}, {}
        localvals = {}
        self.restore(post)
        for key_, tm in tmps.items():
            kind, kk = key_
            v = {'e': post[2], 'h': post[0], 's': post[1]}[kind].get(kk)
            steps[key_] = self.d(v)
        for n, v in post[2].items():
            if n not in e0 or e0[n] is BOT:
                localvals[n] = self.d(v) if v is not BOT else BOT
        self.restore(s0)
        for key_ in tmps:
            kind, kk = key_
            v = {'e': e0, 'h': h0, 's': st0}[kind].get(kk)
            if v is None:
                v = self._heap_default(kk) if kind == 'h' else self._store_default(kk)
            inits[key_] = self.d(v)
        refs = {kk: v for (kind, kk), v in [] }
        res, locres = self.close_loop(k, dom, tmps, steps, inits, localvals, tc, brkc, rest,
                                      test is not None)
        for (kind, kk), v in res.items():
            if kind == 'e':
                # keep mutable identity for containers
                self.frame.env[kk] = v
            elif kind == 'h':
                self.heap[kk] = v
            else:
                self.store[kk] = v
        for n, v in locres.items():
            self.frame.env[n] = v
        # early exits out of the loop body
        for y in rest:
            val = self.d_in(y)
            c, v = self.loop_exit(k, dom, tmps, steps, inits, y.cond, val, tc, brkc,
                                  test is not None)
            self.exits[-1].append(Exit(c, y.kind, v, dict(self.heap), dict(self.store),
                                       dict(self.frame.env), y.line))
        if not fall and not rest:
            return True
        if s.orelse:
            if not brk:
                return self.block(s.orelse)
            nb = t._gnode(mk('atom', mk('loopbrk', tup(*self.reduce_dom(dom, k, (brkc,))),
                                        bind([k], brkc)), val='brk'), TRUE, FALSE)
            return self.branch(nb, lambda: True, lambda: self.block(s.orelse))
        return True

    def d_in(self, y):
        h, st = self.heap, self.store
        self.heap, self.store = y.heap, y.store
        try:
            return self.d(y.val)
        finally:
            self.heap, self.store = h, st

    def outer(self, base, st0, h0):
        """object existed before the loop"""
        if base.op == 'ref':
            return base in st0 or any(b is base for b, _ in h0) or base in self.types and \
                base in self.selfs
        return not t.contains(base, lambda x: x.op == 'tmp' and x.val[1] == 'i') or True

    def slice_of(self, roots, steps, tmps, extra):
        inv = {tm: kk for kk, tm in tmps.items()}
        need, todo = [], list(roots)
        for x in extra:
            for n in walk(x):
                if n in inv and inv[n] not in todo:
                    todo.append(inv[n])
        while todo:
            kk = todo.pop(0)
            if kk in need:
                continue
            need.append(kk)
            for n in walk(steps[kk]):
                if n in inv and inv[n] not in need and inv[n] not in todo:
                    todo.append(inv[n])
        return need

    def order(self, need, steps, tmps, inits, k):
        """canonical order of mutually dependent loop variables (colour refinement)"""
        col = {kk: inits[kk].key for kk in need}
        for _ in range(3):
            # a colour keeps the integer mark of the variable: comparisons are oriented by it
            env = {v: mk('idx', val=(c, v.val[1])) for v, c in
                   [(tmps[kk], col[kk]) for kk in need] + [(k, 'k')]}
            col = {kk: mk('c2', mk('col', val=col[kk]), subst(steps[kk], env)).key
                   for kk in need}
        return sorted(need, key=lambda kk: col[kk])

    def going_on(self, steps, brkc, roots=()):
        """the steps of variables that are not read after the loop only matter where it goes on"""
        if brkc is FALSE:
            return steps
        go = b_not(brkc)
        lits = cube(go)
        return {kk: v if kk in roots else t.care(t.restrict(v, lits), go)
                for kk, v in steps.items()}

    def loopnode(self, need, k, dom, tmps, steps, inits, tc, brkc, isw):
        o = self.order(need, steps, tmps, inits, k)
        bodies = [steps[kk] for kk in o] + [tc, brkc]
        dm = self.reduce_dom(dom, k, bodies)
        b = bind([k] + [tmps[kk] for kk in o], tup(*bodies))
        node = mk('loop', tup(*dm), b, tup(*[inits[kk] for kk in o]),
                  val='while' if isw else 'for')
        return node, o

    def close_loop(self, k, dom, tmps, steps, inits, localvals, tc, brkc, rest, isw):
        res, locres = {}, {}
        inv = {tm: kk for kk, tm in tmps.items()}
        simple = (tc is TRUE and brkc is FALSE and not rest and not isw) or \
                 (tc is TRUE and brkc is FALSE and not isw and all(
                     y.kind == 'raise' for y in rest))

        def carried(x):
            return [inv[n] for n in walk(x) if n in inv]

        def acc(kk, step):
            tm = tmps[kk]
            init = inits[kk]
            if step is tm:
                return init
            if not simple:
                return None
            # others reading this accumulator make it non-trivial only for themselves
            c = TRUE
            st = step
            if st.op == 'gamma':
                # filter form: [c ? append : tm]
                leaves = gamma_leaves(st)
                non = sorted((x for x in leaves if x is not tm), key=lambda x: x.key)
                if len(non) == 1 and tm in leaves:
                    c = t.apply_gamma(lambda x: TRUE if x is non[0] else FALSE, (st,))
                    st = non[0]
                elif non and all(x.op == non[0].op and x.val == non[0].val and x.args
                                 and x.args[0] is tm and len(x.args) == len(non[0].args)
                                 for x in non) and non[0].op in ('mut', 'setitem'):
                    # the same update with different operands on the branches
                    if tm in leaves:
                        c = t.apply_gamma(lambda x: FALSE if x is tm else TRUE, (st,))
                    st = mk(non[0].op, tm, *[
                        t.apply_gamma(lambda x, i=i: (non[0] if x is tm else x).args[i], (st,))
                        for i in range(1, len(non[0].args))], val=non[0].val)
                elif non and all(x.op == 'sum' and tm in x.args for x in non):
                    r = t.apply_gamma(lambda x: t.sub(x, tm), (st,))
                    if not carried(r):
                        return t.add(init, sumof(self.mkmap(dom, k, TRUE, r, 'gen')))
                    return None
                else:
                    return None
            if carried(c):
                return None
            if st.op == 'mut' and st.val == ('append', ()) and st.args[0] is tm and \
                    not carried(st.args[1]):
                m = self.mkmap(dom, k, c, st.args[1], 'list')
                return m if init.op == 'list' and not init.args else t._concat(init, m)
            if st.op == 'concat' and st.args[0] is tm and len(st.args) == 2 and \
                    st.args[1].op == 'list' and len(st.args[1].args) == 1 and \
                    not carried(st.args[1]):
                m = self.mkmap(dom, k, c, st.args[1].args[0], 'list')
                return m if init.op == 'list' and not init.args else t._concat(init, m)
            if st.op == 'setitem' and st.args[0] is tm and not carried(st.args[1]) and \
                    not carried(st.args[2]):
                m = self.mkmap(dom, k, c, tup(st.args[1], st.args[2]), 'dict')
                if init.op == 'dict' and not init.args:
                    return m
                return mk('setitems', init, m)
            if st.op == 'dmerge' and st.args[0] is tm and not carried(st.args[1]) and \
                    st.args[1].op == 'dict' and len(st.args[1].args) == 2:
                m = self.mkmap(dom, k, c, tup(*st.args[1].args), 'dict')
                if init.op == 'dict' and not init.args:
                    return m
                return mk('setitems', init, m)
            if not is_seqterm(st):
                r = t.sub(st, tm)
                if not carried(r) and st.op in ('sum',) and tm in st.args:
                    return t.add(init, sumof(self.mkmap(dom, k, c, r, 'gen')))
            return None

        for kk in tmps:
            v = acc(kk, steps[kk])
            if v is None:
                if simple and not carried(steps[kk]):
                    dm = self.reduce_dom(dom, k, (steps[kk],))
                    v = mk('last', tup(*dm), bind([k], steps[kk]), inits[kk])
                else:
                    st = self.going_on(steps, brkc, (kk,))
                    need = self.slice_of([kk], st, tmps, [tc, brkc])
                    node, o = self.loopnode(need, k, dom, tmps, st, inits, tc, brkc, isw)
                    v = mk('proj', node, val=o.index(kk))
            res[kk] = v
        for n, v in localvals.items():
            if v is BOT:
                continue
            if not carried(v) and simple:
                locres[n] = mk('last', tup(*self.reduce_dom(dom, k, (v,))), bind([k], v), BOT)
            else:
                st = self.going_on(steps, brkc)
                need = self.slice_of([], st, tmps, [v, tc, brkc])
                node, o = self.loopnode(need, k, dom, tmps, st, inits, tc, brkc, isw)
                locres[n] = mk('lastof', node, bind([k] + [tmps[x] for x in o], v))
        return res, locres

    def loop_exit(self, k, dom, tmps, steps, inits, c, val, tc, brkc, isw):
        inv = {tm: kk for kk, tm in tmps.items()}
        cc = b_and(tc, c)
        if not any(n in inv for n in walk(cc)) and brkc is FALSE and not isw:
            dm = self.reduce_dom(dom, k, (cc,))
            a = exists(dm, k, cc)
            if not t.mentions(val, k) and not any(n in inv for n in walk(val)):
                return a, val
            return a, mk('firstwhere', tup(*dm), bind([k], tup(cc, val)))
        brkc = b_or(brkc, cc)
        steps = self.going_on(steps, brkc)
        need = self.slice_of([], steps, tmps, [cc, val, brkc])
        node, o = self.loopnode(need, k, dom, tmps, steps, inits, tc, brkc, isw)
        b = bind([k] + [tmps[x] for x in o], tup(cc, val))
        return t._gnode(mk('atom', node, b, val='loopexit'), TRUE, FALSE), \
            mk('loopexitval', node, b)

    def st_Break(self, s):
        self.exit('break', NONE, s)
        return False

    def st_Continue(self, s):
        self.exit('continue', NONE, s)
        return False

    # ------------------------------------------------------------------ drivers
    def instance(self, cls, name='self', argsyms=None, run_init=True):
        """symbolic instance of an in-repo class: run __init__ on symbols, then forget
        everything a method or a user may have changed since"""
        s = sym(name)
        v = mk('loc', s)
        self.types[s] = cls
        self.selfs.add(s)
        if run_init:
            init = cls.lookup('__init__')
            if init is not None:
                owner, node = init
                fr = self.frame
                self.frame = Frame(owner.module, owner)
                self.exits.append([])
                a = node.args
                args = []
                for p in (a.posonlyargs + a.args)[1:]:
                    x = (argsyms or {}).get(p.arg)
                    args.append((p.arg, x if x is not None else mk('loc', sym('init:' + p.arg))))
                for p in a.kwonlyargs:
                    args.append((p.arg, mk('loc', sym('init:' + p.arg))))
                if a.kwarg:
                    pass
                self.initialising = True
                self.call_method(v, owner, node, [], args)
                self.initialising = False
                self.exits.pop()
                self.frame = fr
            self.init_heap = dict(self.heap)
            self.init_store = dict(self.store)
            mutable = mutated_attrs(cls)
            t.MAXLEN.clear()
            for n in content_mutated(cls) - mutable:
                v0 = self.heap.get((s, n))
                ml = t.deque_maxlen(self.content(v0)) if v0 is not None and v0.op == 'ref' \
                    else None
                if ml is not None and ml.op in ('sym', 'num'):
                    t.MAXLEN[t.attr(s, n)] = ml
            mutable = mutable | content_mutated(cls)
            for (b, n) in list(self.heap):
                if b is s and (n in mutable or (not n.startswith('_')
                               and self.heap[(b, n)].op not in ('clo', 'jitted'))):
                    del self.heap[(b, n)]
        return v

    def run(self, owner, node, selfv=None, args=None, extra=None):
        """summary of a function applied to fresh symbols; args: {param: value}"""
        fr = self.frame
        if isinstance(owner, tuple):
            self.frame = Frame(*owner)
        else:
            self.frame = Frame(owner.module if isinstance(owner, ClassInfo) else owner,
                               owner if isinstance(owner, ClassInfo) else None)
        self.exits.append([])
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        if selfv is not None:
            params = params[1:]
        kws = []
        pos = []
        given = dict(args or {})
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in given:
                kws.append((p, given[p]))
            elif args is None:
                kws.append((p, mk('loc', sym(p))))
        if a.kwarg:
            kws.append((None, mk('loc', sym('**'))))
        if a.vararg:
            named = dict(kws)
            if all(p in named for p in params):
                pos = [(None, named[p]) for p in params] + [('*', sym('*'))]
                kws = [(k, v) for k, v in kws if k not in params]
        c = Closure(node, None, self.frame.module, self.frame.cls, selfv=selfv)
        decs = [ast.unparse(d) for d in node.decorator_list]
        h0, s0 = dict(self.heap), dict(self.store)
        try:
            r = self.call_closure(c, pos, kws, force=True)
        finally:
            exits = self.exits.pop()
        ret = self.export(r) if r is not BOT else BOT
        raises = []
        only = getattr(self, 'only_attrs', None)
        heap = {k: self.dq(v) for k, v in self.heap.items()
                if h0.get(k) is not v and (only is None or k[1] in only) and (k[0].op != 'ref' or k[0] in self.selfs)}
        store = {k: self.dq(v) for k, v in self.store.items()
                 if s0.get(k) is not v and k.op != 'ref'}
        # fold raising exits
        for x in reversed(exits):
            if x.kind != 'raise':
                continue
            raises.append((x.cond, x.val, x.line))
            ret = ite(x.cond, x.val, ret)
            hx, sx = self.heap, self.store
            self.heap, self.store = x.heap, x.store
            for k in set(heap) | {k for k, v in x.heap.items() if h0.get(k) is not v}:
                if k[0].op == 'ref' and k[0] not in self.selfs:
                    continue
                cur = heap.get(k)
                if cur is None:
                    cur = self.dq(hx.get(k, self._heap_default(k)))
                old = x.heap.get(k)
                old = self.dq(old) if old is not None else self.dq(self._heap_default(k))
                heap[k] = ite(x.cond, old, cur)
            for k in set(store) | {k for k, v in x.store.items() if s0.get(k) is not v}:
                if k.op == 'ref':
                    continue
                cur = store.get(k)
                if cur is None:
                    cur = hx_store(sx, k, self)
                old = x.store.get(k)
                old = self.dq(old) if old is not None else self._store_default(k)
                store[k] = ite(x.cond, old, cur)
            self.heap, self.store = hx, sx
        self.frame = fr
        return Summary(ret, heap, store, raises)

    def dq(self, v):
        return self.d(v) if v is not BOT else BOT

    def export(self, v):
        """pure term for a returned value, including attribute updates made to it"""
        if v.op == 'gamma':
            return ite(mk('gamma', v.args[0], TRUE, FALSE), self.export(v.args[1]),
                       self.export(v.args[2]))
        r = self.d(v)
        if v.op not in ('loc', 'ref', 'tuple', 'list'):
            mods = sorted(((n, self.d(x)) for (b, n), x in self.heap.items() if b is v),
                          key=lambda z: z[0])
            if mods:
                r = mk('with', r, *[x for _, x in mods], val=tuple(n for n, _ in mods))
        return r

    def method(self, cls, name, selfv, args=None, setter=False):
        f = cls.lookup_setter(name) if setter else cls.lookup(name)
        if f is None:
            raise KeyError(f'{cls.name}.{name}')
        return self.run(f[0], f[1], selfv, args)


def isfloat(x):
    return x.op == 'const' and x.val[0] == 'float' or x.op == 'mono' and len(x.args) == 1 and \
        isfloat(x.args[0]) or x.op == 'sum' and len(x.args) == 1 and isfloat(x.args[0])


def hx_store(sx, k, eng):
    v = sx.get(k)
    return eng.dq(v) if v is not None else eng._store_default(k)


def is_seqterm(x):
    return t.is_seq(x)


def gamma_leaves(x):
    if x.op != 'gamma':
        return {x}
    return gamma_leaves(x.args[1]) | gamma_leaves(x.args[2])


def cube(c):
    """literals implied by a boolean diagram"""
    out = {}
    while c.op == 'gamma':
        a, hi, lo = c.args
        if lo is FALSE:
            out[a] = True
            c = hi
        elif hi is FALSE:
            out[a] = False
            c = lo
        else:
            # descend: literals common to both sides
            h, l = cube(hi), cube(lo)
            for k in h:
                if k in l and h[k] == l[k]:
                    out[k] = h[k]
            break
    return out


def exists(dom, k, c):
    if c is FALSE:
        return FALSE
    return t._gnode(mk('atom', tup(*dom), bind([k], c), val='exists'), TRUE, FALSE)


def commfold(n, xs):
    flat = []
    for x in xs:
        flat += x.args if (x.op == 'comm' and x.val == n) else [x]
    flat = sorted(set(flat), key=lambda z: z.key)
    if len(flat) == 1:
        return flat[0]
    if all(x.op == 'num' for x in flat):
        return mk('num', val=(min if n == 'min' else max)(x.val for x in flat))
    return mk('comm', *flat, val=n)


def sumof(m):
    return call(ext('sum'), [m])


def lenof(c):
    if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].val in ('list', 'tuple', 'iter') \
            and len(c.args) == 2:
        c = c.args[1]
    if c.op == 'map':
        dom = c.args[0].args
    return call(ext('len'), [c])


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


EXT_ALIASES = {
    'jax.tree_map': 'jax.tree_util.tree_map', 'jax.tree_leaves': 'jax.tree_util.tree_leaves',
    'jax.tree.map': 'jax.tree_util.tree_map', 'jax.tree.leaves': 'jax.tree_util.tree_leaves',
    'jax.tree_structure': 'jax.tree_util.tree_structure',
    'jax.tree.structure': 'jax.tree_util.tree_structure',
    'jax.numpy.linalg.norm': 'np:linalg.norm',
}


def canon_ext(n):
    if n in EXT_ALIASES:
        return EXT_ALIASES[n]
    if n.startswith('jax.numpy.'):
        n = 'np:' + n[len('jax.numpy.'):]
    elif n.startswith('numpy.') and not n.startswith('numpy.random'):
        n = 'np:' + n[len('numpy.'):]
    if n.startswith(('gymnasium.spaces.', 'gym.spaces.')) and n.endswith('.Space'):
        return 'gymnasium.Space'
    if n in ('np:absolute', 'np:fabs'):
        n = 'np:abs'
    if n in ('np:amax',):
        n = 'np:max'
    if n in ('np:amin',):
        n = 'np:min'
    return n


def brace_format(fmt, pos, kw):
    import string
    out, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if field == '':
                x, auto = pos[auto], auto + 1
            elif field.isdigit():
                x = pos[int(field)]
            else:
                x = kw[field]
            if spec or conv:
                return None
            out.append(x)
    except (ValueError, KeyError, IndexError):
        return None
    if any(p.op == 'gamma' for p in out):
        return t.lift(lambda *xs: t.fstr(list(xs)), *out)
    return t.fstr(out)


def percent_format(fmt, b):
    import re
    parts = re.split(r'(%[sd])', fmt)
    n = sum(1 for p in parts if p in ('%s', '%d'))
    xs = list(b.args) if b.op == 'tuple' else [b]
    if '%' in ''.join(p for p in parts if p not in ('%s', '%d')) or len(xs) != n:
        return None
    it = iter(xs)
    out = [next(it) if p in ('%s', '%d') else const(p) for p in parts if p]
    if any(p.op == 'gamma' for p in out):
        return t.lift(lambda *ys: t.fstr(list(ys)), *out)
    return t.fstr(out)


def mutated_attrs(cls):
    """attributes of self that some method other than __init__ may (re)assign"""
    if cls.mutated is not None:
        return cls.mutated
    out = cls.mutated = set()
    for c in cls.mro:
        if not isinstance(c, ClassInfo):
            continue
        for nm, f in list(c.methods.items()) + [('set:' + k, v) for k, v in c.setters.items()]:
            if nm == '__init__':
                # nested functions of __init__ that assign self attributes
                for n in ast.walk(f):
                    if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f:
                        out |= self_stores(n)
                continue
            out |= self_stores(f)
    return out


def content_mutated(cls):
    """attributes of self whose container some method other than __init__ changes in place"""
    def attr_of(x):
        return x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
            x.value.id == 'self' else None
    out = set()
    for c in cls.mro:
        if isinstance(c, ClassInfo):
            for nm, f in list(c.methods.items()) + [('set:' + k, v) for k, v in c.setters.items()]:
                if nm == '__init__':
                    continue
                for n in ast.walk(f):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                            n.func.attr in CONTENT:
                        out.add(attr_of(n.func.value))
                    elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                        out.add(attr_of(n.value))
    return out - {None}


CONTENT = {'append', 'appendleft', 'extend', 'extendleft', 'insert', 'remove', 'clear', 'pop',
           'popleft', 'popitem', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
           'rotate'}


def init_only(cls):
    """private methods that only the constructor calls"""
    uses = {}
    for c in cls.mro:
        if isinstance(c, ClassInfo):
            for nm, f in list(c.methods.items()) + [('set:' + k, v) for k, v in c.setters.items()]:
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute):
                        uses.setdefault(n.attr, set()).add(nm)
    out = {'__init__'}
    while True:
        new = {m for m, by in uses.items() if m.startswith('_') and m not in out and by <= out
               and cls.lookup(m)}
        if not new:
            return out
        out |= new


def later_mutated(cls):
    """attributes that may be reassigned after construction"""
    if cls.later is None:
        skip = init_only(cls)
        cls.later = set()
        for c in cls.mro:
            if isinstance(c, ClassInfo):
                for nm, f in list(c.methods.items()) + [
                        ('set:' + k, v) for k, v in c.setters.items()]:
                    if nm not in skip:
                        cls.later |= self_stores(f)
                    elif nm == '__init__':
                        for n in ast.walk(f):
                            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f:
                                cls.later |= self_stores(n)
    return cls.later


def self_stores(f):
    out = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                isinstance(n.value, ast.Name) and n.value.id == 'self':
            out.add(n.attr)
    return out


KEYNAMES = {'rng', 'key'}


def erase_keys(x):
    """canonical form for value comparison: all PRNG keys are one symbol"""
    def f(y):
        if y.op == 'key':
            return KEY
        if y.op == 'sym' and y.val in KEYNAMES:
            return KEY
        if y.op == 'attr' and y.val == 'rng':
            return KEY
        if y.op == 'sub' and y.args[0].op == 'call' and \
                y.args[0].args[0] is ext('jax.random.split'):
            return KEY
        return y
    return t.map_terms(x, f)


def has_opaque(x):
    return t.contains(x, lambda y: y.op == 'opaque')
