"""Equivalent spellings, tried when two value graphs are not literally the same."""
from . import terms as t
from .terms import mk, TRUE, FALSE, NONE


def _ext(x, name, n=None):
    return x.op == 'call' and x.args[0].op == 'ext' and x.args[0].val == name and not x.val \
        and (n is None or len(x.args) == n + 1)


def _identity_map(m):
    """Y when m lists the elements of Y in order"""
    if m.op != 'map' or m.val not in ('list', 'tuple') or m.args[0].args:
        return None
    b = m.args[1]
    body = b.args[0]
    if b.val[1] == 1 and body.op == 'tuple' and len(body.args) == 2 and body.args[0] is TRUE:
        y = body.args[1]
        if y.op == 'sub' and y.args[1].op == 'bvar' and y.args[1].val[0] == b.val[0] and \
                not t.contains(y.args[0], lambda z: z is y.args[1]):
            return y.args[0]
    return None


def _evict(x):
    """(contents, limit) of `while len(c) > limit: drop the oldest element of c`"""
    if x.op != 'proj' or x.val != 0 or x.args[0].op != 'loop' or x.args[0].val != 'while':
        return None
    dom, b, init = x.args[0].args
    if dom.args or len(init.args) != 1 or b.val[1] != 2 or len(b.args[0].args) != 3:
        return None
    step, go, brk = b.args[0].args
    if brk is not FALSE or step.op != 'mut' or step.val[0] not in ('pop', 'popleft'):
        return None
    v = step.args[0]
    if v.op != 'bvar' or v.val[:2] != (b.val[0], 1):
        return None
    if step.val[0] == 'pop' and not (len(step.args) == 2 and step.args[1] is t.num(0)):
        return None
    if go.op != 'gamma' or go.args[1] is not TRUE or go.args[2] is not FALSE or \
            go.args[0].val != 'lt0':
        return None
    limit = t.add(go.args[0].args[0], t.call(t.ext('len'), [v]))
    if t.mentions(limit, v):
        return None
    return init.args[0], limit


def _keep(x, n):
    return mk('keeplast', x, n)


def _log(x):
    return t.call(t.ext('np:log'), [x])


def _is_product(b):
    h = b.val[0]
    x = b.args[0]
    return b.val[1] == 2 and x is t.mul(mk('bvar', val=(h, 0, '')), mk('bvar', val=(h, 1, '')))


def _pull(n, scalars):
    """factors known to be scalars come out of a mean or a sum"""
    row = n.op == 'rowsum'
    p = t._to_poly(n.args[0 if row else 1])
    common = None
    for m in p:
        d = {a: e for a, e in m if a in scalars}
        common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
    if not common:
        return n
    inner = t._from_poly({tuple((a, e) for a, e in m if a not in common): c for m, c in p.items()})
    if inner.op == 'num':
        return n
    return t.mul(t._from_mono(tuple(common.items())), mk('rowsum', inner) if row else
                 _linear(mk('call', n.args[0], inner, *n.args[2:], val=())))


def _linear(n):
    """numeric factors come out of a mean or a sum; a mean of a sum is the sum of the means"""
    f, x, rest = n.args[0], n.args[1], n.args[2:]
    if x.op in ('gamma', 'bval') or t.is_seq(x):
        return n
    p = t._to_poly(x)
    split = f.val == 'np:mean' and not rest
    if len(p) != 1 and not split:
        cs = {abs(c) for c in p.values()}
        if len(cs) != 1 or cs == {1} and 1 in p.values():
            return n
        c = cs.pop()
        if sorted(p.items(), key=lambda i: t._from_mono(i[0]).key)[0][1] < 0:
            c = -c
        parts = [({m: k / c for m, k in p.items()}, c)]
    else:
        parts = [({m: 1}, c) for m, c in p.items()]
    out = t.num(0)
    for q, c in parts:
        if () in q and len(q) == 1:
            if f.val != 'np:mean':
                return n
            out = t.add(out, t.num(c))
        else:
            out = t.add(out, t.mul(t.num(c), mk('call', f, t._from_poly(q), *rest, val=())))
    return out


def _bound(f, x, y):
    def g(*a):
        flat = [z for u in a for z in (u.args if u.op == 'comm' and u.val == f else (u,))]
        return mk('comm', *sorted(set(flat), key=lambda z: z.key), val=f)
    return t.lift(g, x, y)


def _clip(n):
    """max(min(x, hi), lo) where lo cannot exceed hi"""
    if n.op == 'comm' and n.val == 'np:maximum' and len(n.args) == 2:
        for a, lo in (n.args, n.args[::-1]):
            if a.op == 'comm' and a.val == 'np:minimum' and len(a.args) == 2 and not (
                    t.is_seq(lo) or t.is_seq(a)):
                for x, hi in (a.args, a.args[::-1]):
                    d = t._to_poly(t.sub(hi, lo))
                    if len(d) == 1 and all(c > 0 for c in d.values()) and all(
                            len(m) <= 1 and not t.mentions(t._from_mono(m), x) for m in d):
                        return _bound('np:minimum', _bound('np:maximum', x, lo), hi)
    return n


RECORDS = {'inputs': ('args', 'static_argnums'), 'value_transform': (
    'transform_func', 'inverse_func'), 'type1': ('inputs', 'output'), 'type2': ('inputs', 'output')}


def _field(n):
    """fields of named tuples reached by position"""
    b, i = n.args
    if i.op == 'num' and i.val in (0, 1):
        r = RECORDS.get(b.val) if b.op == 'attr' else None
        if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].val == 'example_data':
            r = ('inputs', 'output')
        if r:
            return t.attr(b, r[int(i.val)])
    return n


def _splat(z):
    """the positional arguments *z stands for, when their number is known"""
    if z.op in ('tuple', 'list'):
        return z.args
    if z.op == 'gamma':
        a, b = _splat(z.args[1]), _splat(z.args[2])
        if a is not None and b is not None and len(a) == len(b):
            return tuple(t.ite(z.args[0], u, v) for u, v in zip(a, b))


def _renumber(n):
    """binders are named by the height of their body"""
    h, k = n.val
    b = n.args[0]
    g = t.height(b) + 1
    if g == h:
        return n
    env = {z: mk('bvar', val=(g,) + z.val[1:]) for z in t.walk(b)
           if z.op == 'bvar' and z.val[0] == h}
    return mk('bind', t.subst(b, env), val=(g, k))


def _cases(n):
    """a call whose *args has a different length in different cases: one call per case"""
    for i, z in enumerate(n.args):
        if z.op == 'star' and z.args[0].op == 'gamma':
            c, a, b = z.args[0].args
            if all(_splat(y) is not None or y.op == 'gamma' for y in (a, b)):
                return t.ite(c, *[_stars(mk(n.op, *n.args[:i], mk('star', y), *n.args[i + 1:],
                                            val=n.val)) for y in (a, b)])
    return n


def _stars(n):
    if any(z.op == 'star' for z in n.args):
        r = [_splat(z.args[0]) if z.op == 'star' else (z,) for z in n.args]
        if any(y is not None and z.op == 'star' for y, z in zip(r, n.args)):
            n = mk(n.op, *[y for q, z in zip(r, n.args) for y in ((z,) if q is None else q)],
                   val=n.val)
        return _cases(n)
    return n


def keyed(x, y):
    """iterating over a mapping is iterating over its keys"""
    maps = {n.args[1] for z in (x, y) for n in t.walk(z) if _ext(n, 'keys', 1)}
    if not maps:
        return x, y

    def f(n):
        if n.op == 'sub' and n.args[0] in maps and n.args[1].op in ('bvar', 'idx', 'tmp'):
            return mk('sub', t.call(t.ext('keys'), [n.args[0]]), n.args[1])
        if n.op == 'map' and any(d in maps for d in n.args[0].args):
            return mk('map', t.tup(*[t.call(t.ext('keys'), [d]) if d in maps else d
                                     for d in n.args[0].args]), *n.args[1:], val=n.val)
        return n
    return t.map_terms(x, f), t.map_terms(y, f)


def eta(x):
    """lambda *a: f(*a) is f; arguments spelled as *(a, b) are a, b"""
    def f(n):
        if n.op == 'lam':
            b = n.args[0]
            h, k = b.val
            c = b.args[0]
            if c.op == 'call' and not c.val and len(c.args) == k + 1 and all(
                    z.op == 'bvar' and z.val[:2] == (h, i) for i, z in enumerate(c.args[1:])) \
                    and c.args[0].op == 'ext':
                return c.args[0]
        if n.op == 'bind':
            return _renumber(n)
        if n.op == 'call' and n.args[0] is t.ext('functools.partial') and n.val and \
                len(n.args) == 2 + len(n.val) and n.args[1].op == 'ext' and \
                n.args[1].val in UNARY and n.val == ('axis',):
            z = mk('sym', val='<partial>')
            return mk('lam', t.bind([z], t.call(n.args[1], [z, n.args[2]])), val=(1, False))
        if n.op == 'repeat' and n.args[0].op == 'list' and len(n.args[0].args) == 1 and \
                n.args[0].args[0].op != 'star':
            return mk('map', t.tup(t.call(t.ext('range'), [n.args[1]])), t.bind(
                [t.fresh('tmp', 'i')], t.tup(TRUE, n.args[0].args[0])), val='list')
        if n.op in ('call', 'tuple', 'list'):
            return _stars(n)
        return n
    return t.map_terms(x, f)


SAME_SHAPE = {'jax.nn.' + x for x in 'softmax log_softmax relu sigmoid softplus tanh'.split()} | {
    'np:' + x for x in 'exp log log1p expm1 abs sign square sqrt tanh zeros_like ones_like clip floor '
    'ceil negative isnan isfinite'.split()}
ALL = mk('slice', NONE, NONE, NONE)


def _axes(n):
    """x[:, None] and np.expand_dims(x, 1) are the same thing, and so are x[None] and x[None, :]"""
    x, i = n.args[-2:]
    if n.op == 'call':
        if i is t.num(1):
            return mk('col', x)
        return mk('row', x) if i is t.num(0) else n
    if i.op == 'tuple' and len(i.args) == 2 and i.args[0] is ALL and i.args[1] is NONE:
        return mk('col', x)
    if i is NONE or i.op == 'tuple' and i.args and i.args[0] is NONE and all(
            z is ALL for z in i.args[1:]):
        return mk('row', x)
    return n


def _matrix(x):
    """x is known to have two axes, because it is built from columns"""
    return any(z.op == 'col' or _ext(z, 'np:outer') for z in t.walk(x))


def _norow(n):
    """in a sum or product with a column, a row broadcasts like the vector it is made of"""
    parts = n.args if n.op == 'mono' else [y for z in n.args for y in (
        z.args if z.op == 'mono' else (z,))]
    if any(z.op == 'row' for z in parts) and any(z.op == 'col' for z in parts):
        env = {z: z.args[0] for z in parts if z.op == 'row'}
        args = [t.rebuild(z, tuple(env.get(y, y) for y in z.args)) if z.op == 'mono'
                else env.get(z, z) for z in n.args]
        return t.rebuild(n, tuple(args))
    return n


def _scatter(n):
    """x.at[i].add(a).at[j].add(b): the order does not matter, equal indices are added up"""
    f, pos, kws = t.call_parts(n)
    s = f.args[0]
    if s.op != 'sub' or s.args[0].op != 'attr' or s.args[0].val != 'at' or len(pos) != 1:
        return None
    x, d = s.args[0].args[0], {}
    opts = mk('dict', *[z for k in sorted(kws) for z in (t.const(k), kws[k])])
    if x.op == 'scatter' and x.args[1] is opts:
        x, d = x.args[0], dict(zip(x.args[2::2], x.args[3::2]))
    i = s.args[1]
    d[i] = t.add(d[i], pos[0]) if i in d else pos[0]
    return mk('scatter', x, opts, *[z for k in sorted(d, key=lambda z: z.key) for z in (k, d[k])])


STRINGS = {'os.path.' + x for x in 'dirname basename join abspath expanduser normpath'.split()}
UNARY = {'np:expand_dims', 'np:squeeze', 'np:reshape', 'np:stack', 'np:concatenate'}
COUNTS = {'ep', 't', 'T', '_count'}


def _states(n):
    """dict(state) with each of the entries replaced"""
    d = {}
    while n.op == 'setitem' and t.const_str(n.args[1]) is not None:
        d.setdefault(t.const_str(n.args[1]), n.args[2])
        n = n.args[0]
    if set(d) == {'p', 'r', 'v'} and (
            _ext(n, 'dict', 1) or n.op == 'call' and n.args[0].op == 'attr'
            and n.args[0].val == 'copy'):
        return t.dct([(t.const(k), d[k]) for k in sorted(d)])
    return None


def _truth(n):
    """`if n` for a counter n"""
    a, hi, lo = n.args
    x = a.args[0]
    if x.op == 'attr' and x.val in COUNTS:
        return t.ite(t._lt(t.num(0), x), hi, lo)
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].val in STRINGS:
        return t.ite(t.compare('==', x, t.const('')), lo, hi)
    return n


def _lookup(n):
    """d.get(k, v) and d.setdefault(k, v) as choices"""
    if n.op == 'call':
        d, k, v = n.args[0].args[0], n.args[1], n.args[2] if len(n.args) == 3 else NONE
        return t.ite(t.compare('in', k, d), t.subscript(d, k), v)
    d, k, v = n.args
    there = t.compare('in', k, d)
    if n.op == 'res':
        return t.ite(there, t.subscript(d, k), v)
    return t.ite(there, d, mk('setitem', d, k, v))


def _dict_of(m):
    """D when m is {k: v for k, v in D.items()}"""
    if m.op != 'map' or m.val != 'dict' or m.args[0].args or m.args[1].val[1] != 1:
        return None
    b = m.args[1]
    c, kv = b.args[0].args
    if c is not TRUE or kv.op != 'tuple' or len(kv.args) != 2:
        return None
    k, v = kv.args
    if v.op == 'sub' and v.args[1] is k and k.op == 'sub' and _ext(k.args[0], 'keys', 1) and \
            k.args[0].args[1] is v.args[0] and k.args[1].op == 'bvar' and \
            k.args[1].val[0] == b.val[0] and not t.contains(
                v.args[0], lambda z: z.op == 'bvar' and z.val[0] == b.val[0]):
        return v.args[0]
    return None


def _local(n):
    if n.op == 'bind':
        return _renumber(n)
    if _ext(n, 'np:flatnonzero', 1):
        return t.call(t.ext('np:ravel'), [t.call(t.ext('np:argwhere'), [n.args[1]])])
    if n.op == 'gamma' and n.args[0].op == 'atom' and n.args[0].val == '==' and \
            t.num(0) in n.args[0].args:
        z = next((z for z in n.args[0].args if z.op == 'attr' and z.val == 'size'), None)
        if z is not None and _ext(z.args[0], 'np:ravel', 1):
            return t.ite(t._gnode(mk('atom', z.args[0], val='nonempty'), TRUE, FALSE),
                         n.args[2], n.args[1])
    if n.op == 'call' and not n.val and len(n.args) == 2 and n.args[0].op == 'attr' and \
            n.args[0].val == 'format':
        f = t.const_str(n.args[0].args[0]) or ''
        if f[:2] == '{:' and f[-1:] == '}' and not set('{}!') & set(f[2:-1]):
            return mk('fmt', n.args[1], val=(-1, 'f' + repr(f[2:-1])))
    if n.op == 'gamma' and n.args[0].op == 'atom' and n.args[0].val == 'lt0':
        for z in t.walk(n.args[0]):     # a bounded deque never holds more than its bound
            if z.op == 'attr' and z.val == 'maxlen':
                m = t.call(t.ext('len'), [z.args[0]])
                if n.args[0].args[0] is t.sub(m, z):
                    return t.ite(t.compare('==', m, z), n.args[2], n.args[1])
                if n.args[0].args[0] is t.sub(z, m):
                    return n.args[2]
                break
    if n.op == 'comm' and n.val == 'min' and len(n.args) == 2:
        for a, b in (n.args, n.args[::-1]):     # counting up to a limit
            c = t.sub(a, t.num(1))
            if c.op == 'attr' and c.args[0].op == 'sym' and b.op != 'num':
                return t.ite(t._lt(c, b), a, c)
    if n.op == 'sub' and n.args[1].op == 'num' and _ext(n.args[0], 'zip', 1) and \
            n.args[0].args[1].op == 'star':
        z = t.fresh('tmp', 'i')
        return mk('map', t.tup(), t.bind([z], t.tup(TRUE, mk(
            'sub', mk('sub', n.args[0].args[1].args[0], z), n.args[1]))), val='tuple')
    if n.op == 'call' and n.args[0].op == 'ext' and n.args[0].val in (
            'np:array', 'np:asarray', 'np:stack', 'np:concatenate') and len(n.args) > 1 and \
            n.args[1].op == 'map' and n.args[1].val == 'tuple':
        n = t.rebuild(n, (n.args[0], mk('map', *n.args[1].args, val='list')) + n.args[2:])
    if _ext(n, 'np:asarray', 1):
        return n.args[1]
    if n.op == 'star' and n.args[0].op == 'map' and n.args[0].val in ('tuple', 'gen'):
        return mk('star', mk('map', *n.args[0].args, val='list'))
    if n.op == 'setitems':
        d = _dict_of(n.args[1])
        if d is not None:
            return mk('dmerge', n.args[0], d)
    if n.op == 'gamma' and n.args[0].op == 'atom' and n.args[0].val == 'truth':
        return _truth(n)
    if n.op == 'call' and not n.val and n.args[0].op == 'attr' and n.args[0].val == 'get' and \
            len(n.args) in (2, 3) or n.op in ('mut', 'res') and n.val == ('setdefault', ()) and \
            len(n.args) == 3:
        return _lookup(n)
    if n.op == 'sub' and n.args[1] is t.num(0) and (
            n.args[0].op == 'attr' and n.args[0].val == 'shape' or _ext(n.args[0], 'np:shape', 1)):
        return t.call(t.ext('len'), [n.args[0].args[-1]])
    if _ext(n, 'np:log', 1) and n.args[1].op == 'mono' and all(e < 0 for e in n.args[1].val):
        return t.neg(_log(t._from_mono(tuple(
            (a, -e) for a, e in zip(n.args[1].args, n.args[1].val)))))
    if n.op == 'map' and any(_ext(d, 'range', 1) and t._is_len(d.args[1]) for d in n.args[0].args):
        dom = [d.args[1].args[1] if _ext(d, 'range', 1) and t._is_len(d.args[1]) else d
               for d in n.args[0].args]
        return mk('map', t.tup(*dom), *n.args[1:], val=n.val)
    if n.op == 'setitem' and t.const_str(n.args[1]) is not None:
        r = _states(n)
        if r is not None:
            return r
    if n.op == 'sub' or _ext(n, 'np:expand_dims', 2):
        r = _axes(n)
        return _field(n) if r is n and n.op == 'sub' else r
    if n.op == 'attr' and n.val in ('shape', 'ndim') and n.args[0].op == 'call' and \
            n.args[0].args[0].op == 'ext' and n.args[0].args[0].val in SAME_SHAPE:
        return _local(t.attr(n.args[0].args[1], n.val))
    if n.op == 'bin' and n.val == '@' or _ext(n, 'np:matmul', 2):
        return mk('call', t.ext('np:dot'), *n.args[-2:], val=())
    if _ext(n, 'np:outer', 2):
        return t.mul(mk('col', n.args[1]), n.args[2])
    if n.op in ('sum', 'mono'):
        return _norow(n)
    if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].val == 'add':
        r = _scatter(n)
        if r is not None:
            return r
    if n.op == 'call' and not n.val and len(n.args) == 3 and _ext(n.args[0], 'jax.vmap', 1) and \
            n.args[0].args[1] is t.ext('np:add') and _matrix(n.args[1]):
        return t.add(n.args[1], mk('col', n.args[2]))
    if _ext(n, 'np:arange', 2):
        return t.add(n.args[1], t.call(t.ext('np:arange'), [t.sub(n.args[2], n.args[1])]))
    if n.op == 'mut' and n.val == ('extend', ()) and len(n.args) == 2:
        return mk('appended', *n.args)
    if n.op == 'concat' and len(n.args) == 2:
        y = _identity_map(n.args[1])
        if y is not None:
            return mk('appended', n.args[0], y)
    if n.op == 'setitem' and n.args[0].op == 'dict':
        return t.dct(t.dict_items(n.args[0]) + [n.args[1:]])
    if n.op == 'setitem' and n.args[0].op == 'map' and n.args[0].val == 'dict':
        return mk('dmerge', n.args[0], t.dct([n.args[1:]]))
    if n.op == 'setitem' and n.args[0].op == 'dmerge' and n.args[0].args[1].op == 'dict':
        return mk('dmerge', n.args[0].args[0],
                  t.dct(t.dict_items(n.args[0].args[1]) + [n.args[1:]]))
    if n.op == 'mut' and n.val == ('update', ()) and len(n.args) == 2:
        return mk('dmerge', *n.args)
    if n.op == 'dmerge' and n.args[1].op == 'dict' and n.args[0].op == 'dmerge' and \
            n.args[0].args[1].op == 'dict':
        return mk('dmerge', n.args[0].args[0],
                  t.dct(t.dict_items(n.args[0].args[1]) + t.dict_items(n.args[1])))
    if _ext(n, 'np:mean') or _ext(n, 'np:sum'):
        return _linear(n)
    if _ext(n, 'np:abs', 1) and not t.is_seq(n.args[1]) and n.args[1].op not in ('gamma', 'bval'):
        p = sorted(t._to_poly(n.args[1]).items(), key=lambda i: t._from_mono(i[0]).key)
        return n if p[0][1] > 0 else mk('call', n.args[0], t.neg(n.args[1]), val=())
    if _ext(n, 'np:log1p', 1):
        return _log(t.add(t.num(1), n.args[1]))
    if _ext(n, 'jax.nn.softplus', 1):
        return _log(t.add(t.num(1), t.call(t.ext('np:exp'), [n.args[1]])))
    if _ext(n, 'np:log', 1) and _ext(n.args[1], 'jax.nn.softmax'):
        return mk('call', t.ext('jax.nn.log_softmax'), *n.args[1].args[1:], val=())
    if _ext(n, 'np:exp', 1) and _ext(n.args[1], 'jax.nn.log_softmax'):
        return mk('call', t.ext('jax.nn.softmax'), *n.args[1].args[1:], val=())
    if n.op == 'concat' and any(x.op in ('tuple', 'list') for x in n.args):
        k = next(x.op for x in n.args if x.op in ('tuple', 'list'))
        return mk(k, *[z for x in n.args for z in (x.args if x.op == k else (mk('star', x),))])
    if _ext(n, 'np:reshape', 2) and n.args[2].op == 'tuple' and len(n.args[2].args) == 2 and \
            n.args[2].args[0] is t.num(-1) and n.args[2].args[1].op == 'star':
        m = n.args[2].args[1].args[0]
        if m.op == 'map' and m.args[1].args[0] is t.tup(TRUE, t.num(1)):
            return mk('lead', n.args[1])     # broadcast over everything but the first axis
    if n.op == 'call' and not n.val and len(n.args) == 3 and _ext(n.args[0], 'jax.vmap', 1):
        f = n.args[0].args[1]
        if f is t.ext('np:multiply') or f.op == 'lam' and _is_product(f.args[0]):
            return t.mul(mk('lead', n.args[1]), n.args[2])
    if _ext(n, 'np:clip', 2) and n.args[2].op == 'star':
        p = n.args[2].args[0]
        return _bound('np:minimum', _bound('np:maximum', n.args[1], t.subscript(p, t.num(0))),
                      t.subscript(p, t.num(1)))
    if _ext(n, 'np:clip', 3) and NONE not in n.args:
        return _bound('np:minimum', _bound('np:maximum', n.args[1], n.args[2]), n.args[3])
    if n.op == 'call' and n.args[0].op == 'call' and n.args[0].args[0].op == 'ext' and \
            n.args[0].args[0].val == 'jax.value_and_grad':
        f = n.args[0]
        g = mk('call', mk('call', t.ext('jax.grad'), *f.args[1:], val=f.val), *n.args[1:],
               val=n.val)
        if not f.val and len(f.args) == 4 and f.args[3] is TRUE:
            return t.tup(t.tup(mk('gradval', g), t.subscript(g, t.num(1))),
                         t.subscript(g, t.num(0)))
        if not f.val and len(f.args) == 3:
            return t.tup(mk('gradval', g), g)
    if n.op == 'comm':
        return _clip(n)
    ev = _evict(n)
    if ev is not None:
        return t.ite(t._lt(ev[1], t.call(t.ext('len'), [ev[0]])), _keep(*ev), ev[0])
    if n.op == 'mut' and n.val == ('del', ()) and len(n.args) == 2 and n.args[1].op == 'slice':
        lo, hi, st = n.args[1].args
        if lo is NONE and st is NONE:
            return t.subscript(n.args[0], mk('slice', hi, NONE, NONE))
    return n


def _minmax(n):
    """a < b ? a : b"""
    a, hi, lo = n.args
    if a.op == 'atom' and a.val == 'lt0' and hi.op != 'gamma' and lo.op != 'gamma' and not (
            t.is_seq(hi) or t.is_seq(lo)):
        d = a.args[0]
        for r, name in ((t.sub(hi, lo), 'min'), (t.sub(lo, hi), 'max')):
            k = t.sub(d, r)
            if k is t.num(0) or k is t.num(-1) and t._is_intpoly(
                    {m: c for m, c in t._to_poly(d).items() if m}):
                return mk('comm', *sorted({hi, lo}, key=lambda z: z.key), val=name)
    return n


def _under(n, facts):
    """slices and evictions where it is known which of the length and the limit is larger"""
    def f(x):
        if x.op == 'sub' and x.args[1].op == 'slice':
            lo, hi, st = x.args[1].args
            if hi is NONE and st is NONE and lo is not NONE:
                ln = t.call(t.ext('len'), [x.args[0]])
                for c in (t.neg(lo), t.sub(ln, lo)):
                    if over(x.args[0], c) is True:
                        return _keep(x.args[0], c)
        return x

    def over(c, limit):
        d = t._lt(limit, t.call(t.ext('len'), [c]))
        if d.op == 'gamma' and d.args[0] in facts:
            return facts[d.args[0]] == (d.args[1] is TRUE)
        return None
    return t.map_terms(n, f)


def normal(x, lens=(), scalars=(), fixed=()):
    def sized(n):
        # an index into a sequence of known length is below that length
        if n.op == 'map' and n.args[0].args:
            body = n.args[1]
            keep = []
            for d in n.args[0].args:
                drop = False
                for s, k in lens:
                    if _ext(d, 'range', 1) and d.args[1] is k and t.contains(
                            body, lambda z: z.op == 'sub' and z.args[0] is s
                            and z.args[1].op == 'bvar' and z.args[1].val[:2] == (body.val[0], 0)):
                        drop = True
                if not drop:
                    keep.append(d)
            if len(keep) < len(n.args[0].args):
                return mk('map', t.tup(*keep), *n.args[1:], val=n.val)
        return n
    if fixed:
        env = {t.sym('init:' + a): t.attr(t.sym('self'), a) for a in fixed}
        x = t.map_terms(x, lambda n: env.get(n, n))
    if scalars:
        x = t.map_terms(x, lambda n: _pull(n, scalars) if n.op == 'rowsum' or
                        _ext(n, 'np:mean') or _ext(n, 'np:sum') else n)
    if lens:
        x = t.map_terms(x, sized)
    x = t.map_terms(x, _local)
    if t.contains(x, lambda n: n.op == 'gamma' and n.args[0].val == 'lt0'):
        x = t.map_terms(x, lambda n: _minmax(n) if n.op == 'gamma' else n)
    if t.contains(x, lambda n: n.op == 'keeplast' or n.op == 'slice'):
        x = _gammas(x)
    return x


def _gammas(x):
    memo = {}

    def rec(n, facts):
        if n.op != 'gamma':
            return _under(n, dict(facts))
        k = (n.key, facts)
        if k not in memo:
            a, hi, lo = n.args
            if a.val == 'lt0':
                memo[k] = t._gnode(a, rec(hi, facts + ((a, True),)), rec(lo, facts + ((a, False),)))
            else:
                memo[k] = t._gnode(a, rec(hi, facts), rec(lo, facts))
        return memo[k]
    return rec(x, ())


CASES = ('min', 'max', 'np:minimum', 'np:maximum')


def minmax_by_cases(x, y):
    """min(a, b) as a choice, decided by the comparison that the other side makes"""
    atoms = {n for z in (x, y) for n in t.walk(z) if n.op == 'atom' and n.val == 'lt0'}

    def f(n):
        if n.op == 'comm' and n.val in CASES and len(n.args) == 2:
            for a, b in (n.args, n.args[::-1]):
                for c in (t._lt(a, b), t.b_not(t._lt(b, a))):
                    if c.op == 'gamma' and c.args[0] in atoms:
                        return t.ite(c, a, b) if n.val in ('min', 'np:minimum') else t.ite(c, b, a)
        return n
    if any(n.op == 'comm' and n.val in CASES for z in (x, y) for n in t.walk(z)):
        return (t.map_terms(t.map_terms(z, f), _local) for z in (x, y))
    return x, y


def present(x):
    """what every regularizer has: it is absent only where there is no regularizer"""
    def f(n):
        if n.op != 'gamma' or n.args[0].op != 'atom' or not n.args[0].val.startswith('hasattr:'):
            return n
        a, name = n.args[0].args[0], n.args[0].val[8:]
        if a.op == 'attr' and a.val == 'f' and name in ('params', 'function_state'):
            a, name = a.args[0], 'f'
        if a.op == 'attr' and a.val.lstrip('_') in ('policy_regularizer', 'regularizer') and \
                name in ('f', 'hyperparams'):
            return t.ite(t.compare('is', NONE, a), n.args[2], n.args[1])
        return n
    if not t.contains(x, lambda n: n.op == 'atom' and n.val.startswith('hasattr:')):
        return x
    return t.map_terms(x, f)
