"""Hash-consed value-graph terms with algebraic normalisation (a GVN term domain).

A term is an immutable DAG node.  ``mk`` interns by content digest, so two terms are
congruent iff they are the same object.  Smart constructors normalise:

* arithmetic (+ - * / ** by constants) to canonical polynomials with rational coefficients,
* boolean structure and conditionals to reduced ordered decision diagrams (``gamma`` nodes),
  with conditionals lifted out of pure operators,
* comparisons to one orientation,
* projections of known tuples / lists / dicts.

Nothing here executes analysed code; nothing calls a solver.
"""
from fractions import Fraction
import hashlib

_TAB = {}


class T:
    __slots__ = ('op', 'args', 'val', 'key', '_gam', '_has', '_ht')

    def __repr__(self):
        return show(self)


def mk(op, *args, val=None):
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    h.update(repr(val).encode())
    for a in args:
        h.update(a.key.encode())
    k = h.hexdigest()
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.key = op, tuple(args), val, k
        t._gam = t._has = t._ht = None
        _TAB[k] = t
    return t


# --------------------------------------------------------------------------- leaves
def num(x):
    if isinstance(x, bool):
        return const(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('const', val=('float', repr(x)))
        x = Fraction(repr(x))
    return mk('num', val=Fraction(x))


def const(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return num(v)
    return mk('const', val=(type(v).__name__, repr(v)))


TRUE, FALSE, NONE = const(True), const(False), const(None)
ELLIPSIS = const(Ellipsis)
ZERO, ONE = num(0), num(1)


def sym(name):
    return mk('sym', val=name)


def ext(name):
    return mk('ext', val=name)


_uid = [0]


def fresh(op='tmp', hint=''):
    _uid[0] += 1
    return mk(op, val=(_uid[0], hint))


def opaque(reason):
    _uid[0] += 1
    return mk('opaque', val=(_uid[0], reason))


def is_const(t):
    return t.op in ('const', 'num')


def ground(x):
    """a literal value; two different ones are unequal"""
    return x.op in ('const', 'num') or x.op == 'tuple' and all(ground(y) for y in x.args)


def pyval(t):
    """python value of a constant term, or raise KeyError"""
    if t.op == 'num':
        f = t.val
        return int(f) if f.denominator == 1 else float(f)
    if t.op == 'const':
        ty, r = t.val
        if ty == 'str':
            import ast
            return ast.literal_eval(r)
        if ty == 'bool':
            return r == 'True'
        if ty == 'NoneType':
            return None
        if ty == 'ellipsis':
            return Ellipsis
        if ty == 'bytes':
            import ast
            return ast.literal_eval(r)
        if ty == 'float':
            return float(r)
    raise KeyError(t.op)


def const_str(t):
    if t.op == 'const' and t.val[0] == 'str':
        return pyval(t)
    return None


# --------------------------------------------------------------------------- gamma (MTBDD)
MAX_GAMMA_ATOMS = 10


def gamma_atoms(t):
    if t.op != 'gamma':
        return frozenset()
    if t._gam is None:
        t._gam = frozenset([t.args[0]]) | gamma_atoms(t.args[1]) | gamma_atoms(t.args[2])
    return t._gam


def _gnode(atom, a, b):
    if a is b:
        return a
    return mk('gamma', atom, a, b)


def _top(ts):
    best = None
    for t in ts:
        if t.op == 'gamma':
            a = t.args[0]
            if best is None or a.key < best.key:
                best = a
    return best


def _cof(t, atom, pol):
    if t.op == 'gamma' and t.args[0] is atom:
        return t.args[1] if pol else t.args[2]
    return t


def apply_gamma(f, ts):
    """apply pure constructor f pointwise over the decision diagrams ts"""
    cache = {}

    def rec(xs):
        k = tuple(x.key for x in xs)
        r = cache.get(k)
        if r is not None:
            return r
        a = _top(xs)
        if a is None:
            r = f(*xs)
        else:
            hi = rec(tuple(_cof(x, a, True) for x in xs))
            lo = rec(tuple(_cof(x, a, False) for x in xs))
            r = ite(a, hi, lo) if (hi.op == 'gamma' or lo.op == 'gamma') else _gnode(a, hi, lo)
        cache[k] = r
        return r
    return rec(tuple(ts))


BOT = mk('bot')


def ite(c, a, b):
    """if-then-else over arbitrary boolean diagram c (atoms or gamma over TRUE/FALSE)"""
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op != 'gamma':
        c = mk('gamma', c, TRUE, FALSE) if is_atom(c) else mk('gamma', truth_atom(c), TRUE, FALSE)
    cache = {}

    def rec(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        k = (c.key, a.key, b.key)
        r = cache.get(k)
        if r is not None:
            return r
        top = _top((c, a, b))
        hi = rec(_cof(c, top, True), _cof(a, top, True), _cof(b, top, True))
        lo = rec(_cof(c, top, False), _cof(a, top, False), _cof(b, top, False))
        r = _gnode(top, hi, lo)
        cache[k] = r
        return r
    return rec(c, a, b)


ATOM_OPS = ('atom',)


def is_atom(t):
    return t.op == 'atom'


def truth_atom(t):
    return mk('atom', t, val='truth')


def cond(t):
    """boolean diagram for truthiness of value t"""
    if t in (TRUE, FALSE):
        return t
    if t.op == 'gamma':
        return apply_gamma(cond, (t,))
    if t is NONE:
        return FALSE
    if is_const(t):
        return const(bool(pyval(t)))
    if t.op in ('tuple', 'list', 'dict', 'set') and not any(
            a.op == 'star' for a in t.args):
        return const(bool(t.args))
    if t.op in ('lam', 'clo', 'obj', 'cls', 'bound'):
        return TRUE
    if t.op == 'bval':
        return t.args[0]
    if is_atom(t):
        return _gnode(t, TRUE, FALSE)
    if t.op == 'call' and t.args[0].op == 'ext':
        n = t.args[0].val
        if n in ('bool', 'jax.numpy.asarray') and len(t.args) == 2 and not t.val:
            return cond(t.args[1])
        if n == 'len' and len(t.args) == 2:
            return _gnode(mk('atom', t.args[1], val='nonempty'), TRUE, FALSE)
    if t.op in ('attr', 'sym') and always_true(t.val):
        return b_not(compare('is', NONE, t))
    return _gnode(truth_atom(t), TRUE, FALSE)


# arguments and attributes whose values are true unless they are None
TRUTHY = {'observation_preprocessor', 'action_preprocessor', 'observation_postprocessor',
          'proba_dist', 'value_transform', 'optimizer', 'loss_function', 'policy_regularizer',
          'regularizer', 'q_targ', 'pi_targ', 'v_targ', 'q', 'v', 'pi', 'env', 'func'}


def always_true(name):
    return isinstance(name, str) and (
        name[5:] if name.startswith('init:') else name).lstrip('_') in TRUTHY


def b_not(c):
    c = cond(c)
    return ite(c, FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, cond(c), FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, cond(c))
    return r


MASK_ATOMS = ('==', 'lt0', '<')


def bval(t):
    """use of a comparison as a value (possibly an elementwise array mask): the comparison is
    not a control decision.  Control atoms are expanded first, masks become leaves."""
    if t.op != 'gamma' or not any(a.val in MASK_ATOMS for a in gamma_atoms(t)):
        return t
    ctl = [a for a in gamma_atoms(t) if a.val not in MASK_ATOMS]
    cache = {}

    def leaves(x):
        todo, out = [x], []
        while todo:
            y = todo.pop()
            if y.op == 'gamma':
                todo += y.args[1:]
            else:
                out.append(y)
        return out

    def rec(x):
        if x.op != 'gamma':
            return x
        r = cache.get(x.key)
        if r is None:
            c = [a for a in gamma_atoms(x) if a.val not in MASK_ATOMS]
            if not c:
                r = mk('bval', x) if all(y is TRUE or y is FALSE for y in leaves(x)) else x
            else:
                a = min(c, key=lambda z: z.key)
                r = ite(a, rec(cofdeep(x, a, True)), rec(cofdeep(x, a, False)))
            cache[x.key] = r
        return r
    return rec(t)


def cofdeep(t, atom, pol):
    """cofactor of a diagram with respect to an atom anywhere in it"""
    if t.op != 'gamma' or atom not in gamma_atoms(t):
        return t
    if t.args[0] is atom:
        return t.args[1] if pol else t.args[2]
    return ite(t.args[0], cofdeep(t.args[1], atom, pol), cofdeep(t.args[2], atom, pol))


def lift(f, *ts):
    """build a pure node lifting gammas out of the args (bounded)"""
    if not any(t.op == 'gamma' for t in ts):
        return f(*ts)
    ts = tuple(bval(t) for t in ts)
    atoms = set()
    for t in ts:
        atoms |= gamma_atoms(t)
    if len(atoms) > MAX_GAMMA_ATOMS:
        return f(*ts)
    return apply_gamma(f, ts)


# --------------------------------------------------------------------------- polynomials
# poly repr: dict {mono: coef}; mono = tuple of (atom, Fraction exp) sorted by atom key
def _to_poly(t):
    if t.op == 'num':
        return {(): t.val} if t.val != 0 else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == 'sum':
        out = {}
        for m, c in zip(t.args, t.val):
            out[_mono(m)] = c
        return out
    return {_mono(t): Fraction(1)}


def _mono(t):
    if t.op == 'num':
        return ()
    if t.op == 'mono':
        return tuple(zip(t.args, t.val))
    return ((t, Fraction(1)),)


def _from_mono(m):
    if not m:
        return ONE
    if len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    return mk('mono', *[a for a, _ in m], val=tuple(e for _, e in m))


def _from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return mk('num', val=c)
        if c == 1:
            return _from_mono(m)
    items = [(_from_mono(m), c) for m, c in p.items()]
    items.sort(key=lambda x: x[0].key)
    return mk('sum', *[m for m, _ in items], val=tuple(c for _, c in items))


def _padd(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + s * c
        if out[m] == 0:
            del out[m]
    return out


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].key))


def _pmul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
            if out[m] == 0:
                del out[m]
    # exp(a)*exp(b) merging is handled in _mono_post
    return out


SEQ_OPS = ('list', 'tuple', 'concat', 'map', 'fstr', 'repeat')


def is_seq(t):
    return t.op in SEQ_OPS or (t.op == 'const' and t.val[0] in ('str', 'bytes')) or is_text(t)


def is_text(t):
    """a call that makes a string"""
    return t.op == 'call' and (
        t.args[0].op == 'ext' and t.args[0].val in ('str', 'repr', 'str.join', 'format') or
        t.args[0].op == 'attr' and t.args[0].val in ('format', 'join')
        and const_str(t.args[0].args[0]) is not None)


def _add(a, b):
    if is_seq(a) or is_seq(b):
        return _concat(a, b)
    return _from_poly(_padd(_to_poly(a), _to_poly(b)))


def _concat(a, b):
    if const_str(a) is not None or const_str(b) is not None or 'fstr' in (a.op, b.op) or \
            is_text(a) or is_text(b):
        return fstr([a, b])
    if a.op == b.op and a.op in ('list', 'tuple'):
        return mk(a.op, *(a.args + b.args))
    if a.op in ('list', 'tuple') and not a.args:
        return b
    if b.op in ('list', 'tuple') and not b.args:
        return a
    ml = deque_maxlen(a)
    if ml is not None and b.op == 'map' and b.val == 'list' and len(b.args[0].args) == 1 \
            and b.args[0].args[0] is mk('call', ext('range'), ml, val=()) \
            and b.args[1].args[0].args[0] is TRUE:
        return mk('call', ext('deque'), b, ml, val=())      # all older elements drop out
    parts = (a.args if a.op == 'concat' else (a,)) + (b.args if b.op == 'concat' else (b,))
    return mk('concat', *parts)


MAXLEN = {}     # bounds of the deques that the constructor of the analysed class makes


def deque_maxlen(c):
    """the bound of a (since changed) collections.deque, None if c is not one"""
    while c.op in ('concat', 'mut', 'setitem'):
        c = c.args[0]
    if c.op == 'call' and c.args[0] is ext('deque') and len(c.args) == 3:
        return c.args[2]
    if c in MAXLEN:
        return MAXLEN[c]
    if c.op == 'attr':
        return mk('attr', c, val='maxlen')      # only ever compared with the range of an extension
    return None


def _sub(a, b):
    return _from_poly(_padd(_to_poly(a), _to_poly(b), -1))


def _mul(a, b):
    if a.op in ('list', 'tuple') or b.op in ('list', 'tuple') or const_str(a) is not None:
        x, y = (a, b) if (a.op in ('list', 'tuple') or const_str(a) is not None) else (b, a)
        if y.op == 'num' and y.val.denominator == 1 and x.op in ('list', 'tuple') \
                and 0 <= y.val <= 16:
            return mk(x.op, *(x.args * int(y.val)))
        return mk('repeat', x, y)
    pa, pb = _to_poly(a), _to_poly(b)
    if len(pa) * len(pb) > 80:
        return _from_poly({_mmul(((a, Fraction(1)),), ((b, Fraction(1)),)): Fraction(1)})
    return _from_poly(_pmul(pa, pb))


def _powc(a, e):
    """a ** Fraction e"""
    if e == 0:
        return ONE
    if e == 1:
        return a
    p = _to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1 or (c == 1 and len(m) == 1 and False):
            cc = Fraction(c) ** int(e)
            return _from_poly({tuple((x, k * e) for x, k in m): cc})
        return _from_poly({((a, e),): Fraction(1)})
    if not p:
        return mk('mono', ZERO, val=(e,))
    if e.denominator == 1 and 0 < e <= 4 and len(p) <= 6:
        r = a
        for _ in range(int(e) - 1):
            r = _mul(r, a)
        return r
    # factor content
    if e.denominator == 1:
        items = sorted(p.items(), key=lambda x: _from_mono(x[0]).key)
        c0 = items[0][1]
        prim = _from_poly({m: c / c0 for m, c in p.items()})
        return _from_poly({((prim, e),): Fraction(c0) ** int(e)})
    return _from_poly({((a, e),): Fraction(1)})


def _div(a, b):
    if b.op == 'num' and b.val == 0:
        return mk('div0', a)
    return _mul(a, _powc(b, Fraction(-1)))


def _pow(a, b):
    if b.op == 'num' and abs(b.val) <= 4:
        return _powc(a, b.val)
    if a.op == 'num' and b.op == 'num':
        return mk('pow', a, b)
    return mk('pow', a, b)


def add(a, b):
    return lift(_add, a, b)


def sub(a, b):
    return lift(_sub, a, b)


def mul(a, b):
    return lift(_mul, a, b)


def div(a, b):
    return lift(_div, a, b)


def power(a, b):
    return lift(_pow, a, b)


def neg(a):
    return mul(num(-1), a)


def _binop(op):
    def f(a, b):
        if a.op == 'num' and b.op == 'num':
            x, y = a.val, b.val
            if op == '//' and y != 0:
                return num(x // y)
            if op == '%' and y != 0:
                return num(x % y)
        if op == '%' and const_str(a) is not None:
            return mk('strfmt', a, b)
        return mk('bin', a, b, val=op)
    return f


def binop(op, a, b):
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    if op == '/':
        return div(a, b)
    if op == '**':
        return power(a, b)
    if op == '<<':
        return mul(a, power(num(2), b))
    if op in ('&', '|', '^'):
        return lift(lambda x, y: _bitop(op, x, y), a, b)
    return lift(_binop(op), a, b)


def _bitop(op, x, y):
    # elementwise boolean algebra on arrays / sets: commutative
    if y.key < x.key:
        x, y = y, x
    return mk('bin', x, y, val=op)


# --------------------------------------------------------------------------- comparisons
def _cmp(op):
    def f(a, b):
        if op in ('==', '!='):
            if is_const(a) and is_const(b) and not _nanlike(a) and not _nanlike(b):
                r = (a is b) or (_pyeq(a, b))
                return const(r if op == '==' else not r)
            if a.op == 'set' and b.op == 'set' and all(const_str(x) is not None
                                                       for x in a.args + b.args):
                return const((a is b) == (op == '=='))
            for x, y in ((a, b), (b, a)):
                if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].val == 'len' \
                        and y.op == 'num' and len(x.args) == 2:
                    if y.val == 0:
                        at = _gnode(mk('atom', x.args[1], val='nonempty'), TRUE, FALSE)
                        return b_not(at) if op == '==' else at
            if b.key < a.key:
                a, b = b, a
            at = mk('atom', a, b, val='==')
            r = _gnode(at, TRUE, FALSE)
            return r if op == '==' else b_not(r)
        if op in ('is', 'is not'):
            r = None
            if a is b:
                r = TRUE
            elif is_const(a) and is_const(b):
                r = FALSE
            elif NONE in (a, b):
                o = b if a is NONE else a
                if o.op in ('tuple', 'list', 'dict', 'lam', 'clo', 'obj', 'num', 'sum', 'mono',
                            'map', 'cls', 'fstr', 'bound', 'set') or is_const(o):
                    r = FALSE
                elif o.op == 'call' and o.args[0].op == 'ext' and _never_none(o.args[0].val):
                    r = FALSE
            if r is None:
                if b.key < a.key:
                    a, b = b, a
                r = _gnode(mk('atom', a, b, val='is'), TRUE, FALSE)
            return r if op == 'is' else b_not(r)
        if op in ('in', 'not in'):
            if b.op in ('tuple', 'list', 'set') and is_const(a) and all(
                    is_const(x) for x in b.args):
                r = const(any(_pyeq(a, x) for x in b.args))
            elif const_str(a) is not None and const_str(b) is not None:
                r = const(const_str(a) in const_str(b))
            elif b.op == 'dict' and is_const(a) and all(is_const(x) for x in b.args[::2]):
                r = const(any(_pyeq(a, x) for x in b.args[::2]))
            else:
                if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].val == 'keys' \
                        and len(b.args) == 1:
                    b = b.args[0].args[0]
                if b.op in ('list', 'tuple', 'set') and 0 < len(b.args) <= 4 and all(
                        ground(x) for x in b.args):
                    r = FALSE
                    for x in b.args:
                        r = b_or(r, compare('==', a, x))
                    return r if op == 'in' else b_not(r)
                if b.op in ('list', 'tuple', 'set'):
                    b = mk('set', *sorted(b.args, key=lambda x: x.key))
                r = _gnode(mk('atom', a, b, val='in'), TRUE, FALSE)
            return r if op == 'in' else b_not(r)
        # orderings: a < b  <=>  a - b < 0
        if op in ('>', '>='):
            a, b = b, a
            op2 = '<' if op == '>' else '<='
        else:
            op2 = op
        if op2 == '<=':
            # a <= b  <=> not (b < a)
            return b_not(_lt(b, a))
        return _lt(a, b)
    return f


def _never_none(n):
    root = n.split('.')[0]
    if n in ('len', 'float', 'int', 'bool', 'str', 'list', 'tuple', 'dict', 'sum', 'min', 'max'):
        return n not in ('min', 'max')
    return root in ('jax', 'numpy', 'haiku', 'optax') and not n.endswith('tree_map')


def _nanlike(t):
    return t.op == 'const' and t.val[0] == 'float'


def _pyeq(a, b):
    if a is b:
        return True
    try:
        return pyval(a) == pyval(b)
    except KeyError:
        return False


def _lt(a, b):
    """boolean diagram of a < b"""
    if a.op == 'num' and b.op == 'num':
        return const(a.val < b.val)
    d = _sub(a, b) if not (is_seq(a) or is_seq(b)) else None
    if d is None:
        return _gnode(mk('atom', a, b, val='<'), TRUE, FALSE)
    if d.op == 'num':
        return const(d.val < 0)
    p = _to_poly(d)
    items = sorted(p.items(), key=lambda x: _from_mono(x[0]).key)
    lead = next((c for m, c in items if m), None)
    scale = abs(lead)
    d = _from_poly({m: c / scale for m, c in p.items()})
    p = _to_poly(d)
    nonconst = {m: c for m, c in p.items() if m}
    k = p.get((), Fraction(0))
    if _is_intpoly(nonconst):
        # integer valued: d < 0 with integer k ; normalise strictness
        # nonneg single len(): len(x) > 0 -> nonempty
        if len(nonconst) == 1:
            (m, c), = nonconst.items()
            a0 = m[0][0]
            if len(m) == 1 and m[0][1] == 1 and _is_len(a0):
                if c == -1 and k == 0:      # -len < 0
                    return _gnode(mk('atom', a0.args[1], val='nonempty'), TRUE, FALSE)
                if c == 1 and k == -1:      # len - 1 < 0
                    return b_not(_gnode(mk('atom', a0.args[1], val='nonempty'), TRUE, FALSE))
                if c == 1 and k >= 0:
                    return FALSE
        # canonical orientation: leading coefficient positive
        if lead < 0:
            # -x + k < 0  <=> x - k > 0 <=> not (x - k <= 0) <=> not(x - k - 1 < 0) for ints
            q = {m: -c for m, c in p.items()}
            q[()] = q.get((), Fraction(0)) - 1
            d2 = _from_poly(q)
            if d2.op == 'num':
                return b_not(const(d2.val < 0))
            return b_not(_gnode(mk('atom', d2, val='lt0'), TRUE, FALSE))
    return _gnode(mk('atom', d, val='lt0'), TRUE, FALSE)


def _is_len(t):
    return t.op == 'call' and t.args[0].op == 'ext' and t.args[0].val == 'len' \
        and len(t.args) == 2


INT_HINT = set()   # term keys known to be integer valued


def _is_intatom(t):
    if _is_len(t) or t.key in INT_HINT:
        return True
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].val == 'int':
        return True
    if t.op in ('idx', 'bvar') and t.val and t.val[-1] == 'i':
        return True
    if t.op == 'tmp' and t.val[1] == 'i':
        return True
    return False


def _is_intpoly(nonconst):
    for m, c in nonconst.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or e.denominator != 1 or not _is_intatom(a):
                return False
    return True


def compare(op, a, b):
    return lift(_cmp(op), a, b)


# --------------------------------------------------------------------------- structure
def fstr(parts):
    out = []
    for p in parts:
        if p.op == 'call' and p.args[0].op == 'ext' and p.args[0].val == 'str' and \
                len(p.args) == 2:
            p = p.args[1]
        ps = p.args if p.op == 'fstr' else (p,)
        for q in ps:
            s = const_str(q)
            if s is not None and out and const_str(out[-1]) is not None:
                out[-1] = const(const_str(out[-1]) + s)
            elif s == '':
                continue
            else:
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and const_str(out[0]) is not None:
        return out[0]
    return mk('fstr', *out)


def tup(*xs):
    return mk('tuple', *xs)


def lst(*xs):
    return mk('list', *xs)


def dct(pairs):
    """pairs of (k, v): later wins; sorted when all keys are constant"""
    d = {}
    for k, v in pairs:
        d[k] = v
    if all(is_const(k) for k in d) or _distinct_strings(list(d)):
        items = sorted(d.items(), key=lambda kv: kv[0].key)
    else:
        items = list(d.items())
    flat = []
    for k, v in items:
        flat += [k, v]
    return mk('dict', *flat)


def _distinct_strings(ks):
    """strings that start alike and end differently"""
    if not all(k.op == 'fstr' and len(k.args) > 1 for k in ks):
        return False
    return all(k.args[:-1] == ks[0].args[:-1] and const_str(k.args[-1]) is not None for k in ks)


def dict_items(t):
    return list(zip(t.args[::2], t.args[1::2]))


def _subscript(b, i):
    if b.op in ('tuple', 'list') and i.op == 'num' and i.val.denominator == 1:
        n = int(i.val)
        stars = [k for k, a in enumerate(b.args) if a.op == 'star']
        if not stars:
            if -len(b.args) <= n < len(b.args):
                return b.args[n]
        elif 0 <= n < stars[0]:
            return b.args[n]
    if b.op in ('tuple', 'list') and i.op == 'slice' and not any(
            a.op == 'star' for a in b.args):
        try:
            s = slice(*[pyval(x) for x in i.args])
            return mk(b.op, *b.args[s])
        except (KeyError, TypeError, ValueError):
            pass
    if b.op == 'dict' and is_const(i):
        for k, v in reversed(dict_items(b)):
            if k.op == 'dstar' or not is_const(k):
                break
            if k is i or _pyeq(k, i):
                return v
    if b.op == 'setitem' and is_const(i) and is_const(b.args[1]):
        if b.args[1] is i or _pyeq(b.args[1], i):
            return b.args[2]
        if b.args[0].op in ('dict', 'setitem') or const_str(i) is not None:
            return _subscript(b.args[0], i)
    if b.op == 'setitem' and b.args[1] is i:
        return b.args[2]
    if b.op == 'map' and b.val == 'dict' and i.op == 'sub' and b.args[1].val[1] == 1:
        ok, kv = b.args[1].args[0].args
        k = kv.args[0]
        if ok is TRUE and k.op == 'sub' and k.args[0] is i.args[0] and k.args[1].op == 'bvar' and \
                k.args[1].val[:2] == (b.args[1].val[0], 0):
            return unbind(b.args[1], [i.args[1]]).args[1].args[1]
    if b.op == 'sub' and b.args[1].op == 'slice' and i.op == 'num' and i.val >= 0 \
            and i.val.denominator == 1:
        lo, hi, st = b.args[1].args
        if st is NONE and (lo is NONE or lo.op == 'num' and lo.val >= 0) and (
                hi is NONE or hi.op == 'num'
                and i.val + (lo.val if lo is not NONE else 0) < hi.val):
            return _subscript(b.args[0], num(i.val + (lo.val if lo is not NONE else 0)))
    return mk('sub', b, i)


def _leaves(x):
    seen, out, todo = set(), [], [x]
    while todo:
        y = todo.pop()
        if y.op != 'gamma':
            out.append(y)
        elif y not in seen:
            seen.add(y)
            todo += y.args[1:]
    return out


def subscript(b, i):
    if i.op == 'tuple' and any(x.op == 'gamma' for x in i.args):
        return lift(lambda b_, *xs: _subscript(b_, tup(*xs)), b, *i.args)
    if b.op == 'gamma' and i.op == 'num' and all(
            x.op == 'tuple' for x in _leaves(b)):
        return apply_gamma(lambda x: _subscript(x, i), (b,))
    return lift(_subscript, b, i)


def attr(b, name):
    return lift(lambda x: mk('attr', x, val=name), b)


def call(f, args=(), kw=()):
    """uninterpreted pure call. kw: iterable of (name, term), name None for **"""
    kw = sorted(kw, key=lambda x: (x[0] or '', x[1].key))
    names = tuple(k for k, _ in kw)
    npos = len(args)
    ts = (f,) + tuple(args) + tuple(v for _, v in kw)
    return lift(lambda *xs: mk('call', *xs, val=names), *ts)


def call_parts(t):
    """(f, pos args, {kw})"""
    k = len(t.val)
    pos = t.args[1:len(t.args) - k] if k else t.args[1:]
    kws = dict(zip(t.val, t.args[len(t.args) - k:])) if k else {}
    return t.args[0], pos, kws


# --------------------------------------------------------------------------- traversal
def rebuild(t, args):
    """rebuild node t with new args through the smart constructors"""
    if args == t.args:
        return t
    op = t.op
    if op == 'sum':
        r = ZERO
        for a, c in zip(args, t.val):
            r = add(r, mul(mk('num', val=c), a))
        return r
    if op == 'mono':
        r = ONE
        for a, e in zip(args, t.val):
            r = mul(r, lift(lambda x: _powc(x, e), a))
        return r
    if op == 'gamma':
        return ite(cond(args[0]), args[1], args[2])
    if op == 'atom':
        v = t.val
        if v == 'truth':
            return cond(args[0])
        if v == 'nonempty':
            x = args[0]
            if x.op in ('list', 'tuple', 'dict', 'set') and not any(
                    a.op == 'star' for a in x.args):
                return const(bool(x.args))
            return lift(lambda y: _gnode(mk('atom', y, val='nonempty'), TRUE, FALSE), x)
        if v == 'lt0':
            return lift(lambda x: _lt(x, ZERO), args[0])
        if v in ('==', 'is', 'in', '<'):
            return compare(v, *args)
        return lift(lambda *xs: _gnode(mk('atom', *xs, val=v), TRUE, FALSE), *args)
    if op == 'bval':
        return bval(args[0])
    if op == 'pow':
        return power(*args)
    if op == 'bin':
        return binop(t.val, *args)
    if op == 'concat':
        r = args[0]
        for a in args[1:]:
            r = lift(_concat, r, a)
        return r
    if op == 'repeat':
        return mul(*args)
    if op == 'fstr':
        return fstr(list(args))
    if op == 'dict':
        return dct(list(zip(args[::2], args[1::2])))
    if op == 'sub':
        return subscript(*args)
    if op == 'set':
        return mk('set', *sorted(args, key=lambda x: x.key))
    if op in ('attr', 'call', 'res', 'mut', 'setitem', 'comm', 'slice'):
        if op == 'comm':
            return lift(lambda *xs: mk('comm', *sorted(xs, key=lambda x: x.key), val=t.val), *args)
        return lift(lambda *xs: mk(op, *xs, val=t.val), *args)
    return mk(op, *args, val=t.val)


def subst(t, env, cache=None):
    """env: {T: T}; capture is impossible because binders use unique temporaries"""
    if cache is None:
        cache = {}

    def rec(x):
        if x in env:
            return env[x]
        if not x.args:
            return x
        r = cache.get(x.key)
        if r is None:
            args = tuple(rec(a) for a in x.args)
            r = x if args == x.args else rebuild(x, args)
            cache[x.key] = r
        return r
    return rec(t)


def map_terms(t, f):
    """bottom-up rewriting with rebuild; f(node)->node"""
    cache = {}

    def rec(x):
        r = cache.get(x.key)
        if r is None:
            args = tuple(rec(a) for a in x.args)
            y = x if args == x.args else rebuild(x, args)
            r = f(y)
            cache[x.key] = r
        return r
    return rec(t)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.key in seen:
            continue
        seen.add(x.key)
        yield x
        stack.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, leaf):
    return any(x is leaf for x in walk(t))


def height(t):
    """max binder height inside t"""
    if t._ht is None:
        h = 0
        for a in t.args:
            h = max(h, height(a))
        if t.op == 'bind':
            h = max(h, t.val[0])
        t._ht = h
    return t._ht


def bind(tmps, body):
    """close body over temporaries tmps: canonical binder (named by height)"""
    h = height(body) + 1
    env = {}
    for i, x in enumerate(tmps):
        hint = x.val[1] if isinstance(x.val, tuple) and x.val[1] == 'i' else ''
        env[x] = mk('bvar', val=(h, i, hint))
    return mk('bind', subst(body, env), val=(h, len(tmps)))


def unbind(b, terms):
    """instantiate binder with terms"""
    h, n = b.val
    env = {}
    for x in walk(b.args[0]):
        if x.op == 'bvar' and x.val[0] == h and x.val[1] < len(terms):
            env[x] = terms[x.val[1]]
    return subst(b.args[0], env)


def restrict(t, assume):
    """assume: {atom T: bool}; restrict decision diagrams everywhere"""
    if not assume:
        return t

    def f(x):
        if x.op == 'gamma' and x.args[0] in assume:
            return x.args[1] if assume[x.args[0]] else x.args[2]
        return x
    return map_terms(t, f)


def care(x, c):
    """x simplified where the condition c holds; its value elsewhere does not matter"""
    cache = {}

    def rec(c, x):
        if c is TRUE or c is FALSE:
            return x if c is TRUE else None
        k = (c.key, x.key)
        if k not in cache:
            top = _top((c, x))
            hi = rec(_cof(c, top, True), _cof(x, top, True))
            lo = rec(_cof(c, top, False), _cof(x, top, False))
            cache[k] = lo if hi is None else hi if lo is None else _gnode(top, hi, lo)
        return cache[k]
    r = rec(c, x)
    return x if r is None else r


def exclusive(x):
    """drop the combinations that cannot occur: a value equal to two different literals"""
    def atoms_of(a):
        if a.op == 'atom' and a.val == '==':
            for u, v in (a.args, a.args[::-1]):
                if ground(v):
                    return u, v
        return None
    memo = {}

    def rec(y):
        if y.op != 'gamma':
            return y
        if y.key in memo:
            return memo[y.key]
        a, hi, lo = y.args
        k = atoms_of(a)
        if k is not None:
            out = {b: False for b in gamma_atoms(hi) if b is not a and atoms_of(b) is not None
                   and atoms_of(b)[0] is k[0] and atoms_of(b)[1] is not k[1]}
            hi = cut(hi, out)
        memo[y.key] = r = _gnode(a, rec(hi), rec(lo))
        return r

    def cut(y, out):
        if y.op != 'gamma' or not out:
            return y
        if y.args[0] in out:
            return cut(y.args[2], out)
        return _gnode(y.args[0], cut(y.args[1], out), cut(y.args[2], out))
    return rec(x)


# --------------------------------------------------------------------------- printing
def show(t, depth=12):
    if depth <= 0:
        return '…'
    d = depth - 1
    o = t.op
    if o == 'num':
        f = t.val
        return str(f)
    if o == 'const':
        return t.val[1]
    if o in ('sym', 'ext'):
        return str(t.val)
    if o in ('tmp', 'opaque', 'key', 'ref'):
        return f'<{o}:{t.val[1] if isinstance(t.val, tuple) else t.val}>'
    if o == 'bvar':
        return f'b{t.val[0]}_{t.val[1]}'
    if o == 'attr':
        return f'{show(t.args[0], d)}.{t.val}'
    if o == 'sub':
        return f'{show(t.args[0], d)}[{show(t.args[1], d)}]'
    if o == 'call':
        f, pos, kw = call_parts(t)
        s = [show(a, d) for a in pos] + [f'{k}={show(v, d)}' for k, v in kw.items()]
        return f'{show(f, d)}({", ".join(s)})'
    if o == 'sum':
        return '(' + ' + '.join(
            (show(a, d) if c == 1 else (f'{c}' if a is ONE else f'{c}*{show(a, d)}'))
            for a, c in zip(t.args, t.val)) + ')'
    if o == 'mono':
        return '*'.join(show(a, d) if e == 1 else f'{show(a, d)}^{e}'
                        for a, e in zip(t.args, t.val))
    if o == 'gamma':
        return f'[{show(t.args[0], d)} ? {show(t.args[1], d)} : {show(t.args[2], d)}]'
    if o == 'atom':
        if t.val == 'truth':
            return f'{show(t.args[0], d)}'
        if t.val == 'lt0':
            return f'{show(t.args[0], d)}<0'
        if len(t.args) == 2:
            return f'{show(t.args[0], d)} {t.val} {show(t.args[1], d)}'
        return f'{t.val}({", ".join(show(a, d) for a in t.args)})'
    if o == 'dict':
        return '{' + ', '.join(f'{show(k, d)}: {show(v, d)}' for k, v in dict_items(t)) + '}'
    if o in ('tuple', 'list', 'set'):
        return {'tuple': '(%s)', 'list': '[%s]', 'set': '{%s}'}[o] % ', '.join(
            show(a, d) for a in t.args)
    v = '' if t.val is None else f'<{t.val}>'
    return f'{o}{v}({", ".join(show(a, d) for a in t.args)})'
