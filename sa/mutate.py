"""Source rewriting used to judge the checks themselves.

refactors(): rewrites that keep the behaviour (the checks must stay quiet);
bugs(): small semantic edits (the checks should report them).
Both yield (label, function name, new module source); nothing is executed.
"""
import ast
import copy
import itertools


def functions(tree):
    """(qualified name, FunctionDef) of top-level functions and methods"""
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, ast.FunctionDef):
                    yield f'{n.name}.{f.name}', f


def find(tree, qual, lineno):
    for q, f in functions(tree):
        if q == qual and f.lineno == lineno:
            return f
    raise KeyError(qual)


def strip_doc(f):
    b = f.body
    return b[1:] if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
        and isinstance(b[0].value.value, str) else b


def bodies(f):
    """every statement list inside f (f.body first)"""
    for n in ast.walk(f):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def names_in(n, ctx=ast.Load):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def local_names(f):
    """names bound in f or nested functions (without parameters and attributes)"""
    out = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    glob = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    params = {a.arg for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda))
              for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs
              + [x for x in (n.args.vararg, n.args.kwarg) if x]}
    return out - glob - params


def is_pure(n):
    """no call that consumes state"""
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            s = ast.unparse(x.func)
            if s == 'next' or s.split('.')[-1] in (
                    'pop', 'append', 'popleft', 'extend', 'update', 'step', 'reset', 'sample',
                    'split', 'setstate', 'getstate', 'seed', 'add', 'clear', 'get', 'random'):
                return False
        if isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)):
            return False
    return True


# ------------------------------------------------------------------------------- refactorings
class Rn(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


def r_noop(f):
    i = len(f.body) - len(strip_doc(f))
    f.body.insert(i, ast.parse('_unused = None').body[0])
    return True


def r_rename_locals(f):
    m = {n: n + '_renamed' for n in local_names(f)}
    if not m:
        return False
    Rn(m).visit(f)
    return True


def r_hoist_return(f):
    done = False
    for b in list(bodies(f)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(
                    s.value, (ast.Name, ast.Constant)):
                b[i:i + 1] = [ast.Assign([ast.Name('result_', ast.Store())], s.value),
                              ast.Return(ast.Name('result_', ast.Load()))]
                done = True
    return done


def r_hoist_args(f):
    """f(a, g(b)) -> arg0 = a; arg1 = g(b); f(arg0, arg1)"""
    done, k = False, itertools.count()
    for b in list(bodies(f)):
        for i, s in reversed(list(enumerate(b))):
            v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) \
                    and all(q.arg for q in v.keywords) and (v.args or v.keywords) and \
                    isinstance(v.func, (ast.Name, ast.Attribute)) and is_pure(v.func):
                if ast.unparse(v.func) in ('super', 'next'):
                    continue
                pre = []
                for j, a in enumerate(v.args):
                    n = f'arg{next(k)}_'
                    pre.append(ast.Assign([ast.Name(n, ast.Store())], a))
                    v.args[j] = ast.Name(n, ast.Load())
                for q in v.keywords:
                    n = f'arg{next(k)}_'
                    pre.append(ast.Assign([ast.Name(n, ast.Store())], q.value))
                    q.value = ast.Name(n, ast.Load())
                b[i:i] = pre
                done = True
    return done


def r_inline_local(f):
    """x = e; <next statement uses x once, first> -> inline"""
    done = False
    for b in list(bodies(f)):
        i = 0
        while i + 1 < len(b):
            s, u = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Name) and isinstance(u, (ast.Return, ast.Assign)):
                x = s.targets[0].id
                uses = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == x]
                here = [n for n in ast.walk(u.value or u) if isinstance(n, ast.Name) and n.id == x]
                scopes = [n for n in ast.walk(u) if isinstance(
                    n, (ast.Lambda, ast.comprehension, ast.IfExp, ast.BoolOp))]
                if len(uses) == 2 and len(here) == 1 and not scopes and is_pure(u) \
                        and is_pure(s.value):
                    class T(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return s.value if n is here[0] else n
                    b[i + 1] = T().visit(u)
                    del b[i]
                    done = True
                    continue
            i += 1
    return done


def r_invert_if(f):
    done = False
    for n in ast.walk(f):
        if isinstance(n, ast.If) and n.orelse and not (
                len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.body, n.orelse = n.orelse, n.body
            n.test = neg(n.test)
            done = True
        elif isinstance(n, ast.IfExp):
            n.body, n.orelse = n.orelse, n.body
            n.test = neg(n.test)
            done = True
    return done


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if type(t.ops[0]) in inv:
            return ast.Compare(t.left, [inv[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def r_else_after_return(f):
    done = False
    for b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                done = True
                break
    return done


def r_flatten_else(f):
    done = False
    for b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and s.orelse and i + 1 == len(b):
                b[i + 1:] = s.orelse
                s.orelse = []
                done = True
                break
    return done


def r_ifexp_to_if(f):
    done = False
    for b in list(bodies(f)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                def mk(v):
                    return ast.Return(v) if isinstance(s, ast.Return) else ast.Assign(
                        copy.deepcopy(s.targets), v)
                b[i] = ast.If(s.value.test, [mk(s.value.body)], [mk(s.value.orelse)])
                done = True
    return done


def r_if_to_ifexp(f):
    done = False
    for b in list(bodies(f)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and \
                        ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and \
                        isinstance(x.targets[0], (ast.Name, ast.Attribute)):
                    b[i] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                    done = True
                elif isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    b[i] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                    done = True
    return done


def r_comp_to_loop(f):
    done, k = False, itertools.count()
    for b in list(bodies(f)):
        for i, s in reversed(list(enumerate(b))):
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1:
                g = v.generators[0]
                acc = f'acc{next(k)}_'
                if isinstance(v, ast.ListComp):
                    add = ast.parse(f'{acc}.append(0)').body[0]
                    add.value.args = [v.elt]
                    ini = ast.List([], ast.Load())
                else:
                    add = ast.Assign([ast.Subscript(ast.Name(acc, ast.Load()), v.key, ast.Store())],
                                     v.value)
                    ini = ast.Dict([], [])
                body = [add]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                s.value = ast.Name(acc, ast.Load())
                b[i:i] = [ast.Assign([ast.Name(acc, ast.Store())], ini),
                          ast.For(g.target, g.iter, body, [])]
                done = True
    return done


def r_loop_to_comp(f):
    """xs = []; for t in it: xs.append(e)"""
    done = False
    for b in list(bodies(f)):
        for i in range(len(b) - 1):
            s, lp = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts \
                    and isinstance(lp, ast.For) and len(lp.body) == 1 and not lp.orelse:
                x = lp.body[0]
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(
                        x.value.func, ast.Attribute) and x.value.func.attr == 'append' and \
                        ast.unparse(x.value.func.value) == ast.unparse(s.targets[0]):
                    b[i:i + 2] = [ast.Assign(s.targets, ast.ListComp(
                        x.value.args[0], [ast.comprehension(lp.target, lp.iter, [], 0)]))]
                    done = True
                    break
    return done


def r_flip_compare(f):
    fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
          ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    done = False
    for n in ast.walk(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in fl and \
                is_pure(n):
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = fl[type(n.ops[0])]()
            done = True
    return done


def r_commute(f):
    done = False
    for n in ast.walk(f):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and is_pure(n) and not any(
                isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
            done = True
    return done


def r_demorgan(f):
    done = False
    for n in ast.walk(f):
        for fld in ('test',):
            t = getattr(n, fld, None)
            if isinstance(t, ast.BoolOp):
                op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in t.values]))
                done = True
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(
                    t.operand, ast.BoolOp):
                o = t.operand
                op = ast.Or() if isinstance(o.op, ast.And) else ast.And()
                n.test = ast.BoolOp(op, [neg(v) for v in o.values])
                done = True
    return done


def r_augassign(f):
    done = False
    for b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)):
                t = copy.deepcopy(s.target)
                t.ctx = ast.Load()
                b[i] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
                done = True
    return done


def r_unpack(f):
    done, k = False, itertools.count()
    for b in list(bodies(f)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Tuple) and not isinstance(s.value, ast.Tuple) and not any(
                    isinstance(x, ast.Starred) for x in s.targets[0].elts) and isinstance(
                    s.value, ast.Call):
                n = f'pair{next(k)}_'
                out = [ast.Assign([ast.Name(n, ast.Store())], s.value)]
                for j, x in enumerate(s.targets[0].elts):
                    out.append(ast.Assign([x], ast.Subscript(
                        ast.Name(n, ast.Load()), ast.Constant(j), ast.Load())))
                b[i:i + 1] = out
                done = True
    return done


def r_split_tuple_assign(f):
    """a, b = x, y -> a = x; b = y (when independent)"""
    done = False
    for b in list(bodies(f)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(
                    s.targets[0].elts) == len(s.value.elts):
                ts = {ast.unparse(x) for x in s.targets[0].elts}
                used = {ast.unparse(x) for x in ast.walk(s.value)
                        if isinstance(x, (ast.Name, ast.Attribute))}
                if ts & used or any(isinstance(x, ast.Starred) for x in s.targets[0].elts):
                    continue
                b[i:i + 1] = [ast.Assign([x], y)
                              for x, y in zip(s.targets[0].elts, s.value.elts)]
                done = True
    return done


def r_fstring(f):
    done = False

    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            nonlocal done
            if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1)
                   for v in n.values):
                return n
            done = True
            fmt = ''.join(v.value.replace('{', '{{').replace('}', '}}')
                          if isinstance(v, ast.Constant) else '{}' for v in n.values)
            return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()),
                            [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])
    T().visit(f)
    return done


def r_lambda_to_def(f):
    done, k = False, itertools.count()
    for b in list(bodies(f)):
        for i, s in reversed(list(enumerate(b))):
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                continue
            lams = [n for n in ast.walk(s) if isinstance(n, ast.Lambda)]
            inner = {id(m) for n in ast.walk(s) if isinstance(
                n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))
                for m in ast.walk(n) if m is not n}
            lams = [n for n in lams if id(n) not in inner]
            if not lams:
                continue
            m = {}
            for n in lams:
                nm = f'fn{next(k)}_'
                m[id(n)] = nm
                b.insert(i, ast.FunctionDef(nm, n.args, [ast.Return(n.body)], [], type_params=[]))

            class T(ast.NodeTransformer):
                def visit_Lambda(self, n):
                    return ast.Name(m[id(n)], ast.Load()) if id(n) in m else self.generic_visit(n)
            T().visit(s)
            done = True
    return done


def r_swap_independent(f):
    """swap adjacent independent pure assignments to local names"""
    done = False
    for b in list(bodies(f)):
        i = 0
        while i + 1 < len(b):
            s, u = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and all(isinstance(y, ast.Name) for y in x.targets)
                   and is_pure(x) for x in (s, u)):
                ts, tu = s.targets[0].id, u.targets[0].id
                if ts != tu and ts not in names_in(u.value) and tu not in names_in(s.value):
                    b[i], b[i + 1] = u, s
                    done = True
                    i += 2
                    continue
            i += 1
    return done


def r_isinstance_or(f):
    done = False

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal done
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(
                    n.args) == 2 and isinstance(n.args[1], ast.Tuple):
                done = True
                return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], x], [])
                                             for x in n.args[1].elts])
            return n
    T().visit(f)
    return done


def r_dict_ctor(f):
    done = False

    class T(ast.NodeTransformer):
        def visit_Dict(self, n):
            nonlocal done
            self.generic_visit(n)
            if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str)
                              and k.value.isidentifier() for k in n.keys):
                done = True
                return ast.Call(ast.Name('dict', ast.Load()), [],
                                [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
            return n
    T().visit(f)
    return done


def r_sub_as_add(f):
    """a - b -> a + (-b)"""
    done = False
    for n in ast.walk(f):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and not isinstance(
                n.right, ast.Constant):
            n.op = ast.Add()
            n.right = ast.UnaryOp(ast.USub(), n.right)
            done = True
    return done


def r_method_form(f):
    """jnp.mean(x) -> x.mean() and so on, for results of expressions"""
    done = False

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal done
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id in ('jnp',) and n.func.attr in ('mean', 'sum', 'min', 'max') \
                    and len(n.args) == 1 and isinstance(n.args[0], (ast.Name, ast.BinOp)):
                done = True
                return ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()), [], n.keywords)
            return n
    T().visit(f)
    return done


def free_locals(n, f):
    params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs
              + [x for x in (f.args.vararg, f.args.kwarg) if x]}
    bound_in = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(
        x.ctx, ast.Store)} | {a.arg for x in ast.walk(n) if isinstance(x, ast.Lambda)
                              for a in x.args.args}
    loc = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name)
           and isinstance(x.ctx, ast.Store)} | params | {
        x.name for x in ast.walk(f) if isinstance(x, ast.FunctionDef) and x is not f}
    return sorted((names_in(n) & loc) - bound_in)


def r_extract_function(f, tree=None, qual=''):
    """returned expression of the outermost return -> module level helper"""
    if tree is None or not f.body or not isinstance(f.body[-1], ast.Return) or \
            f.body[-1].value is None or isinstance(f.body[-1].value, (ast.Name, ast.Constant)):
        return False
    v = f.body[-1].value
    if any(isinstance(x, ast.Call) and ast.unparse(x.func) == 'super' for x in ast.walk(v)) or \
            any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(v)):
        return False
    if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__')
           for x in ast.walk(v)):
        return False
    fv = free_locals(v, f)
    h = ast.FunctionDef('extracted_helper_', ast.arguments([], [ast.arg(x) for x in fv], None, [],
                                                           [], None, []),
                        [ast.Return(v)], [], type_params=[])
    f.body[-1].value = ast.Call(ast.Name('extracted_helper_', ast.Load()),
                                [ast.Name(x, ast.Load()) for x in fv], [])
    tree.body.append(h)
    return True


def r_extract_method(f, tree=None, qual=''):
    """last two statements of a method -> a private method"""
    if tree is None or '.' not in qual or not f.args.args or f.args.args[0].arg != 'self' \
            or len(strip_doc(f)) < 3 or f.name == '__init__':
        return False
    tail = f.body[-2:]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
        return False
    if any(isinstance(x, ast.Call) and ast.unparse(x.func) == 'super' for s in tail
           for x in ast.walk(s)):
        return False
    if any(isinstance(s, ast.FunctionDef) for s in tail):
        return False
    mod = ast.Module(tail, [])
    fv = [x for x in free_locals_stmts(mod, f) if x != 'self']
    h = ast.FunctionDef('_extracted', ast.arguments([], [ast.arg('self')] + [
        ast.arg(x) for x in fv], None, [], [], None, []), tail, [], type_params=[])
    callx = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), '_extracted', ast.Load()),
                     [ast.Name(x, ast.Load()) for x in fv], [])
    f.body[-2:] = [ast.Return(callx)]
    for n in tree.body:
        if isinstance(n, ast.ClassDef) and n.name == qual.split('.')[0]:
            n.body.append(h)
    return True


def free_locals_stmts(mod, f):
    """locals of f that the statements read before (possibly) binding them"""
    params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs
              + [x for x in (f.args.vararg, f.args.kwarg) if x]}
    pre = {x.id for s in f.body if s not in mod.body for x in ast.walk(s)
           if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
        x.name for x in ast.walk(f) if isinstance(x, ast.FunctionDef) and x is not f}
    return sorted((names_in(mod)
                   | {x.target.id for x in ast.walk(mod) if isinstance(x, ast.AugAssign)
                      and isinstance(x.target, ast.Name)}) & (params | pre))


def r_nested_to_module(f, tree=None, qual=''):
    """nested functions without captured locals (other than self) move to module level"""
    if tree is None:
        return False
    done = False
    for s in list(f.body):
        if isinstance(s, ast.FunctionDef) and not s.decorator_list:
            cap = free_nested(s, f)
            if cap - {'self'}:
                continue
            nm = s.name + '_moved'
            if 'self' in cap:
                continue
            s2 = copy.deepcopy(s)
            s2.name = nm
            tree.body.append(s2)
            i = f.body.index(s)
            f.body[i] = ast.Assign([ast.Name(s.name, ast.Store())], ast.Name(nm, ast.Load()))
            done = True
    return done


def free_nested(s, f):
    inner = {a.arg for n in ast.walk(s) if isinstance(n, (ast.FunctionDef, ast.Lambda))
             for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs
             + [x for x in (n.args.vararg, n.args.kwarg) if x]} | names_in(s, ast.Store) | {
        n.name for n in ast.walk(s) if isinstance(n, ast.FunctionDef)}
    outer = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs
             + [x for x in (f.args.vararg, f.args.kwarg) if x]} | names_in(f, ast.Store) | {
        n.name for n in f.body if isinstance(n, ast.FunctionDef)}
    return (names_in(s) - inner) & outer


def r_property_local(f):
    """repeated self.x reads go through a local alias (only if x is never stored in f)"""
    cnt = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' \
                and isinstance(n.ctx, ast.Load):
            cnt[n.attr] = cnt.get(n.attr, 0) + 1
    stored = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute)
              and isinstance(n.ctx, ast.Store)}
    calls = {n.func.attr for n in ast.walk(f) if isinstance(n, ast.Call)
             and isinstance(n.func, ast.Attribute)}
    if stored or f.name == '__init__' or any(isinstance(n, ast.FunctionDef) and n is not f
                                             for n in ast.walk(f)):
        return False
    if not f.args.args or f.args.args[0].arg != 'self':
        return False
    nm = next((a for a, c in sorted(cnt.items()) if c >= 2 and a not in calls
               and not a.startswith('__')), None)
    if nm is None or nm in ('rng',):
        return False
    body = strip_doc(f)
    # only when the first statement already reads it unconditionally
    first = [n for n in ast.walk(body[0]) if isinstance(n, ast.Attribute) and n.attr == nm]
    if not first or isinstance(body[0], (ast.If, ast.For, ast.While)):
        return False

    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == nm and isinstance(n.value, ast.Name) and n.value.id == 'self':
                return ast.Name('alias_', ast.Load())
            return n
    for s in body:
        T().visit(s)
    i = len(f.body) - len(body)
    f.body.insert(i, ast.parse(f'alias_ = self.{nm}').body[0])
    return True


REFACTORS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}
WITH_TREE = {'extract_function', 'extract_method', 'nested_to_module'}


def refactors(src, keep=None):
    base = ast.parse(src)
    for q, f in list(functions(base)):
        if keep is not None and not keep(q):
            continue
        for name, fn in REFACTORS.items():
            tree = ast.parse(src)
            g = find(tree, q, f.lineno)
            try:
                ok = fn(g, tree, q) if name in WITH_TREE else fn(g)
            except (KeyError, IndexError):
                continue
            if not ok:
                continue
            ast.fix_missing_locations(tree)
            try:
                new = ast.unparse(tree)
                ast.parse(new)
            except Exception:
                continue
            yield name, q, new
    # whole-module rewrites
    tree = ast.parse(src)
    for old, new in (('onp', 'numpy_'), ('jnp', 'jax_numpy_'), ('hk', 'haiku_')):
        if any(isinstance(n, ast.alias) and n.asname == old for n in ast.walk(tree)):
            tree2 = ast.parse(src)
            for n in ast.walk(tree2):
                if isinstance(n, ast.alias) and n.asname == old:
                    n.asname = new
                elif isinstance(n, ast.Name) and n.id == old:
                    n.id = new
            yield f'alias_{old}', '<module>', ast.unparse(tree2)


# --------------------------------------------------------------------------------------- bugs
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mod, ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In}
ATTR = {'S': 'S_next', 'S_next': 'S', 'A': 'A_next', 'A_next': 'A', 'logP': 'logP_next',
        'Rn': 'In', 'In': 'Rn', 'W': 'Rn', 'minimum': 'maximum', 'maximum': 'minimum',
        'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'mean': 'sum',
        'sum': 'mean', 'q': 'q_targ', 'q_targ': 'q', 'v': 'v_targ', 'v_targ': 'v',
        'transform_func': 'inverse_func', 'inverse_func': 'transform_func', 'low': 'high',
        'high': 'low', 'params': 'function_state', 'mode': 'mean', 'log': 'exp', 'exp': 'log',
        'popleft': 'pop', 'append': 'appendleft', 'observation_space': 'action_space',
        'function_type1': 'function_type2', 'function_type2': 'function_type1',
        'ones_like': 'zeros_like', 'zeros_like': 'ones_like', 'sin': 'cos',
        'observation_preprocessor': 'action_preprocessor'}
KEYS = {'q': 'q_targ', 'q_targ': 'q', 'v': 'v_targ', 'v_targ': 'v', 'mu': 'logvar',
        'logvar': 'mu'}


def bug_sites(f):
    """(label, mutate(node)) for each mutation site; node indices follow ast.walk order"""
    docs = {id(n.body[0].value) for n in ast.walk(f) if isinstance(
        n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr)}
    skip = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                and ast.unparse(n.value.func).startswith(('chex.', 'warnings.'))):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.If) and n.body and isinstance(n.body[0], ast.Raise):
            skip |= {id(m) for m in ast.walk(n.test)}
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip |= {id(m) for m in ast.walk(d)}
    for k, n in enumerate(ast.walk(f)):
        if id(n) in skip or id(n) in docs:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            def m(x):
                x.op = BIN[type(x.op)]()
            yield k, 'op', m
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def m(x):
                x.ops[0] = CMP[type(x.ops[0])]()
            yield k, 'cmp', m
        elif isinstance(n, ast.BoolOp):
            def m(x):
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            yield k, 'bool', m
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def m(x):
                x.value = not x.value
            yield k, 'flag', m
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            def m(x):
                x.value = x.value + 1
            yield k, 'const', m
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in KEYS:
            def m(x):
                x.value = KEYS[x.value]
            yield k, 'key', m
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def m(x):
                if isinstance(x.op, ast.USub):
                    x.op = ast.UAdd()
                else:
                    x.op, x.operand = ast.Not(), ast.UnaryOp(ast.Not(), x.operand)
            yield k, 'neg', m
        elif isinstance(n, ast.Attribute) and n.attr in ATTR and isinstance(n.ctx, ast.Load):
            def m(x):
                x.attr = ATTR[x.attr]
            yield k, f'attr {n.attr}', m
        elif isinstance(n, ast.Call) and n.keywords and len(n.keywords) > 0 and not ast.unparse(
                n.func).startswith(('warnings.', 'print')):
            def m(x):
                x.keywords.pop()
            yield k, f'dropkw {n.keywords[-1].arg}', m
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and ast.unparse(
                n.func) not in ('isinstance', 'getattr', 'hasattr', 'setattr', 'zip'):
            def m(x):
                x.args.reverse()
            yield k, 'swapargs', m
        elif isinstance(n, ast.IfExp):
            def m(x):
                x.body, x.orelse = x.orelse, x.body
            yield k, 'ifexp', m
        elif isinstance(n, ast.If) and not (n.body and isinstance(n.body[0], ast.Raise)):
            def m(x):
                x.test = ast.UnaryOp(ast.Not(), x.test)
            yield k, 'if', m
        elif isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(
                n.value, ast.Call) or (isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], (ast.Attribute, ast.Subscript))):
            def m(x):
                x.__class__ = ast.Pass
                x._fields = ()
            yield k, 'drop', 'drop'


def bugs(src, keep=None, drop=True):
    base = ast.parse(src)
    for q, f in list(functions(base)):
        if keep is not None and not keep(q):
            continue
        for k, label, m in list(bug_sites(f)):
            tree = ast.parse(src)
            g = find(tree, q, f.lineno)
            node = next(itertools.islice(ast.walk(g), k, None))
            before = ast.unparse(node)
            if m == 'drop':
                for b in bodies(g):
                    if node in b:
                        b[b.index(node)] = ast.Pass()
                        break
                after = 'pass'
            else:
                m(node)
                after = ast.unparse(node)
            ast.fix_missing_locations(tree)
            yield f'{label}: {before[:70]} -> {after[:70]} (line {getattr(node, "lineno", 0)})', \
                q, ast.unparse(tree)
