"""apply one kind of behaviour-preserving edit everywhere in a copy of the repository:  refactor.py KIND SRC DST
The checks have to stay quiet on every result (tools/dev/refactor.sh runs them)."""
import ast, os, shutil, sys, copy

N = [0]


def fresh(p='tmp'):
    N[0] += 1
    return '_%s%d' % (p, N[0])


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def assign(n, v):
    return ast.Assign([name(n, ast.Store())], v)


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or (isinstance(e, ast.Attribute) and simple(e.value))


def has(e, *types):
    return any(isinstance(x, types) for x in ast.walk(e))


class Blocks(ast.NodeTransformer):
    """rewrites lists of statements inside functions"""
    depth = 0

    def visit_FunctionDef(self, f):
        self.depth += 1
        self.generic_visit(f)
        f.body = self.rewrite(f.body, f)
        self.depth -= 1
        return f

    def rewrite(self, body, f):
        out = []
        for s in body:
            for a in ('body', 'orelse', 'finalbody'):
                b = getattr(s, a, None)
                if isinstance(b, list) and b and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    setattr(s, a, self.rewrite(b, f))
            r = self.stmt(s, f)
            out.extend(r if isinstance(r, list) else [r])
        return self.block(out, f)

    def stmt(self, s, f):
        return s

    def block(self, body, f):
        return body


class ReturnTemp(Blocks):
    def stmt(self, s, f):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant):
            t = fresh('result')
            return [assign(t, s.value), ast.Return(name(t))]
        return s


class ArgTemps(Blocks):
    """arguments computed in statements of their own, in the order of evaluation"""
    def stmt(self, s, f):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) \
                and simple(v.func) and not (isinstance(v.func, ast.Name) and v.func.id in ('super', 'locals')) and all(k.arg for k in v.keywords):
            pre = []
            for i, a in enumerate(v.args):
                if not simple(a) and not has(a, ast.Lambda, ast.Yield, ast.NamedExpr):
                    t = fresh('arg')
                    pre.append(assign(t, a))
                    v.args[i] = name(t)
            for kw in v.keywords:
                if not simple(kw.value) and not has(kw.value, ast.Lambda):
                    t = fresh('arg')
                    pre.append(assign(t, kw.value))
                    kw.value = name(t)
            return pre + [s]
        return s


class BinTemps(Blocks):
    """sums and products computed step by step"""
    def stmt(self, s, f):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.BinOp):
            pre = []
            if not simple(v.left):
                t = fresh('left')
                pre.append(assign(t, v.left))
                v.left = name(t)
            if not simple(v.right):
                t = fresh('right')
                pre.append(assign(t, v.right))
                v.right = name(t)
            return pre + [s]
        return s


class IfInvert(Blocks):
    def stmt(self, s, f):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            t = s.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return ast.If(t, s.orelse, s.body)
        return s


class IfNest(Blocks):
    """if a and b -> nested; if not (a or b) by De Morgan"""
    def stmt(self, s, f):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            a, *rest = s.test.values
            return ast.If(a, [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), s.body, [])], [])
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or):
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And(), [ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
        return s


class Ternary(Blocks):
    """if/else of one assignment or return <-> conditional expression"""
    def stmt(self, s, f):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
            v = s.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(s.targets, v.orelse)])
        return s


class Guard(Blocks):
    """if c: ... return/raise  else: B   ->  if c: ...; B   and the other way round"""
    def block(self, body, f):
        out = list(body)
        for i, s in enumerate(out):
            if isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                if s.orelse:
                    rest = s.orelse
                    s.orelse = []
                    return out[:i + 1] + rest + out[i + 1:]
                if out[i + 1:]:
                    s.orelse = out[i + 1:]
                    return out[:i + 1]
        return out


class Loops(Blocks):
    """comprehensions over one sequence in assignments and returns -> loops that append"""
    def stmt(self, s, f):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and v is not None:
            pre = []
            call = v if isinstance(v, ast.Call) and len(v.args) >= 1 and simple(v.func) else None
            c = v if isinstance(v, ast.ListComp) else call.args[0] if call and isinstance(call.args[0], ast.ListComp) else None
            if c is not None and len(c.generators) == 1:
                g = c.generators[0]
                bound = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                ren = {b: fresh(b) for b in bound}
                for part in [c.elt, g.target] + g.ifs:
                    for n in ast.walk(part):
                        if isinstance(n, ast.Name) and n.id in ren:
                            n.id = ren[n.id]
                t = fresh('list')
                app = ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [c.elt], []))
                b = [app]
                if g.ifs:
                    b = [ast.If(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs), b, [])]
                pre = [assign(t, ast.List([], ast.Load())), ast.For(g.target, g.iter, b, [])]
                if call is None:
                    s.value = name(t)
                else:
                    call.args[0] = name(t)
                return pre + [s]
        return s


class Comps(Blocks):
    """xs = []; for ..: xs.append(e)  ->  comprehension"""
    def block(self, body, f):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and out and isinstance(out[-1], ast.Assign) \
                    and isinstance(out[-1].targets[0], ast.Name) and isinstance(out[-1].value, ast.List) and not out[-1].value.elts:
                b, ifs = s.body[0], []
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs, b = [b.test], b.body[0]
                x = out[-1].targets[0].id
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) \
                        and b.value.func.attr == 'append' and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == x:
                    e = b.value.args[0]
                    if not any(isinstance(n, ast.Name) and n.id == x for p in [e, s.iter] + ifs for n in ast.walk(p)):
                        out[-1] = assign(x, ast.ListComp(e, [ast.comprehension(s.target, s.iter, ifs, 0)]))
                        continue
            out.append(s)
        return out


class Index(Blocks):
    """for i, x in enumerate(xs) / for a, b in zip(p, q) -> loop over indices (names and attributes only, not reassigned)"""
    def stmt(self, s, f):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and not s.iter.keywords:
            fn, args = s.iter.func.id, s.iter.args
            if fn == 'enumerate' and len(args) == 1 and simple(args[0]) and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                pre = fresh('seq')
                i = s.target.elts[0].id
                return [assign(pre, ast.Call(name('list'), [args[0]], [])),
                        ast.For(name(i, ast.Store()), ast.Call(name('range'), [ast.Call(name('len'), [name(pre)], [])], []),
                                [ast.Assign([s.target.elts[1]], ast.Subscript(name(pre), name(i), ast.Load()))] + s.body, s.orelse)]
            if fn == 'zip' and len(args) == 2 and isinstance(s.target, ast.Tuple):
                p, q, i = fresh('seq'), fresh('seq'), fresh('i')
                n = ast.Call(name('min'), [ast.Call(name('len'), [name(p)], []), ast.Call(name('len'), [name(q)], [])], [])
                return [assign(p, ast.Call(name('list'), [args[0]], [])), assign(q, ast.Call(name('list'), [args[1]], [])),
                        ast.For(name(i, ast.Store()), ast.Call(name('range'), [n], []),
                                [ast.Assign([s.target.elts[0]], ast.Subscript(name(p), name(i), ast.Load())),
                                 ast.Assign([s.target.elts[1]], ast.Subscript(name(q), name(i), ast.Load()))] + s.body, s.orelse)]
        return s


class While(Blocks):
    """for i in range(n) -> while"""
    def stmt(self, s, f):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' \
                and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and not s.orelse and not has(s, ast.Continue):
            n, i = fresh('n'), fresh('k')
            lo, hi = (ast.Constant(0), s.iter.args[0]) if len(s.iter.args) == 1 else s.iter.args
            return [assign(i, lo), assign(n, hi),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(n)]),
                              [assign(s.target.id, name(i))] + s.body + [ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return s


class Continue(Blocks):
    """for ..: if c: B   ->   for ..: if not c: continue; B"""
    def stmt(self, s, f):
        if isinstance(s, ast.For) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
            last = s.body[-1]
            s.body = s.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], [])] + last.body
        return s


class Rename(ast.NodeTransformer):
    """local variables get other names"""
    def visit_FunctionDef(self, f):
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.ImportFrom, ast.Import))
               for n in ast.walk(f) if n is not f):
            self.generic_visit(f)
            return f
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        for a in (f.args.vararg, f.args.kwarg):
            if a:
                params.add(a.arg)
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        exc = {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler) and n.name}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc - exc:
                n.id = n.id + '_local'
        return f


class Extract(ast.NodeTransformer):
    """the body of every function moves to a helper"""
    def __init__(self):
        self.cls = None

    def visit_Module(self, m):
        m.body = self.members(m.body, False)
        return m

    def visit_ClassDef(self, c):
        self.cls = c.name
        c.body = self.members(c.body, True)
        self.cls = None
        return c

    def members(self, body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                out.append(self.visit_ClassDef(s))
            elif isinstance(s, ast.FunctionDef):
                out.extend(self.split(s, cls))
            else:
                out.append(s)
        return out

    def split(self, f, cls):
        decs = [ast.unparse(d) for d in f.decorator_list]
        if any(d.endswith('.setter') or d not in ('property', 'classmethod', 'staticmethod') for d in decs) or f.name.startswith('__') and f.name != '__call__' \
                or f.args.vararg or f.args.posonlyargs or f.args.kwonlyargs or has(f, ast.Yield) or any(
                    isinstance(n, ast.Name) and n.id in ('super', 'locals', '__class__') for n in ast.walk(f)):
            return [f]
        h = '_impl_of_%s_%s' % (self.cls or '', f.name)
        names = [a.arg for a in f.args.args]
        g = copy.deepcopy(f)
        g.name = h
        g.args.defaults = []
        g.decorator_list = [d for d in g.decorator_list if ast.unparse(d) != 'property']
        if cls and 'staticmethod' in decs:
            return [f]
        if cls:
            func, args = ast.Attribute(name(names[0]), h, ast.Load()), names[1:]
        else:
            func, args = name(h), names
        kw = [ast.keyword(None, name(f.args.kwarg.arg))] if f.args.kwarg else []
        doc = f.body[:1] if ast.get_docstring(f) else []
        f.body = doc + [ast.Return(ast.Call(func, [name(a) for a in args], kw))]
        return [f, g]


class Swap(ast.NodeTransformer):
    """a * b -> b * a; comparisons turned round; x ** 2 -> x * x for names"""
    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Mult) and not has(e, ast.List, ast.Call, ast.Tuple, ast.JoinedStr) and not any(
                isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (e.left, e.right)):
            return ast.BinOp(e.right, e.op, e.left)
        if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value == 2 and isinstance(e.left, ast.Name):
            return ast.BinOp(e.left, ast.Mult(), copy.deepcopy(e.left))
        return e

    def visit_Compare(self, e):
        self.generic_visit(e)
        turn = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(e.ops) == 1 and type(e.ops[0]) in turn and not has(e, ast.Call):
            return ast.Compare(e.comparators[0], [turn[type(e.ops[0])]()], [e.left])
        if len(e.ops) == 2 and simple(e.comparators[0]):
            a, b, c = e.left, e.comparators[0], e.comparators[1]
            return ast.BoolOp(ast.And(), [ast.Compare(a, [e.ops[0]], [b]), ast.Compare(copy.deepcopy(b), [e.ops[1]], [c])])
        return e


class Cache(ast.NodeTransformer):
    """not hasattr(self, '_x') -> getattr(self, '_x', None) is None"""
    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Name) and e.func.id == 'hasattr' and isinstance(e.args[1], ast.Constant) and e.args[1].value.startswith('_') \
                and isinstance(e.args[0], ast.Name) and e.args[0].id == 'self':
            return ast.Compare(ast.Call(name('getattr'), [e.args[0], e.args[1], ast.Constant(None)], []), [ast.IsNot()], [ast.Constant(None)])
        return e


class Noop(Blocks):
    def stmt(self, s, f):
        return s if isinstance(s, (ast.Return, ast.Expr)) else [s, ast.Pass()]

    def block(self, body, f):
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            return body[:1] + [assign(fresh('unused'), ast.Constant(0))] + body[1:]
        return [assign(fresh('unused'), ast.Constant(0))] + body


class Reorder(Blocks):
    """adjacent assignments of expressions without calls that do not depend on each other change places"""
    def block(self, body, f):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute))
                   and not has(s.value, ast.Call, ast.Subscript, ast.ListComp, ast.Lambda, ast.Div, ast.Attribute) for s in (a, b)):
                ta, tb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
                ub, ua = ast.unparse(b.value), ast.unparse(a.value)
                reads = lambda v: {ast.unparse(n) for n in ast.walk(v) if isinstance(n, (ast.Name, ast.Attribute))}
                if ta != tb and ta not in reads(b.value) and tb not in reads(a.value) and ta not in reads(b.targets[0]) and tb not in reads(a.targets[0]):
                    out[i], out[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return out


class SelfAlias(Blocks):
    """public calls: self.f(...) through a bound method in a variable"""
    def stmt(self, s, f):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                and isinstance(v.func.value, ast.Name) and v.func.value.id == 'self':
            t = fresh('method')
            pre = [assign(t, v.func)]
            v.func = name(t)
            return pre + [s]
        return s


class AugAssign(Blocks):
    """n += x  ->  n = n + x for plain names (numbers and strings only where the code uses it that way)"""
    def stmt(self, s, f):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and not has(s.value, ast.List, ast.ListComp):
            return ast.Assign([name(s.target.id, ast.Store())], ast.BinOp(name(s.target.id), s.op, s.value))
        return s


class Private(ast.NodeTransformer):
    """private methods (not attributes) get other names everywhere"""
    names = None

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if f.name in self.names:
            f.name = f.name + '_renamed'
        return f

    def visit_Attribute(self, a):
        self.generic_visit(a)
        if a.attr in self.names:
            a.attr += '_renamed'
        return a

    def visit_Name(self, a):
        if a.id in self.names:
            a.id += '_renamed'
        return a

    def visit_alias(self, a):
        if a.name in self.names:
            a.name += '_renamed'
        return a


class PrivateAttr(Private):
    """private attributes get other names everywhere"""
    def visit_Constant(self, c):
        if isinstance(c.value, str) and c.value in self.names:
            return ast.Constant(c.value + '_renamed')
        return c


KINDS = dict(returns=ReturnTemp, args=ArgTemps, steps=BinTemps, invert=IfInvert, nest=IfNest, ternary=Ternary, guard=Guard, loops=Loops, comps=Comps,
             index=Index, whiles=While, cont=Continue, rename=Rename, extract=Extract, swap=Swap, cache=Cache, noop=Noop, reorder=Reorder,
             alias=SelfAlias, aug=AugAssign, private=Private, attrs=PrivateAttr)


def main(kind, src, dst):
    files = []
    for d, _, fs in os.walk(os.path.join(src, 'pyHalo')):
        files += [os.path.join(d, f) for f in fs if f.endswith('.py')]
    trees = {f: ast.parse(open(f).read()) for f in files}
    if kind in ('private', 'attrs'):
        funcs = {n.name for t in trees.values() for n in ast.walk(t) if isinstance(n, ast.FunctionDef)}
        stores = {n.attr for t in trees.values() for n in ast.walk(t) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        priv = lambda n: n.startswith('_') and not n.startswith('__')
        Private.names = {n for n in funcs if priv(n)} if kind == 'private' else {n for n in stores - funcs if priv(n)}
        PrivateAttr.names = Private.names
    changed = 0
    for f, t in trees.items():
        before = ast.dump(t)
        t = KINDS[kind]().visit(t)
        ast.fix_missing_locations(t)
        if ast.dump(t) != before:
            changed += 1
            out = os.path.join(dst, os.path.relpath(f, src))
            open(out, 'w').write(ast.unparse(t) + '\n')
    print(kind, changed, 'files changed,', N[0], 'names')


if __name__ == '__main__':
    main(*sys.argv[1:])
