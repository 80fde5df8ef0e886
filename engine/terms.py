"""Hash-consed first-order terms over the reals (R), integers (I), booleans (B) and opaque values (O).

Python numbers stay Python numbers wherever possible; a Term is only created once something symbolic is involved.
"""
import math
import numbers
from fractions import Fraction

import numpy as _np


class Unsupported(BaseException):
    """The engine cannot bring this code within reach (never a violation)."""


class Infeasible(BaseException):
    """Current path is infeasible."""


_table = {}
_counter = [0]


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating)) and not isinstance(x, (bool, _np.bool_))


def is_bool(x):
    return isinstance(x, (bool, _np.bool_))


class Term(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', '__weakref__')
    __array_ufunc__ = None       # numpy scalars defer to the reflected operators below
    __array_priority__ = 1e9

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    # identity equality on purpose: use eq()

    # arithmetic
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __floordiv__(self, o): return floor(div(self, o))
    def __rfloordiv__(self, o): return floor(div(o, self))
    def __mod__(self, o): return sub(self, mul(o, floor(div(self, o))))
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return mul(-1, self)
    def __pos__(self): return self
    def __abs__(self): return absv(self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __and__(self, o): return conj(self, o)
    def __rand__(self, o): return conj(o, self)
    def __or__(self, o): return disj(self, o)
    def __ror__(self, o): return disj(o, self)
    def __invert__(self): return neg(self)

    def __bool__(self):
        ctx = CTX[0]
        if ctx is None:
            raise Unsupported('truth value of a term outside exploration: %s' % self)
        return ctx.branch(self)

    def __float__(self):
        raise Unsupported('float() of a symbolic term by native code')

    def __int__(self):
        raise Unsupported('int() of a symbolic term by native code')

    def __index__(self):
        raise Unsupported('index() of a symbolic term by native code')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic scalar')

    def __len__(self):
        raise TypeError('symbolic scalar has no len()')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# the active exploration context (set by the engine)
CTX = [None]


def mk(op, args, sort):
    key = (op, args, sort)
    # constants: distinguish 1 / 1.0 / True by repr-type
    if op == 'const':
        key = (op, (type(args[0]).__name__, args[0]), sort)
    t = _table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.sort = sort
        _counter[0] += 1
        t.id = _counter[0]
        if op == 'var':
            t.fv = frozenset([t.args[0]])
        elif op == 'bind':
            # args = (kind, varterm, n, guard, body)
            kind, var, n, guard, body = args
            fv = set()
            for a in (guard, body):
                if isinstance(a, Term):
                    fv |= a.fv
            fv.discard(var.args[0])
            if isinstance(n, Term):
                fv |= n.fv
            t.fv = frozenset(fv)
        else:
            fv = frozenset()
            for a in args:
                if isinstance(a, Term):
                    fv = fv | a.fv
            t.fv = fv
        _table[key] = t
    return t


_fresh_n = [0]
POS_VARS = set()
POS_APPS = set()
INT_APPS = set()


def var(name, sort='R', pos=False):
    if pos:
        POS_VARS.add(name)
    return mk('var', (name,), sort)


def fresh(prefix, sort='R'):
    _fresh_n[0] += 1
    return mk('var', ('%s!%d' % (prefix, _fresh_n[0]),), sort)


def app(fname, args, sort='R', pos=False):
    if pos:
        POS_APPS.add(fname)
    return mk('app', (fname,) + tuple(_lift(a) for a in args), sort)


def _lift(a):
    """arguments of an application: constants become const terms so that keys are canonical"""
    if isinstance(a, Term):
        return a
    return const(a)


def const(a):
    if isinstance(a, Term):
        return a
    if is_bool(a):
        return mk('const', (bool(a),), 'B')
    if isinstance(a, (_np.integer,)):
        a = int(a)
    if isinstance(a, (_np.floating,)):
        a = float(a)
    if isinstance(a, int):
        return mk('const', (a,), 'I')
    if isinstance(a, float):
        if a == int(a) if math.isfinite(a) else False:
            pass
        return mk('const', (a,), 'R')
    if isinstance(a, Fraction):
        return mk('const', (a,), 'R')
    if a is None or isinstance(a, str):
        return mk('const', (a,), 'O')
    try:
        hash(a)
    except TypeError:
        raise Unsupported('constant of type %s in a term' % type(a))
    return mk('const', (a,), 'O')


def unconst(t):
    if isinstance(t, Term) and t.op == 'const':
        return t.args[0]
    return t


def _chk_num(*xs):
    for x in xs:
        if isinstance(x, Term):
            if x.sort == 'O':
                raise Unsupported('arithmetic on opaque value %s' % x)
        elif not (is_num(x) or is_bool(x)):
            raise TypeError('unsupported operand type(s): %s' % type(x).__name__)


def num_sort(*xs):
    for x in xs:
        if isinstance(x, Term):
            if x.sort == 'R':
                return 'R'
        elif isinstance(x, (float, _np.floating, Fraction)):
            return 'R'
    return 'I'


def as_num(x):
    """booleans used as numbers"""
    if isinstance(x, Term) and x.sort == 'B':
        return ite(x, 1, 0)
    if is_bool(x):
        return int(x)
    if isinstance(x, Term):
        return unconst(x)
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, _np.floating):
        return float(x)
    return x


def _special(x):
    return isinstance(x, float) and not math.isfinite(x)


def add(a, b):
    a, b = as_num(a), as_num(b)
    _chk_num(a, b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a + b
    if not isinstance(a, Term) and a == 0 and _same_sort(a, b):
        return b
    if not isinstance(b, Term) and b == 0 and _same_sort(b, a):
        return a
    return mk('+', (const(a), const(b)), num_sort(a, b))


def _same_sort(numc, t):
    return t.sort == 'R' or isinstance(numc, int)


def sub(a, b):
    return add(a, mul(-1, b))


def mul(a, b):
    a, b = as_num(a), as_num(b)
    _chk_num(a, b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a * b
    if not isinstance(a, Term) and a == 1 and _same_sort(a, b):
        return b
    if not isinstance(b, Term) and b == 1 and _same_sort(b, a):
        return a
    if (not isinstance(a, Term) and a == 0) or (not isinstance(b, Term) and b == 0):
        return 0 if num_sort(a, b) == 'I' else 0.0
    return mk('*', (const(a), const(b)), num_sort(a, b))


def div(a, b):
    a, b = as_num(a), as_num(b)
    _chk_num(a, b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a / b
    if not isinstance(b, Term):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        if b == 1 and a.sort == 'R':
            return a
    if not isinstance(a, Term) and a == 0:
        return 0.0
    return mk('/', (const(a), const(b)), 'R')


def power(a, b):
    a, b = as_num(a), as_num(b)
    _chk_num(a, b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a ** b
    if not isinstance(b, Term):
        if b == 0:
            return 1.0
        if b == 1:
            return a
    if not isinstance(a, Term) and a == 1:
        return 1.0
    srt = 'I' if (num_sort(a) == 'I' and not isinstance(b, Term) and isinstance(b, int) and b > 0) else 'R'
    return mk('**', (const(a), const(b)), srt)


def fun1(name, x):
    x = as_num(x)
    _chk_num(x)
    if not isinstance(x, Term):
        return getattr(_np, name)(x)
    return mk(name, (x,), 'R')


def exp(x): return fun1('exp', x)
def log(x): return fun1('log', x)
def log10(x): return fun1('log10', x)
def sin(x): return fun1('sin', x)
def cos(x): return fun1('cos', x)
def tan(x): return fun1('tan', x)
def tanh(x): return fun1('tanh', x)
def sinh(x): return fun1('sinh', x)
def cosh(x): return fun1('cosh', x)
def arctan(x): return fun1('arctan', x)
def arcsin(x): return fun1('arcsin', x)
def arccos(x): return fun1('arccos', x)
def arcsinh(x): return fun1('arcsinh', x)
def arccosh(x): return fun1('arccosh', x)


def sqrt(x):
    x = as_num(x)
    if not isinstance(x, Term):
        return _np.sqrt(x)
    return power(x, Fraction(1, 2))


def floor(x):
    x = as_num(x)
    if not isinstance(x, Term):
        return math.floor(x)
    if x.sort == 'I':
        return x
    return mk('floor', (x,), 'I')


def trunc(x):
    x = as_num(x)
    if not isinstance(x, Term):
        return int(x)
    if x.sort == 'I':
        return x
    return mk('trunc', (x,), 'I')


def roundv(x, nd=0):
    x = as_num(x)
    if not isinstance(x, Term):
        return round(x, nd)
    return x if x.sort == 'I' and nd == 0 else mk('round', (x, const(nd)), 'I' if nd == 0 else 'R')


def absv(x):
    x = as_num(x)
    if not isinstance(x, Term):
        return abs(x)
    return mk('abs', (x,), x.sort)


def minv(a, b):
    a, b = as_num(a), as_num(b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return min(a, b)
    if a is b:
        return a
    return ite(le(a, b), a, b)


def maxv(a, b):
    a, b = as_num(a), as_num(b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        return max(a, b)
    if a is b:
        return a
    return ite(le(b, a), a, b)


def ite(c, a, b):
    c = unconst(c)
    if is_bool(c):
        return a if c else b
    if not isinstance(c, Term):
        return a if c else b
    if a is b:
        return a
    la, lb = as_scalar(a), as_scalar(b)
    if la.sort == 'B' and lb.sort == 'B':
        if la.op == 'const' and lb.op == 'const':
            if la.args[0] == lb.args[0]:
                return bool(la.args[0])
            return c if la.args[0] else neg(c)
    if la is lb:
        return unconst(la)
    srt = la.sort
    if la.sort != lb.sort:
        if {la.sort, lb.sort} <= {'R', 'I'}:
            srt = 'R'
        elif 'B' in (la.sort, lb.sort) and 'O' not in (la.sort, lb.sort):
            la, lb = const(as_num(la)), const(as_num(lb))
            srt = num_sort(la, lb)
        else:
            raise Unsupported('ite over different sorts')
    if c.op in ('<', '<=') and srt in ('R', 'I'):
        p, q = c.args
        if (la is p and lb is q) or (la is q and lb is p):
            # a minimum or maximum: one form, whatever the order and strictness (equal branches on ties)
            lo, hi = (p, q) if p.id < q.id else (q, p)
            smaller = (la is p)
            return mk('ite', (mk('<=', (lo, hi), 'B'), lo, hi) if smaller else (mk('<=', (lo, hi), 'B'), hi, lo), srt)
    return mk('ite', (c, la, lb), srt)


def as_scalar(a):
    if isinstance(a, Term):
        return a
    return const(a)


def neg(c):
    c = unconst(c)
    if is_bool(c):
        return not c
    if not isinstance(c, Term):
        return not c
    if c.sort != 'B':
        c = truth(c)
        if is_bool(c):
            return not c
    if c.op == 'not':
        return c.args[0]
    if c.op == '<':
        return mk('<=', (c.args[1], c.args[0]), 'B')
    if c.op == '<=':
        return mk('<', (c.args[1], c.args[0]), 'B')
    return mk('not', (c,), 'B')


def truth(c):
    """Python truthiness of a scalar as a boolean value"""
    c = unconst(c)
    if isinstance(c, Term):
        if c.sort == 'B':
            return c
        if c.sort in 'RI':
            return neg(eq(c, 0))
        raise Unsupported('truth value of opaque %s' % c)
    return bool(c)


def conj(*cs):
    out = []
    for c in cs:
        c = truth(c)
        if is_bool(c):
            if not c:
                return False
            continue
        if c.op == 'and':
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    for c in out:
        if neg(c) in out:
            return False
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def disj(*cs):
    out = []
    for c in cs:
        c = truth(c)
        if is_bool(c):
            if c:
                return True
            continue
        if c.op == 'or':
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    for c in out:
        if neg(c) in out:
            return True
    return mk('or', tuple(sorted(out, key=lambda t: t.id)), 'B')


def implies(a, b):
    return disj(neg(a), b)


def iff(a, b):
    a, b = truth(a), truth(b)
    if is_bool(a):
        return b if a else neg(b)
    if is_bool(b):
        return a if b else neg(a)
    if a is b:
        return True
    return conj(implies(a, b), implies(b, a))


def _inf_cmp(a, b):
    return _special(a) or _special(b)


def known_pos(t):
    return t.op == 'app' and t.args[0] in POS_APPS or t.op == 'var' and t.args[0] in POS_VARS


def lt(a, b):
    a, b = as_num(a), as_num(b)
    _chk_num(a, b)
    if isinstance(b, Term) and not isinstance(a, Term) and a <= 0 and known_pos(b):
        return True
    if isinstance(a, Term) and not isinstance(b, Term) and b <= 0 and known_pos(a):
        return False
    if not isinstance(a, Term) and not isinstance(b, Term):
        return bool(a < b)
    if a is b:
        return False
    if _special(a):
        return a < 0
    if _special(b):
        return b > 0
    return mk('<', (const(a), const(b)), 'B')


def le(a, b):
    a, b = as_num(a), as_num(b)
    _chk_num(a, b)
    if isinstance(b, Term) and not isinstance(a, Term) and a <= 0 and known_pos(b):
        return True
    if isinstance(a, Term) and not isinstance(b, Term) and b <= 0 and known_pos(a):
        return False
    if not isinstance(a, Term) and not isinstance(b, Term):
        return bool(a <= b)
    if a is b:
        return True
    if _special(a):
        return a < 0
    if _special(b):
        return b > 0
    return mk('<=', (const(a), const(b)), 'B')


def eq(a, b):
    """semantic equality of two scalars"""
    a, b = unconst(a), unconst(b)
    if not isinstance(a, Term) and not isinstance(b, Term):
        r = a == b
        return bool(r)
    if a is b:
        return True
    ta, tb = const(a), const(b)
    if ta.sort == 'B' and tb.sort == 'B':
        return iff(ta, tb)
    numeric = {'R', 'I', 'B'}
    if ta.sort in numeric and tb.sort in numeric:
        ta, tb = const(as_num(ta)), const(as_num(tb))
        if _special(unconst(ta)) or _special(unconst(tb)):
            return False
    elif (ta.sort in numeric) != (tb.sort in numeric):
        return False
    for x, y in ((ta, tb), (tb, ta)):
        if x.op == 'const' and y.op == 'ite' and x.sort not in numeric and \
                all(z.op == 'const' for z in (const(y.args[1]), const(y.args[2]))):
            p, q = eq(x, y.args[1]), eq(x, y.args[2])
            return True if p and q else y.args[0] if p else neg(y.args[0]) if q else False
    if ta.id > tb.id:
        ta, tb = tb, ta
    return mk('==', (ta, tb), 'B')


# ---------------------------------------------------------------------------------------------------------- binders

def bind(kind, v, n, guard, body):
    """kind in {'sum','exists','forall','quad','lam'}; v bound variable (Term var)"""
    guard = truth(guard)
    canon = var('@%d' % _depth(guard, body), v.sort)
    m = {v.args[0]: canon}
    g2 = subst(guard, m)
    b2 = subst(body, m)
    return mk('bind', (kind, canon, const(n) if not isinstance(n, Term) else n, const(g2), const(b2)),
              'B' if kind in ('exists', 'forall') else 'R')


def _depth(*ts):
    d = 0
    for t in ts:
        if isinstance(t, Term):
            d = max(d, _bdepth(t))
    return d


_bd = {}


def _bdepth(t):
    r = _bd.get(t.id)
    if r is None:
        r = 0
        if t.op == 'bind':
            r = int(t.args[1].args[0][1:]) + 1
            for a in t.args[2:]:
                if isinstance(a, Term):
                    r = max(r, _bdepth(a))
        else:
            for a in t.args:
                if isinstance(a, Term):
                    r = max(r, _bdepth(a))
        _bd[t.id] = r
    return r


def sum_over(gens, body):
    """gens: list of (var, n, guard), innermost last"""
    body = as_num(body)
    for v, n, g in reversed(gens):
        if not isinstance(body, Term) and body == 0:
            return 0
        if truth(g) is True and not (isinstance(body, Term) and v.args[0] in body.fv):
            if n is None:
                raise Unsupported('sum over unbounded generator')
            body = mul(n, body)
        else:
            body = bind('sum', v, n, g, body)
    return body


def exists_over(gens, body):
    body = truth(body)
    for v, n, g in reversed(gens):
        body = conj(g, body)
        if body is False:
            return False
        if n is not None and not (isinstance(body, Term) and v.args[0] in body.fv):
            body = conj(lt(0, n), body)
        elif isinstance(body, Term) and body.op == 'or' and False:
            pass
        else:
            body = bind('exists', v, n, True, body)
    return body


def forall_over(gens, body):
    return neg(exists_over(gens, neg(body)))


# ------------------------------------------------------------------------------------------------------ substitution

_REBUILD = {
    '+': lambda a, s: add(*a), '*': lambda a, s: mul(*a), '/': lambda a, s: div(*a), '**': lambda a, s: power(*a),
    '<': lambda a, s: lt(*a), '<=': lambda a, s: le(*a), '==': lambda a, s: eq(*a),
    'and': lambda a, s: conj(*a), 'or': lambda a, s: disj(*a), 'not': lambda a, s: neg(*a),
    'ite': lambda a, s: ite(*a), 'abs': lambda a, s: absv(*a), 'floor': lambda a, s: floor(*a),
    'trunc': lambda a, s: trunc(*a), 'round': lambda a, s: roundv(*a),
}


def rebuild(op, args, sort):
    f = _REBUILD.get(op)
    if f is not None:
        try:
            return f([unconst(a) for a in args], sort)
        except (ZeroDivisionError, OverflowError, ValueError):
            return mk(op, tuple(const(a) for a in args), sort)
    if op in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'arccos',
              'arcsinh', 'arccosh'):
        return fun1(op, unconst(args[0]))
    if op == 'app':
        return mk('app', (args[0],) + tuple(const(a) for a in args[1:]), sort)
    return mk(op, tuple(args), sort)


def subst(t, m, _memo=None):
    """m: var name -> value"""
    if not isinstance(t, Term):
        return t
    if _memo is None:
        _memo = {}
    if not any(k in t.fv for k in m):
        return t
    r = _memo.get(t.id)
    if r is not None:
        return r[0]
    if t.op == 'var':
        r = m.get(t.args[0], t)
    elif t.op == 'bind':
        kind, v, n, g, b = t.args
        r = mk('bind', (kind, v, const(subst(n, m, _memo)), const(subst(g, m, _memo)), const(subst(b, m, _memo))), t.sort)
        # capture is impossible for @d variables unless m maps to terms with same-depth binders; re-canonicalise
        f = fresh('b', v.sort)
        r = bind(kind, f, subst(n, m, _memo), subst(subst(g, {v.args[0]: f}), m), subst(subst(b, {v.args[0]: f}), m))
    elif t.op == 'app':
        r = rebuild('app', (t.args[0],) + tuple(subst(a, m, _memo) for a in t.args[1:]), t.sort)
    else:
        r = rebuild(t.op, tuple(subst(a, m, _memo) if isinstance(a, Term) else a for a in t.args), t.sort)
    _memo[t.id] = (r,)
    return r


def replace(t, old, new, _memo=None):
    """replace sub-term `old` (by identity) with new"""
    if not isinstance(t, Term):
        return t
    if t is old:
        return new
    if _memo is None:
        _memo = {}
    if t.id in _memo:
        return _memo[t.id]
    if t.op in ('var', 'const'):
        return t
    changed = False
    args = []
    for a in t.args:
        if isinstance(a, Term):
            b = replace(a, old, new, _memo)
            if b is not a:
                changed = True
            args.append(b)
        else:
            args.append(a)
    if not changed:
        r = t
    elif t.op == 'bind':
        kind, v, n, g, b = args
        r = mk('bind', (kind, v, const(n), const(g), const(b)), t.sort)
    else:
        r = rebuild(t.op, tuple(args), t.sort)
    _memo[t.id] = r
    return r


def subterms(t, seen=None):
    """all sub-terms including below binders (pre-order, each once)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)


def size(t):
    return sum(1 for _ in subterms(t)) if isinstance(t, Term) else 1


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 12:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if o == 'var':
        return a[0]
    if o == 'const':
        return repr(a[0]) if not isinstance(a[0], Fraction) else str(a[0])
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o in ('+', '*', '/', '**', '<', '<=', '=='):
        return '(%s %s %s)' % (s(a[0]), o, s(a[1]))
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(s(x) for x in a) + ')'
    if o == 'bind':
        return '%s[%s<%s | %s](%s)' % (a[0], a[1].args[0], s(a[2]), s(a[3]), s(a[4]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
