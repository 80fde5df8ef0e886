"""Contracts (models) of the Python builtins, numpy and scipy used by the code under proof.

Every entry is an assumption about a dependency; the concrete pass of each contract runs the same contract on the
real libraries and so cross-checks them.
"""
import ast
import builtins
import copy
import math
import operator
import types

import numpy as np

from . import terms as T
from . import seqs as Q
from . import smt as S
from . import norm as N
from .seqs import Comp, Arr, Arr2, RankIdx
from .terms import Term, Unsupported

TABLE = {}


class BoundModel(object):
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class SymSet(object):
    """set of symbolic values: membership only"""
    _pv_symbolic = True

    def __init__(self, parts):
        self.parts = parts


def model(*fs, **kw):
    def deco(g):
        def wrapper(*a, **k):
            return g(*a, **k)
        wrapper.always = kw.get('always', False)
        wrapper.__name__ = g.__name__
        for f in fs:
            if f is not None:
                TABLE[f] = wrapper
        return g
    return deco


def plain(x):
    if isinstance(x, (Term, Arr, Arr2, Comp)):
        return '<symbolic>'
    if isinstance(x, (list, tuple)) and any(isinstance(y, (Term, Comp)) for y in x):
        return '<symbolic>'
    return x


def isym(x):
    from .interp import _sym
    return _sym(x)


def new(I, x):
    I.ctx.log(('new', x, None, None, _noop))
    return x


def _noop():
    pass


# ------------------------------------------------------------------------------------------------------- operators

_BIN = {ast.Add: T.add, ast.Sub: T.sub, ast.Mult: T.mul, ast.Div: T.div, ast.Pow: T.power,
        ast.BitAnd: T.conj, ast.BitOr: T.disj,
        ast.FloorDiv: lambda a, b: T.floor(T.div(a, b)),
        ast.Mod: lambda a, b: T.sub(a, T.mul(b, T.floor(T.div(a, b))))}
_NAT = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.FloorDiv: operator.floordiv,
        ast.Mod: operator.mod, ast.MatMult: operator.matmul, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
        ast.RShift: operator.rshift}


def arrlike(x):
    return isinstance(x, (Arr, Arr2)) or (isinstance(x, np.ndarray) and x.ndim > 0)


def _copies(l, n):
    """n copies of l where n is a sum of constants and of choices between constants; None otherwise"""
    if not isinstance(n, Term):
        n = int(n)
        return l * n if 0 <= n <= 6 else None
    if n.op == 'const':
        return _copies(l, n.args[0])
    if n.op == '+':
        a, b = _copies(l, n.args[0]), _copies(l, n.args[1])
        return None if a is None or b is None else a + b
    if n.op == 'ite':
        a, b = _copies(l, n.args[1]), _copies(l, n.args[2])
        if a is None or b is None:
            return None
        return ([Comp(None, None, n.args[0], a)] if a else []) + ([Comp(None, None, T.neg(n.args[0]), b)] if b else [])
    return None


def binop(I, op, a, b):
    if not isym(a) and not isym(b):
        if isinstance(a, list) or isinstance(b, list):
            I.read_list(a)
            I.read_list(b)
            return new(I, _NAT[type(op)](a, b))
        return _NAT[type(op)](a, b)
    for x in (a, b):
        if hasattr(type(x), '_pv_binop'):
            r = x._pv_binop(I, op, a, b)
            if r is not NotImplemented:
                return r
    f = _BIN.get(type(op))
    if f is None:
        raise Unsupported('operator ' + type(op).__name__)
    if arrlike(a) or arrlike(b):
        return Q.ew2(f, a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        I.read_list(a)
        I.read_list(b)
        if isinstance(op, ast.Add) and type(a) is type(b):
            return new(I, a + b)
        if isinstance(op, ast.Mult):
            l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            if not isinstance(n, Term):
                return l * n
            k = _copies(list(l), n)
            if k is None:
                k = [Comp(I.ctx.fresh('i', 'I'), n, True, list(l))]
            return new(I, type(l)(Q.simplify(k)))
        raise TypeError('unsupported operand type(s) for %s: %s and %s' % (type(op).__name__, type(a).__name__, type(b).__name__))
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(op, ast.Mod):
            return a % (plain(b) if not isinstance(b, tuple) else tuple(plain(x) for x in b))
        if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
            return a + b
        raise TypeError('unsupported operand types for string operator')
    if isinstance(a, np.ndarray):
        a = a.item()
    if isinstance(b, np.ndarray):
        b = b.item()
    if a is None or b is None:
        raise TypeError("unsupported operand type(s): NoneType")
    return f(a, b)


def _cmp_eq(I, a, b):
    if a is b and not arrlike(a):
        return True
    for x in (a, b):
        if arrlike(x):
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                return False
            return Q.ew2(T.eq, a, b)
    if a is None or b is None:
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term):
            if isinstance(y, Term) or T.is_num(y) or T.is_bool(y):
                return T.eq(x, y)
            if isinstance(y, np.ndarray) and y.ndim == 0:
                return T.eq(x, y.item())
            if x.sort == 'O':
                return T.eq(x, y)
            return False
    if hasattr(type(a), '_pv_eq'):
        return a._pv_eq(b)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if Q.has_comp(a) or Q.has_comp(b):
            raise Unsupported('equality of symbolic sequences')
        if len(a) != len(b):
            return False
        c = True
        for x, y in zip(a, b):
            c = T.conj(c, I.truth(_cmp_eq(I, x, y)))
        return c
    from .interp import _class_attr, in_repo
    e = _class_attr(type(a), '__eq__')
    if isinstance(e, types.FunctionType) and in_repo(e):
        return I.call(e, [a, b], {})
    return a == b


def contains(I, x, coll):
    if isinstance(coll, dict):
        if isym(x) or any(isym(k) for k in coll):
            return T.disj(*[key_eq(x, k) for k in coll])
        return x in coll
    if isinstance(coll, SymSet):
        return Q.exists(coll.parts, lambda y: I.truth(_cmp_eq(I, x, y)))
    if isinstance(coll, str):
        if isinstance(x, Term):
            raise Unsupported('substring test')
        return x in coll
    if isinstance(coll, (list, tuple, Arr, np.ndarray, set, frozenset)):
        if not isym(x) and not isym(coll):
            I.read_list(coll)
            return x in coll
        parts = I.iter_parts(coll)
        return Q.exists(parts, lambda y: I.truth(_cmp_eq(I, x, y)))
    keys = type(coll)
    if keys in (type({}.keys()), type({}.values())):
        if not isym(x) and not isym(list(coll)):
            return x in coll
        return Q.exists(list(coll), lambda y: I.truth(_cmp_eq(I, x, y)))
    if isym(x):
        raise Unsupported('membership in %s' % type(coll).__name__)
    return x in coll


def key_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return T.conj(*[key_eq(x, y) for x, y in zip(a, b)])
    sc = lambda v: isinstance(v, Term) or T.is_num(v) or T.is_bool(v)
    if sc(a) and sc(b):
        return T.eq(a, b)
    if isinstance(a, Term) or isinstance(b, Term):
        t, o = (a, b) if isinstance(a, Term) else (b, a)
        return T.eq(t, o) if t.sort == 'O' and (o is None or isinstance(o, str)) else False
    return bool(a == b)


def dict_key(I, d, k):
    """the key of d equal to k (branching where that is open), or k itself"""
    if not isym(k) and not any(isym(x) for x in d):
        return k
    for kk in list(d):
        if kk is k:
            return kk
        c = key_eq(k, kk)
        if c is True or (isinstance(c, Term) and I.ctx.branch(c)):
            return kk
    return k


def compare(I, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        if isinstance(a, Term) and T.is_bool(b):
            r = T.iff(a, b) if a.sort == 'B' else False
        elif isinstance(b, Term) and T.is_bool(a):
            r = T.iff(a, b) if b.sort == 'B' else False
        elif isinstance(a, Term) and b is None and a.sort == 'O':
            r = T.eq(a, None)
        elif isinstance(a, Term) and isinstance(b, Term) and a.sort == 'O':
            r = T.eq(a, b)
        elif hasattr(type(a), '_pv_is') or hasattr(type(b), '_pv_is'):
            r = a._pv_is(b) if hasattr(type(a), '_pv_is') else b._pv_is(a)
        else:
            r = a is b
        return r if isinstance(op, ast.Is) else T.neg(r)
    if isinstance(op, ast.In):
        return contains(I, a, b)
    if isinstance(op, ast.NotIn):
        return T.neg(contains(I, a, b))
    if isinstance(op, ast.Eq):
        return _cmp_eq(I, a, b)
    if isinstance(op, ast.NotEq):
        r = _cmp_eq(I, a, b)
        return ~r if arrlike(r) else T.neg(r)
    f = {ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: lambda x, y: T.lt(y, x), ast.GtE: lambda x, y: T.le(y, x)}[type(op)]
    if not isym(a) and not isym(b):
        g = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        return g(a, b)
    if arrlike(a) or arrlike(b):
        return Q.ew2(f, a, b)
    if a is None or b is None or isinstance(a, (list, tuple, str, dict)) or isinstance(b, (list, tuple, str, dict)):
        raise TypeError("'%s' not supported between instances of '%s' and '%s'" % (type(op).__name__, type(a).__name__, type(b).__name__))
    if isinstance(a, np.ndarray):
        a = a.item()
    if isinstance(b, np.ndarray):
        b = b.item()
    return f(a, b)


# ------------------------------------------------------------------------------------------------ subscripts / attributes

def getitem(I, obj, k):
    from .interp import _class_attr, in_repo, Poison
    if isinstance(obj, Poison):
        obj._bad()
    if isinstance(obj, DictView):
        return obj.get(k)
    if isinstance(obj, dict):
        k = dict_key(I, obj, k)
        return obj[k]
    if isinstance(obj, Arr):
        return arr_getitem(obj, k)
    if isinstance(obj, Arr2):
        return arr2_getitem(obj, k)
    if isinstance(obj, (list, tuple)):
        I.read_list(obj)
        if not Q.has_comp(obj):
            if isinstance(k, Term):
                return pick(I, list(obj), k)
            if isinstance(k, slice):
                return new(I, obj[k])
            if isinstance(k, RankIdx):
                raise Unsupported('rank index into a concrete list')
            return obj[k]
        return seq_index(I, list(obj), k)
    if isinstance(obj, np.ndarray):
        if not isym(k) and not isinstance(k, RankIdx):
            r = obj[k]
            return r
        if isinstance(k, Term) and obj.ndim == 1:
            return pick(I, list(obj), k)
        if obj.ndim == 1:
            return arr_getitem(Arr(list(obj)), k)
        raise Unsupported('symbolic index into a concrete array')
    g = _class_attr(type(obj), '__getitem__')
    if isinstance(g, types.FunctionType) and in_repo(g):
        return I.call(g, [obj, k], {})
    if isinstance(g, types.FunctionType) and (type(obj).__module__ or '').split('.')[0] in ('contracts', 'engine'):
        return obj[k]
    if isym(k) or isym(obj):
        raise Unsupported('subscript of %s' % type(obj).__name__)
    return obj[k]


def pick(I, items, k):
    """items[k] with symbolic k, concrete length"""
    n = len(items)
    for i in range(n):
        if I.ctx.branch(T.eq(k, i)):
            return items[i]
        if I.ctx.branch(T.eq(k, i - n)):
            return items[i]
    raise IndexError('list index out of range')


def rank_item(I, p, k):
    """item at position #{w < b : g(w)} of a filtered sequence with the same filter g: the item of base index b"""
    if not (k.op == 'bind' and k.args[0] == 'sum' and p.var is not None and len(p.items) == 1
            and not isinstance(p.items[0], Comp)):
        return None
    _, w, b, g, body = k.args
    if not (body.op == 'const' and body.args[0] == 1):
        return None
    m = {w.args[0]: p.var}
    hy = I.ctx.pc() + [T.le(0, p.var), T.lt(p.var, p.n)]
    if S.prove(hy, T.iff(T.subst(g, m), p.guard), timeout=2.0).status != 'proved':
        return None
    mb = {p.var.args[0]: b}
    pg = T.subst(p.guard, mb) if isinstance(p.guard, Term) else p.guard
    if S.prove(I.ctx.pc(), T.conj(T.le(0, b), T.lt(b, p.n), pg), timeout=2.0).status != 'proved':
        return None
    return Q.subst_val(p.items[0], mb)


def _plain(p):
    return not isinstance(p, Comp) or p.var is not None and p.guard is True and len(p.items) == 1 and \
        not isinstance(p.items[0], Comp)


def slice_parts(I, parts, k):
    """parts[k] for constant slices with non-negative start and negative (or no) stop"""
    parts = Q.simplify(list(parts))
    if (k.start, k.stop, k.step) == (None, None, None):
        return parts
    if k.step not in (None, 1) or isym(k.start) or isym(k.stop):
        raise Unsupported('slice of a symbolic-length sequence')
    s, e = k.start or 0, k.stop
    if s < 0 or e is not None and e >= 0 and Q.has_comp(parts):
        raise Unsupported('slice of a symbolic-length sequence')
    e = 0 if e is None else -e
    while s > 0 and parts:
        p = parts[0]
        if not isinstance(p, Comp):
            parts, s = parts[1:], s - 1
            continue
        if not _plain(p):
            raise Unsupported('slice of a filtered sequence')
        if I.ctx.branch(T.le(s, p.n)):
            v, p = Q.rename(p)
            parts = [Comp(p.var, T.sub(p.n, s), True, [Q.subst_val(p.items[0], {p.var.args[0]: T.add(p.var, s)})])] + parts[1:]
            s = 0
        else:
            if len(parts) > 1:
                raise Unsupported('slice across a short segment')
            return []
    while e > 0 and parts:
        p = parts[-1]
        if not isinstance(p, Comp):
            parts, e = parts[:-1], e - 1
            continue
        if not _plain(p):
            raise Unsupported('slice of a filtered sequence')
        if I.ctx.branch(T.le(e, p.n)):
            parts = parts[:-1] + [Comp(p.var, T.sub(p.n, e), True, p.items)]
            e = 0
        else:
            if len(parts) > 1:
                raise Unsupported('slice across a short segment')
            return []
    return parts


def _quantified(t, memo={}):
    if not isinstance(t, Term):
        return False
    if t.id not in memo:
        memo[t.id] = t.op == 'bind' or any(_quantified(x) for x in t.args)
    return memo[t.id]


def _within(hy, k, n, thorough=True):
    """0 <= k < n follows, if possible from the quantifier-free facts about these alone"""
    goal = T.conj(T.le(0, k), T.lt(k, n))
    if T.is_bool(goal):
        return goal
    few = [h for h in hy if isinstance(h, Term) and h.fv & goal.fv and not _quantified(h)]
    return S.prove(few, goal, timeout=1.0).status == 'proved' or \
        thorough and S.prove(hy, goal, timeout=2.0).status == 'proved'


def seq_index(I, parts, k):
    """parts[k] for a symbolic-length sequence"""
    parts = Q.simplify(parts)
    if isinstance(k, RankIdx):
        # rank of base index inside the sub-sequence selected by mask; parts must be a filtered range over the same base
        if len(parts) == 1 and parts[0].var is not None and len(parts[0].items) == 1 \
                and not isinstance(parts[0].items[0], Comp):
            p = parts[0]
            m = {k.mvar.args[0]: p.var}
            hy = I.ctx.pc() + [T.le(0, p.var), T.lt(p.var, p.n)]
            same = (p.n is k.n or T.eq(p.n, k.n) is True) and \
                S.prove(hy, T.iff(T.subst(k.mask, m), p.guard), timeout=2.0).status == 'proved'
            if same:
                return Q.subst_val(p.items[0], {p.var.args[0]: k.base})
        raise Unsupported('rank index into a different sub-sequence')
    if isinstance(k, slice):
        return new(I, slice_parts(I, parts, k))
    # leading concrete elements
    if isinstance(k, int):
        i = 0
        if k >= 0:
            for p in parts:
                if isinstance(p, Comp):
                    break
                if i == k:
                    return p
                i += 1
            off = k - i
            p = parts[i]
            if p.var is not None and p.guard is True and len(p.items) == 1 and not isinstance(p.items[0], Comp):
                if I.ctx.branch(T.lt(off, p.n)):
                    return Q.subst_val(p.items[0], {p.var.args[0]: T.const(off)})
                if len(parts) == i + 1:
                    raise IndexError('list index out of range')
            raise Unsupported('index into a filtered sequence')
        else:
            i = -1
            for p in reversed(parts):
                if isinstance(p, Comp):
                    break
                if i == k:
                    return p
                i -= 1
            p = parts[i] if -i <= len(parts) else None
            if p is not None and isinstance(p, Comp) and p.var is not None and p.guard is True and len(p.items) == 1 \
                    and not isinstance(p.items[0], Comp):
                off = k - i      # <= 0
                if I.ctx.branch(T.le(1 - off, p.n)):
                    return Q.subst_val(p.items[0], {p.var.args[0]: T.add(p.n, off - 1)})
                if len(parts) == -i:
                    raise IndexError('list index out of range')
            raise Unsupported('negative index into a filtered sequence')
    if isinstance(k, Term):
        plainp = _plain
        if len(parts) > 1 and all(plainp(p) for p in parts):
            hy, off, offs = I.ctx.pc(), 0, []
            for p in parts:
                n = p.n if isinstance(p, Comp) else 1
                j = T.unconst(N.poly_term(N.nf(T.const(T.sub(k, off)))))
                if _within(hy, j, n, False):
                    return elem_at(I, p, j) if isinstance(p, Comp) else p
                offs.append((p, j, n))
                off = T.add(off, n)
            if _within(hy, k, off) and \
                    not any(isinstance(p, Comp) and isinstance(p.items[0], dict) for p in parts):
                val = None
                for p, j, n in reversed(offs):
                    x = elem_at(I, p, j) if isinstance(p, Comp) else p
                    val = x if val is None else Q.merge(T.lt(j, n), x, val)
                return val
        if len(parts) == 1 and isinstance(parts[0], Comp):
            p = parts[0]
            if plainp(p):
                hy = I.ctx.pc()
                if _within(hy, k, p.n):
                    return elem_at(I, p, k)
                if not any(v in k.fv for v, _ in I.ctx.scope) and S.prove(hy, T.conj(T.lt(k, 0), T.le(-p.n, k)),
                                                                          timeout=1.0).status == 'proved':
                    return elem_at(I, p, T.add(k, p.n))
                if I.ctx.branch(T.conj(T.le(0, k), T.lt(k, p.n))):
                    return elem_at(I, p, k)
                raise IndexError('list index out of range (or negative symbolic index)')
            r = rank_item(I, p, k)
            if r is not None:
                return r
        raise Unsupported('symbolic index into an irregular sequence %s at %s' % (parts, k))
    raise TypeError('list indices must be integers or slices, not %s' % type(k).__name__)


class DictView(object):
    """the dictionary held at the loop's own index of a sequence with one dictionary per element"""
    _pv_symbolic = True

    def __init__(self, d, var, idx, n):
        self.d, self.var, self.idx, self.n = d, var, idx, n

    def get(self, k):
        return Q.subst_val(self.d[k], {self.var.args[0]: self.idx})

    def set(self, I, k, v):
        if isinstance(k, Term):
            raise Unsupported('dictionary store with a symbolic key')
        if I.ctx.loopvars[-1] is not self.idx:
            raise Unsupported('store into the dictionary of another element')
        I.touch_dict(self.d)
        I.ctx.dictviews[id(self.d)] = (self.d, self.var, self.idx, self.n)
        self.d[k] = Q.subst_val(v, {self.idx.args[0]: self.var})

    def _pv_is(self, o):
        return isinstance(o, DictView) and o.d is self.d and T.eq(o.idx, self.idx)


def elem_at(I, p, k):
    it = p.items[0]
    if isinstance(it, dict):
        own = bool(I.ctx.loopvars) and k is I.ctx.loopvars[-1]
        if own and Q.subst_val(it, {p.var.args[0]: k}) is not it:
            return DictView(it, p.var, k, p.n)
        if not own and id(it) in I.ctx.dictviews and I.ctx.loopvars:
            raise Unsupported('dictionary of another element read after a write in the loop')
    return Q.subst_val(it, {p.var.args[0]: k})


def is_mask(parts):
    leaf = Q.first_leaf(parts)
    return (isinstance(leaf, Term) and leaf.sort == 'B') or T.is_bool(leaf)


def arr_getitem(a, k):
    I = CURRENT[0]
    if isinstance(k, tuple):
        if len(k) == 2 and k[1] is None:
            x = a if _full(k[0]) else arr_getitem(a, k[0])
            ax, leaves = Q.axis_of(_parts(x))
            return Arr2(ax, ('f', 1), [[v] for v in leaves])
        if len(k) == 2 and k[0] is None:
            x = a if _full(k[1]) else arr_getitem(a, k[1])
            ax, leaves = Q.axis_of(_parts(x))
            return Arr2(('f', 1), ax, [leaves])
        if len(k) == 1:
            return arr_getitem(a, k[0])
        raise Unsupported('array index tuple')
    if k is Ellipsis:
        return a
    if k is None:
        ax, leaves = Q.axis_of(a.parts)
        return Arr2(('f', 1), ax, [leaves])
    if isinstance(k, slice):
        if _full(k):
            return Arr(a.parts, view=True)
        if not Q.has_comp(a.parts) and not isym(k):
            return Arr(a.parts[k], view=True)
        return Arr(slice_parts(I, a.parts, k), view=True)
    if isinstance(k, (int, np.integer)):
        return seq_index(I, a.parts, int(k)) if Q.has_comp(a.parts) else a.parts[k]
    if isinstance(k, Term) or isinstance(k, RankIdx):
        if not Q.has_comp(a.parts) and isinstance(k, Term):
            return pick(I, list(a.parts), k)
        return seq_index(I, a.parts, k)
    if isinstance(k, (Arr, np.ndarray, list)):
        kp = Q.as_parts(k)
        if not kp:
            return Arr([])
        if is_mask(kp):
            return Arr(Q.simplify(mask_parts(a.parts, kp)))
        # integer index array
        return Arr(Q.pmap(lambda i: seq_index(I, a.parts, i) if Q.has_comp(a.parts) else
                          (a.parts[i] if not isinstance(i, Term) else pick(I, list(a.parts), i)), kp))
    raise Unsupported('array index of type %s' % type(k).__name__)


def _parts(x):
    return Q.as_parts(x)


def _full(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step is None


def mask_parts(a, m):
    out = []
    a, m = Q.simplify(a), Q.simplify(m)
    if len(a) != len(m):
        raise Unsupported('mask of different shape')
    for x, y in zip(a, m):
        if isinstance(x, Comp) != isinstance(y, Comp):
            raise Unsupported('mask of different shape')
        if isinstance(x, Comp):
            v, x = Q.rename(x)
            items = Q.same_gen(x, y)
            if items is None:
                raise Unsupported('mask over a different domain')
            out.append(Comp(x.var, x.n, x.guard, mask_parts(x.items, items)))
        else:
            c = T.truth(y)
            if c is True:
                out.append(x)
            elif c is not False:
                out.append(Comp(None, None, c, [x]))
    return out


def arr2_getitem(a, k):
    if isinstance(k, tuple) and len(k) == 2:
        r, c = k
        if _full(r) and isinstance(c, int):
            if a.cols[0] == 'f':
                return Arr(Q.parts_of_axis(a.rows, [row[c] for row in a.val]))
        if isinstance(r, int) and _full(c) and a.rows[0] == 'f':
            return Arr(Q.parts_of_axis(a.cols, a.val[r]))
        if isinstance(r, int) and isinstance(c, int) and a.rows[0] == 'f' and a.cols[0] == 'f':
            return a.val[r][c]
        if _full(r) and _full(c):
            return a
        I = CURRENT[0]
        if _full(r) and a.rows[0] == 'f' and isinstance(c, Arr) and is_mask(c.parts):
            return rows_to_arr2(I, [Arr(mask_parts(Q.parts_of_axis(a.cols, row), c.parts)) for row in a.val])
        if isinstance(c, int) and a.cols[0] == 'f':
            return getitem(I, Arr(Q.parts_of_axis(a.rows, [row[c] for row in a.val])), r)
    if isinstance(k, int) and a.rows[0] == 'f':
        return Arr(Q.parts_of_axis(a.cols, a.val[k]))
    raise Unsupported('2-D index')


def arr2_rows(a):
    a = Q.fresh_axes(a)
    leaves = [Arr(Q.parts_of_axis(a.cols, r)) for r in a.val]
    return Q.parts_of_axis(a.rows, leaves)


def setitem(I, obj, k, v):
    from .interp import _class_attr, in_repo
    if isinstance(obj, DictView):
        return obj.set(I, k, v)
    if isinstance(obj, dict):
        if isym(k) and I.ctx.loopvars:
            raise Unsupported('dictionary store with a symbolic key in a loop')
        k = dict_key(I, obj, k)
        I.touch_dict(obj)
        obj[k] = v
        return
    if isinstance(obj, list):
        if Q.has_comp(obj) or isym(k):
            if isinstance(k, Term) and not Q.has_comp(obj):
                I.touch_list(obj)
                for i in range(len(obj)):
                    obj[i] = Q.merge(T.eq(k, i), v, obj[i])
                return
            raise Unsupported('store into a symbolic list')
        I.touch_list(obj)
        obj[k] = v
        return
    if isinstance(obj, Arr):
        return arr_setitem(I, obj, k, v)
    if isinstance(obj, np.ndarray):
        if not isym(k) and not isym(v):
            I.touch_np(obj)
            obj[k] = v
            return
        raise Unsupported('symbolic store into a concrete array')
    g = _class_attr(type(obj), '__setitem__')
    if isinstance(g, types.FunctionType) and in_repo(g):
        return I.call(g, [obj, k, v], {})
    if isinstance(g, types.FunctionType) and (type(obj).__module__ or '').split('.')[0] in ('contracts', 'engine'):
        obj[k] = v
        return
    raise Unsupported('store into %s' % type(obj).__name__)


def arr_setitem(I, a, k, v):
    if a.view:
        raise Unsupported('store into a view')
    I.touch_arr(a)
    if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
    if isinstance(k, (int, np.integer)) and not Q.has_comp(a.parts):
        parts = list(a.parts)
        parts[k] = v
        a.parts = parts
        return
    if _full(k):
        a.parts = Q.ew2(lambda x, y: y, a, v).parts
        return
    if isinstance(k, (Arr, np.ndarray, list)):
        kp = Q.as_parts(k)
        if not kp:
            return
        if is_mask(kp):
            if Q.is_seq(v):
                # masked scatter of an array: v must be indexed by the same mask
                vp = Q.simplify(Q.as_parts(v))
                a.parts = scatter_mask(a.parts, kp, vp)
                return
            a.parts = Q.zip_parts(lambda x, c: T.ite(T.truth(c), v, x), a.parts, kp)
            return
        if not Q.has_comp(kp) and not Q.has_comp(a.parts):
            vals = Q.as_parts(v) if Q.is_seq(v) else [v] * len(kp)
            parts = list(a.parts)
            for i, x in zip(kp, vals):
                if isinstance(i, Term):
                    raise Unsupported('scatter at a symbolic position')
                parts[i] = x
            a.parts = parts
            return
        a.parts = scatter_idx(a.parts, kp, v)
        return
    raise Unsupported('array store')


def _simple(parts):
    """single Comp over base range with one leaf: (comp, leaf)"""
    parts = Q.simplify(parts)
    if len(parts) == 1 and isinstance(parts[0], Comp) and parts[0].var is not None and len(parts[0].items) == 1 \
            and not isinstance(parts[0].items[0], Comp):
        return parts[0], parts[0].items[0]
    raise Unsupported('irregular sequence in scatter/gather')


def scatter_idx(base, idx, v):
    """base[idx] = v with idx the strictly increasing positions selected by a guard"""
    b, leaf = _simple(base)
    i, ileaf = _simple(idx)
    if b.guard is not True:
        raise Unsupported('scatter into a filtered array')
    if ileaf is not i.var:
        raise Unsupported('scatter at computed positions')
    if not Q._same_scalar(b.n, i.n):
        raise Unsupported('scatter over a different range')
    w = I_fresh()
    g = T.subst(i.guard, {i.var.args[0]: w})
    old = Q.subst_val(leaf, {b.var.args[0]: w})
    if Q.is_seq(v):
        vc, vleaf = _simple(Q.as_parts(v))
        it = Q.same_gen(i, vc)
        if it is None:
            raise Unsupported('scatter of values over a different domain')
        val = Q.subst_val(it[0], {i.var.args[0]: w})
    else:
        val = v
    return [Comp(w, b.n, True, [T.ite(g, val, old)])]


def scatter_mask(base, mask, vals):
    if not Q.has_comp(base) and not Q.has_comp(vals) and len(base) == len(mask) and all(c is True or c is False for c in map(T.truth, mask)):
        where = [i for i, c in enumerate(mask) if T.truth(c)]
        if len(where) != len(vals):
            raise ValueError('NumPy boolean array indexing assignment cannot assign %d input values to the %d output values'
                             % (len(vals), len(where)))
        out = list(base)
        for i, x in zip(where, vals):
            out[i] = x
        return out
    b, leaf = _simple(base)
    m, mleaf = _simple(mask)
    if b.guard is not True or m.guard is not True or not Q._same_scalar(b.n, m.n):
        raise Unsupported('masked scatter')
    idx = [Comp(m.var, m.n, mleaf, [m.var])]
    return scatter_idx(base, idx, Arr(vals))


def I_fresh():
    return CURRENT[0].ctx.fresh('i', 'I')


CURRENT = [None]


def sym_attr(I, obj, name):
    if isinstance(obj, Term):
        if name in ('real',):
            return obj
        if name == 'astype':
            return BoundModel(obj, lambda I, o, t, **k: to_type(I, o, t))
        if name in ('item', 'copy', 'squeeze', 'flatten'):
            return BoundModel(obj, lambda I, o, *a, **k: o)
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name == 'value':
            raise AttributeError('value')
        if name == 'is_integer':
            return BoundModel(obj, lambda I, o: T.eq(o, T.floor(o)))
        if name == 'dtype':
            return np.dtype({'R': float, 'I': int, 'B': bool, 'O': object}[obj.sort])
        raise AttributeError("'%s' object has no attribute '%s'" % ('float', name))
    if isinstance(obj, Arr):
        if name == 'shape':
            return (Q.length(obj.parts),)
        if name == 'size':
            return Q.length(obj.parts)
        if name == 'ndim':
            return 1
        if name == 'T':
            return obj
        if name == 'dtype':
            return obj.dtype
        f = {'sum': np_sum, 'any': np_any, 'all': np_all, 'mean': np_mean, 'max': np_max, 'min': np_min}.get(name)
        if f is not None:
            return BoundModel(obj, lambda I, o, *a, **k: f(I, o, *a, **k))
        if name in ('copy', 'flatten', 'ravel', 'squeeze'):
            return BoundModel(obj, lambda I, o, *a, **k: new(I, Arr(o.parts)))
        if name == 'tolist':
            return BoundModel(obj, lambda I, o: new(I, list(o.parts)))
        if name == 'astype':
            return BoundModel(obj, lambda I, o, t, **k: Q.ew1(lambda x: to_type(I, x, t), o))
        if name == 'item':
            return BoundModel(obj, lambda I, o: o.parts[0] if len(o.parts) == 1 and not Q.has_comp(o.parts) else _uns('item'))
        if name == 'reshape':
            return BoundModel(obj, arr_reshape)
        if name == 'clip':
            return BoundModel(obj, lambda I, o, lo, hi: np_clip(I, o, lo, hi))
        raise Unsupported('array attribute ' + name)
    if isinstance(obj, Arr2):
        if name == 'T':
            return Arr2(obj.cols, obj.rows, [list(c) for c in zip(*obj.val)])
        if name == 'shape':
            return tuple(ax[1] if ax[0] == 'f' else Q.length(Q.parts_of_axis(ax, [0])) for ax in (obj.rows, obj.cols))
        if name == 'ndim':
            return 2
        f = {'sum': np_sum, 'any': np_any, 'all': np_all}.get(name)
        if f is not None:
            return BoundModel(obj, lambda I, o, *a, **k: f(I, o, *a, **k))
        raise Unsupported('2-D array attribute ' + name)
    raise Unsupported('attribute of symbolic')


def arr_reshape(I, o, *shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    if len(shape) == 1:
        return o
    if len(shape) == 2 and shape[1] == 1:
        return arr_getitem(o, (slice(None), None))
    if len(shape) == 2 and shape[0] == 1:
        return arr_getitem(o, (None, slice(None)))
    raise Unsupported('reshape')


def _uns(s):
    raise Unsupported(s)


def to_type(I, x, t):
    if t in (float, np.float64, 'float', np.floating):
        if isinstance(x, Term) and x.sort == 'B':
            return T.as_num(x)
        return x
    if t in (int, np.int64, 'int', np.integer, np.int32):
        return T.trunc(T.as_num(x))
    if t in (bool, np.bool_, 'bool'):
        return T.truth(x)
    if t in (object, str):
        return x
    raise Unsupported('dtype %s' % (t,))


# --------------------------------------------------------------------------------------------------------- list methods

def list_append(I, lst, x):
    I.touch_list(lst, appending=True)
    lst.append(x)


def list_extend(I, lst, x):
    I.touch_list(lst, appending=True)
    lst.extend(I.seq_parts(x))


def builtin_method(I, f, args, kwargs):
    s, name = f.__self__, f.__name__
    if isinstance(s, list):
        if name in ('sort', 'reverse', 'insert', 'pop', 'remove', 'clear'):
            I.touch_list(s)
            if Q.has_comp(s) or isym(args) or (name in ('sort', 'remove') and isym(s)):
                raise Unsupported('list.%s on symbolic list' % name)
            return f(*args, **kwargs)
        I.read_list(s)
        if name == 'copy':
            return new(I, list(s))
        if name == 'count':
            return Q.total(s, lambda y: T.ite(I.truth(_cmp_eq(I, y, args[0])), 1, 0))
        if name == 'index':
            if isym(s) or isym(args):
                if Q.has_comp(s):
                    raise Unsupported('list.index')
                for i, y in enumerate(s):
                    c = I.truth(_cmp_eq(I, y, args[0]))
                    if c is True or (isinstance(c, Term) and I.ctx.branch(c)):
                        return i
                raise ValueError('not in list')
            return f(*args)
        return f(*args, **kwargs)
    if isinstance(s, dict):
        if name in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
            I.touch_dict(s)
            if name in ('pop', 'setdefault'):
                args = [dict_key(I, s, args[0])] + list(args[1:])
            return f(*args, **kwargs)
        if name == 'get':
            k = dict_key(I, s, args[0])
            return s.get(k, args[1] if len(args) > 1 else None)
        if name == 'copy':
            return new(I, dict(s))
        return f(*args, **kwargs)
    if isinstance(s, set):
        if name in ('add', 'update', 'discard', 'remove'):
            if isym(args):
                raise Unsupported('set of symbolic values')
            I.touch_set(s)
        return f(*args, **kwargs)
    if isinstance(s, str):
        if name == 'format':
            return f(*[plain(a) for a in args], **{k: plain(v) for k, v in kwargs.items()})
        if name == 'join' and isym(args):
            return '<symbolic>'
    if isinstance(s, np.ndarray):
        if name in ('sort', 'fill', 'put', 'resize'):
            I.touch_np(s)
        if isym(args):
            raise Unsupported('array method %s' % name)
        return f(*args, **kwargs)
    if isinstance(s, (float, int, tuple)) and not isym(s) and not isym(args):
        return f(*args, **kwargs)
    if isinstance(s, tuple):
        return builtin_method(I, getattr(list(s), name), args, kwargs)
    if isinstance(s, type) and name == 'fromkeys':
        return f(*args, **kwargs)
    return I.native(f, args, kwargs)


# ------------------------------------------------------------------------------------------------------------ builtins

@model(len)
def b_len(I, x):
    if isinstance(x, Arr):
        return Q.length(x.parts)
    if isinstance(x, Arr2):
        return x.rows[1] if x.rows[0] == 'f' else Q.length(Q.parts_of_axis(x.rows, [0]))
    if isinstance(x, (list, tuple)):
        I.read_list(x)
        return Q.length(x)
    if hasattr(type(x), '_pv_len'):
        return x._pv_len(I)
    if isinstance(x, Term):
        raise TypeError("object of type 'float' has no len()")
    return len(x)


def _len_concrete(I, x):
    if isinstance(x, list):
        I.read_list(x)
    from .interp import _class_attr, in_repo
    l = _class_attr(type(x), '__len__')
    if isinstance(l, types.FunctionType) and in_repo(l):
        return I.call(l, [x], {})
    return b_len(I, x)


_len_concrete.always = True
TABLE[len] = _len_concrete


@model(range)
def b_range(I, *a):
    if not isym(a):
        return range(*a)
    if len(a) == 1:
        n = a[0]
        v = I.ctx.fresh('i', 'I')
        return new(I, [Comp(v, n, True, [v])])
    if len(a) == 2:
        v = I.ctx.fresh('i', 'I')
        return new(I, [Comp(v, T.sub(a[1], a[0]), True, [T.add(a[0], v)])])
    raise Unsupported('range with symbolic step')


@model(enumerate)
def b_enumerate(I, x, start=0):
    parts = Q.simplify(I.iter_parts(x))
    return new(I, enum_parts(parts, start))


def enum_parts(parts, start):
    out = []
    k = start
    for p in parts:
        if isinstance(p, Comp):
            v, p = Q.rename(p)
            if p.var is not None and p.guard is True and len(p.items) == 1 and not isinstance(p.items[0], Comp):
                out.append(Comp(p.var, p.n, True, [(T.add(k, p.var), p.items[0])]))
                k = T.add(k, p.n)
            elif p.var is not None and len(p.items) == 1 and not isinstance(p.items[0], Comp):
                # position inside a filtered sequence: count of earlier selected indices
                w = CURRENT[0].ctx.fresh('i', 'I')
                cnt = T.sum_over([(w, p.var, T.subst(p.guard, {p.var.args[0]: w}))], 1)
                out.append(Comp(p.var, p.n, p.guard, [(T.add(k, cnt), p.items[0])]))
                k = T.add(k, Q.length([p]))
            else:
                raise Unsupported('enumerate over an irregular sequence')
        else:
            out.append((k, p))
            k = T.add(k, 1)
    return out


def unzip(I, parts):
    """zip(*parts) for a sequence of equally long tuples: the columns"""
    leaf = Q.first_leaf(parts)
    if not isinstance(leaf, (tuple, list)):
        raise Unsupported('zip(*seq) of non-tuples')
    m = len(leaf)
    return new(I, [new(I, Q.pmap(lambda t, j=j: t[j], parts)) for j in range(m)])


@model(zip)
def b_zip(I, *seqs):
    if not seqs:
        return []
    ps = [Q.simplify(I.iter_parts(s)) for s in seqs]
    if not any(Q.has_comp(p) for p in ps):
        return new(I, [tuple(t) for t in zip(*ps)])
    cur = Q.pmap(lambda x: (x,), ps[0])
    for p in ps[1:]:
        cur = Q.zip_parts(lambda t, y: t + (y,), cur, p)
    return new(I, cur)


@model(map)
def b_map(I, f, *seqs):
    if len(seqs) > 1:
        seq = b_zip(I, *seqs)
    else:
        seq = [(x,) for x in I.iter_parts(seqs[0])] if not Q.has_comp(I.iter_parts(seqs[0])) else \
            Q.pmap(lambda x: (x,), I.iter_parts(seqs[0]))
    if not Q.has_comp(seq):
        return new(I, [I.call(f, list(t), {}) for t in seq])
    out = new(I, [])

    def body(t):
        I.touch_list(out, appending=True)
        out.append(I.call(f, list(t), {}))
    from .interp import Env
    I.run_loop(seq, body, [], Env(None, {}, '<map>'))
    return out


b_map_always = TABLE[map]
b_map_always.always = True


@model(filter, always=True)
def b_filter(I, f, seq):
    out = new(I, [])

    def body(t):
        if I.test(I.call(f, [t], {}) if f is not None else t):
            I.touch_list(out, appending=True)
            out.append(t)
    from .interp import Env
    I.run_loop(Q.simplify(I.iter_parts(seq)), body, [], Env(None, {}, '<filter>'))
    return out


@model(reversed)
def b_reversed(I, x):
    p = I.iter_parts(x)
    if Q.has_comp(p):
        raise Unsupported('reversed of symbolic sequence')
    return new(I, list(reversed(p)))


@model(sorted)
def b_sorted(I, x, **k):
    raise Unsupported('sorted of symbolic values')


@model(list)
def b_list(I, x=()):
    if isinstance(x, dict):
        return new(I, list(x))
    return new(I, list(I.iter_parts(x)))


def _list_always(I, x=()):
    if isinstance(x, dict):
        return new(I, list(x))
    return new(I, list(I.iter_parts(x)))


_list_always.always = True
TABLE[list] = _list_always


def _dict_always(I, *a, **k):
    return new(I, dict(*a, **k))


_dict_always.always = True
TABLE[dict] = _dict_always


@model(tuple)
def b_tuple(I, x=()):
    return tuple(I.iter_parts(x))


@model(set, frozenset)
def b_set(I, x=()):
    return SymSet(I.iter_parts(x))


@model(sum)
def b_sum(I, x, start=0):
    return T.add(Q.total(I.iter_parts(x)), start)


@model(any)
def b_any(I, x):
    return Q.exists(I.iter_parts(x), lambda v: I.truth(v))


@model(all)
def b_all(I, x):
    return T.neg(Q.exists(I.iter_parts(x), lambda v: T.neg(I.truth(v))))


def _minmax(I, f, args, name, default=None):
    if len(args) == 1:
        parts = I.iter_parts(args[0])
        if Q.has_comp(parts):
            return extremum(I, parts, name)
        args = parts
        if not args:
            raise ValueError('%s() arg is an empty sequence' % name)
    r = args[0]
    for a in args[1:]:
        r = f(r, a)
    return r


def named_value(I, name, parts, sort):
    """a value determined by a sequence, named after it (so that equal sequences give the same value)"""
    deps = list(I.ctx.loopvars)
    m = {v.args[0]: T.var('@l%d' % j, 'I') for j, v in enumerate(deps)}
    key = '%s!%s' % (name, fingerprint(Q.subst_val(list(parts), m) if m else parts))
    return T.app(key, deps, sort) if deps else T.var(key, sort)


def extremum(I, parts, name):
    """max/min of a symbolic sequence: a fresh value characterised by its defining property"""
    ne = Q.nonempty(parts)
    if isinstance(ne, Term):
        ne = I.ctx.branch(ne)
    if not ne:
        raise ValueError('%s of an empty sequence' % name)
    m = named_value(I, name, parts, 'R')
    cmp = (lambda y: T.lt(m, y)) if name == 'max' else (lambda y: T.lt(y, m))
    I.ctx.assume(T.neg(Q.exists(parts, cmp)))
    I.ctx.assume(Q.exists(parts, lambda y: T.eq(y, m)))
    return m


@model(min)
def b_min(I, *args, **k):
    if k:
        raise Unsupported('min with key')
    # python's min keeps the first minimal element
    return _minmax(I, lambda a, b: T.ite(T.lt(b, a), b, a), args, 'min')


@model(max)
def b_max(I, *args, **k):
    if k:
        raise Unsupported('max with key')
    return _minmax(I, lambda a, b: T.ite(T.lt(a, b), b, a), args, 'max')


@model(abs, np.abs, np.absolute, np.fabs)
def b_abs(I, x):
    return Q.ew1(T.absv, x)


@model(float, np.float64)
def b_float(I, x=0.0):
    if isinstance(x, Term):
        return T.as_num(x)
    if isinstance(x, Arr):
        if len(x.parts) == 1 and not Q.has_comp(x.parts):
            return x.parts[0]
        raise TypeError('only length-1 arrays can be converted to Python scalars')
    return float(x)


@model(int, np.int64)
def b_int(I, x=0):
    if isinstance(x, Term):
        return T.trunc(T.as_num(x))
    if isinstance(x, Arr) and len(x.parts) == 1 and not Q.has_comp(x.parts):
        return T.trunc(T.as_num(x.parts[0]))
    raise Unsupported('int()')


@model(bool, np.bool_)
def b_bool(I, x=False):
    return I.truth(x)


@model(str, repr)
def b_str(I, x=''):
    if isinstance(x, Term) and x.sort == 'O':
        return x
    return '<symbolic>'


@model(round, np.round, np.around)
def b_round(I, x, ndigits=0, decimals=None):
    nd = decimals if decimals is not None else (0 if ndigits is None else ndigits)
    return Q.ew1(lambda v: T.roundv(v, nd), x)


@model(divmod)
def b_divmod(I, a, b):
    q = T.floor(T.div(a, b))
    return q, T.sub(a, T.mul(b, q))


@model(pow, np.power, np.float_power)
def b_pow(I, a, b):
    return Q.ew2(T.power, a, b)


@model(print, always=True)
def b_print(I, *a, **k):
    I.ctx.notes.append('print')
    return None


@model(isinstance, always=True)
def b_isinstance(I, x, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(x, Term):
        import numbers
        for k in cs:
            if x.sort == 'R' and (k in (float, np.floating, np.float64, numbers.Number, numbers.Real, np.number)):
                return True
            if x.sort == 'I' and (k in (int, np.integer, np.int64, numbers.Number, numbers.Integral, numbers.Real)):
                return True
            if x.sort == 'B' and k in (bool, np.bool_, int):
                return True
            if x.sort == 'O' and k is str:
                return True
        return False
    if isinstance(x, (Arr, Arr2)):
        return any(k in (np.ndarray,) for k in cs)
    if hasattr(type(x), '_pv_class'):
        kl = x._pv_class()
        return any(isinstance(k, type) and issubclass(kl, k) for k in cs)
    return isinstance(x, c)


@model(callable, always=True)
def b_callable(I, x):
    if isinstance(x, (Term, Arr, Arr2)):
        return False
    return callable(x)


@model(hasattr, always=True)
def b_hasattr(I, x, n):
    if hasattr(type(x), '_pv_hasattr'):
        return x._pv_hasattr(n)
    try:
        I.getattr(x, n)
        return True
    except AttributeError:
        return False


@model(getattr, always=True)
def b_getattr(I, x, n, *d):
    if hasattr(type(x), '_pv_hasattr') and d and not x._pv_hasattr(n):
        return d[0]
    try:
        return I.getattr(x, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(setattr, always=True)
def b_setattr(I, x, n, v):
    I.set_attr(x, n, v)


@model(delattr, always=True)
def b_delattr(I, x, n):
    I.del_attr(x, n)


@model(type)
def b_type(I, x):
    if isinstance(x, Term):
        return {'R': float, 'I': int, 'B': bool, 'O': str}[x.sort]
    if isinstance(x, (Arr, Arr2)):
        return np.ndarray
    if hasattr(type(x), '_pv_class'):
        return x._pv_class()
    return type(x)


def _type_always(I, *a):
    if len(a) != 1:
        raise Unsupported('dynamic class creation')
    return b_type(I, *a)


_type_always.always = True
TABLE[type] = _type_always


@model(id, always=True)
def b_id(I, x):
    return id(x)


@model(next, iter, vars, hash)
def b_unsup(I, *a):
    raise Unsupported('builtin on symbolic value')


def _deepcopy(I, x, memo=None):
    return new(I, copy.deepcopy(x))


def _copy(I, x):
    if isinstance(x, list):
        I.read_list(x)
        return new(I, list(x))
    if isinstance(x, dict):
        return new(I, dict(x))
    if isinstance(x, (Term,)):
        return x
    if isinstance(x, Arr):
        return new(I, Arr(x.parts))
    return new(I, copy.copy(x))


_deepcopy.always = True
_copy.always = True
TABLE[copy.deepcopy] = _deepcopy
TABLE[copy.copy] = _copy


# --------------------------------------------------------------------------------------------------------------- numpy

for _n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'arccos', 'arcsinh',
           'arccosh'):
    def _mk(fn):
        return lambda I, x, **k: Q.ew1(fn, x)
    _g = _mk(getattr(T, _n))
    _g.always = False
    TABLE[getattr(np, _n)] = _g
    if hasattr(math, _n):
        TABLE[getattr(math, _n)] = _g


@model(np.arctanh)
def np_arctanh(I, x):
    return Q.ew1(lambda v: T.mul(0.5, T.log(T.div(T.add(1, v), T.sub(1, v)))), x)


@model(np.log2)
def np_log2(I, x):
    return Q.ew1(lambda v: T.div(T.log(v), math.log(2)), x)


@model(np.log1p)
def np_log1p(I, x):
    return Q.ew1(lambda v: T.log(T.add(1, v)), x)


@model(np.expm1)
def np_expm1(I, x):
    return Q.ew1(lambda v: T.sub(T.exp(v), 1), x)


@model(np.sqrt, math.sqrt)
def np_sqrt(I, x):
    return Q.ew1(T.sqrt, x)


@model(np.cbrt)
def np_cbrt(I, x):
    from fractions import Fraction
    return Q.ew1(lambda v: T.power(v, Fraction(1, 3)), x)


@model(np.square)
def np_square(I, x):
    return Q.ew1(lambda v: T.mul(v, v), x)


@model(np.sign)
def np_sign(I, x):
    return Q.ew1(lambda v: T.ite(T.lt(0, v), 1.0, T.ite(T.lt(v, 0), -1.0, 0.0)), x)


@model(np.floor, math.floor)
def np_floor(I, x):
    return Q.ew1(T.floor, x)


@model(np.ceil, math.ceil)
def np_ceil(I, x):
    return Q.ew1(lambda v: T.mul(-1, T.floor(T.mul(-1, v))), x)


@model(np.trunc)
def np_trunc(I, x):
    return Q.ew1(T.trunc, x)


@model(np.hypot, math.hypot)
def np_hypot(I, a, b):
    return Q.ew2(lambda x, y: T.sqrt(T.add(T.mul(x, x), T.mul(y, y))), a, b)


@model(np.arctan2, math.atan2)
def np_arctan2(I, a, b):
    return Q.ew2(lambda x, y: T.app('arctan2', [T.as_num(x), T.as_num(y)]), a, b)


for _np_f, _tf in ((np.add, T.add), (np.subtract, T.sub), (np.multiply, T.mul), (np.divide, T.div),
                   (np.logical_and, T.conj), (np.logical_or, T.disj), (np.less, T.lt), (np.less_equal, T.le),
                   (np.equal, T.eq), (np.bitwise_and, T.conj), (np.bitwise_or, T.disj)):
    def _mk2(fn):
        return lambda I, a, b, **k: Q.ew2(fn, a, b)
    _g = _mk2(_tf)
    _g.always = False
    TABLE[_np_f] = _g


@model(np.greater)
def np_greater(I, a, b):
    return Q.ew2(lambda x, y: T.lt(y, x), a, b)


@model(np.greater_equal)
def np_greater_equal(I, a, b):
    return Q.ew2(lambda x, y: T.le(y, x), a, b)


@model(np.not_equal)
def np_not_equal(I, a, b):
    return Q.ew2(lambda x, y: T.neg(T.eq(x, y)), a, b)


@model(np.logical_not, np.invert)
def np_logical_not(I, a):
    return Q.ew1(lambda x: T.neg(T.truth(x)), a)


@model(np.minimum)
def np_minimum(I, a, b):
    return Q.ew2(T.minv, a, b)


@model(np.maximum)
def np_maximum(I, a, b):
    return Q.ew2(T.maxv, a, b)


@model(np.clip)
def np_clip(I, x, a_min=None, a_max=None, **k):
    r = x
    if a_min is not None:
        r = Q.ew2(T.maxv, r, a_min)
    if a_max is not None:
        r = Q.ew2(T.minv, r, a_max)
    return r


@model(np.isfinite)
def np_isfinite(I, x):
    return Q.ew1(lambda v: True, x)


@model(np.isnan, np.isinf)
def np_isnan(I, x):
    return Q.ew1(lambda v: False, x)


@model(np.deg2rad, np.radians)
def np_deg2rad(I, x):
    return Q.ew1(lambda v: T.mul(math.pi / 180.0, v), x)


def _dtype_map(I, x, dtype):
    if dtype is None:
        return x
    return Q.ew1(lambda v: to_type(I, v, dtype), x)


@model(np.array, np.asarray, np.asanyarray)
def np_array(I, x, dtype=None, **k):
    if isinstance(x, Term) or T.is_num(x):
        return _dtype_map(I, x, dtype)
    if isinstance(x, (Arr, Arr2)):
        return _dtype_map(I, Arr(x.parts) if isinstance(x, Arr) else x, dtype)
    if isinstance(x, (list, tuple)):
        I.read_list(x)
        leaf = Q.first_leaf(x)
        if isinstance(leaf, (list, tuple, Arr, np.ndarray)):
            return _dtype_map(I, rows_to_arr2(I, x), dtype)
        return new(I, _dtype_map(I, Arr(list(x)), dtype))
    if isinstance(x, np.ndarray):
        return x
    raise Unsupported('np.array of %s' % type(x).__name__)


def rows_to_arr2(I, rows):
    """sequence of equally shaped 1-D sequences -> Arr2"""
    rows = Q.simplify(list(rows))
    if not Q.has_comp(rows):
        axes = []
        vals = []
        for r in rows:
            ax, leaves = Q.axis_of(Q.as_parts(r))
            axes.append(ax)
            vals.append(leaves)
        ax0 = axes[0]
        out = [vals[0]]
        for ax, v in zip(axes[1:], vals[1:]):
            a, m = Q.unify_axis(ax0, ax)
            out.append([Q.subst_val(q, m) for q in v])
        return Arr2(('f', len(rows)), ax0, out)
    if len(rows) == 1:
        rax, leaf = Q.axis_of(rows)
        cax, leaves = Q.axis_of(Q.as_parts(leaf[0]))
        if cax[0] == 'g':
            bound = [c.var.args[0] for c in rax[1] if c.var is not None]
            for c in cax[1]:
                for t in (c.n, c.guard):
                    if isinstance(t, Term) and any(b in t.fv for b in bound):
                        raise Unsupported('ragged 2-D array')
        return Arr2(rax, cax, [leaves])
    raise Unsupported('2-D array from concatenated rows')


@model(np.column_stack)
def np_column_stack(I, rows):
    a = rows_to_arr2(I, I.iter_parts(rows))
    return sym_attr(I, a, 'T')


@model(np.vstack, np.stack)
def np_vstack(I, rows, axis=0):
    a = rows_to_arr2(I, I.iter_parts(rows))
    if axis in (1, -1):
        return sym_attr(I, a, 'T')
    return a


@model(np.atleast_1d)
def np_atleast_1d(I, x):
    if isinstance(x, (Arr, Arr2, np.ndarray)):
        return x
    if isinstance(x, (list, tuple)):
        return np_array(I, x)
    return Arr([x])


@model(np.squeeze, np.ravel)
def np_squeeze(I, x):
    if isinstance(x, Arr) and len(x.parts) == 1 and not Q.has_comp(x.parts):
        return x.parts[0]
    return x


@model(np.ndim)
def np_ndim(I, x):
    if isinstance(x, (Term,)):
        return 0
    if isinstance(x, Arr2):
        return 2
    if isinstance(x, (Arr, list, tuple)):
        return 1
    return np.ndim(x)


@model(np.isscalar)
def np_isscalar(I, x):
    return isinstance(x, Term) or np.isscalar(x)


@model(np.size)
def np_size(I, x):
    return b_len(I, x) if Q.is_seq(x) else 1


@model(np.shape)
def np_shape(I, x):
    return sym_attr(I, x if not isinstance(x, (list, tuple)) else np_array(I, x), 'shape')


def _const_arr(I, shape, c):
    if isinstance(shape, tuple):
        if len(shape) == 1:
            shape = shape[0]
        else:
            raise Unsupported('symbolic 2-D shape')
    v = I.ctx.fresh('i', 'I')
    return new(I, Arr([Comp(v, shape, True, [c])]))


@model(np.zeros, np.empty, always=True)
def np_zeros(I, shape, dtype=float, **k):
    if not isym(shape):
        # a short vector of known length: as a symbolic array, so that symbolic values may be stored in it
        n = shape[0] if isinstance(shape, tuple) and len(shape) == 1 else shape
        if isinstance(n, (int, np.integer)) and not isinstance(n, bool) and 0 < n <= 8 and dtype is float and not k:
            return new(I, Arr([0.0] * int(n)))
        return new(I, np.zeros(shape, dtype, **k))
    return _const_arr(I, shape, _tc(0.0, dtype))




@model(np.ones)
def np_ones(I, shape, dtype=float, **k):
    return _const_arr(I, shape, _tc(1.0, dtype))


def _tc(c, dtype):
    if dtype in (bool, np.bool_):
        return bool(c)
    if dtype in (int, np.int64):
        return int(c)
    return c


@model(np.full)
def np_full(I, shape, v, dtype=None, **k):
    if isinstance(shape, (int, tuple)) and not isym(shape):
        n = shape if isinstance(shape, int) else shape[0]
        if isinstance(shape, tuple) and len(shape) > 1:
            raise Unsupported('np.full of a 2-D shape')
        if Q.is_seq(v):
            if b_len(I, v) == n:
                return np_array(I, v)
            raise Unsupported('np.full broadcasts a sequence')
        return new(I, Arr([v] * n))
    if Q.is_seq(v):
        raise Unsupported('np.full broadcasts a sequence')
    return _const_arr(I, shape, v)


@model(np.zeros_like, np.empty_like)
def np_zeros_like(I, x, dtype=None, **k):
    return new(I, Q.ew1(lambda v: _tc(0.0, dtype), x))


@model(np.ones_like)
def np_ones_like(I, x, dtype=None, **k):
    return new(I, Q.ew1(lambda v: _tc(1.0, dtype), x))


@model(np.full_like)
def np_full_like(I, x, c, **k):
    return new(I, Q.ew1(lambda v: c, x))


@model(np.where)
def np_where(I, c, *ab):
    if ab:
        a, b = ab
        if not Q.is_seq(c):
            c = T.truth(c)
            if not Q.is_seq(a) and not Q.is_seq(b):
                return T.ite(c, a, b)
            return Q.ew2(lambda x, y: T.ite(c, x, y), a, b)
        pr = Q.ew2(lambda x, y: (x, y), a, b)
        return Q.ew2(lambda g, xy: T.ite(T.truth(g), xy[0], xy[1]), c, _box(pr))
    parts = Q.simplify(Q.as_parts(c))
    return (new(I, Arr(where_parts(parts))),)


def _box(pr):
    return pr if Q.is_seq(pr) and not isinstance(pr, tuple) else Box(pr)


class Box(object):
    """a pair treated as one scalar in an elementwise operation"""

    def __init__(self, p): self.p = p
    def __getitem__(self, i): return self.p[i]

    def _pv_subst(self, m, memo):
        q = tuple(Q.subst_val(x, m) for x in self.p)
        return self if all(a is b for a, b in zip(q, self.p)) else Box(q)


@model(np.nonzero, np.flatnonzero, np.argwhere)
def np_nonzero(I, c):
    raise Unsupported('nonzero')


def _flatnonzero(I, c):
    return np_where(I, c)[0]


_flatnonzero.always = False
TABLE[np.flatnonzero] = _flatnonzero


def _nonzero(I, c):
    return np_where(I, c)


_nonzero.always = False
TABLE[np.nonzero] = _nonzero


def where_parts(parts):
    en = enum_parts(parts, 0)
    out = []

    def rec(ps):
        r = []
        for p in ps:
            if isinstance(p, Comp):
                r.append(Comp(p.var, p.n, p.guard, rec(p.items)))
            else:
                i, c = p
                c = T.truth(c)
                if c is True:
                    r.append(i)
                elif c is not False:
                    r.append(Comp(None, None, c, [i]))
        return r
    return Q.simplify(rec(en))


@model(np.any)
def np_any(I, x, axis=None, **k):
    if isinstance(x, Arr2):
        if axis is None:
            return np_any(I, Q.reduce_axis(x, 1, 'any'))
        return Q.reduce_axis(x, axis, 'any')
    if not Q.is_seq(x):
        return T.truth(x)
    return Q.exists(Q.as_parts(x), T.truth)


@model(np.all)
def np_all(I, x, axis=None, **k):
    if isinstance(x, Arr2):
        if axis is None:
            return np_all(I, Q.reduce_axis(x, 1, 'all'))
        return Q.reduce_axis(x, axis, 'all')
    if not Q.is_seq(x):
        return T.truth(x)
    return T.neg(Q.exists(Q.as_parts(x), lambda v: T.neg(T.truth(v))))


@model(np.sum, np.nansum)
def np_sum(I, x, axis=None, **k):
    if isinstance(x, Arr2):
        if axis is None:
            return np_sum(I, Q.reduce_axis(x, 1, 'sum'))
        return Q.reduce_axis(x, axis, 'sum')
    if not Q.is_seq(x):
        return x
    s = Q.total(Q.as_parts(x))
    return s


@model(np.count_nonzero)
def np_count_nonzero(I, x):
    return Q.total(Q.as_parts(x), lambda v: T.ite(T.truth(v), 1, 0))


@model(np.mean)
def np_mean(I, x, axis=None, **k):
    if isinstance(x, Arr2):
        raise Unsupported('mean of 2-D')
    p = Q.as_parts(x)
    return T.div(Q.total(p), Q.length(p))


@model(np.prod)
def np_prod(I, x, **k):
    p = Q.as_parts(x)
    if Q.has_comp(p):
        raise Unsupported('product over symbolic sequence')
    r = 1
    for v in p:
        r = T.mul(r, v)
    return r


@model(np.max, np.amax)
def np_max(I, x, axis=None, **k):
    p = Q.as_parts(x)
    if Q.has_comp(p):
        return extremum(I, p, 'max')
    r = p[0]
    for v in p[1:]:
        r = T.maxv(r, v)
    return r


@model(np.min, np.amin)
def np_min(I, x, axis=None, **k):
    p = Q.as_parts(x)
    if Q.has_comp(p):
        return extremum(I, p, 'min')
    r = p[0]
    for v in p[1:]:
        r = T.minv(r, v)
    return r


def _argext(sign):
    def f(I, x, **k):
        p = Q.as_parts(x)
        if Q.has_comp(p):
            # the first extremal position, by its defining property
            p = Q.simplify(p)
            if k or len(p) != 1 or not _plain(p[0]):
                raise Unsupported('argmin/argmax of an irregular sequence')
            n = p[0].n
            c = T.lt(0, n)
            if not (I.ctx.branch(c) if isinstance(c, Term) else c):
                raise ValueError('attempt to get argmin of an empty sequence')
            i = named_value(I, 'argmin' if sign < 0 else 'argmax', p, 'I')
            at = elem_at(I, p[0], i)
            _, q = Q.rename(p[0])
            v = q.items[0]
            better = T.lt(v, at) if sign < 0 else T.lt(at, v)
            I.ctx.assume(T.conj(T.le(0, i), T.lt(i, n)))
            I.ctx.assume(T.neg(T.exists_over([(q.var, n, True)], better)))
            I.ctx.assume(T.neg(T.exists_over([(q.var, i, True)], T.eq(v, at))))
            return i
        best, bi = p[0], 0
        for i, v in enumerate(p[1:], 1):
            c = T.lt(v, best) if sign < 0 else T.lt(best, v)
            if isinstance(c, Term):
                c = I.ctx.branch(c)
            if c:
                best, bi = v, i
        return bi
    f.always = False
    return f


TABLE[np.argmin] = _argext(-1)
TABLE[np.argmax] = _argext(1)


@model(np.append)
def np_append(I, a, b, axis=None):
    if axis is not None:
        raise Unsupported('np.append axis')
    pa = Q.as_parts(a) if Q.is_seq(a) else [a]
    pb = Q.as_parts(b) if Q.is_seq(b) else [b]
    I.read_list(a)
    I.read_list(b)
    return new(I, Arr(pa + pb))


@model(np.concatenate, np.hstack)
def np_concatenate(I, xs, axis=0, **k):
    out = []
    parts = I.iter_parts(xs)
    if Q.has_comp(parts):
        def rec(ps):
            r = []
            for p in ps:
                if isinstance(p, Comp):
                    v, p = Q.rename(p)
                    r.append(Comp(p.var, p.n, p.guard, rec(p.items)))
                else:
                    r.extend(Q.as_parts(p))
            return r
        return new(I, Arr(rec(parts)))
    for x in parts:
        if isinstance(x, Arr2):
            raise Unsupported('concatenate 2-D')
        out += Q.as_parts(x)
    return new(I, Arr(out))


@model(np.dot, np.inner)
def np_dot(I, a, b):
    if isinstance(a, Arr2) or isinstance(b, Arr2):
        return np_matmul(I, a, b)
    if isinstance(a, np.ndarray) and a.ndim == 2 or isinstance(b, np.ndarray) and b.ndim == 2:
        return np_matmul(I, a, b)
    return Q.total(Q.ew2(T.mul, a, b).parts)


@model(np.matmul)
def np_matmul(I, a, b):
    if isinstance(b, Arr2) and not isinstance(a, Arr2) and np.ndim(a) == 1:
        if b.rows[0] != 'f' or Q.has_comp(Q.as_parts(a)):
            raise Unsupported('matmul')
        v = Q.as_parts(a)
        if len(v) != b.rows[1]:
            raise ValueError('shapes not aligned')
        out = None
        for x, row in zip(v, b.val):
            t = [T.mul(x, y) for y in row]
            out = t if out is None else [T.add(p, q) for p, q in zip(out, t)]
        return new(I, Arr(Q.parts_of_axis(b.cols, out)))
    A = [list(r) for r in (a if isinstance(a, np.ndarray) else Q.to2(a).val)]
    if isinstance(b, Arr) or (isinstance(b, np.ndarray) and b.ndim == 1):
        B = Q.as_parts(b)
        out = []
        for r in A:
            s = 0
            for x, y in zip(r, B):
                s = T.add(s, T.mul(x, y))
            out.append(s)
        return new(I, Arr(out))
    raise Unsupported('matmul')


@model(np.linalg.norm)
def np_norm(I, x, axis=None, **k):
    if isinstance(x, (list, tuple)) and axis is not None:
        x = np_array(I, x)
    if isinstance(x, Arr2) and axis in (0, -2) and x.rows[0] == 'f' and not k:
        out = None
        for row in x.val:
            t = [T.mul(y, y) for y in row]
            out = t if out is None else [T.add(p, q) for p, q in zip(out, t)]
        return new(I, Arr(Q.parts_of_axis(x.cols, [T.sqrt(t) for t in out])))
    if axis not in (None, 0, -1) or k or isinstance(x, Arr2):
        raise Unsupported('norm axis')
    return T.sqrt(Q.total(Q.ew1(lambda v: T.mul(v, v), x).parts))


@model(np.intersect1d)
def np_intersect1d(I, a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise Unsupported('intersect1d indices')
    pa, pb = Q.simplify(Q.as_parts(a)), Q.simplify(Q.as_parts(b))
    if not pa or not pb:
        return new(I, Arr([]))
    p, x = _simple(pa)
    q, y = _simple(pb)
    if x is not p.var or y is not q.var or not Q._same_scalar(p.n, q.n):
        raise Unsupported('intersect1d of general arrays')
    m = {q.var.args[0]: p.var}
    return new(I, Arr([Comp(p.var, p.n, T.conj(p.guard, T.subst(q.guard, m)), [p.var])]))


@model(np.isin)
def np_isin(I, a, b, **k):
    pb = Q.as_parts(b)
    return Q.ew1(lambda v: Q.exists(pb, lambda y: T.eq(v, y)), a)


@model(np.searchsorted)
def np_searchsorted(I, a, v, side='left', sorter=None):
    if side != 'left' or sorter is not None:
        raise Unsupported('searchsorted')
    pa, pv = Q.simplify(Q.as_parts(a)), Q.simplify(Q.as_parts(v) if Q.is_seq(v) else [v])
    if not pv:
        return new(I, Arr([]))
    if not Q.has_comp(pa) and not Q.has_comp(pv):
        # insertion position in a sorted fixed-length array: number of entries strictly smaller (array assumed sorted)
        def pos(x):
            s = 0
            for e in pa:
                s = T.add(s, T.ite(T.lt(e, x), 1, 0))
            return s
        return Arr([pos(x) for x in pv]) if Q.is_seq(v) else pos(pv[0])
    p, x = _simple(pa)
    q, y = _simple(pv)
    if x is not p.var or y is not q.var or not Q._same_scalar(p.n, q.n):
        raise Unsupported('searchsorted of general arrays')
    # every searched index must be present
    m = {p.var.args[0]: q.var}
    hy = I.ctx.pc() + [T.le(0, q.var), T.lt(q.var, q.n)]
    if isinstance(q.guard, Term):
        hy = hy + [q.guard]
    if S.prove(hy, T.subst(p.guard, m), timeout=2.0).status != 'proved':
        raise Unsupported('searchsorted: searched indices are not a subset')
    return new(I, Arr([Comp(q.var, q.n, q.guard, [RankIdx(p.n, p.var, T.const(p.guard), q.var)])]))


class SortedUnique(object):
    pass


@model(np.unique)
def np_unique(I, x, **k):
    if k:
        raise Unsupported('unique with options')
    return new(I, unique_arr(I, Q.as_parts(x)))


UNIQ = {}


def unique_arr(I, parts):
    """sorted distinct values of a sequence: a fresh array u[0..nu) with its defining facts:
       strictly increasing; every u[k] is an element; every element is some u[k]"""
    parts = Q.deep_merge(Q.simplify(parts))
    if not parts:
        return Arr([])
    fp = fingerprint(parts)
    key = 'uniq!%s' % fp
    I.ctx.uniq = getattr(I.ctx, 'uniq', {})
    nu = T.mk('app', (key + '.n', ), 'I')
    v = I.ctx.fresh('i', 'I')
    val = T.app(key, [v], 'R')
    a, b = T.var('ua', 'I'), T.var('ub', 'I')
    if key not in I.ctx.uniq:
        I.ctx.uniq[key] = True
    I.ctx.assume(T.le(0, nu))
    # membership facts, universally quantified
    I.ctx.assume(T.neg(T.exists_over([(a, nu, True)], T.neg(Q.exists(parts, lambda y: T.eq(y, T.app(key, [a], 'R')))))))
    I.ctx.assume(T.neg(Q.exists(parts, lambda y: T.neg(T.exists_over([(b, nu, True)], T.eq(y, T.app(key, [b], 'R')))))))
    I.ctx.assume(T.implies(Q.nonempty(parts), T.lt(0, nu)))
    I.ctx.assume(T.implies(T.lt(0, nu), Q.nonempty(parts)))
    return Arr([Comp(v, nu, True, [val])])


def fingerprint(parts):
    import hashlib
    return hashlib.md5(repr(canon(parts, 0)).encode()).hexdigest()[:10]


def canon(parts, d):
    out = []
    for p in parts:
        if isinstance(p, Comp):
            if p.var is not None:
                c = T.var('@c%d' % d, 'I')
                m = {p.var.args[0]: c}
                out.append(('C', T.show(p.n), T.show(T.subst(p.guard, m)), canon([Q.subst_val(x, m) for x in p.items], d + 1)))
            else:
                out.append(('G', T.show(p.guard), canon(p.items, d)))
        elif isinstance(p, (tuple, list)):
            out.append(('T', canon(list(p), d)))
        else:
            out.append(canon1(p) if isinstance(p, Term) else repr(p))
    return out


def canon1(t):
    """text that is the same for terms with the same normal form"""
    if t.sort == 'R':
        try:
            return repr(sorted(N.key_of(N.nf(t)), key=repr))
        except (N.TooBig, T.Unsupported):
            pass
    return T.show(t)


@model(np.sort)
def np_sort(I, x, **k):
    p = Q.simplify(Q.as_parts(x))
    if not p:
        return Arr([])
    if len(p) == 1 and isinstance(p[0], Comp) and len(p[0].items) == 1 and isinstance(p[0].items[0], Term) \
            and p[0].items[0].op == 'app' and p[0].items[0].args[0].startswith('uniq!') and p[0].guard is True:
        return Arr(p)
    raise Unsupported('sort of symbolic values')


@model(np.linspace)
def np_linspace(I, a, b, num=50, **k):
    if isym(num) or k:
        raise Unsupported('linspace')
    if num == 1:
        return new(I, Arr([a]))
    if num > 128 and (isym(a) or isym(b)):
        v = I.ctx.fresh('i', 'I')
        return new(I, Arr([Comp(v, int(num), True, [T.add(a, T.mul(T.sub(b, a), T.div(v, num - 1)))])]))
    return new(I, Arr([T.add(a, T.mul(T.sub(b, a), i / (num - 1))) if 0 < i < num - 1 else (a if i == 0 else b)
                       for i in range(num)]))


@model(np.arange)
def np_arange(I, *a, **k):
    """start + i*step below stop (step > 0); the number of entries is characterised by its defining property"""
    if not isym(a):
        return np.arange(*a, **k)
    a, b, s = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if k or not (isinstance(s, Term) and S.prove(I.ctx.pc(), T.lt(0, s), timeout=1.0).status == 'proved' or T.is_num(s) and s > 0):
        raise Unsupported('arange with a step of unknown sign')
    v = I.ctx.fresh('i', 'I')
    if all(isinstance(x, int) or isinstance(x, Term) and x.sort == 'I' for x in (a, b)) and s == 1:
        n = T.maxv(0, T.sub(b, a))
        return new(I, Arr([Comp(v, n, True, [T.add(a, v)])]))
    n = T.app('arange_n', [T.as_num(a), T.as_num(b), T.as_num(s)], 'I')
    I.ctx.assume(T.le(0, n))
    I.ctx.assume(T.implies(T.le(b, a), T.eq(n, 0)))
    I.ctx.assume(T.implies(T.lt(a, b), T.conj(T.lt(0, n), T.lt(T.add(a, T.mul(T.sub(n, 1), s)), b), T.le(b, T.add(a, T.mul(n, s))))))
    return new(I, Arr([Comp(v, n, True, [T.add(a, T.mul(v, s))])]))


@model(np.logspace, always=True)
def np_logspace(I, a, b, num=50, **k):
    if not (isym(a) or isym(b) or isym(num) or k):
        if num < 1000:
            return np.logspace(a, b, num)
        v = I.ctx.fresh('i', 'I')
        return new(I, Arr([Comp(v, int(num), True, [T.power(10, T.add(a, T.mul(b - a, T.div(v, num - 1))))])]))
    return Q.ew1(lambda v: T.power(10, v), np_linspace(I, a, b, num, **k))




def _entries(x):
    """number of entries and the entry at a position, of an array or one plain symbolic sequence"""
    p = Q.simplify(Q.as_parts(x))
    if not Q.has_comp(p):
        return len(p), lambda i: p[i]
    if len(p) != 1 or not _plain(p[0]):
        raise Unsupported('irregular sequence')
    c, y = p[0], p[0].items[0]
    return c.n, lambda i: T.subst(y, {c.var.args[0]: i}) if isinstance(y, Term) else y


@model(np.gradient)
def np_gradient(I, f, x, **k):
    """numpy's finite differences on a grid: second order inside, one-sided at the two ends"""
    if k or not Q.is_seq(x):
        raise Unsupported('gradient')
    n, F = _entries(f)
    m, X = _entries(x)
    if T.eq(n, m) is not True:
        raise Unsupported('gradient of arrays of different lengths')

    def inside(i):
        a, b = T.sub(i, 1), T.add(i, 1)
        s, d = T.sub(X(i), X(a)), T.sub(X(b), X(i))
        t = T.add(s, d)
        return T.add(T.add(T.mul(T.sub(0, T.div(d, T.mul(s, t))), F(a)), T.mul(T.div(T.sub(d, s), T.mul(s, d)), F(i))), T.mul(T.div(s, T.mul(d, t)), F(b)))
    one = lambda i, j: T.div(T.sub(F(j), F(i)), T.sub(X(j), X(i)))
    if not isym(n) and not Q.has_comp(Q.as_parts(f)):
        return Arr([one(0, 1)] + [inside(i) for i in range(1, n - 1)] + [one(n - 2, n - 1)])
    v = I.ctx.fresh('i', 'I')
    last = T.sub(n, 1)
    return new(I, Arr([Comp(v, n, True, [T.ite(T.eq(v, 0), one(0, 1), T.ite(T.eq(v, last), one(T.sub(n, 2), last), inside(v)))])]))


@model(np.diff)
def np_diff(I, x):
    p = Q.as_parts(x)
    if Q.has_comp(p):
        raise Unsupported('diff')
    return Arr([T.sub(p[i + 1], p[i]) for i in range(len(p) - 1)])


@model(np.cumsum)
def np_cumsum(I, x, **k):
    p = Q.as_parts(x)
    if Q.has_comp(p):
        p = Q.simplify(p)
        if len(p) != 1 or not _plain(p[0]):
            raise Unsupported('cumsum of an irregular sequence')
        _, q = Q.rename(p[0])
        w = I.ctx.fresh('i', 'I')
        return Arr([Comp(w, q.n, True, [T.sum_over([(q.var, T.add(w, 1), True)], q.items[0])])])
    out, s = [], 0
    for v in p:
        s = T.add(s, v)
        out.append(s)
    return Arr(out)


@model(np.flip)
def np_flip(I, x, **k):
    p = Q.as_parts(x)
    if Q.has_comp(p):
        raise Unsupported('flip')
    return Arr(p[::-1])


@model(np.trapezoid if hasattr(np, 'trapezoid') else None)
def np_trapezoid(I, y, x=None, dx=1.0):
    p = Q.as_parts(y)
    if Q.has_comp(p):
        p = Q.simplify(p)
        if len(p) != 1 or not _plain(p[0]):
            raise Unsupported('trapezoid of an irregular sequence')
        c = p[0]
        if x is None:
            h = dx
        else:
            q = Q.simplify(Q.as_parts(x))
            if len(q) != 1 or not isinstance(q[0], Comp) or not _plain(q[0]) or T.eq(q[0].n, c.n) is not True:
                raise Unsupported('trapezoid of an irregular sequence')
            xv = q[0].items[0]
            at = lambda i: T.subst(xv, {q[0].var.args[0]: i}) if isinstance(xv, Term) else xv
            h = None
        v = I.ctx.fresh('i', 'I')
        yv = c.items[0]
        f = lambda i: T.subst(yv, {c.var.args[0]: i}) if isinstance(yv, Term) else yv
        w = T.sub(at(T.add(v, 1)), at(v)) if h is None else h
        return T.sum_over([(v, T.sub(c.n, 1), True)], T.mul(T.mul(0.5, w), T.add(f(v), f(T.add(v, 1)))))
    xs = Q.as_parts(x) if x is not None else None
    s = 0
    for i in range(len(p) - 1):
        h = T.sub(xs[i + 1], xs[i]) if xs is not None else dx
        s = T.add(s, T.mul(T.mul(0.5, h), T.add(p[i], p[i + 1])))
    return s


@model(np.broadcast_to)
def np_broadcast_to(I, x, shape):
    if isinstance(shape, tuple) and len(shape) == 1:
        shape = shape[0]
    if Q.is_seq(x):
        p = Q.as_parts(x)
        if not Q.has_comp(p) and len(p) == 1:
            x = p[0]
        else:
            return x
    if isinstance(shape, int):
        return Arr([x] * shape)
    return _const_arr(I, shape, x)


@model(np.delete)
def np_delete(I, x, k, **kw):
    raise Unsupported('np.delete')


@model(np.interp)
def np_interp(I, x, xp, fp, left=None, right=None):
    raise Unsupported('np.interp')


# ----------------------------------------------------------------------------------------------------------- randomness

class Draw(object):
    """a recorded random draw. `std` is the standard variate (U on [0,1), Z normal) used in the value; params for others"""

    def __init__(self, dist, std, params, size):
        self.dist, self.std, self.params, self.size = dist, std, params, size

    def __repr__(self):
        return 'Draw(%s,%s,%s)' % (self.dist, self.std, self.params)


BOUNDS = {}      # draw name prefix -> (lo, hi) closed bounds
T_BOUND_APPS = {}


def _draw_scalar(I, dist, sort='R', idx=()):
    c = I.ctx
    c.drawn.add(dist)
    t = c.fresh_dep('%s' % dist, sort, idx)
    return t


def draw_std(I, dist, size, params=(), sort='R', lo=None, hi=None):
    """standard draw; returns scalar Term or Arr, and records it"""
    c = I.ctx

    def bound(t):
        if t.op == 'var':
            if lo is not None:
                c.assume(T.le(lo, t))
            if hi is not None:
                c.assume(T.lt(t, hi) if dist == 'U' else T.le(t, hi))
        else:
            S.APP_BOUNDS[t.args[0]] = (lo, hi, dist == 'U')
        return t
    if isinstance(size, tuple):
        if len(size) == 1:
            size = size[0]
        elif len(size) == 0:
            size = None
        else:
            raise Unsupported('2-D random draw')
    if size is None:
        v = bound(_draw_scalar(I, dist, sort))
    elif not isinstance(size, Term):
        v = new(I, Arr([bound(_draw_scalar(I, dist, sort)) for _ in range(int(size))]))
    else:
        i = c.fresh('i', 'I')
        c.drawn.add(dist)
        name = c.fresh_name(dist)
        t = T.app(name, list(c.loopvars) + [i], sort)
        bound(t)
        v = new(I, Arr([Comp(i, size, True, [t])]))
    d = Draw(dist, v, params, size)
    c.draws.append(d)
    return v




def _size(*a):
    if len(a) == 0:
        return None
    if len(a) == 1:
        return a[0]
    raise Unsupported('multi-dimensional random draw')


@model(np.random.rand, always=True)
def r_rand(I, *size):
    return draw_std(I, 'U', _size(*size), lo=0, hi=1)


@model(np.random.random, np.random.random_sample, np.random.ranf, always=True)
def r_random(I, size=None):
    return draw_std(I, 'U', size, lo=0, hi=1)


def _bsize(I, size, *params):
    """size of a draw with array parameters"""
    if size is not None:
        return size
    for p in params:
        if Q.is_seq(p):
            return b_len(I, p)
    return None


@model(np.random.uniform, always=True)
def r_uniform(I, low=0.0, high=1.0, size=None):
    u = draw_std(I, 'U', _bsize(I, size, low, high), lo=0, hi=1)
    return Q.ew2(T.add, low, Q.ew2(T.mul, Q.ew2(T.sub, high, low), u))


@model(np.random.normal, always=True)
def r_normal(I, loc=0.0, scale=1.0, size=None):
    z = draw_std(I, 'Z', _bsize(I, size, loc, scale))
    return Q.ew2(T.add, loc, Q.ew2(T.mul, scale, z))


@model(np.random.randn, always=True)
def r_randn(I, *size):
    return draw_std(I, 'Z', _size(*size))


@model(np.random.standard_normal, always=True)
def r_stdn(I, size=None):
    return draw_std(I, 'Z', size)


@model(np.random.lognormal, always=True)
def r_lognormal(I, mean=0.0, sigma=1.0, size=None):
    return Q.ew1(T.exp, r_normal(I, mean, sigma, size))


@model(np.random.poisson, always=True)
def r_poisson(I, lam=1.0, size=None):
    return draw_std(I, 'poisson', size, (lam,), 'I', lo=0)


@model(np.random.randint, always=True)
def r_randint(I, low, high=None, size=None, **k):
    if high is None:
        low, high = 0, low
    v = draw_std(I, 'randint', size, (low, high), 'I')
    if isinstance(v, Term):
        I.ctx.assume(T.le(low, v))
        I.ctx.assume(T.lt(v, high))
    return v


@model(np.random.choice, always=True)
def r_choice(I, a, size=None, replace=True, p=None):
    params = ('choice', a, replace, p)
    v = draw_std(I, 'choice', size, params, 'R')
    return v


@model(np.random.shuffle, np.random.permutation, np.random.seed, np.random.multivariate_normal, np.random.exponential,
       np.random.gamma, np.random.beta, np.random.binomial, always=True)
def r_other(I, *a, **k):
    raise Unsupported('random source without a contract')


# ----------------------------------------------------------------------------------------------------------------- scipy

from scipy.integrate import quad as _quad            # noqa: E402
from scipy.interpolate import interp1d as _interp1d, RegularGridInterpolator as _RGI, RectBivariateSpline as _RBS  # noqa
import scipy.stats as _st                             # noqa: E402
import scipy.special as _sp                           # noqa: E402


def at_generic(I, thunk, v):
    """value of thunk() at a generic v: its paths merged by their conditions; conditions free of v split the caller's path"""
    ctx = I.ctx
    for _ in range(6):
        paths, outer = [], None
        for ex, out, trail in ctx.explore(lambda: _outcome(thunk), list(ctx.ex.pc())):
            fresh = {id(r[1]) for r in trail if r[0] == 'new'}
            if any(r[0] not in ('new', 'local') and not (r[0] in ('attr', 'list', 'dict', 'set', 'np', 'arr') and id(r[1]) in fresh)
                   for r in trail):
                raise Unsupported('integrand with side effects')
            for c, val, _ in ex.decisions:
                if isinstance(c, Term) and v.args[0] not in c.fv:
                    outer = outer if outer is not None else c
            if out[1] is not None:
                paths.append((T.conj(*[c if val else T.neg(c) for c, val, _ in ex.decisions]), out[1], True))
            else:
                paths.append((T.conj(*[c if val else T.neg(c) for c, val, _ in ex.decisions]), out[0], False))
        if outer is None:
            break
        ctx.branch(outer)
    else:
        raise Unsupported('integrand: too many outer conditions')
    if any(p[2] for p in paths):
        if len(paths) == 1:
            raise paths[0][1]
        raise Unsupported('integrand raises on some path')
    val = paths[-1][1]
    for c, x, _ in reversed(paths[:-1]):
        val = Q.merge(c, x, val)
    return val


def _outcome(thunk):
    try:
        return thunk(), None
    except Unsupported:
        raise
    except Exception as e:
        return None, e


@model(_quad, always=True)
def s_quad(I, f, a, b, args=(), **k):
    if not isinstance(args, tuple):
        args = (args,)
    if not isym(f) and not isym(a) and not isym(b) and not isym(args) and not _interpretable(f):
        return _quad(f, a, b, args=args, **k)
    v = I.ctx.fresh('q', 'R')
    body = at_generic(I, lambda: I.call(f, [v] + list(args), {}), v)
    if not (isinstance(body, Term) or T.is_num(body)):
        raise Unsupported('integrand')
    if isinstance(body, Term) and v.args[0] in body.fv:
        lamt = T.bind('lam', v, None, True, body)
    else:
        lamt = T.bind('lam', v, None, True, body)
    # quad is linear in its integrand: pull out constant factors
    t = T.app('quad', [lamt, T.as_num(a), T.as_num(b)])
    I.ctx.notes.append('quad')
    return t, T.app('quad_err', [lamt, T.as_num(a), T.as_num(b)])


def _interpretable(f):
    from .interp import in_repo, IFunc
    if isinstance(f, IFunc):
        return True
    if isinstance(f, types.MethodType):
        return in_repo(f.__func__) or isinstance(f.__func__, IFunc)
    return in_repo(f)


class SymInterp(object):
    """interp1d built from symbolic data: a function determined by its nodes. Assumed of the library: at the nodes it returns
    the nodes' values, between them values between the smallest and the largest (linear); arguments are taken to be inside the nodes"""
    _pv_symbolic = True

    def __init__(self, I, x, y, kwargs):
        self.x, self.y, self.kwargs = x, y, kwargs
        xs, ys = Q.simplify(list(Q.as_parts(x))), Q.simplify(list(Q.as_parts(y)))
        self.deps = list(I.ctx.loopvars)
        self.xs = xs
        m = {v.args[0]: T.var('@l%d' % j, 'I') for j, v in enumerate(self.deps)}
        fp = fingerprint([Q.subst_val(xs, m) if m else xs, Q.subst_val(ys, m) if m else ys])
        self.name = 'interp1d!%s!%s' % (fp, '-'.join('%s=%s' % (a, repr(b) if not isym(b) else T.show(T.const(b))) for a, b in sorted(kwargs.items())))
        if kwargs.get('kind', 'linear') == 'linear' and not self.deps and 'fill_value' not in kwargs and Q.has_comp(ys):
            S.APP_BOUNDS[self.name] = (extremum(I, ys, 'min'), extremum(I, ys, 'max'))

    def __call__(self, z):
        if Q.is_seq(z) and fingerprint(Q.simplify(list(Q.as_parts(z)))) == fingerprint(self.xs):
            return Arr(list(Q.as_parts(self.y)))
        return Q.ew1(lambda v: T.app(self.name, self.deps + [v]), z)


@model(_interp1d)
def s_interp1d(I, x, y, **k):
    return SymInterp(I, np_array(I, x) if not isinstance(x, np.ndarray) else x,
                     np_array(I, y) if not isinstance(y, np.ndarray) else y, k)


_objnames = {}


def objname(o, kind):
    r = _objnames.get(id(o))
    if r is None:
        r = ('%s@%d' % (kind, len(_objnames)), o)
        _objnames[id(o)] = r
    return r[0]


def call_object(I, f, args, kwargs):
    """call of an opaque callable object with symbolic arguments"""
    if isinstance(f, SymInterp):
        return f(*args, **kwargs)
    if isinstance(f, BoundModel):
        return f.fn(I, f.obj, *args, **kwargs)
    if not (isym(args) or isym(kwargs)):
        return NotImplemented
    if isinstance(f, _interp1d):
        return interp1d_call(I, f, args[0])
    if isinstance(f, _RGI):
        return rgi_call(I, f, *args, **kwargs)
    if isinstance(f, np.vectorize) or isinstance(f, np.poly1d):
        raise Unsupported('np.vectorize')
    return NotImplemented


def interp1d_call(I, f, z):
    name = objname(f, 'interp1d')
    kind = getattr(f, '_kind', 'linear')
    if name not in S.APP_BOUNDS and kind in ('linear', 'nearest', 'previous', 'next') and not f._extrapolate and np.ndim(f.y) == 1:
        lo, hi = float(np.min(f.y)), float(np.max(f.y))
        if not f.bounds_error and f.fill_value is not None:
            fv = np.ravel(f.fill_value).astype(float)
            lo, hi = min(lo, fv.min()), max(hi, fv.max())
        if np.isfinite([lo, hi]).all():
            w = 1e-12 * max(abs(lo), abs(hi))
            S.APP_BOUNDS[name] = (lo - w, hi + w)
            if lo > w:
                T.POS_APPS.add(name)
    if f.bounds_error and not f._extrapolate:
        lo, hi = float(f.x[0]), float(f.x[-1])
        bad = lambda v: T.disj(T.lt(v, lo), T.lt(hi, v))
        c = Q.exists(Q.as_parts(z), bad) if Q.is_seq(z) else bad(z)
        if c is True or (isinstance(c, Term) and I.ctx.branch(c)):
            raise ValueError('A value in x_new is outside the interpolation range.')
    return Q.ew1(lambda v: T.app(name, [v]), z)


def rgi_call(I, f, xi, **k):
    name = objname(f, 'rgi')
    if isinstance(xi, Arr2):
        a = Q.fresh_axes(xi)
        if a.cols[0] == 'f':
            return Arr(Q.parts_of_axis(a.rows, [T.app(name, r) for r in a.val]))
        if a.rows[0] == 'f':
            raise Unsupported('RGI on transposed points')
    if isinstance(xi, tuple) and any(Q.is_seq(x) for x in xi):
        cur = None
        for x in xi:
            cur = Q.ew1(lambda v: Box((v,)), x) if cur is None else Q.ew2(lambda p, v: Box(p.p + (v,)), cur, x)
        return Q.ew1(lambda b: T.app(name, list(b.p)), cur)
    if isinstance(xi, tuple) and not any(isinstance(x, (list, tuple)) for x in xi):
        return T.app(name, list(xi))          # scipy: a tuple of coordinates returns their (here scalar) shape
    pts = Q.as_parts(xi)
    if pts and isinstance(Q.first_leaf(pts), (list, tuple, Arr)):
        def one(p):
            return T.app(name, list(Q.as_parts(p)))
        return Arr(Q.pmap(one, pts))
    if Q.has_comp(pts):
        raise Unsupported('RGI')
    # scipy: a single point of shape (ndim,) returns a length-1 array
    return Arr([T.app(name, list(pts))])


def _scipy_dist(name, obj):
    def rvs(I, *a, **k):
        size = k.pop('size', None)
        params = tuple(a) + tuple(sorted(k.items()))
        return draw_std(I, name, _bsize(I, size, *a, *k.values()), params)
    rvs.always = True
    return rvs


def truncnorm_rvs(I, a, b, loc=0, scale=1, size=None, **k):
    z = draw_std(I, 'truncnorm', _bsize(I, size, a, b, loc, scale), (a, b))
    for (x, y, w) in [(a, b, z)]:
        if isinstance(w, Term) and w.op == 'var':
            I.ctx.assume(T.le(a, w))
            I.ctx.assume(T.le(w, b))
    return Q.ew2(T.add, loc, Q.ew2(T.mul, scale, z))


truncnorm_rvs.always = True
TABLE[_st.truncnorm.rvs] = truncnorm_rvs


def johnsonsu_rvs(I, a, b, loc=0, scale=1, size=None, **k):
    """X = loc + scale*sinh((Z - a)/b), Z standard normal"""
    z = draw_std(I, 'Z', _bsize(I, size, a, b, loc, scale))
    y = Q.ew1(T.sinh, Q.ew2(T.div, Q.ew2(T.sub, z, a), b))
    return Q.ew2(T.add, loc, Q.ew2(T.mul, scale, y))


johnsonsu_rvs.always = True
TABLE[_st.johnsonsu.rvs] = johnsonsu_rvs


def _sp1(name):
    def f(I, x, *rest, **k):
        if rest:
            cur = Q.ew1(lambda v: Box((v,)), x)
            for r in rest:
                cur = Q.ew2(lambda p, v: Box(p.p + (v,)), cur, r)
            return Q.ew1(lambda b: T.app(name, list(b.p)), cur)
        return Q.ew1(lambda v: T.app(name, [v]), x)
    f.always = False
    return f


for _n in ('ndtr', 'ndtri', 'hyp2f1', 'gamma', 'gammainc', 'erf', 'erfc', 'eval_chebyt'):
    TABLE[getattr(_sp, _n)] = _sp1(_n)
T.POS_APPS.add('ndtr')

import warnings as _w                                 # noqa: E402


def _warn(I, *a, **k):
    return None


_warn.always = True
TABLE[_w.warn] = _warn


@model(np.polyfit)
def np_polyfit(I, x, y, deg, **k):
    """least-squares coefficients: functions of the points and the degree (assumed library contract)"""
    xs, ys = Q.as_parts(x), Q.as_parts(y)
    if Q.has_comp(xs) or Q.has_comp(ys) or k or isym(deg):
        raise Unsupported('polyfit')
    pts = [T.as_num(v) for v in list(xs) + list(ys)]
    return new(I, Arr([T.app('polyfit%d_%d' % (deg, j), pts) for j in range(deg + 1)]))


class Turn(object):
    """rotation by given angles (assumed library contract of scipy.spatial.transform.Rotation)"""
    _pv_symbolic = True

    def __init__(self, m):
        self.m = m

    def apply(self, v, inverse=False):
        if inverse or isinstance(v, Arr2) or Q.has_comp(Q.as_parts(v)):
            raise Unsupported('Rotation.apply')
        v = Q.as_parts(v)
        return Arr([T.add(T.add(T.mul(r[0], v[0]), T.mul(r[1], v[1])), T.mul(r[2], v[2])) for r in self.m])

    def as_matrix(self):
        return rows_to_arr2(CURRENT[0], [Arr(list(r)) for r in self.m])


def _turn(axis, a):
    c, s = T.cos(a), T.sin(a)
    i, j = {'x': (1, 2), 'y': (2, 0), 'z': (0, 1)}[axis]
    m = [[1 if p == q else 0 for q in range(3)] for p in range(3)]
    m[i][i], m[i][j], m[j][i], m[j][j] = c, T.mul(-1, s), s, c
    return m


def _mm(a, b):
    return [[T.add(T.add(T.mul(r[0], b[0][j]), T.mul(r[1], b[1][j])), T.mul(r[2], b[2][j])) for j in range(3)] for r in a]


def rot_euler(I, seq, angles, degrees=False):
    if not isinstance(seq, str) or degrees is not False or not (seq.islower() or seq.isupper()):
        raise Unsupported('Rotation.from_euler')
    angles = list(angles) if isinstance(angles, (list, tuple)) else Q.as_parts(angles) if Q.is_seq(angles) else [angles]
    if len(angles) != len(seq):
        raise Unsupported('Rotation.from_euler')
    out = None
    for axis, a in zip(seq.lower(), angles):
        m = _turn(axis, T.as_num(a)) if isym(a) else [[float(x) for x in r] for r in _Rot.from_euler(axis, a).as_matrix()]
        # lower case: about the fixed axes, later turns on the left; upper case: about the turned axes
        out = m if out is None else (_mm(m, out) if seq.islower() else _mm(out, m))
    return Turn(out)


rot_euler.always = False
from scipy.spatial.transform import Rotation as _Rot   # noqa: E402
TABLE[_Rot.from_euler] = rot_euler
