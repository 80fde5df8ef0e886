"""Symbolic sequences.

A list is an ordinary Python list whose entries are values or `Comp` segments.  A Comp is a flat-map segment

        for var in range(n): if guard: emit items...

(var may be None: a guarded group).  `Arr` is a symbolic 1-D numpy array (same parts), `Arr2` a 2-D one.
"""
import numpy as np

from . import terms as T
from . import smt as S
from .terms import Term, Unsupported


class Comp(object):
    __slots__ = ('var', 'n', 'guard', 'items')

    def __init__(self, var, n, guard, items):
        self.var, self.n, self.guard, self.items = var, n, T.truth(guard), list(items)

    def __repr__(self):
        return 'Comp(%s<%s|%s: %s)' % (self.var, self.n, self.guard, self.items)


class RankIdx(object):
    """index produced by searchsorted(A, B): the position, inside the sub-sequence selected by `mask` of range(n), of
    base index `base`"""
    __slots__ = ('n', 'mvar', 'mask', 'base')

    def __init__(self, n, mvar, mask, base):
        self.n, self.mvar, self.mask, self.base = n, mvar, mask, base


def ctx():
    return T.CTX[0]


class scope(object):
    """facts about the bound element while a function is applied to it"""

    def __init__(self, p, extra=()):
        self.p = p

    def __enter__(self):
        c = self.c = ctx()
        if c is None:
            return
        p = self.p
        fs = []
        if p.var is not None:
            fs = [T.le(0, p.var), T.lt(p.var, p.n)]
        fs.append(p.guard)
        out = []
        for f in fs:
            if isinstance(f, Term):
                out += list(f.args) if f.op == 'and' else [f]
        c.scope.append((p.var.args[0] if p.var is not None else None, out))

    def __exit__(self, *a):
        if self.c is not None:
            self.c.scope.pop()
        return False


def simplify(parts):
    """normalise a parts list: drop impossible groups, splice trivially true groups, merge nested guarded groups"""
    out = []
    for p in parts:
        if isinstance(p, Comp):
            if p.guard is False:
                continue
            items = simplify(p.items)
            if not items:
                continue
            if p.var is None and p.guard is True:
                out.extend(items)
                continue
            if len(items) == 1 and isinstance(items[0], Comp) and items[0].var is None:
                q = items[0]
                out.append(Comp(p.var, p.n, T.conj(p.guard, q.guard), q.items))
                continue
            if len(items) == 1 and p.var is None and isinstance(items[0], Comp):
                q = items[0]
                out.append(Comp(q.var, q.n, T.conj(p.guard, q.guard), q.items))
                continue
            out.append(Comp(p.var, p.n, p.guard, items))
        else:
            out.append(p)
    return out


# -------------------------------------------------------------------------------------------------- substitution on values

def subst_val(v, m, memo=None):
    """substitute variables in an arbitrary value graph; returns the same object when nothing changes"""
    if memo is None:
        memo = {}
    if isinstance(v, Term):
        return T.unconst(T.subst(v, m))
    if v is None or isinstance(v, (int, float, str, bool, bytes, type, np.ndarray, np.generic)):
        return v
    k = id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, Comp):
        inner = {a: b for a, b in m.items() if v.var is None or a != v.var.args[0]}
        r = Comp(v.var, subst_val(v.n, inner, memo), T.subst(v.guard, inner) if isinstance(v.guard, Term) else v.guard,
                 [subst_val(x, inner, memo) for x in v.items])
        if r.n is v.n and r.guard is v.guard and all(a is b for a, b in zip(r.items, v.items)):
            r = v
        memo[k] = (r, v)
        return r
    if isinstance(v, RankIdx):
        return RankIdx(subst_val(v.n, m), v.mvar, T.subst(v.mask, {a: b for a, b in m.items() if a != v.mvar.args[0]}),
                       T.subst(v.base, m))
    if hasattr(v, '_pv_subst'):
        r = v._pv_subst(m, memo)
        memo[k] = (r, v)
        return r
    if isinstance(v, (list, tuple, set, frozenset)):
        new = [subst_val(x, m, memo) for x in v]
        if all(a is b for a, b in zip(new, v)):
            r = v
        else:
            r = type(v)(new) if not hasattr(v, '_fields') else type(v)(*new)
        memo[k] = (r, v)
        return r
    if isinstance(v, dict):
        new = {a: subst_val(b, m, memo) for a, b in v.items()}
        r = v if all(new[a] is v[a] for a in v) else new
        memo[k] = (r, v)
        return r
    d = getattr(v, '__dict__', None)
    if d is None or isinstance(v, type) or callable(v) and not _is_repo_obj(v):
        f = getattr(v, '__func__', None)
        if f is not None and getattr(v, '__self__', None) is not None:
            s = subst_val(v.__self__, m, memo)
            if s is not v.__self__:
                import types
                return types.MethodType(f, s)
        return v
    if not _is_repo_obj(v):
        return v
    memo[k] = (v, v)      # provisional (cycles)
    new = {a: subst_val(b, m, memo) for a, b in d.items()}
    if all(new[a] is d[a] for a in d):
        return v
    r = v.__class__.__new__(v.__class__)
    r.__dict__.update(new)
    memo[k] = (r, v)
    return r


def _is_repo_obj(v):
    mod = type(v).__module__ or ''
    return mod.startswith('pyHalo') or getattr(type(v), '_pv_symbolic', False)


# ------------------------------------------------------------------------------------------------------------ lengths

def has_comp(parts):
    return any(isinstance(p, Comp) for p in parts)


def length(parts):
    n = 0
    for p in parts:
        if isinstance(p, Comp):
            n = T.add(n, _clen(p))
        else:
            n = n + 1
    return n


def _clen(p):
    inner = length(p.items)
    if p.var is None:
        return T.ite(p.guard, inner, 0)
    return T.sum_over([(p.var, p.n, p.guard)], inner)


def nonempty(parts):
    c = False
    for p in parts:
        if isinstance(p, Comp):
            e = T.conj(p.guard, nonempty(p.items))
            if p.var is not None:
                e = T.exists_over([(p.var, p.n, True)], e)
            c = T.disj(c, e)
        else:
            return True
    return c


def exists(parts, pred):
    c = False
    for p in parts:
        if isinstance(p, Comp):
            with scope(p):
                e = T.conj(p.guard, exists(p.items, pred))
            if p.var is not None:
                e = T.exists_over([(p.var, p.n, True)], e)
            c = T.disj(c, e)
        else:
            c = T.disj(c, pred(p))
    return c


def total(parts, f=lambda x: x):
    s = 0
    for p in parts:
        if isinstance(p, Comp):
            with scope(p):
                inner = total(p.items, f)
            if p.var is None:
                s = T.add(s, T.ite(p.guard, inner, 0))
            else:
                s = T.add(s, T.sum_over([(p.var, p.n, p.guard)], inner))
        else:
            s = T.add(s, T.as_num(f(p)))
    return s


def pmap(f, parts):
    """map a pure value function over all leaves"""
    out = []
    for p in parts:
        if isinstance(p, Comp):
            v, p = rename(p)
            with scope(p):
                out.append(Comp(p.var, p.n, p.guard, pmap(f, p.items)))
        else:
            out.append(f(p))
    return out


def pflatmap(f, parts):
    out = []
    for p in parts:
        if isinstance(p, Comp):
            v, p = rename(p)
            with scope(p):
                out.append(Comp(p.var, p.n, p.guard, pflatmap(f, p.items)))
        else:
            out += list(as_parts(f(p)))
    return simplify(out)


def pfilter(pred, parts):
    out = []
    for p in parts:
        if isinstance(p, Comp):
            v, p = rename(p)
            with scope(p):
                out.append(Comp(p.var, p.n, p.guard, pfilter(pred, p.items)))
        else:
            c = T.truth(pred(p))
            if c is True:
                out.append(p)
            elif c is not False:
                out.append(Comp(None, None, c, [p]))
    return simplify(out)


def rename(p):
    """fresh bound variable"""
    if p.var is None:
        return None, p
    c = ctx()
    v = c.fresh('i', 'I') if c is not None else T.fresh('i', 'I')
    m = {p.var.args[0]: v}
    return v, Comp(v, p.n, T.subst(p.guard, m) if isinstance(p.guard, Term) else p.guard,
                   [subst_val(x, m) for x in p.items])


# ------------------------------------------------------------------------------------------------------------ equality

class Diff(object):
    """outcome of a sequence comparison: list of (hyps, goal) obligations plus structural mismatch text"""

    def __init__(self):
        self.goals = []
        self.mismatch = None


def seq_goals(a, b, hyps, eqv, out, path=''):
    """obligations (into out.goals) sufficient for parts a == parts b"""
    a, b = simplify(a), simplify(b)
    m0 = out.mismatch
    _seq_goals(a, b, hyps, eqv, out, path)
    if out.mismatch is not m0 and path:
        hy = [h for h in hyps if isinstance(h, Term)]
        if any(h is False for h in hyps) or hy and S.solve(hy, False, 1.0)[0] == 'proved':
            out.mismatch = m0         # no such element


def _seq_goals(a, b, hyps, eqv, out, path=''):
    if len(a) != len(b) or any(isinstance(x, Comp) != isinstance(y, Comp) or
                               isinstance(x, Comp) and (x.var is None) != (y.var is None) for x, y in zip(a, b)):
        a = _drop_empty(a, hyps)
        b = _drop_empty(b, hyps)
    if len(a) != len(b):
        a2, b2 = merge_groups(a), merge_groups(b)
        if len(a2) != len(b2):
            a2, b2 = _drop_empty(a2, hyps), _drop_empty(b2, hyps)
        if len(a2) != len(b2) and _alternatives(a2) and _alternatives(b2):
            # one entry each, under conditions that exclude each other
            for u in (a2, b2):
                for i, x in enumerate(u):
                    for y in u[:i]:
                        out.goals.append((path + '.disjoint', list(hyps), T.neg(T.conj(x.guard, y.guard))))
            out.goals.append((path + '.guard', list(hyps), T.iff(T.disj(*[x.guard for x in a2]), T.disj(*[y.guard for y in b2]))))
            for x in a2:
                for y in b2:
                    if T.conj(x.guard, y.guard) is not False:
                        eqv(x.items[0], y.items[0], list(hyps) + [x.guard, y.guard], out, path + '.alt')
            return
        if len(a2) != len(b2):
            a3, b3 = align(a2, b2)
            if len(a3) == len(b3):
                a2, b2 = a3, b3
        if len(a2) != len(b2):
            out.mismatch = 'sequence structure differs at %s: %d vs %d segments' % (path or 'top', len(a), len(b))
            if out.mismatch and not has_comp(a2) and not has_comp(b2):
                out.goals.append((path, list(hyps), False))
            return
        a, b = a2, b2
    if any(_kind(x) != _kind(y) for x, y in zip(a, b)):
        a2, b2 = _drop_empty(merge_groups(a), hyps), _drop_empty(merge_groups(b), hyps)
        if len(a2) == len(b2):
            a, b = a2, b2
    for i, (x, y) in enumerate(zip(a, b)):
        pp = '%s[%d]' % (path, i)
        xc, yc = isinstance(x, Comp), isinstance(y, Comp)
        if xc != yc:
            out.mismatch = 'segment kind differs at %s: %r / %r' % (pp, x, y)
            return
        if not xc:
            eqv(x, y, list(hyps), out, pp)
            continue
        if (x.var is None) != (y.var is None):
            out.mismatch = 'segment kind differs at %s' % pp
            return
        h = list(hyps)
        if x.var is not None:
            out.goals.append((pp + '.len', list(hyps), T.eq(x.n, y.n)))
            v = T.fresh('i', 'I')
            mx, my = {x.var.args[0]: v}, {y.var.args[0]: v}
            h += [T.le(0, v), T.lt(v, x.n)]
        else:
            mx = my = {}
        gx, gy = T.subst(x.guard, mx), T.subst(y.guard, my)
        g = T.iff(gx, gy)
        if isinstance(g, Term) and g.op == 'and':
            for k, sub in enumerate(g.args):
                out.goals.append((pp + '.guard%d' % k, h, sub))
        else:
            out.goals.append((pp + '.guard', h, g))
        seq_goals([subst_val(q, mx) for q in x.items], [subst_val(q, my) for q in y.items],
                  h + [gx, gy], eqv, out, pp + '.items')


def _alternatives(p):
    return bool(p) and all(isinstance(x, Comp) and x.var is None and len(x.items) == 1 and not isinstance(x.items[0], Comp) for x in p)


def _kind(x):
    return None if not isinstance(x, Comp) else x.var is None


def _drop_empty(parts, hyps):
    hyps = [h for h in hyps if isinstance(h, Term)]
    out = []
    for p in parts:
        if isinstance(p, Comp):
            if p.var is not None and (not isinstance(p.n, Term)) and p.n <= 0:
                continue
            ne = nonempty([p])
            if ne is False:
                continue
            if isinstance(ne, Term):
                if any(T.neg(h) is ne for h in hyps):
                    continue
                if any(h is ne for h in hyps):
                    out.append(p)
                    continue
                if hyps and S.prove(hyps, T.neg(ne), timeout=1.0).status == 'proved':
                    continue
                if p.var is None and p.guard is not True and hyps and S.prove(hyps, p.guard, timeout=1.0).status == 'proved':
                    out.extend(_drop_empty(simplify(p.items), hyps))
                    continue
        out.append(p)
    return out


def deep_merge(parts):
    out = [Comp(p.var, p.n, p.guard, deep_merge(p.items)) if isinstance(p, Comp) else p for p in parts]
    return merge_groups(out) if sum(isinstance(p, Comp) and p.var is None for p in out) > 1 else simplify(out)


def merge_groups(parts):
    """merge neighbouring exclusive guarded groups with one mergeable item each"""
    out = []
    for p in parts:
        if out and isinstance(p, Comp) and p.var is None and isinstance(out[-1], Comp) and out[-1].var is None \
                and len(p.items) == 1 and len(out[-1].items) == 1 \
                and not isinstance(p.items[0], Comp) and not isinstance(out[-1].items[0], Comp):
            q = out[-1]
            if T.conj(p.guard, q.guard) is False or \
                    S.prove([], T.neg(T.conj(p.guard, q.guard)), timeout=1.0).status == 'proved':
                try:
                    v = merge(q.guard, q.items[0], p.items[0])
                    out[-1] = Comp(None, None, T.disj(q.guard, p.guard), [v])
                    continue
                except Unsupported:
                    pass
        out.append(p)
    return simplify(out)


def merge(c, a, b):
    """value that is a when c else b"""
    if a is b:
        return a
    if isinstance(a, (Term,)) or isinstance(b, Term) or T.is_num(a) or T.is_num(b) or T.is_bool(a):
        return T.ite(c, a, b)
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return a
        return T.ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: merge(c, a[k], b[k]) for k in a}
    if a is None and b is None:
        return None
    if hasattr(a, '_pv_merge'):
        return a._pv_merge(c, b)
    if type(a) is type(b) and isinstance(a, (int, float, bool, str)) and a == b:
        return a
    if type(a) is type(b) and _is_repo_obj(a) and set(a.__dict__) == set(b.__dict__):
        new = {k: merge(c, a.__dict__[k], b.__dict__[k]) for k in a.__dict__}
        r = type(a).__new__(type(a))
        r.__dict__.update(new)
        return r
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and not has_comp(a) and not has_comp(b):
        return [merge(c, x, y) for x, y in zip(a, b)]
    raise Unsupported('cannot merge values of type %s / %s' % (type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------------------------------------------------- arrays

def same_gen(p, q):
    """do two Comp nodes (not their items) range over the same indices? returns q's items renamed to p's variable"""
    if (p.var is None) != (q.var is None):
        return None
    m = {}
    if p.var is not None:
        if not _same_scalar(p.n, q.n):
            return None
        m = {q.var.args[0]: p.var}
    g = T.subst(q.guard, m) if isinstance(q.guard, Term) else q.guard
    if g is not p.guard:
        hy = ctx().pc() if ctx() is not None else []
        if p.var is not None:
            hy = hy + [T.le(0, p.var), T.lt(p.var, p.n)]
        if S.prove(hy, T.iff(g, p.guard), timeout=2.0).status != 'proved':
            return None
    return [subst_val(x, m) for x in q.items]


def _same_scalar(a, b):
    if a is b:
        return True
    e = T.eq(a, b)
    if T.is_bool(e):
        return e
    hy = ctx().pc() if ctx() is not None else []
    return S.prove(hy, e, timeout=1.0).status == 'proved'


def constant_seq(parts):
    """sequence of n copies of a value not depending on the position: (n, value)"""
    if len(parts) == 1 and isinstance(parts[0], Comp) and parts[0].var is not None and parts[0].guard is True \
            and len(parts[0].items) == 1 and not isinstance(parts[0].items[0], Comp):
        p = parts[0]
        x = p.items[0]
        if (isinstance(x, Term) and p.var.args[0] not in x.fv) or T.is_num(x) or T.is_bool(x):
            return p.n, x
    return None


def _plain(p):
    return isinstance(p, Comp) and p.var is not None and p.guard is True and len(p.items) == 1 and not isinstance(p.items[0], Comp)


def align(a, b):
    """split segments so that both lists have the same shape, when lengths that differ by a known number allow it"""
    if not all(_plain(p) or not isinstance(p, Comp) for p in list(a) + list(b)):
        return a, b
    a, b = list(a), list(b)
    for p, q, flip in ((a, b, False), (b, a, True)):
        if len(p) == 1 and _plain(p[0]) and len(q) > 1 and _same_scalar(p[0].n, length(q)):
            try:
                j = [join(q, p[0].var, p[0].n)]
            except Unsupported:
                continue
            return (j, p) if flip else (p, j)
    oa, ob = [], []
    while a and b:
        p, q = a[0], b[0]
        pc, qc = isinstance(p, Comp), isinstance(q, Comp)
        if not pc and not qc:
            oa.append(a.pop(0)), ob.append(b.pop(0))
            continue
        if pc and qc and _same_scalar(p.n, q.n):
            oa.append(a.pop(0)), ob.append(b.pop(0))
            continue
        if pc and not (qc and _smaller(p.n, q.n)):
            k = q.n if qc else 1
            if not qc and not _smaller(1, p.n, strict=False):
                return a, b
            if qc and not _smaller(q.n, p.n):
                return a, b
            x, y = split(p, k, qc)
            oa.append(x), ob.append(b.pop(0))
            a[0:1] = y
        elif qc:
            k = p.n if pc else 1
            if not pc and not _smaller(1, q.n, strict=False):
                return a, b
            x, y = split(q, k, pc)
            ob.append(x), oa.append(a.pop(0))
            b[0:1] = y
        else:
            return a, b
    if a or b:
        return oa + a, ob + b
    return oa, ob


def join(parts, var, n):
    """one segment over var<n with the same entries"""
    at, val = 0, None
    out = []
    for p in parts:
        k = p.n if isinstance(p, Comp) else 1
        out.append((at, subst_val(p.items[0], {p.var.args[0]: T.sub(var, at)}) if isinstance(p, Comp) else p))
        at = T.add(at, k)
    val = out[-1][1]
    for (lo, v), (hi, _) in reversed(list(zip(out, out[1:]))):
        val = merge(T.lt(var, hi), v, val)
    return Comp(var, n, True, [val])


def _smaller(x, y, strict=True):
    e = T.lt(x, y) if strict else T.le(x, y)
    if T.is_bool(e):
        return e
    return S.prove(ctx().pc() if ctx() is not None else [], e, timeout=1.0).status == 'proved'


def split(p, k, seg):
    """first k entries of a plain segment (as a segment, or as the single entry), and the rest"""
    rest = T.sub(p.n, k)
    tail = [subst_val(p.items[0], {p.var.args[0]: k})] if rest == 1 and not isinstance(rest, Term) else None
    if tail is None and isinstance(rest, Term) and _same_scalar(rest, 1):
        tail = [subst_val(p.items[0], {p.var.args[0]: k})]
    if tail is None:
        tail = [Comp(p.var, rest, True, [subst_val(p.items[0], {p.var.args[0]: T.add(p.var, k)})])]
    head = Comp(p.var, k, True, list(p.items)) if seg else subst_val(p.items[0], {p.var.args[0]: 0})
    return head, tail


def zip_parts(f, a, b):
    """elementwise combination of two parts lists with provably equal shape"""
    a, b = simplify(a), simplify(b)
    ka, kb = constant_seq(a), constant_seq(b)
    if ka is not None and not (kb is not None and _same_scalar(ka[0], kb[0])) and _same_scalar(ka[0], length(b)):
        return pmap(lambda y: f(ka[1], y), b)
    if kb is not None and ka is None and _same_scalar(kb[0], length(a)):
        return pmap(lambda x: f(x, kb[1]), a)
    if len(a) != len(b):
        a, b = align(a, b)
    if len(a) != len(b):
        raise Unsupported('elementwise operation on differently shaped sequences (%d/%d segments)' % (len(a), len(b)))
    out = []
    for x, y in zip(a, b):
        xc, yc = isinstance(x, Comp), isinstance(y, Comp)
        if xc != yc:
            raise Unsupported('elementwise operation on differently shaped sequences')
        if not xc:
            out.append(f(x, y))
        else:
            v, x = rename(x)
            items = same_gen(x, y)
            if items is None:
                raise Unsupported('elementwise operation on sequences over different domains: %r / %r' % (x, y))
            with scope(x):
                out.append(Comp(x.var, x.n, x.guard, zip_parts(f, x.items, items)))
    return out


class Arr(object):
    """symbolic 1-D array"""
    _pv_array = True
    __array_ufunc__ = None
    __array_priority__ = 1e9
    ndim = 1

    def __init__(self, parts, view=False):
        self.parts = simplify(parts)
        self.view = view

    def __repr__(self):
        return 'Arr(%r)' % (self.parts,)

    def _pv_subst(self, m, memo):
        parts = [subst_val(p, m, memo) for p in self.parts]
        if all(a is b for a, b in zip(parts, self.parts)):
            return self
        return Arr(parts)

    def _pv_merge(self, c, b):
        if isinstance(b, Arr):
            return Arr(zip_parts(lambda x, y: merge(c, x, y), self.parts, b.parts))
        raise Unsupported('merge of arrays')

    def __len__(self):
        n = length(self.parts)
        if isinstance(n, Term):
            raise Unsupported('len of a symbolic array in native code')
        return n

    @property
    def dtype(self):
        leaf = first_leaf(self.parts)
        if leaf is None:
            return np.dtype(float)
        if isinstance(leaf, Term):
            return np.dtype({'R': float, 'I': int, 'B': bool, 'O': object}[leaf.sort])
        return np.asarray(leaf).dtype

    # arithmetic through ew2
    def _b(self, o, f): return ew2(f, self, o)
    def _rb(self, o, f): return ew2(f, o, self)
    def __add__(self, o): return self._b(o, T.add)
    def __radd__(self, o): return self._rb(o, T.add)
    def __sub__(self, o): return self._b(o, T.sub)
    def __rsub__(self, o): return self._rb(o, T.sub)
    def __mul__(self, o): return self._b(o, T.mul)
    def __rmul__(self, o): return self._rb(o, T.mul)
    def __truediv__(self, o): return self._b(o, T.div)
    def __rtruediv__(self, o): return self._rb(o, T.div)
    def __pow__(self, o): return self._b(o, T.power)
    def __rpow__(self, o): return self._rb(o, T.power)
    def __mod__(self, o): return self._b(o, lambda a, b: T.const(a) % b)
    def __neg__(self): return ew1(lambda x: T.mul(-1, x), self)
    def __pos__(self): return self
    def __abs__(self): return ew1(T.absv, self)
    def __invert__(self): return ew1(T.neg, self)
    def __lt__(self, o): return self._b(o, T.lt)
    def __le__(self, o): return self._b(o, T.le)
    def __gt__(self, o): return self._b(o, lambda a, b: T.lt(b, a))
    def __ge__(self, o): return self._b(o, lambda a, b: T.le(b, a))
    def __and__(self, o): return self._b(o, T.conj)
    def __rand__(self, o): return self._rb(o, T.conj)
    def __or__(self, o): return self._b(o, T.disj)
    def __ror__(self, o): return self._rb(o, T.disj)
    def __eq__(self, o): return self._b(o, T.eq)
    def __ne__(self, o): return self._b(o, lambda a, b: T.neg(T.eq(a, b)))
    __hash__ = object.__hash__

    def __bool__(self):
        if not has_comp(self.parts) and len(self.parts) == 1:
            return bool(self.parts[0])
        raise Unsupported('truth value of an array')

    def __iter__(self):
        if has_comp(self.parts):
            raise Unsupported('native iteration over a symbolic array')
        return iter(self.parts)

    def __float__(self):
        raise Unsupported('float of array')

    def __getitem__(self, k):
        from .models import arr_getitem
        return arr_getitem(self, k)


def first_leaf(parts):
    for p in parts:
        if isinstance(p, Comp):
            r = first_leaf(p.items)
            if r is not None:
                return r
        else:
            return p
    return None


class Arr2(object):
    """symbolic 2-D array: rows/cols axes are ('f', n) or ('g', Comp-chain template); val[r][c] leaf values"""
    _pv_array = True
    __array_ufunc__ = None
    __array_priority__ = 1e9
    ndim = 2

    def __init__(self, rows, cols, val):
        self.rows, self.cols, self.val = rows, cols, val

    def __repr__(self):
        return 'Arr2(%r,%r,%r)' % (self.rows, self.cols, self.val)

    def _pv_subst(self, m, memo):
        def ax(a):
            if a[0] == 'f':
                return a
            return ('g', subst_chain(a[1], m))
        bound = [c.var.args[0] for a in (self.rows, self.cols) if a[0] == 'g' for c in a[1] if c.var is not None]
        m = {k: v for k, v in m.items() if k not in bound}
        return Arr2(ax(self.rows), ax(self.cols), [[subst_val(x, m) for x in r] for r in self.val])

    def _b(self, o, f): return ew2(f, self, o)
    def _rb(self, o, f): return ew2(f, o, self)
    __add__ = Arr.__add__; __radd__ = Arr.__radd__; __sub__ = Arr.__sub__; __rsub__ = Arr.__rsub__
    __mul__ = Arr.__mul__; __rmul__ = Arr.__rmul__; __truediv__ = Arr.__truediv__; __rtruediv__ = Arr.__rtruediv__
    __pow__ = Arr.__pow__; __rpow__ = Arr.__rpow__; __neg__ = Arr.__neg__; __abs__ = Arr.__abs__
    __invert__ = Arr.__invert__; __lt__ = Arr.__lt__; __le__ = Arr.__le__; __gt__ = Arr.__gt__; __ge__ = Arr.__ge__
    __and__ = Arr.__and__; __rand__ = Arr.__rand__; __or__ = Arr.__or__; __ror__ = Arr.__ror__
    __eq__ = Arr.__eq__; __ne__ = Arr.__ne__
    __hash__ = object.__hash__

    def __getitem__(self, k):
        from .models import arr2_getitem
        return arr2_getitem(self, k)


def subst_chain(chain, m):
    out = []
    for c in chain:
        inner = {k: v for k, v in m.items() if c.var is None or k != c.var.args[0]}
        out.append(Comp(c.var, subst_val(c.n, inner), T.subst(c.guard, inner), []))
    return tuple(out)


def axis_of(parts):
    """axis descriptor + leaf list for a 1-D parts list"""
    parts = simplify(parts)
    if not has_comp(parts):
        return ('f', len(parts)), list(parts)
    if len(parts) == 1:
        chain = []
        p = parts[0]
        while True:
            v, p = rename(p)
            chain.append(Comp(p.var, p.n, p.guard, []))
            if len(p.items) == 1 and isinstance(p.items[0], Comp):
                p = p.items[0]
                continue
            if has_comp(p.items) or len(p.items) != 1:
                raise Unsupported('irregular sequence used as a 2-D axis')
            return ('g', tuple(chain)), [p.items[0]]
    raise Unsupported('concatenated sequence used as a 2-D axis')


def parts_of_axis(ax, leaves):
    if ax[0] == 'f':
        return list(leaves)
    x = leaves[0]
    items = [x]
    for c in reversed(ax[1]):
        items = [Comp(c.var, c.n, c.guard, items)]
    return items


def unify_axis(a, b):
    """a, b axes; returns (axis, map for b's vars) or None for broadcast markers"""
    if a[0] == 'f' and b[0] == 'f':
        if a[1] == b[1]:
            return a, {}
        raise ValueError('operands could not be broadcast together')
    if a[0] == 'g' and b[0] == 'g' and len(a[1]) == len(b[1]):
        m = {}
        for x, y in zip(a[1], b[1]):
            y2 = Comp(y.var, subst_val(y.n, m), T.subst(y.guard, m), [])
            if same_gen(x, y2) is None:
                raise Unsupported('2-D operands over different domains')
            if y.var is not None:
                m[y.var.args[0]] = x.var
        return a, m
    raise Unsupported('2-D operands over different kinds of axes')


def to2(x):
    """view a value as 2-D for broadcasting"""
    if isinstance(x, Arr2):
        return x
    if isinstance(x, Arr):
        ax, leaves = axis_of(x.parts)
        return Arr2(('f', 1), ax, [leaves])
    if isinstance(x, np.ndarray):
        if x.ndim == 1:
            return Arr2(('f', 1), ('f', len(x)), [list(x)])
        if x.ndim == 2:
            return Arr2(('f', x.shape[0]), ('f', x.shape[1]), [list(r) for r in x])
        if x.ndim == 0:
            return Arr2(('f', 1), ('f', 1), [[x.item()]])
        raise Unsupported('3-D array')
    return Arr2(('f', 1), ('f', 1), [[x]])


def fresh_axes(a):
    """rename all bound variables of a 2-D array"""
    m = {}
    axes = []
    for ax in (a.rows, a.cols):
        if ax[0] == 'f':
            axes.append(ax)
        else:
            ch = []
            for c in ax[1]:
                if c.var is not None:
                    v = ctx().fresh('i', 'I')
                    n = subst_val(c.n, m)
                    m[c.var.args[0]] = v
                    ch.append(Comp(v, n, T.subst(c.guard, m), []))
                else:
                    ch.append(Comp(None, None, T.subst(c.guard, m), []))
            axes.append(('g', tuple(ch)))
    return Arr2(axes[0], axes[1], [[subst_val(x, m) for x in r] for r in a.val])


def const_axis(a, b, x, y):
    """one operand is constant along a plain axis whose length equals the other axis"""
    if x[0] != 'g' or y[0] != 'g':
        return None
    for q, ax, other in ((a, x, y), (b, y, x)):
        if len(ax[1]) == 1 and ax[1][0].guard is True and (len(other[1]) != 1 or other[1][0].guard is not True):
            v = ax[1][0].var.args[0]
            if all(not (isinstance(z, Term) and v in z.fv) and (isinstance(z, Term) or T.is_num(z)) for r in q.val for z in r) \
                    and _same_scalar(ax[1][0].n, length(parts_of_axis(other, [0]))):
                return other
    return None


def ew2_2d(f, a, b):
    a, b = fresh_axes(to2(a)), fresh_axes(to2(b))
    m = {}
    axes = []
    for x, y in ((a.rows, b.rows), (a.cols, b.cols)):
        if x == ('f', 1):
            axes.append(y)
        elif y == ('f', 1):
            axes.append(x)
        else:
            sw = const_axis(a, b, x, y)
            if sw is not None:
                axes.append(sw)
                continue
            ax, mm = unify_axis(x, y)
            axes.append(ax)
            m.update(mm)
    R = axes[0][1] if axes[0][0] == 'f' else 1
    C = axes[1][1] if axes[1][0] == 'f' else 1

    def get(q, r, c, sub):
        rr = r if len(q.val) > 1 else 0
        cc = c if len(q.val[rr]) > 1 else 0
        v = q.val[rr][cc]
        return subst_val(v, sub) if sub else v
    val = [[f(get(a, r, c, None), get(b, r, c, m)) for c in range(C)] for r in range(R)]
    return Arr2(axes[0], axes[1], val)


def is_arr(x):
    return isinstance(x, (Arr, Arr2))


def as_parts(x):
    if isinstance(x, Arr):
        return x.parts
    if isinstance(x, np.ndarray):
        if x.ndim != 1:
            raise Unsupported('array of dimension %d mixed with symbolic values' % x.ndim)
        return list(x)
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, range):
        return list(x)
    raise Unsupported('not a sequence: %s' % type(x).__name__)


def ew1(f, x):
    if isinstance(x, Arr):
        return Arr(pmap(f, x.parts))
    if isinstance(x, Arr2):
        x = fresh_axes(x)
        return Arr2(x.rows, x.cols, [[f(v) for v in r] for r in x.val])
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return f(x.item())
        if x.ndim == 1:
            return Arr([f(v) for v in x])
    if isinstance(x, (list, tuple)):
        return Arr(pmap(f, list(x)))
    return f(x)


def is_seq(x):
    return isinstance(x, (Arr, Arr2, list, tuple)) or (isinstance(x, np.ndarray) and x.ndim > 0)


def ew2(f, a, b):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    two = any(isinstance(x, Arr2) or (isinstance(x, np.ndarray) and x.ndim == 2) for x in (a, b))
    if two:
        return ew2_2d(f, a, b)
    sa, sb = is_seq(a), is_seq(b)
    if not sa and not sb:
        return f(a, b)
    if sa and not sb:
        return Arr(pmap(lambda x: f(x, b), as_parts(a)))
    if sb and not sa:
        return Arr(pmap(lambda x: f(a, x), as_parts(b)))
    pa, pb = simplify(as_parts(a)), simplify(as_parts(b))
    if not has_comp(pa) and len(pa) == 1 and not (not has_comp(pb) and len(pb) == 1):
        x0 = pa[0]
        return Arr(pmap(lambda y: f(x0, y), pb))
    if not has_comp(pb) and len(pb) == 1 and not (not has_comp(pa) and len(pa) == 1):
        y0 = pb[0]
        return Arr(pmap(lambda x: f(x, y0), pa))
    if not has_comp(pa) and not has_comp(pb) and len(pa) != len(pb):
        raise ValueError('operands could not be broadcast together with shapes (%d,) (%d,)' % (len(pa), len(pb)))
    return Arr(zip_parts(f, pa, pb))


def reduce_axis(x, axis, kind):
    """sum/any/all over one axis of a 2-D array"""
    x = fresh_axes(x)
    if axis in (-1, 1):
        keep, red = x.rows, x.cols
        rows = x.val
    else:
        keep, red = x.cols, x.rows
        rows = [list(c) for c in zip(*x.val)]
    leaves = []
    for r in rows:
        parts = parts_of_axis(red, r)
        if kind == 'sum':
            leaves.append(total(parts))
        elif kind == 'any':
            leaves.append(exists(parts, lambda v: T.truth(v)))
        elif kind == 'all':
            leaves.append(T.neg(exists(parts, lambda v: T.neg(T.truth(v)))))
        else:
            raise Unsupported(kind)
    return Arr(parts_of_axis(keep, leaves))
