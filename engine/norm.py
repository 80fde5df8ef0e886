"""Normal form of real-valued terms: Laurent polynomials (with rational exponents) over atoms.

 poly  : dict  mono -> coefficient (float)
 mono  : tuple of (atom id, Fraction exponent) sorted
 atoms : interned; ('var'|'app'|'fun'|'ite'|..) structural atoms, ('sum', poly) for powers of sums, ('exp', mono),
         ('log', poly), LN10
Assumptions built in (reported in the evidence): denominators are non-zero, bases of non-integer powers and arguments of
logarithms are in the domain; real arithmetic; numeric constants compared up to 1e-9 relative.
"""
import math
from fractions import Fraction

from . import terms as T
from .terms import Term

TOL = 1e-9
MAXMON = 3000


class TooBig(Exception):
    pass


_atom_ids = {}
_atoms = []          # id -> (kind, payload)


def atom(kind, key, payload):
    k = (kind, key)
    i = _atom_ids.get(k)
    if i is None:
        i = len(_atoms)
        _atoms.append((kind, payload))
        _atom_ids[k] = i
    return i


LN10 = atom('ln10', (), None)


def fexp(c):
    """float -> Fraction exponent"""
    if isinstance(c, Fraction):
        return c
    if isinstance(c, int):
        return Fraction(c)
    f = Fraction(c).limit_denominator(5040)
    if abs(float(f) - c) <= 1e-13 * max(1.0, abs(c)):
        return f
    return Fraction(repr(round(c, 13)))


def key_of(p):
    return frozenset((m, _r(c)) for m, c in p.items())


def _r(c):
    if c == 0:
        return 0.0
    return float('%.9e' % c)


def padd(p, q, s=1.0):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = s * c
        else:
            w = v + s * c
            if abs(w) <= 1e-13 * (abs(v) + abs(c)):
                del r[m]
            else:
                r[m] = w
    return r


def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


def mpow(m, e):
    return tuple((a, x * e) for a, x in m)


def pmul(p, q):
    if len(p) * len(q) > MAXMON:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0.0)
            w = v + c1 * c2
            if v != 0.0 and abs(w) <= 1e-13 * (abs(v) + abs(c1 * c2)):
                del r[m]
            else:
                r[m] = w
    return _expand_sums(r)


def _expand_sums(p):
    """expand integer positive powers of sum atoms"""
    for m in p:
        for a, e in m:
            if _atoms[a][0] == 'sum' and e >= 1:
                break
        else:
            continue
        break
    else:
        return p
    out = {}
    for m, c in p.items():
        rest = []
        todo = []
        for a, e in m:
            if _atoms[a][0] == 'sum' and e >= 1:
                k = e.numerator // e.denominator
                if k > 8:
                    raise TooBig()
                if e - k != 0:
                    rest.append((a, e - k))
                todo.append((a, k))
            else:
                rest.append((a, e))
        q = {tuple(rest): c}
        for a, k in todo:
            for _ in range(k):
                q = pmul(q, _atoms[a][1])
        out = padd(out, q)
    return out


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), 0.0)


_minmax = {}


def pos_atom(a):
    kind, pay = _atoms[a]
    if kind in ('exp', 'ln10'):
        return True
    if kind == 'sum':
        return ppos(pay)
    if kind == 't':
        t = pay
        if t.op == 'var':
            return t.args[0] in T.POS_VARS
        if t.op == 'app':
            return t.args[0] in T.POS_APPS
        if t.op == 'abs':
            return True        # nonneg
        if t.op == 'cosh':
            return True
        if t.op == 'ite':
            mm = _minmax.get(a)
            if mm is not None:
                return (any if mm[0] == 'max' else all)(ppos(q) for q in mm[1])
            try:
                return ppos(nf(t.args[1])) and ppos(nf(t.args[2]))
            except TooBig:
                return False
        if t.op == 'bind' and t.args[0] == 'sum':
            try:
                return ppos(nf(t.args[4]))
            except TooBig:
                return False
    return False


def ppos(p):
    if not p:
        return False
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            if not (pos_atom(a) or (e.denominator == 1 and e.numerator % 2 == 0) or e.denominator % 2 == 0):
                return False
    return True


def _content(p):
    """factor p = c * m * q with q canonical (some monomial with coefficient 1, minimal exponents 0)"""
    monos = list(p)
    common = None
    allatoms = set(a for m in monos for a, _ in m)
    com = []
    for a in sorted(allatoms):
        e = min(dict(m).get(a, Fraction(0)) for m in monos)
        if e != 0:
            com.append((a, e))
    com = tuple(com)
    inv = tuple((a, -e) for a, e in com)
    q = {mmul(m, inv): c for m, c in p.items()}
    lead = max(q, key=lambda m: m)
    c0 = q[lead]
    q = {m: c / c0 for m, c in q.items()}
    return c0, com, q


def ppow(p, e):
    """p ** e, e Fraction constant"""
    if e == 0:
        return {(): 1.0}
    if e == 1:
        return p
    if not p:
        if e > 0:
            return {}
        return {((atom('sum', 'zero', {}), e),): 1.0}
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return {mpow(m, e): float(c) ** int(e)}
        posm, rest = [], []
        for a, x in m:
            if pos_atom(a) or x.denominator % 2 == 0:
                posm.append((a, x * e))
            else:
                rest.append((a, x))
        if c < 0 or rest:
            base = {tuple(rest): (1.0 if c >= 0 else -1.0)}
            if not rest:
                base = {(): -1.0}
            b = atom('sum', key_of(base), base)
            return {mmul(tuple(posm), ((b, e),)): abs(c) ** float(e)}
        return {tuple(posm): c ** float(e)}
    if e.denominator == 1 and e > 0 and e <= 6:
        r = p
        for _ in range(int(e) - 1):
            r = pmul(r, p)
        return r
    c0, com, q = _content(p)
    if e.denominator == 1:
        s = atom('sum', key_of(q), q)
        return _expand_sums(pmul({mpow(com, e): float(c0) ** int(e)}, {((s, e),): 1.0}))
    # fractional power of a sum: pull out content only if positive
    pc = abs(c0)
    sgn = 1.0 if c0 > 0 else -1.0
    out, keep = [], []
    for a, x in com:
        if pos_atom(a):
            out.append((a, x * e))
        else:
            keep.append((a, x))
    base = {mmul(m, tuple(keep)): c * sgn for m, c in q.items()}
    s = atom('sum', key_of(base), base)
    return {mmul(tuple(out), ((s, e),)): pc ** float(e)}


def pexp(p):
    """exp of a polynomial"""
    coef = 1.0
    m = ()
    extra = {}
    for mono, c in p.items():
        if mono == ():
            if abs(c) < 700:
                coef *= math.exp(c)
            else:
                extra[mono] = c
        elif mono == ((LN10, Fraction(1)),):
            if abs(c) < 300:
                coef *= 10.0 ** c
            else:
                a = atom('exp', mono, mono)
                m = mmul(m, ((a, fexp(c)),))
        else:
            # exp(c * log(atom)) -> atom^c
            d = dict(mono)
            if len(mono) == 1 and mono[0][1] == 1 and _atoms[mono[0][0]][0] == 'log':
                base = _atoms[mono[0][0]][1]
                q = ppow(base, fexp(c))
                if len(q) == 1:
                    (mm, cc), = q.items()
                    m = mmul(m, mm)
                    coef *= cc
                    continue
            a = atom('exp', mono, mono)
            m = mmul(m, ((a, fexp(c)),))
    if extra:
        a = atom('exp', (), ())
        m = mmul(m, ((a, fexp(extra[()])),))
    return {m: coef}


def plog(p):
    if not p:
        a = atom('log', key_of(p), p)
        return {((a, Fraction(1)),): 1.0}
    if len(p) == 1:
        (m, c), = p.items()
        r = {}
        rest = []
        for a, e in m:
            kind, pay = _atoms[a]
            if kind == 'exp':
                r = padd(r, {pay: float(e)})
            elif pos_atom(a) or (kind == 'sum' and e.denominator != 1):
                base = pay if kind == 'sum' else {((a, Fraction(1)),): 1.0}
                b = atom('log', key_of(base), base)
                r = padd(r, {((b, Fraction(1)),): float(e)})
            else:
                rest.append((a, e))
        if rest or c < 0:
            if c < 0 and not rest:
                base = {(): c}
            else:
                base = {tuple(rest): (1.0 if c > 0 else -1.0)}
                c = abs(c)
                if len(rest) == 1 and base[tuple(rest)] > 0:
                    # log(x**e) with x>0 required by the domain when e is odd / fractional
                    a, e = rest[0]
                    if e.denominator != 1 or e.numerator % 2:
                        pay = _atoms[a][1] if _atoms[a][0] == 'sum' else {((a, Fraction(1)),): 1.0}
                        b = atom('log', key_of(pay), pay)
                        r = padd(r, {((b, Fraction(1)),): float(e)})
                        return padd(r, clog(c))
            b = atom('log', key_of(base), base)
            r = padd(r, {((b, Fraction(1)),): 1.0})
            if c < 0:
                return r
        return padd(r, clog(c))
    c0, com, q = _content(p)
    r = {}
    keep = []
    for a, x in com:
        if pos_atom(a):
            r = padd(r, plog({((a, Fraction(1)),): 1.0}), float(x))
        else:
            keep.append((a, x))
    sgn = 1.0 if c0 > 0 else -1.0
    base = {mmul(m, tuple(keep)): c * sgn for m, c in q.items()}
    b = atom('log', key_of(base), base)
    r = padd(r, {((b, Fraction(1)),): 1.0})
    return padd(r, clog(abs(c0)))


def clog(c):
    if c == 1:
        return {}
    k = math.log10(c)
    if abs(k - round(k)) < 1e-14 and abs(k) < 60:
        k = int(round(k))
        return {((LN10, Fraction(1)),): float(k)} if k else {}
    return {(): math.log(c)}


_nf_memo = {}


def clear():
    _nf_memo.clear()


def nf(t):
    if not isinstance(t, Term):
        if T.is_bool(t):
            t = int(t)
        if isinstance(t, Fraction):
            t = float(t)
        if isinstance(t, float) and not math.isfinite(t):
            a = atom('special', repr(t), t)
            return {((a, Fraction(1)),): 1.0}
        return {(): float(t)} if t != 0 else {}
    r = _nf_memo.get(t.id)
    if r is None:
        if POLL[0] is not None:
            POLL[0]()
        r = _nf(t)
        if len(r) > MAXMON:
            raise TooBig()
        _nf_memo[t.id] = r
    return r


POLL = [None]


def _a1(kind, key, pay):
    return {((atom(kind, key, pay), Fraction(1)),): 1.0}


def _nf(t):
    op, a = t.op, t.args
    if op == 'const':
        return nf(a[0])
    if op == 'var':
        return _a1('t', ('var', a[0]), t)
    if op == 'app':
        key = ('app', a[0]) + tuple(akey(x) for x in a[1:])
        return _a1('t', key, t)
    if op == '+':
        return padd(nf(a[0]), nf(a[1]))
    if op == '*':
        return pmul(nf(a[0]), nf(a[1]))
    if op == '/':
        return pmul(nf(a[0]), ppow(nf(a[1]), Fraction(-1)))
    if op == '**':
        e = nf(a[1])
        b = nf(a[0])
        if is_const(e):
            return ppow(b, fexp(cval(e)))
        if is_const(b) and cval(b) > 0:
            return pexp(pmul(e, clog(cval(b))))
        return pexp(pmul(e, plog(b)))
    if op == 'exp':
        return pexp(nf(a[0]))
    if op == 'log':
        return plog(nf(a[0]))
    if op == 'log10':
        return pmul(plog(nf(a[0])), {((LN10, Fraction(-1)),): 1.0})
    if op == 'sinh':
        x = nf(a[0])
        return padd(_half(pexp(x)), _half(pexp({m: -c for m, c in x.items()})), -1.0)
    if op == 'cosh':
        x = nf(a[0])
        return padd(_half(pexp(x)), _half(pexp({m: -c for m, c in x.items()})))
    if op in ('sin', 'cos', 'tan', 'tanh', 'arctan', 'arcsin', 'arccos', 'arcsinh', 'arccosh', 'floor', 'trunc', 'abs'):
        x = nf(a[0])
        if op == 'abs':
            return nf_abs(x, t)
        return _a1('t', (op, key_of(x)), t)
    if op == 'round':
        return _a1('t', (op, key_of(nf(a[0])), a[1].id), t)
    if op == 'ite':
        return nf_ite(t)
    if op == 'bind':
        kind, v, n, g, b = a
        if kind == 'sum':
            # pull factors free of the bound variable out of the sum
            p = nf(b)
            out = {}
            groups = {}
            for m, c in p.items():
                inn, ext = [], []
                for at, e in m:
                    (inn if _mentions(at, v.args[0]) else ext).append((at, e))
                groups.setdefault(tuple(ext), {})[tuple(inn)] = c
            for ext, inn in groups.items():
                c0 = 1.0
                if len(inn) == 1:
                    (m1, c0), = inn.items()
                    inn = {m1: 1.0}
                key = ('sum', akey(n), bkey(g), key_of(inn))
                at = atom('t', key, T.mk('bind', ('sum', v, n, g, T.const(poly_term(inn))), 'R'))
                out = padd(out, {mmul(ext, ((at, Fraction(1)),)): c0})
            return out
        return _a1('t', ('bind', kind, akey(n), bkey(g), akey(b)), t)
    if t.sort == 'B':
        return _a1('t', ('b', bkey(t)), t)
    raise T.Unsupported('nf of ' + op)


def nf_abs(x, t):
    if ppos(x) or not x:
        return x
    nx = {m: -c for m, c in x.items()}
    if ppos(nx):
        return nx
    if is_const(x):
        return {(): abs(cval(x))}
    s = max(abs(c) for c in x.values()) if len(x) > 1 else abs(next(iter(x.values())))
    lead = max(x)
    if x[lead] < 0:
        x = nx
    x = {m: c / s for m, c in x.items()}
    key = ('abs', key_of(x))
    at = atom('t', key, T.mk('abs', (T.const(poly_term(x)),), 'R'))
    return {((at, Fraction(1)),): s}


def nf_ite(t):
    c, A, B = t.args
    while isinstance(c, Term) and c.op == 'not':
        c, A, B = c.args[0], B, A
    if A.sort in 'RIB' and B.sort in 'RIB' and c.op in ('<', '<='):
        pa, pb = nf(A), nf(B)
        d = padd(pa, pb, -1.0)
        if not d:
            return pa
        p = padd(nf(c.args[1]), nf(c.args[0]), -1.0)
        r = proportional(d, p)
        if r is not None:
            # chosen A when p > 0, A - B = r p
            if not padd(pa, pb):
                return nf_abs(pa, t) if r > 0 else {m: -v for m, v in nf_abs(pa, t).items()}
            kind = 'max' if r > 0 else 'min'
            ka, kb = key_of(pa), key_of(pb)
            key = (kind,) + tuple(sorted([ka, kb], key=repr))
            at = atom('t', key, t)
            _minmax.setdefault(at, (kind, (pa, pb)))
            return {((at, Fraction(1)),): 1.0}
        if p and p[max(p)] < 0:
            c = T.neg(c)
            A, B = B, A
    return _a1('t', ('ite', bkey(c), akey(A), akey(B)), t)


def proportional(d, p):
    """d == r * p for a constant r"""
    if not d or set(d) != set(p):
        return None
    m = max(d)
    r = d[m] / p[m]
    for k in d:
        if abs(d[k] - r * p[k]) > 1e-9 * max(abs(d[k]), abs(r * p[k])):
            return None
    return r


def _half(p):
    return {m: 0.5 * c for m, c in p.items()}


_ment = {}


def _mentions(at, name):
    k = (at, name)
    r = _ment.get(k)
    if r is None:
        kind, pay = _atoms[at]
        if kind == 't':
            r = name in pay.fv
        elif kind in ('sum', 'log'):
            r = any(_mentions(a, name) for m in pay for a, _ in m)
        elif kind == 'exp':
            r = any(_mentions(a, name) for a, _ in pay)
        else:
            r = False
        _ment[k] = r
    return r


def akey(x):
    """canonical key of any scalar"""
    if isinstance(x, Term):
        if x.sort == 'O':
            if x.op == 'app':
                return ('oapp', x.args[0]) + tuple(akey(y) for y in x.args[1:])
            if x.op == 'ite':
                return ('oite', bkey(x.args[0]), akey(x.args[1]), akey(x.args[2]))
            return ('o', x.id)
        if x.sort == 'B':
            return bkey(x)
        return key_of(nf(x))
    if x is None or isinstance(x, str):
        return ('o', T.const(x).id)
    return key_of(nf(x))


_bkey_memo = {}


def bkey(x):
    if not isinstance(x, Term):
        return bool(x)
    r = _bkey_memo.get(x.id)
    if r is None:
        r = _bkey(x)
        _bkey_memo[x.id] = r
    return r


def _bkey(x):
    op, a = x.op, x.args
    if op == 'const':
        return bool(a[0])
    if op in ('<', '<='):
        p = padd(nf(a[1]), nf(a[0]), -1.0)    # p > 0 / p >= 0
        if is_const(p):
            return (cval(p) > 0) if op == '<' else (cval(p) >= 0)
        s = max(abs(c) for c in p.values())
        return (op, key_of({m: c / s for m, c in p.items()}))
    if op == '==':
        if a[0].sort in 'RI' and a[1].sort in 'RI':
            p = padd(nf(a[1]), nf(a[0]), -1.0)
            if not p:
                return True
            lead = max(p)
            return ('==', key_of({m: c / p[lead] for m, c in p.items()}))
        return ('==o', frozenset([akey(a[0]), akey(a[1])]))
    if op == 'not':
        return ('not', bkey(a[0]))
    if op in ('and', 'or'):
        return (op, frozenset(bkey(y) for y in a))
    if op == 'var':
        return ('bv', a[0])
    if op == 'app':
        return ('bapp', a[0]) + tuple(akey(y) for y in a[1:])
    if op == 'ite':
        return ('bite', bkey(a[0]), bkey(a[1]), bkey(a[2]))
    if op == 'bind':
        kind, v, n, g, b = a
        return ('bbind', kind, v.args[0], akey(n), bkey(g), bkey(b))
    raise T.Unsupported('bkey of ' + op)


def bkey2(t):
    try:
        return akey(t)
    except (TooBig, T.Unsupported):
        return ('id', t.id)


def poly_term(p):
    """poly back to a term"""
    out = 0
    for m, c in sorted(p.items(), key=lambda x: x[0]):
        t = c
        if c == int(c) and abs(c) < 1e15:
            t = int(c)
        for a, e in m:
            t = T.mul(t, T.power(atom_term(a), e if e.denominator != 1 else int(e)))
        out = T.add(out, t)
    return out


def atom_term(a):
    kind, pay = _atoms[a]
    if kind == 't':
        return pay
    if kind == 'sum':
        return poly_term(pay)
    if kind == 'exp':
        return T.exp(poly_term({pay: 1.0}))
    if kind == 'log':
        return T.log(poly_term(pay))
    if kind == 'ln10':
        return T.mk('log', (T.const(10),), 'R')
    if kind == 'special':
        return T.const(pay)
    raise AssertionError(kind)


def subst_ln10(p):
    """replace the LN10 atom by its numeric value (everywhere at top level)"""
    out = {}
    L = math.log(10)
    for m, c in p.items():
        mm = []
        for a, e in m:
            if a == LN10:
                c = c * L ** float(e)
            else:
                mm.append((a, e))
        out = padd(out, {tuple(mm): c})
    return out


def zero_diff(p, q):
    """is p - q identically zero, up to coefficient tolerance?  clears denominators that are sums."""
    return _zero(_diff(p, q))


def _diff(p, q):
    r = {}
    for m, c in p.items():
        r[m] = (c, abs(c))
    for m, c in q.items():
        v = r.get(m, (0.0, 0.0))
        r[m] = (v[0] - c, v[1] + abs(c))
    return r


def _prune(d):
    return {m: (c, g) for m, (c, g) in d.items() if abs(c) > TOL * g}


def _zero(d, depth=0):
    d = _prune(d)
    if not d:
        return True
    if depth > 6 or len(d) > 400:
        return False
    # find sum atoms occurring with different exponents: multiply by S^-min and expand integer powers
    sums = {}
    for m in d:
        for a, e in m:
            if _atoms[a][0] == 'sum':
                sums.setdefault(a, [])
    if not sums:
        return False
    for a in sums:
        es = [dict(m).get(a, Fraction(0)) for m in d]
        mn, mx = min(es), max(es)
        if mn == mx:
            # common factor: divide out
            if mn != 0:
                dd = {}
                for m, v in d.items():
                    dd[tuple((b, e) for b, e in m if b != a)] = v
                return _zero(dd, depth + 1)
            continue
        # group by exponent modulo 1
        out = {}
        S = _atoms[a][1]
        changed = False
        for m, (c, g) in d.items():
            e = dict(m).get(a, Fraction(0)) - mn
            rest = tuple((b, x) for b, x in m if b != a)
            k = e.numerator // e.denominator
            fr = e - k
            if k > 6:
                return False
            cur = {rest: (c, g)}
            for _ in range(k):
                nxt = {}
                for m1, (c1, g1) in cur.items():
                    for m2, c2 in S.items():
                        mm = mmul(m1, m2)
                        v = nxt.get(mm, (0.0, 0.0))
                        nxt[mm] = (v[0] + c1 * c2, v[1] + abs(g1 * c2))
                cur = nxt
                changed = True
                if len(cur) > MAXMON:
                    return False
            for m1, (c1, g1) in cur.items():
                mm = mmul(m1, ((a, fr),)) if fr != 0 else m1
                v = out.get(mm, (0.0, 0.0))
                out[mm] = (v[0] + c1, v[1] + g1)
        if changed:
            return _zero(out, depth + 1)
    return False


def equal(a, b):
    """syntactic-semantic equality of two real terms by normal form; True or False (unknown)"""
    try:
        p, q = nf(a), nf(b)
        if p == q:
            return True
        if zero_diff(p, q):
            return True
        if any(at == LN10 for m in list(p) + list(q) for at, _ in m):
            p, q = subst_ln10(p), subst_ln10(q)
            return zero_diff(p, q)
        return False
    except TooBig:
        return False
    except (OverflowError, ZeroDivisionError):
        return False
