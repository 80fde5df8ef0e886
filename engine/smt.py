"""Discharging obligations: normal form first, then z3 on the negated goal with the path condition and axioms."""
import math
import time
from fractions import Fraction

import z3

from . import terms as T
from . import norm as N
from .terms import Term

STATS = {'z3_calls': 0, 'z3_s': 0.0, 'norm': 0, 'z3_proved': 0, 'split': 0, 'cong': 0}
OBJ = z3.DeclareSort('Obj')
DEADLINE = [None]
APP_BOUNDS = {}


class Translator(object):
    def __init__(self, lin=False):
        self.lin = lin             # comparisons of nonlinear polynomials become propositional atoms
        self.abstracted = 0
        self.ax = []
        self.exps = {}
        self.logs = {}
        self.mono = {}
        self.consts = set()
        self.memo = {}
        self.bmemo = {}
        self.objs = {}
        self.weak = False          # interpreted functions are only partially axiomatised
        self.pkeys = set()
        self.binders = []          # exists atoms: (term, z3bool)
        self.roots = {}
        self.atommemo = {}
        self.apps = {}
        self.vars = {}
        self.hasint = {}

    # -- reals
    def num(self, c):
        if isinstance(c, Fraction):
            return z3.RealVal(str(c))
        if float(c).is_integer() and abs(c) < 1e18:
            return z3.RealVal(int(c))
        return z3.RealVal(repr(float(c)) if 'e' not in repr(float(c)) else str(Fraction(repr(float(c)))))

    def real(self, t):
        if not isinstance(t, Term):
            if T.is_bool(t):
                t = int(t)
            return self.num(t)
        if t.id in self.memo:
            return self.memo[t.id]
        if t.sort == 'B':
            r = z3.If(self.bool(t), z3.RealVal(1), z3.RealVal(0))
        else:
            try:
                p = N.nf(t)
            except N.TooBig:
                r = self.struct(t)
            else:
                r = self.poly(p)
        self.memo[t.id] = r
        return r

    def struct(self, t):
        op, a = t.op, t.args
        if op == '+':
            return self.real(a[0]) + self.real(a[1])
        if op == '*':
            return self.real(a[0]) * self.real(a[1])
        if op == '/':
            return self.real(a[0]) / self.real(a[1])
        self.weak = True
        return z3.Real('big!%d' % t.id)

    def poly(self, p):
        terms = []
        for m, c in p.items():
            fs = []
            if c != 1.0 or not m:
                fs.append(self.num(c))
            for a, e in m:
                fs.append(self.apow(a, e))
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs) if False else _prod(fs))
            if not m:
                self.consts.add(c)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def apow(self, a, e):
        kind, pay = N._atoms[a]
        if kind == 'exp':
            arg = {pay: float(e)}
            return self.expf(arg)
        x = self.atom(a)
        if e.denominator == 1:
            k = int(e)
            r = _prod([x] * abs(k))
            return r if k > 0 else z3.RealVal(1) / r
        self.weak = True
        q = e.denominator
        if q > 12 or abs(e.numerator) > 24:
            return self.oddpow(a, x, e)
        key = (a, q)
        r = self.roots.get(key)
        if r is None:
            r = z3.Function('root%d' % q, z3.RealSort(), z3.RealSort())(x)
            self.ax.append(r >= 0)
            if q <= 4:
                self.ax.append(z3.Implies(x >= 0, _prod([r] * q) == x))
            else:
                self.ax.append(z3.Implies(x > 0, r > 0))
            self.roots[key] = r
        k = e.numerator
        y = _prod([r] * abs(k))
        return y if k > 0 else z3.RealVal(1) / y

    def oddpow(self, a, x, e):
        """a power with an exponent that is no simple fraction: a positive function, on the side of 1 its base and exponent say"""
        gens = self.roots.setdefault((a, 'gens'), [])
        for e0, r in gens:
            k = e / e0
            if k.denominator == 1 and 0 < abs(k) <= 8:
                y = _prod([r] * abs(int(k)))
                return y if k > 0 else z3.RealVal(1) / y
        e0 = abs(e)
        r = z3.Function('pow_%d_%d' % (e0.numerator, e0.denominator), z3.RealSort(), z3.RealSort())(x)
        self.ax.append(z3.Implies(x > 0, z3.And(r > 0, (x < 1) == (r < 1), (x == 1) == (r == 1))))
        for e1, r1 in gens:
            lo, hi = (r, r1) if e0 > e1 else (r1, r)
            self.ax.append(z3.Implies(z3.And(x > 0, x < 1), lo < hi))
            self.ax.append(z3.Implies(x > 1, hi < lo))
        gens.append((e0, r))
        return r if e > 0 else z3.RealVal(1) / r

    def expf(self, arg):
        self.weak = True
        key = N.key_of(arg)
        r = self.exps.get(key)
        if r is None:
            u = self.poly_noconst(arg)
            v = z3.Function('EXP', z3.RealSort(), z3.RealSort())(u)
            self.ax.append(v > 0)
            self.ax += [(u == 0) == (v == 1), (u < 0) == (v < 1)]
            r = (u, v)
            self.exps[key] = r
        return r[1]

    def poly_noconst(self, p):
        return self.poly(p)

    def atom(self, a):
        r = self.atommemo.get(a)
        if r is None:
            r = self._atom(a)
            self.atommemo[a] = r
            if N.pos_atom(a):
                kind, pay = N._atoms[a]
                strict = not (kind == 't' and pay.op in ('abs',))
                self.ax.append(r > 0 if strict else r >= 0)
        return r

    def _atom(self, a):
        kind, pay = N._atoms[a]
        if kind == 'sum':
            return self.poly(pay)
        if kind == 'ln10':
            v = z3.Real('ln10')
            self.ax += [v > self.num(2.302585092), v < self.num(2.302585093)]
            return v
        if kind == 'log':
            self.weak = True
            x = self.poly(pay)
            v = z3.Function('LOG', z3.RealSort(), z3.RealSort())(x)
            self.ax.append(z3.Implies(x > 0, z3.And((x == 1) == (v == 0), (x < 1) == (v < 0))))
            self.logs[a] = (x, v)
            return v
        if kind == 'special':
            self.weak = True
            return z3.Real('special_%s' % a)
        if kind == 'exp':
            return self.expf({pay: 1.0})
        t = pay
        op = t.op
        if op == 'var':
            return self.zvar(t)
        if op == 'app':
            return self.app(t)
        if op == 'ite':
            return z3.If(self.bool(t.args[0]), self.real(t.args[1]), self.real(t.args[2]))
        if op == 'abs':
            x = self.real(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op == 'floor':
            return z3.ToReal(z3.ToInt(self.real(t.args[0])))
        if op == 'trunc':
            x = self.real(t.args[0])
            return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
        if op == 'round':
            self.weak = True
            x = self.real(t.args[0])
            nd = t.args[1].args[0] if t.args[1].op == 'const' else 0
            v = z3.Function('round%d' % nd, z3.RealSort(), z3.RealSort())(x)
            h = self.num(0.5 * 10.0 ** (-nd))
            self.ax += [v - x <= h, x - v <= h]
            if nd == 0:
                self.ax.append(v == z3.ToReal(z3.ToInt(v)))
            return v
        if op == 'bind':
            self.weak = True
            fv = sorted(t.fv)
            v = z3.Real('bind!%d' % a)
            if t.args[0] == 'sum':
                g, b = t.args[3], t.args[4]
                try:
                    if N.ppos(N.nf(b)):
                        self.ax.append(v >= 0)
                except N.TooBig:
                    pass
            return v
        if op in ('sin', 'cos', 'tan', 'tanh', 'arctan', 'arcsin', 'arccos', 'arcsinh', 'arccosh'):
            self.weak = True
            x = self.real(t.args[0])
            v = z3.Function(op, z3.RealSort(), z3.RealSort())(x)
            if op in ('sin', 'cos'):
                self.ax += [v <= 1, v >= -1]
                s = z3.Function('sin', z3.RealSort(), z3.RealSort())(x)
                c = z3.Function('cos', z3.RealSort(), z3.RealSort())(x)
                self.ax.append(s * s + c * c == 1)
            if op in ('tanh', 'arctan', 'arcsin'):
                self.mono.setdefault(op, {})[a] = (x, v)
            if op == 'tanh':
                self.ax += [v < 1, v > -1, z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
            return v
        if t.sort == 'B':
            return z3.If(self.bool(t), z3.RealVal(1), z3.RealVal(0))
        raise T.Unsupported('z3 atom ' + op)

    def zvar(self, t):
        name = t.args[0]
        if t.sort == 'I':
            v = self.vars.get(name)
            if v is None:
                iv = z3.Int(name)
                v = z3.ToReal(iv)
                self.vars[name] = v
                self.hasint[name] = iv
            return v
        v = self.vars.get(name)
        if v is None:
            v = z3.Real(name)
            self.vars[name] = v
        return v

    def arg(self, x):
        if isinstance(x, Term) and x.sort == 'O':
            return self.obj(x)
        if not isinstance(x, Term) and not T.is_num(x) and not T.is_bool(x):
            return self.obj(x)
        x = T.unconst(x)
        return self.real(x)

    def appl(self, t, rng):
        args = [self.arg(x) for x in t.args[1:]]
        if not args:
            return z3.Const(t.args[0], rng)
        f = z3.Function(t.args[0], *([z.sort() for z in args] + [rng]))
        self.apps.setdefault((t.args[0], len(args)), f)
        return f(*args)

    def app(self, t):
        v = self.appl(t, z3.RealSort())
        b = APP_BOUNDS.get(t.args[0])
        if b is not None:
            if b[0] is not None:
                self.ax.append(v >= self.real(b[0]))
            if b[1] is not None:
                self.ax.append(v < self.real(b[1]) if len(b) > 2 and b[2] else v <= self.real(b[1]))
        if t.sort == 'I':
            self.ax.append(v == z3.ToReal(z3.ToInt(v)))
        return v

    def obj(self, x):
        x = T.const(x)
        r = self.objs.get(x.id)
        if r is None:
            if x.op == 'const':
                r = z3.Const('obj!%d' % x.id, OBJ)
            elif x.op == 'var':
                r = z3.Const(x.args[0], OBJ)
            elif x.op == 'app':
                r = self.appl(x, OBJ)
            elif x.op == 'ite':
                r = z3.If(self.bool(x.args[0]), self.obj(x.args[1]), self.obj(x.args[2]))
            else:
                raise T.Unsupported('opaque term ' + x.op)
            self.objs[x.id] = r
            self.objs[('k', x.id)] = x
        return r

    # -- booleans
    def bool(self, t):
        if not isinstance(t, Term):
            return z3.BoolVal(bool(t))
        r = self.bmemo.get(t.id)
        if r is None:
            r = self._bool(t)
            self.bmemo[t.id] = r
        return r

    def _bool(self, t):
        op, a = t.op, t.args
        if op == 'const':
            return z3.BoolVal(bool(a[0]))
        if op in ('<', '<='):
            x, y = a
            try:
                p = N.padd(N.nf(y), N.nf(x), -1.0)
            except N.TooBig:
                x, y = self.real(x), self.real(y)
                return x < y if op == '<' else x <= y
            # keep both sides readable for z3: lhs < rhs with moved negatives
            pos = {m: c for m, c in p.items() if c > 0}
            negp = {m: -c for m, c in p.items() if c < 0}
            if self.lin and nonlinear(p):
                self.weak = True
                z = self.patom(p, op)
            else:
                l, r = self.poly(negp), self.poly(pos)
                z = l < r if op == '<' else l <= r
            self.rootcmp(p, op, z)
            if not self.lin and len(pos) == 1 and len(negp) == 1 and len(p) == 2:
                self.logcmp(pos, negp, op, z)
            return z
        if op == '==':
            x, y = a
            if x.sort == 'O' or y.sort == 'O':
                return self.obj(x) == self.obj(y)
            if self.lin:
                try:
                    p = N.padd(N.nf(x), N.nf(y), -1.0)
                except N.TooBig:
                    return self.real(x) == self.real(y)
                if nonlinear(p):
                    self.weak = True
                    return z3.And(self.patom(p, '<='), self.patom({m: -c for m, c in p.items()}, '<='))
            return self.real(x) == self.real(y)
        if op == 'not':
            return z3.Not(self.bool(a[0]))
        if op == 'and':
            return z3.And(*[self.bool(x) for x in a])
        if op == 'or':
            return z3.Or(*[self.bool(x) for x in a])
        if op == 'ite':
            return z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        if op == 'var':
            return z3.Bool(a[0])
        if op == 'app':
            return self.appl(t, z3.BoolSort())
        if op == 'bind':
            self.weak = True
            k = N.bkey(t)
            v = z3.Bool('ex!%d' % N.atom('exb', k, t))
            self.binders.append((t, v))
            return v
        raise T.Unsupported('z3 bool ' + op)

    def patom(self, p, op):
        """p > 0 (op '<') / p >= 0 (op '<=') as a propositional atom"""
        self.abstracted += 1
        for m in p:
            for a, e in m:
                if a not in self.atommemo:
                    kind, pay = N._atoms[a]
                    if kind == 't' and pay.op in ('ite', 'bind'):
                        pass
        s = max(abs(c) for c in p.values())
        lead = max(p)
        if p[lead] < 0:
            q = {m: -c / s for m, c in p.items()}
            return z3.Not(z3.Bool('at<=%s' % hash_key(q))) if op == '<' else z3.Not(z3.Bool('at<%s' % hash_key(q)))
        q = {m: c / s for m, c in p.items()}
        k = hash_key(q)
        if k not in self.pkeys:
            self.pkeys.add(k)
            self.ax.append(z3.Implies(z3.Bool('at<%s' % k), z3.Bool('at<=%s' % k)))
        return z3.Bool('at%s%s' % (op, k))

    def logcmp(self, pos, negp, op, z):
        """comparison of two products with powers, stated between their logarithms"""
        (mp, cp), = pos.items()
        (mn, cn), = negp.items()
        ats = [a for a, e in mp + mn]
        if not any(N._atoms[a][0] == 'exp' or e.denominator > 4 for a, e in mp + mn):
            return
        try:
            d = N.padd(N.plog({mp: cp}), N.plog({mn: cn}), -1.0)
        except (N.TooBig, T.Unsupported):
            return
        zd = self.poly(d)
        cond = [self.atom(a) > 0 for a in set(ats) if not N.pos_atom(a) and N._atoms[a][0] != 'exp']
        self.ax.append(z3.Implies(z3.And(*cond) if cond else z3.BoolVal(True), z == (zd > 0 if op == '<' else zd >= 0)))

    def rootcmp(self, p, op, z):
        """rest + c sqrt(A) (<) 0 stated without the root"""
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == Fraction(1, 2) and N._atoms[m[0][0]][0] != 'exp':
                rest = {q: d for q, d in p.items() if q != m}
                if any(e.denominator != 1 for q in rest for _, e in q) or len(rest) > 8:
                    return
                try:
                    A = N.nf(N.atom_term(m[0][0]))
                    R2 = N.pmul(rest, rest)
                    D = N.padd({q: d * c * c for q, d in A.items()}, R2, -1.0)     # c^2 A - rest^2
                except N.TooBig:
                    return
                zr, zd = self.poly(rest), self.cmp0(D)
                if c > 0:       # rest + c r > 0
                    e = z3.Or(zr > 0, zd[0], z3.And(zr >= 0, zd[2])) if op == '<' else z3.Or(zr >= 0, zd[1])
                    if op == '<':
                        e = z3.Or(zr > 0, zd[0])
                else:           # rest > |c| r
                    e = z3.And(zr > 0, zd[3]) if op == '<' else z3.And(zr >= 0, zd[2])
                self.ax.append(z3.Implies(self.atom(m[0][0]) >= 0, z == e))
                return

    def cmp0(self, D):
        pos = {m: c for m, c in D.items() if c > 0}
        neg = {m: -c for m, c in D.items() if c < 0}
        if self.lin and nonlinear(D):
            a, b = self.patom(D, '<'), self.patom(D, '<=')
            return a, b, z3.Not(a), z3.Not(b)
        l, r = self.poly(neg), self.poly(pos)
        return l < r, l <= r, r <= l, r < l

    def axioms(self):
        out = list(self.ax)
        es = list(self.exps.values())[:10]
        for i in range(len(es)):
            for j in range(i + 1, len(es)):
                (u, e), (v, f) = es[i], es[j]
                out.append((u < v) == (e < f))
        cs = [c for c in self.consts if c > 0][:8]
        import math
        for (u, e) in es[:6]:
            for (x, v) in list(self.logs.values())[:6]:
                out.append(z3.Implies(x > 0, z3.And((e < x) == (u < v), (x < e) == (v < u))))
        for (u, e) in es:
            for c in cs:
                k = math.log10(c)
                if abs(k - round(k)) < 1e-12:
                    L = z3.RealVal(int(round(k))) * z3.Real('ln10')
                    out.append((u < L) == (e < self.num(c)))
                    out.append((u == L) == (e == self.num(c)))
                else:
                    L = math.log(c)
                    out.append(z3.Implies(u <= self.num(L - 1e-9), e < self.num(c)))
                    out.append(z3.Implies(u >= self.num(L + 1e-9), e > self.num(c)))
        for d in self.mono.values():
            d = list(d.values())[:6]
            for i in range(len(d)):
                for j in range(i + 1, len(d)):
                    out.append((d[i][0] < d[j][0]) == (d[i][1] < d[j][1]))
        ls = list(self.logs.values())[:10]
        for i in range(len(ls)):
            for j in range(i + 1, len(ls)):
                (x, u), (y, v) = ls[i], ls[j]
                out.append(z3.Implies(z3.And(x > 0, y > 0), (x < y) == (u < v)))
        for (x, u) in ls:
            for c in cs:
                k = math.log10(c)
                if abs(k - round(k)) < 1e-12:
                    L = z3.RealVal(int(round(k))) * z3.Real('ln10')
                else:
                    L = self.num(math.log(c))
                out.append(z3.Implies(x > 0, (x < self.num(c)) == (u < L)))
        # distinct constants of the opaque sort
        cons = [z for (i, z) in self.objs.items() if not isinstance(i, tuple) and self.objs[('k', i)].op == 'const']
        if len(cons) > 1:
            out.append(z3.Distinct(*cons))
        return out


def _prod(fs):
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def nonlinear(p):
    for m in p:
        if len(m) > 1:
            return True
        if m and (m[0][1] != 1 or N._atoms[m[0][0]][0] in ('exp', 'log', 'sum')):
            return True
        if m:
            kind, pay = N._atoms[m[0][0]]
            if kind == 't' and pay.op in ('bind', 'sin', 'cos', 'tanh', 'arctan'):
                return True
    return False


_hk = {}


def hash_key(p):
    k = N.key_of(p)
    r = _hk.get(k)
    if r is None:
        r = _hk[k] = len(_hk)
    return r


def _instantiate(tr, hyps_bool, idx_terms, done):
    """for each binder atom seen: relate it to instances at the index terms at hand (sound instantiations)"""
    rounds = 0
    out = []
    while rounds < 2:
        rounds += 1
        new = False
        for t, v in list(tr.binders):
            for it in idx_terms:
                k = (t.id, it.id)
                if k in done:
                    continue
                if it.sort != t.args[1].sort and not (t.args[1].sort == 'R'):
                    continue
                done.add(k)
                new = True
                kind, bv, n, g, b = t.args
                m = {bv.args[0]: it}
                body = T.conj(T.subst(g, m), T.subst(b, m))
                if not (isinstance(n, Term) and n.op == 'const' and n.args[0] is None):
                    body = T.conj(T.le(0, it), T.lt(it, T.unconst(n)), body)
                zb = tr.bool(body)
                out.append(z3.Implies(zb, v))
        if not new:
            break
    return out


def solve(hyps, goal, timeout=4.0, want_model=False, extra_index=()):
    r = _solve(hyps, goal, min(timeout, 2.0), extra_index, True)
    if r[0] == 'proved' or r[2] == 0:
        return r[:2]
    return _solve(hyps, goal, timeout, extra_index, False)[:2]


def _solve(hyps, goal, timeout, extra_index, lin):
    """unsat -> ('proved', None); sat -> ('sat', (model, weak, translator)); else ('unknown', None)"""
    t0 = time.time()
    tr = Translator(lin)
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', 1)
    try:
        zs = [tr.bool(h) for h in hyps]
        zg = tr.bool(goal)
        # skolemise positive existentials among hypotheses / instantiate negative ones
        gsub = set(T.subterms(goal)) if isinstance(goal, Term) else ()
        idx = {}
        for h in list(hyps) + [goal]:
            if isinstance(h, Term):
                for st in T.subterms(h):
                    if st.op == 'var' and st.sort == 'I' and not st.args[0].startswith('@'):
                        idx[st.id] = st
        for e in extra_index:
            idx[e.id] = e
        # positive existentials: add witness (skolem) facts  v => body(sk)
        seen = set()
        done = set()
        def skolemise():
            for rnd in range(2):
                for t, v in list(tr.binders):
                    if t.id in seen:
                        continue
                    seen.add(t.id)
                    kind, bv, n, g, b = t.args
                    sk = T.var('sk!%d' % t.id, bv.sort)
                    m = {bv.args[0]: sk}
                    body = T.conj(T.subst(g, m), T.subst(b, m))
                    if not (isinstance(n, Term) and n.op == 'const' and n.args[0] is None):
                        body = T.conj(T.le(0, sk), T.lt(sk, T.unconst(n)), body)
                    zs.append(z3.Implies(v, tr.bool(body)))
                    idx[sk.id] = sk
        for outer in range(3):
            n0 = len(tr.binders)
            skolemise()
            cand = sorted(idx.values(), key=lambda t: 0 if t.args[0].startswith('first') else 1 if t in gsub else
                          2 if not t.args[0].startswith('sk!') else 3)
            zs += _instantiate(tr, zs, cand[:12], done)
            if len(tr.binders) == n0 or len(tr.binders) > 30:
                skolemise()
                break
        ax = tr.axioms()
    except (T.Unsupported, N.TooBig) as e:
        return 'unknown', ('translation', str(e)), 1
    for z in zs:
        s.add(z)
    for z in ax:
        s.add(z)
    s.add(z3.Not(zg))
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_s'] += time.time() - t0
    if r == z3.unsat:
        return 'proved', None, 0
    if r == z3.sat:
        return 'sat', (s.model(), tr.weak, tr), tr.abstracted
    return 'unknown', s.reason_unknown(), 1


_feas_memo = {}


def feasible(hyps, cond, timeout=0.5):
    """is hyps /\\ cond satisfiable? (unknown counts as yes)"""
    cond = T.truth(cond)
    if cond is False:
        return False
    key = (frozenset(h.id for h in hyps if isinstance(h, Term)), cond if T.is_bool(cond) else cond.id)
    if key in _feas_memo:
        return _feas_memo[key]
    if isinstance(cond, Term):
        nc = T.neg(cond)
        for h in hyps:
            if h is nc:
                _feas_memo[key] = False
                return False
        try:
            bk = N.bkey(cond)
            if T.is_bool(bk):
                if not bk:
                    _feas_memo[key] = False
                    return False
        except (N.TooBig, T.Unsupported):
            pass
    # cone of influence: only hypotheses connected through free variables / applications
    hs = _cone(hyps, cond)
    r = _solve(hs, T.neg(cond), timeout, (), True)
    if r[0] == 'sat' and r[2]:
        r = _solve(hs, T.neg(cond), min(timeout, 0.25), (), False)
    res = r[0] != 'proved'
    _feas_memo[key] = res
    return res


def _symbols(t):
    out = set()
    for st in T.subterms(t):
        if st.op == 'var':
            out.add(st.args[0])
        elif st.op == 'app':
            out.add('f:' + st.args[0])
    return out


_sym_memo = {}


def symbols(t):
    r = _sym_memo.get(t.id)
    if r is None:
        r = _symbols(t)
        _sym_memo[t.id] = r
    return r


def _cone(hyps, cond):
    if not isinstance(cond, Term):
        return [h for h in hyps if isinstance(h, Term)]
    cur = set(symbols(cond))
    rest = [h for h in hyps if isinstance(h, Term)]
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for h in rest:
            if symbols(h) & cur:
                cur |= symbols(h)
                out.append(h)
                changed = True
            else:
                nxt.append(h)
        rest = nxt
    return out


class Result(object):
    def __init__(self, status, how, model=None, weak=True, detail=''):
        self.status = status      # proved / refuted / unknown
        self.how = how
        self.model = model
        self.weak = weak
        self.detail = detail

    def __repr__(self):
        return 'Result(%s,%s,%s)' % (self.status, self.how, self.detail)


_beq_failed = set()


def prove(hyps, goal, timeout=5.0, depth=0):
    goal = T.truth(goal)
    hyps = [h for h in hyps if isinstance(h, Term)]
    if goal is True:
        return Result('proved', 'trivial')
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        return Result('unknown', 'deadline')
    if goal is False:
        r, info = solve(hyps, False, timeout)
        if r == 'proved':
            return Result('proved', 'z3')
        return _res(r, info)
    for h in hyps:
        if h is goal:
            return Result('proved', 'hyp')
    op = goal.op
    if op == 'and':
        for g in goal.args:
            r = prove(hyps, g, timeout, depth + 1)
            if r.status != 'proved':
                return r
        return Result('proved', 'and')
    if op == 'not' and goal.args[0].op == 'bind' and goal.args[0].args[0] == 'exists':
        kind, bv, n, g, b = goal.args[0].args
        sk = T.fresh('i', bv.sort)
        m = {bv.args[0]: sk}
        hy = list(hyps)
        if not (isinstance(n, Term) and n.op == 'const' and n.args[0] is None):
            hy += [T.le(0, sk), T.lt(sk, T.unconst(n))]
        hy += [T.subst(g, m)]
        return prove(hy, T.neg(T.subst(b, m)), timeout, depth + 1)
    if op == 'or':
        eqs = [g for g in goal.args if g.op == '==']
        pick = eqs[0] if eqs else None
        if pick is None:
            ands = [g for g in goal.args if g.op == 'and']
            pick = ands[0] if ands else None
        if pick is not None and depth < 12:
            others = [T.neg(g) for g in goal.args if g is not pick]
            flat = []
            for o in others:
                if isinstance(o, Term) and o.op == 'not' and o.args[0].op == 'or':
                    flat += [T.neg(x) for x in o.args[0].args]
                elif isinstance(o, Term) and o.op == 'and':
                    flat += list(o.args)
                else:
                    flat.append(o)
            if any(o is False for o in flat):
                return Result('proved', 'trivial')
            r = prove(hyps + [o for o in flat if isinstance(o, Term)], pick, timeout, depth + 1)
            if r.status == 'proved':
                return r
    if op == '==' and goal.args[0].sort in 'RI':
        return prove_eq(hyps, goal.args[0], goal.args[1], timeout, depth)
    try:
        bk = N.bkey(goal)
        if bk is True:
            STATS['norm'] += 1
            return Result('proved', 'norm')
        for h in hyps:
            if N.bkey(h) == bk:
                STATS['norm'] += 1
                return Result('proved', 'hyp')
    except (N.TooBig, T.Unsupported):
        pass
    # congruence: closed binders inside the goal that are provably equal are identified
    bs = [t for t in T.subterms(goal) if t.op == 'bind' and not any(v.startswith('@') for v in t.fv)]
    if len(bs) > 1 and depth < 10:
        for i in range(len(bs)):
            for j in range(i + 1, len(bs)):
                x, y = bs[i], bs[j]
                if x.args[0] == y.args[0] and N.bkey2(x) != N.bkey2(y) and (x.id, y.id, len(hyps)) not in _beq_failed:
                    if binders_equal(hyps, x, y, min(timeout, 2.0), depth + 1):
                        STATS['cong'] += 1
                        return prove(hyps, T.truth(T.replace(goal, x, y)), timeout, depth + 1)
                    _beq_failed.add((x.id, y.id, len(hyps)))
    r, info = solve(_cone(hyps, goal), goal, timeout)
    if r == 'proved':
        STATS['z3_proved'] += 1
        return Result('proved', 'z3')
    if r == 'sat' and len(_cone(hyps, goal)) != len(hyps):
        r, info = solve(hyps, goal, timeout)
        if r == 'proved':
            return Result('proved', 'z3')
    # case split on ite conditions inside a comparison
    if r != 'proved' and depth < 14 and op in ('<', '<=', 'or', '=='):
        c = _pick_ite([goal])
        if c is not None:
            rr = _split(hyps, c, lambda h, f: prove(h, f(goal), timeout, depth + 1))
            if rr.status == 'proved':
                return rr
            if r == 'unknown':
                return rr
    return _res(r, info)


def _res(r, info):
    if r == 'sat':
        return Result('refuted', 'z3', info[0], info[1], info[2])
    return Result('unknown', 'z3', detail=str(info))


def _pick_ite(ts):
    """an ite condition without bound variables, innermost first"""
    best = None
    for t in ts:
        for st in T.subterms(t):
            if st.op == 'ite':
                c = st.args[0]
                if any(v.startswith('@') for v in c.fv):
                    continue
                s = T.size(c) + 100 * sum(1 for q in T.subterms(c) if q.op == 'ite')
                if best is None or s < best[0]:
                    best = (s, c)
            elif st.op == 'abs':
                if any(v.startswith('@') for v in st.fv):
                    continue
                c = T.le(0, st.args[0])
                if isinstance(c, Term):
                    s = T.size(c) + 100 * sum(1 for q in T.subterms(c) if q.op == 'ite')
                    if best is None or s < best[0]:
                        best = (s, c)
    return best[1] if best else None


def assume(t, cond, val, memo=None):
    """simplify t under cond == val"""
    if not isinstance(t, Term):
        return t
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    if t is cond:
        r = val
    elif t.sort == 'B' and T.neg(t) is cond:
        r = not val
    elif t.op in ('var', 'const'):
        r = t
    elif t.op == 'ite':
        c = assume(t.args[0], cond, val, memo)
        if T.is_bool(c):
            r = assume(t.args[1] if c else t.args[2], cond, val, memo)
        else:
            r = T.ite(c, assume(t.args[1], cond, val, memo), assume(t.args[2], cond, val, memo))
    elif t.op == 'abs':
        x = assume(t.args[0], cond, val, memo)
        c = T.le(0, x)
        cc = assume(c, cond, val, memo) if isinstance(c, Term) and c.id not in memo else c
        if T.is_bool(cc):
            r = x if cc else T.mul(-1, x)
        else:
            r = T.absv(x)
    elif t.op == 'bind':
        kind, v, n, g, b = t.args
        r = T.mk('bind', (kind, v, T.const(assume(n, cond, val, memo)), T.const(assume(g, cond, val, memo)),
                          T.const(assume(b, cond, val, memo))), t.sort)
    elif t.op == 'app':
        r = T.rebuild('app', (t.args[0],) + tuple(assume(a, cond, val, memo) for a in t.args[1:]), t.sort)
    else:
        r = T.rebuild(t.op, tuple(assume(a, cond, val, memo) if isinstance(a, Term) else a for a in t.args), t.sort)
    memo[t.id] = r
    return r


def _split(hyps, c, k):
    STATS['split'] += 1
    last = None
    for val in (True, False):
        h = c if val else T.neg(c)
        if not feasible(hyps, h):
            continue
        r = k(hyps + [h], lambda t: assume(t, c, val))
        last = r
        if r.status != 'proved':
            return r
    return last or Result('proved', 'vacuous')


def prove_eq(hyps, a, b, timeout=5.0, depth=0):
    if N.equal(a, b):
        STATS['norm'] += 1
        return Result('proved', 'norm')
    if depth == 0:
        a2, b2 = resolve_ints(hyps, a, b)
        if a2 is not a or b2 is not b:
            return prove_eq(hyps, a2, b2, timeout, depth + 1)
    if depth < 24:
        c = _pick_ite([a, b])
        if c is not None:
            return _split(hyps, c, lambda h, f: _eq_again(h, f(a), f(b), timeout, depth + 1))
    if depth < 20 and prove_sums(hyps, a, b, timeout, depth + 1):
        STATS['cong'] += 1
        return Result('proved', 'sums')
    # congruence on binders
    ba = [t for t in T.subterms(a) if t.op == 'bind'] if isinstance(a, Term) else []
    bb = [t for t in T.subterms(b) if t.op == 'bind'] if isinstance(b, Term) else []
    for x in ba:
        for y in bb:
            if x is y or x.args[0] != y.args[0] or any(v.startswith('@') for v in x.fv | y.fv):
                continue
            if depth < 20 and binders_equal(hyps, x, y, timeout, depth + 1):
                STATS['cong'] += 1
                return prove_eq(hyps, T.replace(a, x, y), b, timeout, depth + 1)
    # congruence on applications whose arguments are provably equal
    aa = [t for t in T.subterms(a) if t.op in ('app', 'floor', 'trunc', 'round', 'exp', 'log', 'log10', 'sin', 'cos')] if isinstance(a, Term) else []
    ab = [t for t in T.subterms(b) if t.op in ('app', 'floor', 'trunc', 'round', 'exp', 'log', 'log10', 'sin', 'cos')] if isinstance(b, Term) else []
    if depth < 20 and (ba or bb):
        for x in aa:
            for y in ab:
                if x is y or x.op != y.op or len(x.args) != len(y.args) or x.sort == 'O':
                    continue
                if x.op == 'app' and x.args[0] != y.args[0]:
                    continue
                if x in [t for t in T.subterms(b)]:
                    continue
                pairs = [(p, q) for p, q in zip(x.args, y.args) if isinstance(p, Term)]
                if any(v.startswith('@') for p, q in pairs for v in (p.fv | q.fv)):
                    continue
                if all(prove(hyps, T.eq(T.unconst(p), T.unconst(q)), timeout, depth + 5).status == 'proved' for p, q in pairs):
                    return prove_eq(hyps, T.replace(a, x, y), b, timeout, depth + 1)
    g = T.eq(a, b)
    if g is True:
        return Result('proved', 'norm')
    if g is False:
        return prove(hyps, False, timeout, depth)
    r, info = solve(hyps, g, timeout)
    if r == 'proved':
        STATS['z3_proved'] += 1
        return Result('proved', 'z3')
    return _res(r, info)


def resolve_ints(hyps, a, b):
    """truncations whose value the hypotheses fix are replaced by that integer"""
    ts = []
    for x in (a, b):
        if isinstance(x, Term):
            ts += [t for t in T.subterms(x) if t.op in ('floor', 'trunc') and t not in ts and not any(v.startswith('@') for v in t.fv)]
    for t in ts[:8]:
        try:
            c0 = N.nf(t.args[0]).get((), 0.0)
        except N.TooBig:
            continue
        for k in (math.floor(c0), math.floor(c0) - 1):
            if t.op == 'trunc' and k < 0:
                continue
            if solve(hyps, T.conj(T.le(k, t.args[0]), T.lt(t.args[0], k + 1)), 0.5)[0] == 'proved':
                a = T.replace(a, t, k) if isinstance(a, Term) else a
                b = T.replace(b, t, k) if isinstance(b, Term) else b
                break
    return a, b


def _coef_of_sum(a, b):
    """a - b as  sum_j c_j * Sum_j + rest  with constant c_j; None when not of that form"""
    try:
        d = N.padd(N.nf(a), N.nf(b), -1.0)
    except N.TooBig:
        return None
    sums, rest = [], {}
    for m, c in d.items():
        bs = [(at, e) for at, e in m if N._atoms[at][0] == 't' and N._atoms[at][1].op == 'bind'
              and N._atoms[at][1].args[0] == 'sum']
        if not bs:
            rest[m] = c
            continue
        if len(bs) != 1 or bs[0][1] != 1:
            return None
        others = tuple((at, e) for at, e in m if at != bs[0][0])
        sums.append((N._atoms[bs[0][0]][1], {others: c}))
    return sums, rest


def prove_sums(hyps, a, b, timeout, depth):
    """equality of linear combinations of sums: the summands are combined pointwise"""
    r = _coef_of_sum(a, b)
    if r is None or not r[0] or len(r[0]) > 12:
        return False
    sums, rest = r
    groups = []
    for t, co in sums:
        kind, v, n, g, body = t.args
        if n.sort == 'O':
            return False
        n0 = T.unconst(n)
        if not feasible(hyps, T.lt(0, n0)):
            continue                                   # empty range
        for gr in groups:
            if gr[0] is n0 or (gr[0] == n0 if T.is_num(gr[0]) and T.is_num(n0) else False) or N.equal(gr[0], n0):
                gr[1].append((t, co))
                break
        else:
            groups.append((n0, [(t, co)]))
    if not groups:
        return prove(hyps, T.eq(N.poly_term(rest), 0), timeout, depth + 1).status == 'proved'
    # rest must be a combination  sum_k q_k * n_k ; q_k constant in the first group only
    for gi, (n0, members) in enumerate(groups):
        sk = T.fresh('i', members[0][0].args[1].sort)
        tot = 0
        for t, co in members:
            kind, v, n, g, body = t.args
            m = {v.args[0]: sk}
            val = T.ite(T.subst(T.unconst(g), m), T.subst(T.unconst(body), m), 0)
            tot = T.add(tot, T.mul(N.poly_term(co), val))
        q = 0
        if gi == 0 and rest:
            try:
                pn = N.nf(n0)
            except N.TooBig:
                return False
            if len(pn) != 1:
                return False
            (mn, cn), = pn.items()
            quot = {}
            for m, c in rest.items():
                inv = N.mmul(m, tuple((at, -e) for at, e in mn))
                quot[inv] = c / cn
            q = N.poly_term(quot)
        hy = hyps + [T.le(0, sk), T.lt(sk, n0)]
        if prove([h for h in hy if isinstance(h, Term)], T.eq(T.add(tot, q), 0), timeout, depth + 1).status != 'proved':
            return False
    return True


def _eq_again(hyps, a, b, timeout, depth):
    return prove_eq(hyps, a, b, timeout, depth)


def binders_equal(hyps, x, y, timeout=5.0, depth=0):
    """same kind, same domain, guards equivalent and bodies equal under the guard"""
    k1, v1, n1, g1, b1 = x.args
    k2, v2, n2, g2, b2 = y.args
    if k1 != k2 or v1.sort != v2.sort:
        return False
    if not (n1 is n2):
        if n1.sort == 'O' or n2.sort == 'O':
            return False
        if prove(hyps, T.eq(n1, n2), timeout, depth).status != 'proved':
            return False
    sk = T.fresh('i', v1.sort)
    m1, m2 = {v1.args[0]: sk}, {v2.args[0]: sk}
    hy = list(hyps)
    if not (n1.op == 'const' and n1.args[0] is None):
        hy += [T.le(0, sk), T.lt(sk, T.unconst(n1))]
    ga, gb = T.subst(T.unconst(g1), m1), T.subst(T.unconst(g2), m2)
    va, vb = T.subst(T.unconst(b1), m1), T.subst(T.unconst(b2), m2)
    if k1 == 'sum':
        va, vb = T.ite(ga, va, 0), T.ite(gb, vb, 0)
        return prove(hy, T.eq(va, vb), timeout, depth).status == 'proved'
    if k1 in ('exists', 'forall'):
        return prove(hy, T.iff(T.conj(ga, va), T.conj(gb, vb)), timeout, depth).status == 'proved'
    return prove(hy, T.eq(va, vb), timeout, depth).status == 'proved'
