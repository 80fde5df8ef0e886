"""Contract kit.  A contract is an ordinary Python function of one argument k; the same text runs in two modes:

  SymKit   inputs are symbolic, the code under contract is executed by the VC generator (interp.py), every k.check /
           k.eq / k.same is an obligation proved on every path for all inputs and all sequence lengths;
  ConcKit  inputs are sampled (or taken from a counter-model), the code runs natively under CPython.
"""
import copy
import hashlib
import inspect
import math
import random
import re
import types

import numpy as np

from . import terms as T
from . import smt as S
from . import seqs as Q
from . import models as M
from . import interp as IN
from .seqs import Comp, Arr, Arr2
from .terms import Term, Unsupported, Infeasible


class Skip(BaseException):
    pass


class Fail(Exception):
    pass


# ---------------------------------------------------------------------------------------------------- value generators

class Real(object):
    sort = 'R'

    def __init__(self, lo=None, hi=None, lo_open=False, hi_open=False, pool=(), log=None, tie=None):
        self.lo, self.hi, self.lo_open, self.hi_open, self.pool, self.tie = lo, hi, lo_open, hi_open, tuple(pool), tie
        if log is None:
            log = lo is not None and hi is not None and lo > 0 and hi / lo > 50
        self.log = log

    @property
    def pos(self):
        return self.lo is not None and (self.lo > 0 or (self.lo == 0 and self.lo_open))

    def facts(self, t):
        out = []
        if self.lo is not None:
            out.append(T.lt(self.lo, t) if self.lo_open else T.le(self.lo, t))
        if self.hi is not None:
            out.append(T.lt(t, self.hi) if self.hi_open else T.le(t, self.hi))
        return out

    def sample(self, rng, ties):
        if self.tie is not None and ties.get(self.tie) and rng.random() < 0.35:
            v = rng.choice(ties[self.tie])
            if rng.random() < 0.2:
                # a value that is almost, but not, the one seen before
                w = v * (1 + rng.choice([1, -1]) * rng.choice([3e-6, 1e-7, 1e-9, 1e-11]))
                if self.clean(w) == w and (w != self.lo or not self.lo_open):
                    v = w
                    ties[self.tie].append(v)
            return v
        r = rng.random()
        if self.pool and r < 0.3:
            v = rng.choice(self.pool)
        elif r > 0.93 and self.lo is not None and not self.lo_open:
            v = self.lo
        elif r > 0.86 and self.hi is not None and not self.hi_open:
            v = self.hi
        elif self.lo is not None and self.hi is not None:
            if self.log:
                v = 10 ** rng.uniform(math.log10(self.lo), math.log10(self.hi))
            else:
                v = rng.uniform(self.lo, self.hi)
            if v <= self.lo and self.lo_open or v >= self.hi and self.hi_open:
                v = 0.5 * (self.lo + self.hi)
        elif self.lo is not None:
            v = self.lo + rng.choice([rng.random(), 10 * rng.random(), 10 ** rng.uniform(-3, 4)]) + \
                (1e-9 if self.lo_open else 0)
        elif self.hi is not None:
            v = self.hi - rng.choice([rng.random(), 10 * rng.random()]) - (1e-9 if self.hi_open else 0)
        else:
            v = rng.choice([0.0, 1.0, -1.0, rng.gauss(0, 1), rng.gauss(0, 10)])
        v = float(v)
        if self.tie is not None:
            ties.setdefault(self.tie, []).append(v)
        return v

    def clean(self, v):
        v = float(v)
        if self.lo is not None and v < self.lo:
            v = float(self.lo)
        if self.hi is not None and v > self.hi:
            v = float(self.hi)
        return v


class Int(Real):
    sort = 'I'

    def sample(self, rng, ties):
        lo = 0 if self.lo is None else int(self.lo)
        hi = lo + 5 if self.hi is None else int(self.hi)
        return rng.randint(lo, hi)

    def clean(self, v):
        return int(round(Real.clean(self, v)))


class Bool(object):
    sort = 'B'
    pos = False

    def facts(self, t):
        return []

    def sample(self, rng, ties):
        return rng.random() < 0.5

    def clean(self, v):
        return bool(v)


class Str(object):
    sort = 'O'
    pos = False

    def __init__(self, *options):
        self.options = options

    def facts(self, t):
        return [T.disj(*[T.eq(t, o) for o in self.options])]

    def sample(self, rng, ties):
        return rng.choice(self.options)

    def clean(self, v):
        return v if v in self.options else self.options[0]


class Meth(object):
    """method of family elements: an uninterpreted function of (element, arguments)"""

    def __init__(self, ret, impl=None, nargs=None):
        self.ret, self.impl, self.nargs = ret, impl, nargs


class Build(object):
    """structured attribute computed from the other attributes of the object"""
    sort = 'O'

    def __init__(self, f):
        self.f = f


class Outcome(object):
    def __init__(self, value, exc):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types_):
        return self.exc is not None and (not types_ or isinstance(self.exc, types_))


STANDINS = {}
_KNOWN = []


class StandInGap(Exception):
    pass


def standin_gap(e):
    """the code reads an attribute that exists in the program (or an object of a library) but that the contract's stand-in for
    the object was not given: the contract cannot run this code, which says nothing about the code"""
    if not isinstance(e, AttributeError):
        return False
    o, n = getattr(e, 'obj', None), getattr(e, 'name', None)
    if o is None or not n or not (isinstance(o, (Obj, FamObj)) or STANDINS.get(id(o)) is o):
        return False
    if not _KNOWN:
        import os, re
        names = set(dir(np.ndarray))
        try:
            from astropy.cosmology import FlatLambdaCDM
            names |= set(dir(FlatLambdaCDM))
        except ImportError:
            pass
        for d, _, fs in os.walk(IN.REPO_PKG):
            for f in fs:
                if f.endswith('.py'):
                    with open(os.path.join(d, f)) as g:
                        t = g.read()
                    names |= set(re.findall(r'\bdef (\w+)', t)) | set(re.findall(r'\.(\w+)\s*(?:,[^=\n]*)?=[^=]', t)) | set(re.findall(r'^    (\w+) *=[^=]', t, re.M))
        _KNOWN.append(names)
    return n in _KNOWN[0]


class Obj(object):
    """stub object: attributes given by the contract (an assumed interface)"""
    _pv_symbolic = True

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Obj(%s)' % ','.join(sorted(self.__dict__))


# ------------------------------------------------------------------------------------------------------------ families

class Family(object):
    """n objects whose attributes are uninterpreted functions of the index"""

    def __init__(self, kit, name, n, attrs, cls=None, const=None):
        self.kit, self.name, self.n, self.attrs, self.cls = kit, name, n, attrs, cls
        self.const = const or {}
        self.over = {}          # attr -> (var, value)
        self.local = {}         # attr -> (idx, value)   inside a summarised loop body
        for a, g in attrs.items():
            fn = '%s.%s' % (name, a)
            if isinstance(g, Build):
                continue
            if isinstance(g, Meth):
                g = g.ret
            if getattr(g, 'pos', False):
                T.POS_APPS.add(fn)
            if isinstance(g, Real) and (g.lo is not None or g.hi is not None):
                S.APP_BOUNDS[fn] = (g.lo, g.hi)

    def base(self, attr, idx):
        g = self.attrs[attr]
        t = T.app('%s.%s' % (self.name, attr), [idx], g.sort)
        for f in g.facts(t):
            if isinstance(f, Term):
                T.CTX[0].assume(f)
        return t

    def has(self, attr):
        return attr in self.attrs or attr in self.over or attr in self.local or attr in self.const

    def value_at(self, attr, idx):
        loc = self.local.get(attr)
        if loc is not None:
            if loc[0] is idx:
                return loc[1]
            raise Unsupported('attribute %s of another element read after a write in the loop' % attr)
        return self.before(attr, idx)

    def before(self, attr, idx):
        ov = self.over.get(attr)
        if ov is not None:
            return Q.subst_val(ov[1], {ov[0].args[0]: idx})
        if attr in self.const:
            return self.const[attr]
        if attr not in self.attrs:
            return Undefined(attr)
        if isinstance(self.attrs[attr], Meth):
            return None
        return self.base(attr, idx)

    def local_value(self, attr):
        return self.local[attr][1]

    def commit(self, I, attr, v, new, n):
        old_over = self.over.get(attr)
        if isinstance(new, Undefined):
            return
        if not (n is self.n or (isinstance(T.eq(n, self.n), bool) and T.eq(n, self.n))):
            cur = self.before(attr, v)
            new = Q.merge(T.lt(v, n), new, cur)
        self.over[attr] = (v, new)

        def undo():
            if old_over is None:
                self.over.pop(attr, None)
            else:
                self.over[attr] = old_over
        I.ctx.log(('famover', self, attr, old_over, undo))

    def write(self, I, attr, idx, val):
        ctx = I.ctx
        if ctx.loopvars:
            if idx is not ctx.loopvars[-1]:
                raise Unsupported('write to an element that is not the loop element')
            old = self.local.get(attr)
            self.local[attr] = (idx, val)

            def undo(old=old):
                if old is None:
                    self.local.pop(attr, None)
                else:
                    self.local[attr] = old
            ctx.log(('fam', self, attr, None, undo))
        else:
            v = ctx.fresh('i', 'I')
            new = Q.merge(T.eq(v, idx), val, self.before(attr, v))
            self.commit(I, attr, v, new, self.n)


class Undefined(object):
    _pv_symbolic = True

    def __init__(self, attr):
        self.attr = attr

    def _pv_merge(self, c, b):
        raise Unsupported('attribute %s defined on some elements only' % self.attr)


class FamObj(object):
    _pv_symbolic = True
    __slots__ = ('fam', 'idx')

    def __init__(self, fam, idx):
        object.__setattr__(self, 'fam', fam)
        object.__setattr__(self, 'idx', idx)

    def __repr__(self):
        return '%s[%s]' % (self.fam.name, self.idx)

    def _pv_class(self):
        return self.fam.cls or FamObj

    def _pv_subst(self, m, memo):
        i = Q.subst_val(self.idx, m)
        return self if i is self.idx else FamObj(self.fam, i)

    def _pv_is(self, o):
        if isinstance(o, FamObj) and o.fam is self.fam:
            return T.eq(self.idx, o.idx)
        return False

    _pv_eq = _pv_is

    def _pv_merge(self, c, b):
        if isinstance(b, FamObj) and b.fam is self.fam:
            return FamObj(self.fam, T.ite(c, self.idx, b.idx))
        raise Unsupported('merge of different objects')

    def _present(self, name):
        """True / False / a condition: the attribute has not been deleted from this element"""
        f = self.fam
        p = '$has ' + name
        if p in f.over or p in f.local:
            return T.truth(f.value_at(p, self.idx))
        return True

    def _pv_delattr(self, I, name):
        if not self.fam.has(name):
            raise AttributeError(name)
        p = self._present(name)
        if p is False or (isinstance(p, Term) and not I.ctx.branch(p)):
            raise AttributeError(name)
        self.fam.attrs.setdefault('$has ' + name, Bool())
        self.fam.const.setdefault('$has ' + name, True)
        self.fam.write(I, '$has ' + name, self.idx, False)

    def _pv_hasattr(self, name):
        if self.fam.has(name):
            return self._present(name)
        return self.fam.cls is not None and hasattr(self.fam.cls, name)

    def _pv_getattr(self, I, name):
        f = self.fam
        if name == '__class__':
            return self._pv_class()
        if name == '__dict__':
            raise Unsupported('__dict__ of a symbolic object')
        if f.has(name):
            p = self._present(name)
            if p is False or (isinstance(p, Term) and not I.ctx.branch(p)):
                raise AttributeError(name)
            g = f.attrs.get(name)
            if isinstance(g, Meth) and name not in f.over and name not in f.local:
                return BoundMeth(self, name, g)
            if isinstance(g, Build) and name not in f.over and name not in f.local:
                v = g.f(self)
                I.new(v)
                return v
            v = f.value_at(name, self.idx)
            if isinstance(v, Undefined):
                raise AttributeError(name)
            return v
        if f.cls is not None:
            p = IN._class_attr(f.cls, name)
            if isinstance(p, property):
                return I.call(p.fget, [self], {})
            if isinstance(p, types.FunctionType):
                return types.MethodType(p, self)
            if isinstance(p, staticmethod):
                return p.__func__
            if isinstance(p, classmethod):
                return types.MethodType(p.__func__, f.cls)
            if p is not None:
                return p
        raise AttributeError("'%s' object has no attribute '%s'" % (f.name, name), name=name, obj=self)

    def _pv_setattr(self, I, name, v):
        f = self.fam
        if f.cls is not None:
            p = IN._class_attr(f.cls, name)
            if isinstance(p, property):
                if p.fset is None:
                    raise AttributeError("can't set attribute " + name)
                return I.call(p.fset, [self, v], {})
        if '$has ' + name in f.over or '$has ' + name in f.local:
            f.write(I, '$has ' + name, self.idx, True)
        f.write(I, name, self.idx, v)

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_pv_'):
            raise AttributeError(name)
        return self._pv_getattr(M.CURRENT[0], name)

    def __call__(self, *a, **k):
        return BoundMeth(self, '__call__', self.fam.attrs['__call__'])(*a, **k)

    def __deepcopy__(self, memo):
        raise Unsupported('deepcopy of a symbolic object')


class BoundMeth(object):
    _pv_symbolic = True

    def __init__(self, obj, name, meth):
        self.obj, self.name, self.meth = obj, name, meth

    def __call__(self, *args, **kw):
        if kw:
            args = args + tuple(kw[k] for k in sorted(kw))
        fn = '%s.%s' % (self.obj.fam.name, self.name)
        g = self.meth.ret
        idx = self.obj.idx

        def one(*a):
            t = T.app(fn, [idx] + [_argval(x) for x in a], g.sort)
            for f in g.facts(t):
                if isinstance(f, Term) and not any(v.startswith('@') for v in f.fv):
                    T.CTX[0].assume(f)
            return t
        return broadcast(one, args)

    def _pv_subst(self, m, memo):
        o = self.obj._pv_subst(m, memo)
        return self if o is self.obj else BoundMeth(o, self.name, self.meth)


def _argval(x):
    if isinstance(x, (Term, str)) or x is None or T.is_num(x) or T.is_bool(x):
        return T.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return T.const(x.item())
    if isinstance(x, Obj):
        return T.const(id(x))
    if isinstance(x, FamObj):
        return T.const(x.idx)
    raise Unsupported('argument of an uninterpreted function: %s' % type(x).__name__)


def broadcast(one, args):
    """apply a scalar function elementwise over array arguments"""
    if not any(Q.is_seq(a) for a in args):
        return one(*args)
    cur = None
    for a in args:
        if cur is None:
            cur = Q.ew1(lambda v: M.Box((v,)), a) if Q.is_seq(a) else M.Box((a,))
        else:
            cur = Q.ew2(lambda p, v: M.Box(p.p + (v,)), cur, a)
    return Q.ew1(lambda b: one(*b.p), cur)


# ---------------------------------------------------------------------------------------------------------- base class

class Kit(object):
    pi = math.pi

    def is_seq(self, x):
        return Q.is_seq(x) or isinstance(x, np.ndarray) and x.ndim > 0

    sym = False
    recorded = ()

    def __init__(self):
        self.notes = []

    # generators, shared names
    Real, Int, Bool, Str, Meth = Real, Int, Bool, Str, Meth

    def pos(self, name, lo=1e-3, hi=1e3, **kw):
        """strictly positive real; the bounds only steer sampling"""
        return self.real(name, Real(0, None, lo_open=True) if self.sym else Real(lo, hi, **kw))


# ------------------------------------------------------------------------------------------------------------- symbolic

class SymKit(Kit):
    sym = True

    def __init__(self, ctx, timeout=4.0):
        Kit.__init__(self)
        self.ctx = ctx
        self.I = IN.Interp(ctx)
        M.CURRENT[0] = self.I
        self.obls = []
        self.timeout = timeout
        self.path = 0
        self.structural = 0

    # -- inputs
    def replay(self, f, *a, **kw):
        """f run on the random numbers the code under contract was given since begin()"""
        c = self.ctx
        now = dict(c.counter)
        for d in c.drawn:
            c.counter[d] = self.counter0.get(d, 0)
        n = len(c.draws)
        try:
            return self.run(f, *a, **kw)
        finally:
            del c.draws[n:]
            for d in c.drawn:
                c.counter[d] = max(c.counter.get(d, 0), now.get(d, 0))

    def begin(self):
        self.counter0 = dict(self.ctx.counter)
        self.draw0 = len(self.ctx.draws)
        self.reached = False

    def real(self, name, g=None, **kw):
        g = g or Real(**kw)
        t = T.var(name, g.sort, pos=getattr(g, 'pos', False))
        for f in g.facts(t):
            self.ctx.assume(f)
        return t

    def int(self, name, lo=None, hi=None):
        return self.real(name, Int(lo, hi))

    size = int

    def bool(self, name):
        return T.var(name, 'B')

    def choice(self, name, options):
        v = T.var(name + '?', 'I')
        options = list(options)
        for i, o in enumerate(options[:-1]):
            if self.ctx.branch(T.eq(v, i)):
                return o
        self.ctx.assume(T.eq(v, len(options) - 1))
        return options[-1]

    def string(self, name, *options):
        return self.real(name, Str(*options))

    def fn(self, name, ret=None, impl=None, always=None):
        """assumed function symbol: nothing is known about it but its range"""
        g = ret or Real()
        if g.pos:
            T.POS_APPS.add(name)
        if isinstance(g, Real) and (g.lo is not None or g.hi is not None):
            S.APP_BOUNDS[name] = (g.lo, g.hi)
        kit = self

        def f(*args, **kw):
            args = list(args) + [kw[k] for k in sorted(kw)]

            def one(*a):
                t = T.app(name, [_argval(x) for x in a], g.sort)
                for fct in g.facts(t):
                    if isinstance(fct, Term) and not any(v.startswith('@') for v in fct.fv):
                        kit.ctx.assume(fct)
                return t
            return broadcast(one, args)
        f._pv_name = name
        return f

    def obj(self, **attrs):
        return Obj(**attrs)

    def new(self, cls, **attrs):
        o = cls.__new__(_concrete_cls(cls))
        o.__dict__.update(attrs)
        STANDINS[id(o)] = o
        return o

    def family(self, name, n, cls=None, const=None, **attrs):
        fam = Family(self, name, n, attrs, cls, const)
        v = self.ctx.fresh('i', 'I')
        r = [Comp(v, n, True, [FamObj(fam, v)])]
        self.I.new(r)
        return r

    def array(self, name, n, g=None):
        g = g or Real()
        if g.pos:
            T.POS_APPS.add(name)
        if isinstance(g, Real) and (g.lo is not None or g.hi is not None):
            S.APP_BOUNDS[name] = (g.lo, g.hi)
        v = self.ctx.fresh('i', 'I')
        return Arr([Comp(v, n, True, [T.app(name, [v], g.sort)])])

    def list(self, name, n, g=None):
        return list(self.array(name, n, g).parts)

    def arr(self, items):
        """fixed-length array from scalars"""
        return Arr(list(items))

    def obj_list(self, *items):
        return list(items)

    # -- running code
    def before(self, h, name):
        pass

    def call(self, f, *args, **kw):
        M.CURRENT[0] = self.I
        self.reached = True
        try:
            return Outcome(self.I.call(f, list(args), kw), None)
        except Exception as e:
            if standin_gap(e):
                raise Unsupported('stand-in without attribute %r' % e.name)
            return Outcome(None, e)

    def run(self, f, *args, **kw):
        """call that must not raise"""
        o = self.call(f, *args, **kw)
        if o.exc is not None:
            self.fail('no exception', o.exc)
        return o.value

    def get(self, obj, name):
        M.CURRENT[0] = self.I
        p = inspect.getattr_static(type(obj), name, None)
        if isinstance(p, property) and IN.in_repo(p.fget):
            # the code of a property is code under contract
            return self.run(p.fget, obj)
        return self.I.getattr(obj, name)

    def read(self, obj, name):
        """outcome of reading a property"""
        p = inspect.getattr_static(type(obj), name, None)
        if isinstance(p, property):
            return self.call(p.fget, obj)
        return self.call(lambda: self.I.getattr(obj, name))

    def override(self, f, g):
        """callee replaced by its contract"""
        self.I.overrides[f] = g

    def has(self, obj, name):
        return M.b_hasattr(self.I, obj, name)

    # -- facts and obligations
    def assume(self, c):
        self.ctx.assume(c)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def check(self, label, c, hyps=()):
        try:
            c = self.I.truth(c)
        except Exception as e:
            self.obls.append((label, self.path, S.Result('unknown', 'truth', detail=str(e)), None))
            return
        self._prove(label, c, hyps)

    def lemma(self, label, c, using=None):
        """a fact that later obligations may use: discharged first, silently not used if it cannot be.
        using: discharge it from these (earlier discharged) facts alone"""
        c = T.truth(c)
        hy = list(dict.fromkeys(self.ctx.pc()))
        if using is not None:
            using = [T.truth(u) for u in using]
            if not all(u is True or u in hy or S.prove(hy, u, self.timeout).status == 'proved' for u in using):
                return False
            hy = [u for u in using if u is not True]
        res = S.prove(hy, c, self.timeout)
        if res.status != 'proved':
            return False
        res.why = ''
        self.obls.append(('lemma: ' + label, self.path, res, _short(c)))
        self.ctx.assume(c)
        return True

    def fail(self, label, exc):
        self._prove(label, False, (), 'raised %s: %s' % (type(exc).__name__, exc), exc=exc)
        raise EndPath()

    def _prove(self, label, c, hyps=(), why='', exc=None):
        hy = list(dict.fromkeys(self.ctx.pc() + [h for h in hyps if isinstance(h, Term)]))
        if any(h is False for h in hyps):
            return
        if c is False:
            # reachable? then refuted with the model of the path condition
            r, info = S.solve(hy, False, self.timeout)
            if r == 'proved':
                res = S.Result('proved', 'vacuous path')
            elif r == 'sat':
                res = S.Result('refuted', 'structural', info[0], info[1], info[2])
            else:
                res = S.Result('unknown', 'structural', detail=str(info))
            res.structural = True
            res.why = why
            res.engine_exc = exc is not None and _engine_exc(exc)
        else:
            res = S.prove(hy, c, self.timeout)
            res.why = why
        if res.status == 'refuted':
            # bug in library functions' opaque models are not evidence
            res.syms = sorted(S.symbols(c)) if isinstance(c, Term) else []
        self.obls.append((label, self.path, res, _short(c)))

    def eq(self, label, a, b, hyps=(), rtol=None, atol=None):
        """numeric / scalar equality"""
        if Q.is_seq(a) or Q.is_seq(b):
            return self.same(label, a, b, hyps)
        self.same(label, a, b, hyps)

    def same(self, label, a, b, hyps=(), rtol=None, atol=None):
        out = Q.Diff()
        self._eqv(a, b, self.ctx.pc() + list(hyps), out, '')
        if out.mismatch and not out.goals:
            self._prove(label, False, hyps, out.mismatch)
            if self.obls[-1][2].status == 'refuted' and ('segment' in out.mismatch or 'loop summary' in out.mismatch):
                # different shapes are not yet different sequences
                o = self.obls[-1]
                self.obls[-1] = (o[0], o[1], S.Result('unknown', 'shape', detail=out.mismatch), o[3])
            return
        if not out.goals:
            self.obls.append((label, self.path, S.Result('proved', 'structural'), 'identical'))
            return
        for path, hy, goal in out.goals:
            self._prove('%s%s' % (label, path), goal, hy)
        if out.mismatch:
            self.obls.append((label, self.path, S.Result('unknown', 'shape', detail=out.mismatch), None))

    def _eqv(self, a, b, hyps, out, path, depth=0):
        if a is b:
            return
        if isinstance(a, IN.Poison) or isinstance(b, IN.Poison):
            out.mismatch = 'value not defined by the loop summary'
            return
        if depth > 8:
            out.mismatch = 'too deep at ' + path
            return
        if isinstance(a, (Arr2,)) or isinstance(b, Arr2):
            self._eqv2(Q.to2(a), Q.to2(b), hyps, out, path)
            return
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        seqa = isinstance(a, (list, tuple, Arr, np.ndarray))
        seqb = isinstance(b, (list, tuple, Arr, np.ndarray))
        if seqa and seqb:
            pa = list(Q.as_parts(a)) if not isinstance(a, np.ndarray) or a.ndim == 1 else [list(r) for r in a]
            pb = list(Q.as_parts(b)) if not isinstance(b, np.ndarray) or b.ndim == 1 else [list(r) for r in b]
            Q.seq_goals(pa, pb, hyps, lambda x, y, h, o, p: self._eqv(x, y, h, o, p, depth + 1), out, path)
            return
        if seqa != seqb:
            out.goals.append((path, hyps, False))
            return
        if isinstance(a, M.DictView):
            a = {q: a.get(q) for q in a.d}
        if isinstance(b, M.DictView):
            b = {q: b.get(q) for q in b.d}
        num = lambda x: isinstance(x, Term) or T.is_num(x) or T.is_bool(x)
        if isinstance(a, (FamObj,)) or isinstance(b, FamObj):
            c = a._pv_is(b) if isinstance(a, FamObj) else b._pv_is(a)
            out.goals.append((path, hyps, c))
            return
        if num(a) and num(b):
            out.goals.append((path, hyps, T.eq(a, b)))
            return
        if isinstance(a, Term) or isinstance(b, Term):
            t, o = (a, b) if isinstance(a, Term) else (b, a)
            if t.sort == 'O' and (isinstance(o, str) or o is None):
                out.goals.append((path, hyps, T.eq(t, o)))
            else:
                out.goals.append((path, hyps, False))
            return
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                out.goals.append((path + '.keys %s/%s' % (sorted(map(str, a)), sorted(map(str, b))), hyps, False))
                return
            for k in a:
                self._eqv(a[k], b[k], hyps, out, '%s[%r]' % (path, k), depth + 1)
            return
        if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
            if a.__func__ is not b.__func__:
                out.goals.append((path, hyps, False))
                return
            self._eqv(a.__self__, b.__self__, hyps, out, path + '.self', depth + 1)
            return
        if type(a) is type(b) and Q._is_repo_obj(a) and not isinstance(a, (Obj,)) and hasattr(a, '__dict__'):
            self._eqv(a.__dict__, b.__dict__, hyps, out, path + '.' + type(a).__name__, depth + 1)
            return
        if type(a) is type(b) and type(a).__module__.startswith('lenstronomy.') and isinstance(getattr(a, '__dict__', None), dict):
            self._eqv(a.__dict__, b.__dict__, hyps, out, path + '.' + type(a).__name__, depth + 1)
            return
        r = False
        try:
            r = bool(a == b)
        except Exception:
            r = False
        out.goals.append((path, hyps, r))

    def _eqv2(self, a, b, hyps, out, path):
        try:
            d = Q.ew2_2d(lambda x, y: M.Box((x, y)), a, b)
        except (Unsupported, ValueError) as e:
            out.mismatch = 'segment/shape mismatch of 2-D arrays: %s' % e
            return
        for ax in ('rows', 'cols'):
            x, y = getattr(a, ax), getattr(b, ax)
            if x[0] != y[0] or (x[0] == 'f' and x[1] != y[1]):
                out.goals.append((path + '.shape', hyps, False))
                return
        h = list(hyps)
        for ax in (d.rows, d.cols):
            if ax[0] == 'g':
                for c in ax[1]:
                    if c.var is not None:
                        h += [T.le(0, c.var), T.lt(c.var, c.n)]
                    h.append(c.guard)
        for i, r in enumerate(d.val):
            for j, bx in enumerate(r):
                self._eqv(bx.p[0], bx.p[1], h, out, '%s[%d,%d]' % (path, i, j), 1)

    def snap(self, obj):
        return {a: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
                for a, v in obj.__dict__.items()}

    def unchanged(self, label, obj, snap, ignore=()):
        d = {a: v for a, v in obj.__dict__.items() if a not in ignore}
        s = {a: v for a, v in snap.items() if a not in ignore}
        self.same(label, d, s)

    # -- specification functions
    def map(self, f, seq):
        return Q.pmap(f, Q.simplify(self.parts(seq)))

    def filter(self, p, seq):
        return Q.pfilter(p, Q.simplify(self.parts(seq)))

    def flatmap(self, f, seq):
        return Q.pflatmap(f, Q.simplify(self.parts(seq)))

    def parts(self, seq):
        return list(self.I.iter_parts(seq) if isinstance(seq, range) else Q.as_parts(seq))

    def amap(self, f, seq):
        return Arr(self.map(f, seq))

    def concat(self, *seqs):
        return [p for s in seqs for p in self.parts(s)]

    def sum(self, seq, f=lambda x: x):
        return Q.total(self.parts(seq), f)

    def count(self, p, seq):
        return Q.total(self.parts(seq), lambda x: T.ite(T.truth(p(x)), 1, 0))

    def unique(self, seq):
        """sorted distinct values"""
        return self.parts(M.unique_arr(self.I, self.parts(seq)))

    def exists(self, p, seq):
        return Q.exists(self.parts(seq), lambda x: T.truth(p(x)))

    def forall(self, p, seq):
        return T.neg(Q.exists(self.parts(seq), lambda x: T.neg(T.truth(p(x)))))

    def len(self, seq):
        return Q.length(self.parts(seq))

    def zip(self, a, b, *more):
        out = Q.zip_parts(lambda x, y: (x, y), self.parts(a), self.parts(b))
        for c in more:
            out = Q.zip_parts(lambda x, y: x + (y,), out, self.parts(c))
        return out

    def index(self, seq):
        """pairs (i, x) for a plain sequence"""
        return M.enum_parts(self.parts(seq), 0)

    def at(self, seq, i):
        return M.seq_index(self.I, self.parts(seq), i)

    def rangesum(self, n, f):
        v = self.ctx.fresh('i', 'I')
        return T.sum_over([(v, n, True)], f(v))

    ite = staticmethod(T.ite)
    And = staticmethod(lambda *a: T.conj(*[T.truth(x) for x in a]))
    Or = staticmethod(lambda *a: T.disj(*[T.truth(x) for x in a]))
    Not = staticmethod(lambda a: T.neg(T.truth(a)))
    Implies = staticmethod(lambda a, b: T.implies(T.truth(a), T.truth(b)))
    Iff = staticmethod(lambda a, b: T.iff(T.truth(a), T.truth(b)))
    Eq = staticmethod(T.eq)
    sqrt = staticmethod(lambda x: Q.ew1(T.sqrt, x))
    exp = staticmethod(lambda x: Q.ew1(T.exp, x))
    log = staticmethod(lambda x: Q.ew1(T.log, x))
    log10 = staticmethod(lambda x: Q.ew1(T.log10, x))
    sin = staticmethod(lambda x: Q.ew1(T.sin, x))
    cos = staticmethod(lambda x: Q.ew1(T.cos, x))
    arccos = staticmethod(lambda x: Q.ew1(T.arccos, x))
    arctan = staticmethod(lambda x: Q.ew1(T.arctan, x))
    sinh = staticmethod(lambda x: Q.ew1(T.sinh, x))
    tanh = staticmethod(lambda x: Q.ew1(T.tanh, x))
    abs = staticmethod(lambda x: Q.ew1(T.absv, x))
    floor = staticmethod(lambda x: Q.ew1(T.floor, x))
    trunc = staticmethod(lambda x: Q.ew1(T.trunc, x))
    min = staticmethod(T.minv)
    max = staticmethod(T.maxv)
    round = staticmethod(T.roundv)

    def quad(self, f, a, b):
        v = self.ctx.fresh('q', 'R')
        return T.app('quad', [T.bind('lam', v, None, True, f(v)), T.as_num(a), T.as_num(b)])

    def uf(self, name, *a):
        """library function symbol as the models name it"""
        def one(*x):
            return T.app(name, list(x))
        return broadcast(one, a)

    def ndtr(self, x): return self.uf('ndtr', x)
    def ndtri(self, x): return self.uf('ndtri', x)

    @property
    def draws(self):
        return self.ctx.draws[self.draw0:]

    def std(self, i, dist=None):
        """standard variate of the i-th recorded draw"""
        d = self.draws[i]
        if dist is not None and d.dist != dist:
            raise Unsupported('draw %d is %s, expected %s' % (i, d.dist, dist))
        return d.std

    def symname(self, x):
        return x


class EndPath(BaseException):
    pass


def _short(c):
    s = T.show(c) if isinstance(c, Term) else repr(c)
    return s if len(s) < 400 else s[:400] + '...'


def _engine_exc(exc):
    """exception that did not come from a raise statement of the code or from a native library call"""
    tb = exc.__traceback__
    last = None
    names = []
    while tb is not None:
        names.append((tb.tb_frame.f_code.co_filename, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    if not names:
        return False
    fn, name = names[-1]
    if name == 's_Raise':
        return False
    return fn.startswith(IN.VERIF + 'engine')


def _concrete_cls(cls):
    if getattr(cls, '__abstractmethods__', None):
        c = _cc.get(cls)
        if c is None:
            c = type(cls.__name__, (cls,), {'__module__': cls.__module__})
            c.__abstractmethods__ = frozenset()
            _cc[cls] = c
        return c
    return cls


_cc = {}


# ------------------------------------------------------------------------------------------------------------- concrete

class Oracle(object):
    """values for the inputs taken from a z3 model"""

    def __init__(self, model, tr):
        import z3
        self.consts, self.funcs = {}, {}
        objs = {}
        if tr is not None and hasattr(tr, 'objs'):
            for i, z in tr.objs.items():
                if isinstance(i, tuple):
                    continue
                t = tr.objs[('k', i)]
                if t.op == 'const':
                    objs[str(model.eval(z, model_completion=True))] = t.args[0]

        def conv(v):
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.numerator_as_long()) / float(v.denominator_as_long()) \
                    if abs(v.denominator_as_long()) < 10 ** 300 else float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
            return objs.get(str(v), str(v))
        for d in model.decls():
            try:
                if d.arity() == 0:
                    self.consts[d.name()] = conv(model[d])
                else:
                    fi = model[d]
                    ents = []
                    for j in range(fi.num_entries()):
                        e = fi.entry(j)
                        ents.append(([conv(e.arg_value(a)) for a in range(e.num_args())], conv(e.value())))
                    self.funcs[d.name()] = (ents, conv(fi.else_value()))
            except Exception:
                continue
        self.idxmap = {}

    def to_json(self):
        return {'consts': {k: v for k, v in self.consts.items()},
                'funcs': {k: [list(map(list, [[e[0], e[1]] for e in v[0]])), v[1]] for k, v in self.funcs.items()}}

    def family_size(self, name, n):
        """at most 6 elements: the ones the model talks about"""
        if n <= 6:
            self.idxmap[name] = list(range(max(n, 0)))
            return max(n, 0)
        used = set()
        for f, (ents, _) in self.funcs.items():
            if True:         # the same elements for every collection of this size
                for a, _v in ents:
                    if a and isinstance(a[0], (int, float)) and float(a[0]).is_integer() and 0 <= a[0] < n:
                        used.add(int(a[0]))
        used = sorted(used)[:6] or [0]
        self.idxmap[name] = used
        return len(used)

    def index(self, name, i):
        m = self.idxmap.get(name)
        if m and i < len(m):
            return m[i]
        return i

    def func(self, name, args):
        f = self.funcs.get(name)
        if f is None:
            return None
        for a, v in f[0]:
            if len(a) == len(args) and all(_close(x, y) for x, y in zip(a, args)):
                return v
        return f[1] if f[0] == [] or f[1] is not None else None


def _close(x, y):
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
        return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
    return x == y


class ConcKit(Kit):
    sym = False
    recorded = ()

    def __init__(self, seed=0, oracle=None, nmax=5):
        Kit.__init__(self)
        self.seed, self.oracle, self.nmax = seed, oracle, nmax
        self.fails = []
        self.nchecks = 0
        self.ties = {}
        self.draws = []
        self.inputs = {}
        self.overridden = []
        self.labels = set()
        self.famids = {}
        self.begun = 0
        self.reached = False
        self.again = False
        self.nearlier = 0
        self.recorded = []      # lists in which the contract's stand-ins write down how they are asked

    @property
    def under_contract(self):
        return self.begun >= 2 and self.reached

    def lemma(self, label, c, using=None):
        return True

    def fail_form(self, e):
        try:
            self.fail('the results have the form the contract describes', e)
        except EndPath:
            pass

    def rng(self, name):
        return random.Random('%s:%s' % (self.seed, name))

    def replay(self, f, *a, **kw):
        now, n = dict(self.recorder.count), len(self.draws)
        self.recorder.count = dict(self.count0)
        try:
            return self.run(f, *a, **kw)
        finally:
            self.recorder.count = {d: max(now.get(d, 0), self.recorder.count.get(d, 0)) for d in set(now) | set(self.recorder.count)}
            del self.draws[n:]

    def begin(self):
        self.begun += 1
        self.count0 = dict(self.recorder.count)

    # -- inputs
    def real(self, name, g=None, **kw):
        g = g or Real(**kw)
        v = None
        if self.oracle is not None and name in self.oracle.consts:
            v = self.oracle.consts[name]
            if g.sort in 'RI' and not isinstance(v, (int, float)):
                v = None
        if v is None:
            v = g.sample(self.rng(name), self.ties)
        else:
            v = g.clean(v)
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        return self.real(name, Int(lo, hi))

    def size(self, name, lo=0, hi=None):
        hi = min(self.nmax, hi) if hi is not None else max(self.nmax, lo)
        if self.oracle is not None and name in self.oracle.consts:
            v = self.oracle.consts[name]
            self.inputs[name] = v
            return int(v)
        return self.real(name, Int(lo, hi))

    def bool(self, name):
        return self.real(name, Bool())

    def choice(self, name, options):
        options = list(options)
        if self.oracle is not None and name + '?' in self.oracle.consts:
            i = int(self.oracle.consts[name + '?'])
            if 0 <= i < len(options):
                self.inputs[name] = repr(options[i])
                return options[i]
            return options[-1]
        o = self.rng(name + '?').choice(options)
        self.inputs[name] = repr(o)
        return o

    def string(self, name, *options):
        return self.real(name, Str(*options))

    def fn(self, name, ret=None, impl=None, always=None):
        g = ret or Real()
        kit = self

        def scalar(*args):
            if kit.oracle is not None:
                v = kit.oracle.func(name, [a.item() if isinstance(a, np.generic) else _plainarg(a) if isinstance(a, Obj) else a for a in args])
                if v is not None:
                    if g.sort in 'RI' and isinstance(v, (int, float)):
                        return g.clean(v)
                    if g.sort not in 'RI':
                        return g.clean(v)
            if impl is not None:
                return impl(*args)
            key = ':'.join(repr(_plainarg(a)) for a in args)
            return g.sample(random.Random('%s:%s:%s' % (kit.seed, name, key)), {})

        def f(*args, **kw):
            args = list(args) + [kw[k] for k in sorted(kw)]
            if any(isinstance(a, (np.ndarray, list, tuple)) and np.ndim(a) > 0 for a in args):
                bs = np.broadcast_arrays(*[np.asarray(a) for a in args])
                out = [scalar(*[b.flat[i].item() if hasattr(b.flat[i], 'item') else b.flat[i] for b in bs])
                       for i in range(bs[0].size)]
                return np.array(out).reshape(bs[0].shape)
            return scalar(*args)
        f._pv_name = name
        return f

    def obj(self, **attrs):
        return Obj(**attrs)

    new = SymKit.new

    def family(self, name, n, cls=None, const=None, **attrs):
        n0 = int(n)
        if self.oracle is not None:
            n = self.oracle.family_size(name, n0)
        else:
            n = max(0, min(n0, 8))
        base = _concrete_cls(cls) if cls is not None else Obj
        over = {}
        for a in list(attrs) + list(const or {}):
            if isinstance(attrs.get(a), Build):
                over[a] = property(attrs[a].f)
            elif isinstance(IN._class_attr(base, a), property):
                over[a] = None
        if '__call__' in attrs:
            over['__call__'] = lambda self, *a, **k: self.__dict__['$call'](*a, **k)
        if over:
            base = type(base.__name__, (base,), dict(over, __module__=base.__module__))
        out = []
        for i in range(n):
            o = base.__new__(base)
            for a, g in attrs.items():
                fn = '%s.%s' % (name, a)
                j = self.oracle.index(name, i) if self.oracle is not None else i
                if isinstance(g, Build):
                    continue
                if isinstance(g, Meth):
                    key = '$call' if a == '__call__' else a
                    o.__dict__[key] = self._meth(fn, j, g)
                    continue
                v = self.oracle.func(fn, [j]) if self.oracle is not None else None
                if v is not None and (g.sort not in 'RI' or isinstance(v, (int, float))):
                    v = g.clean(v)
                else:
                    v = g.sample(self.rng('%s:%d' % (fn, i)), self.ties)
                o.__dict__[a] = v
                self.inputs['%s[%d]' % (fn, i)] = v
            for a, v in (const or {}).items():
                o.__dict__[a] = v
            self.famids[id(o)] = o
            out.append(o)
        return out

    def _meth(self, fn, i, g):
        f = self.fn(fn, g.ret, g.impl and (lambda i, *a: g.impl(i, *a)))

        def m(*args, **kw):
            return f(i, *(list(args) + [kw[k] for k in sorted(kw)]))
        return m

    def array(self, name, n, g=None):
        g = g or Real()
        n0 = int(n)
        n = self.oracle.family_size(name, n0) if self.oracle is not None else n0
        out = []
        for i in range(n):
            j = self.oracle.index(name, i) if self.oracle is not None else i
            v = self.oracle.func(name, [j]) if self.oracle is not None else None
            if v is None or (g.sort in 'RI' and not isinstance(v, (int, float))):
                v = g.sample(self.rng('%s:%d' % (name, i)), self.ties)
            out.append(g.clean(v))
        self.inputs[name] = list(out)
        return np.array(out) if out else np.array([], dtype={'B': bool, 'I': int}.get(g.sort, float))

    def list(self, name, n, g=None):
        return [x.item() if hasattr(x, 'item') else x for x in self.array(name, n, g)]

    def arr(self, items):
        return np.array(list(items))

    def obj_list(self, *items):
        return list(items)

    # -- running code
    def earlier(self, f, args, kw):
        """a call of the same function with other arguments, before the one the contract looks at: its result must not matter"""
        rng = random.Random('%s:earlier:%d' % (self.seed, self.nearlier))
        self.nearlier += 1
        num = [i for i, a in enumerate(args) if _numeric(a)] + [n for n, a in kw.items() if _numeric(a)]
        if not num:
            return
        pick = num if rng.random() < 0.5 else [rng.choice(num)]
        by = rng.choice([0.71, 1.31])
        args2 = [_other(a, by, rng) if i in pick else a for i, a in enumerate(args)]
        kw2 = {n: _other(a, by, rng) if n in pick else a for n, a in kw.items()}
        now, n = dict(self.recorder.count), len(self.draws)
        held = [(v, list(v)) for a in args if _halolike(a) for v in a.__dict__.values() if type(v) is list]
        held += [(v, list(v)) for v in self.recorded]
        try:
            f(*args2, **kw2)
        except Exception:
            pass
        finally:
            self.recorder.count = now
            del self.draws[n:]
            for v, was in held:
                v[:] = was

    def before(self, h, name):
        """what another object like this one answered before must not matter either (natively)"""
        if not self.again:
            return
        rng = random.Random('%s:before:%d' % (self.seed, self.nearlier))
        self.nearlier += 1
        now, n = dict(self.recorder.count), len(self.draws)
        held = [(v, list(v)) for v in self.recorded]
        try:
            getattr(_other(h, rng.choice([0.71, 1.31]), rng), name)
        except Exception:
            pass
        finally:
            self.recorder.count = now
            del self.draws[n:]
            for v, was in held:
                v[:] = was

    def call(self, f, *args, **kw):
        self.reached = True
        if self.again and self.begun >= 2 and getattr(f, '__module__', None) is not None and re.match(r'pyHalo(\.|$)(?!PresetModels|pyhalo)', str(f.__module__)) and \
                not re.match('set_|add_|shift|rescale_', getattr(f, '__name__', '')) and \
                not (isinstance(self.again, tuple) and getattr(f, '__name__', '') in self.again):
            self.earlier(f, args, kw)
        try:
            return Outcome(f(*args, **kw), None)
        except Exception as e:
            if standin_gap(e):
                raise StandInGap('the stand-in %r has no attribute %r' % (type(e.obj).__name__, e.name))
            return Outcome(None, e)

    def run(self, f, *args, **kw):
        o = self.call(f, *args, **kw)
        if o.exc is not None:
            self.fail('no exception', o.exc)
        return o.value

    def get(self, obj, name):
        p = inspect.getattr_static(type(obj), name, None)
        if isinstance(p, property) and IN.in_repo(p.fget):
            if _halolike(obj) and not (isinstance(self.again, tuple) and name in self.again):
                self.before(obj, name)
            again, self.again = self.again, False
            try:
                return self.run(p.fget, obj)
            finally:
                self.again = again
        return getattr(obj, name)

    def read(self, obj, name):
        return self.call(getattr, obj, name)

    def has(self, obj, name):
        return hasattr(obj, name)

    def override(self, f, g):
        """natively: rebind the function object's code holder (method on its class or name in its module)"""
        import sys
        mod = sys.modules[f.__module__]
        parts = f.__qualname__.split('.')
        holder = mod
        for p in parts[:-1]:
            holder = getattr(holder, p)
        self.overridden.append((holder, parts[-1], holder.__dict__[parts[-1]]))
        kind = type(holder.__dict__[parts[-1]])
        setattr(holder, parts[-1], kind(g) if kind in (staticmethod, property) else g)
        if holder is mod:
            # names imported elsewhere
            for m in list(sys.modules.values()):
                if m is not None and (getattr(m, '__name__', '') or '').split('.')[0] in ('pyHalo', mod.__name__.split('.')[0]) and m is not mod:
                    for n, v in list(vars(m).items()):
                        if v is f:
                            self.overridden.append((m, n, v))
                            setattr(m, n, g)

    def close(self):
        for h, n, v in reversed(self.overridden):
            setattr(h, n, v)
        self.overridden = []

    def assume(self, c):
        if not c:
            raise Skip()

    def note(self, s):
        pass

    def check(self, label, c, hyps=()):
        if any(not h for h in hyps):
            return
        self.nchecks += 1
        self.labels.add(label)
        ok = False
        try:
            ok = bool(np.all(c))
        except Exception:
            ok = False
        if not ok:
            self.fails.append((label, 'false'))

    def fail(self, label, exc):
        import traceback
        self.nchecks += 1
        self.labels.add(label)
        self.fails.append((label, ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-600:]))
        raise EndPath()

    def eq(self, label, a, b, hyps=(), rtol=1e-8, atol=0.0):
        return self.same(label, a, b, hyps, rtol, atol)

    def same(self, label, a, b, hyps=(), rtol=1e-8, atol=0.0):
        if any(not h for h in hyps):
            return
        self.nchecks += 1
        self.labels.add(label)
        r = self._same(a, b, 1e-8 if rtol is None else rtol, atol or 0.0, 0)
        if r is not True:
            self.fails.append((label, r))

    def _same(self, a, b, rtol, atol, depth):
        if a is b:
            return True
        if depth > 9:
            return True
        seq = (list, tuple, np.ndarray)
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isinstance(a, seq) and isinstance(b, seq):
            if len(a) != len(b):
                return 'length %d != %d' % (len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                r = self._same(x, y, rtol, atol, depth + 1)
                if r is not True:
                    return '[%d] %s' % (i, r)
            return True
        num = (int, float, np.floating, np.integer, np.bool_, bool)
        if isinstance(a, num) and isinstance(b, num):
            a, b = float(a), float(b)
            if math.isnan(a) and math.isnan(b):
                return True
            if a == b or abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
                return True
            return '%r != %r' % (a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return 'keys %s != %s' % (sorted(map(str, a)), sorted(map(str, b)))
            for k in a:
                r = self._same(a[k], b[k], rtol, atol, depth + 1)
                if r is not True:
                    return '[%r] %s' % (k, r)
            return True
        if isinstance(a, types.MethodType) and isinstance(b, types.MethodType) and a.__func__ is b.__func__:
            return self._same(a.__self__, b.__self__, rtol, atol, depth + 1)
        if type(a) is type(b) and Q._is_repo_obj(a) and not isinstance(a, Obj) and hasattr(a, '__dict__'):
            if id(a) in self.famids or id(b) in self.famids:
                return 'different objects'
            return self._same(a.__dict__, b.__dict__, rtol, atol, depth + 1)
        try:
            if bool(a == b):
                return True
        except Exception:
            pass
        if type(a) is type(b) and type(a).__module__.startswith('lenstronomy.') and isinstance(getattr(a, '__dict__', None), dict):
            return self._same(a.__dict__, b.__dict__, rtol, atol, depth + 1)
        return '%.80r != %.80r' % (a, b)

    snap = SymKit.snap
    unchanged = SymKit.unchanged

    # -- specification functions
    def map(self, f, seq): return [f(x) for x in seq]
    def filter(self, p, seq): return [x for x in seq if p(x)]
    def flatmap(self, f, seq): return [y for x in seq for y in f(x)]
    def amap(self, f, seq): return np.array([f(x) for x in seq])
    def parts(self, seq): return list(seq)
    def concat(self, *seqs): return [x for s in seqs for x in s]
    def sum(self, seq, f=lambda x: x): return sum(f(x) for x in seq)
    def count(self, p, seq): return sum(1 for x in seq if p(x))
    def unique(self, seq): return sorted(set(seq))
    def exists(self, p, seq): return any(p(x) for x in seq)
    def forall(self, p, seq): return all(p(x) for x in seq)
    def len(self, seq): return len(seq)
    def zip(self, *s): return list(zip(*s))
    def index(self, seq): return list(enumerate(seq))
    def at(self, seq, i): return seq[i]
    def rangesum(self, n, f): return sum(f(i) for i in range(int(n)))
    ite = staticmethod(lambda c, a, b: a if c else b)
    And = staticmethod(lambda *a: all(a))
    Or = staticmethod(lambda *a: any(a))
    Not = staticmethod(lambda a: not a)
    Implies = staticmethod(lambda a, b: (not a) or bool(b))
    Iff = staticmethod(lambda a, b: bool(a) == bool(b))
    Eq = staticmethod(lambda a, b: a == b)
    sqrt = staticmethod(np.sqrt)
    sin = staticmethod(np.sin)
    cos = staticmethod(np.cos)
    exp = staticmethod(np.exp)
    log = staticmethod(np.log)
    log10 = staticmethod(np.log10)
    sin = staticmethod(np.sin)
    cos = staticmethod(np.cos)
    arccos = staticmethod(np.arccos)
    arctan = staticmethod(np.arctan)
    sinh = staticmethod(np.sinh)
    tanh = staticmethod(np.tanh)
    abs = staticmethod(np.abs)
    floor = staticmethod(np.floor)
    trunc = staticmethod(np.trunc)
    min = staticmethod(min)
    max = staticmethod(max)
    round = staticmethod(round)

    def quad(self, f, a, b):
        from scipy.integrate import quad
        return quad(f, a, b)[0]

    def ndtr(self, x):
        import scipy.special as sp
        return sp.ndtr(x)

    def ndtri(self, x):
        import scipy.special as sp
        return sp.ndtri(x)

    def std(self, i, dist=None):
        d = self.draws[i]
        if dist is not None and d.dist != dist:
            raise Unsupported('draw %d is %s, expected %s' % (i, d.dist, dist))
        return d.std


def _halolike(a):
    return isinstance(getattr(a, '__dict__', None), dict) and 'mass' in a.__dict__ and not isinstance(a, type)


def _numeric(a):
    if _halolike(a):
        return True
    if isinstance(a, (bool, np.bool_)):
        return False
    if isinstance(a, (float, np.floating)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype.kind == 'f' and a.size > 0
    return type(a) is list and len(a) > 0 and all(isinstance(v, (float, np.floating)) for v in a)


def _other(a, by, rng):
    if _halolike(a):
        b = copy.copy(a)
        nums = [n for n, v in a.__dict__.items() if isinstance(v, (float, np.floating))]
        only = rng.choice(nums) if nums and rng.random() < 0.6 else None
        for n, v in a.__dict__.items():
            if n in nums:
                b.__dict__[n] = float(v) * by if v and only in (None, n) else v
            elif type(v) in (list, dict):
                b.__dict__[n] = copy.copy(v)
        return b
    if isinstance(a, list):
        return [_other(v, by, rng) for v in a]
    if isinstance(a, np.ndarray):
        return np.where(a == 0, 0.2, a * by)
    return float(a) * by if a else 0.2


def _plainarg(a):
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(a, Obj):
        return 'obj'
    if isinstance(a, int) and not isinstance(a, bool):
        return float(a)
    if isinstance(a, float):
        return float('%.12g' % a) + 0.0
    return a


# ------------------------------------------------------------------------------------- recording of random draws (CPython)

class Recorder(object):
    """replaces the random sources by deterministic recorded ones while a concrete contract run is active"""

    def __init__(self, kit):
        self.kit = kit
        self.count = {}
        self.saved = []

    def one(self, dist):
        k = self.count.get(dist, 0)
        self.count[dist] = k + 1
        kit = self.kit
        if kit.oracle is not None:
            v = kit.oracle.consts.get('%s#%d' % (dist, k))
            if isinstance(v, (int, float)):
                return v
        r = random.Random('%s:draw:%s:%d' % (kit.seed, dist, k))
        if dist == 'U':
            return r.choice([r.random(), r.random(), r.random(), r.random() * 0.02, 1 - r.random() * 0.02, 0.0])
        return r.gauss(0, 1)

    def std(self, dist, size, params=(), gen=None):
        gen = gen or (lambda: self.one(dist))
        if size is None:
            v = gen()
        else:
            n = size if not isinstance(size, tuple) else (int(np.prod(size)))
            v = np.array([gen() for _ in range(int(n))])
            if isinstance(size, tuple):
                v = v.reshape(size)
        self.kit.draws.append(M.Draw(dist, v, params, size))
        return v

    def __enter__(self):
        self.kit.recorder = self
        st = self.std
        R = np.random

        def bs(size, *ps):
            if size is not None:
                return size
            b = np.broadcast(*[np.asarray(p) for p in ps]) if ps else None
            return None if b is None or b.shape == () else b.shape if len(b.shape) > 1 else b.shape[0]

        def sz(a):
            return None if len(a) == 0 else (a[0] if len(a) == 1 else tuple(a))

        def truncgen(a, b):
            import scipy.special as sp

            fa, fb, c = np.ravel(a), np.ravel(b), [0]

            def g():
                lo, hi = fa[c[0] % len(fa)], fb[c[0] % len(fb)]
                c[0] += 1
                u = min(max(abs(self.one('U')), 1e-12), 1 - 1e-12)
                return float(sp.ndtri(sp.ndtr(lo) + u * (sp.ndtr(hi) - sp.ndtr(lo))))
            return g

        def poisson(lam=1.0, size=None):
            rr = lambda: int(max(0, round(float(np.mean(lam)) + self.one('poisson') * math.sqrt(max(float(np.mean(lam)), 0)))))
            v = st('poisson', size, (lam,), rr)
            return v if size is None else np.asarray(v, dtype=int)

        def randint(low, high=None, size=None, dtype=int, **k):
            if high is None:
                low, high = 0, low
            rr = lambda: int(low + min(int(abs(self.one('U')) * (high - low)), high - low - 1))
            v = st('randint', size, (low, high), rr)
            return v if size is None else np.asarray(v, dtype=int)

        def choice(a, size=None, replace=True, p=None):
            arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            n = 1 if size is None else int(np.prod(size))
            w = np.ones(len(arr)) / len(arr) if p is None else np.asarray(p, dtype=float)
            c = np.cumsum(w) / np.sum(w)
            idx = []
            for _ in range(n):
                u = min(abs(self.one('U')), 1 - 1e-9)
                idx.append(int(min(np.searchsorted(c, u, side='right'), len(arr) - 1)))
            if not replace and n <= len(arr):
                seen = []
                for i in idx:
                    while i in seen:
                        i = (i + 1) % len(arr)
                    seen.append(i)
                idx = seen
            v = arr[idx]
            v = v[0] if size is None else v
            self.kit.draws.append(M.Draw('choice', v, ('choice', a, replace, p), size))
            return v

        import scipy.stats as ss
        table = [
            (R, 'rand', lambda *a: st('U', sz(a))),
            (R, 'random', lambda size=None: st('U', size)),
            (R, 'random_sample', lambda size=None: st('U', size)),
            (R, 'uniform', lambda low=0.0, high=1.0, size=None: low + (high - low) * st('U', bs(size, low, high))),
            (R, 'normal', lambda loc=0.0, scale=1.0, size=None: loc + scale * st('Z', bs(size, loc, scale))),
            (R, 'randn', lambda *a: st('Z', sz(a))),
            (R, 'standard_normal', lambda size=None: st('Z', size)),
            (R, 'lognormal', lambda mean=0.0, sigma=1.0, size=None: np.exp(mean + sigma * st('Z', bs(size, mean, sigma)))),
            (R, 'poisson', poisson), (R, 'randint', randint), (R, 'choice', choice),
            (ss.truncnorm, 'rvs', lambda a, b, loc=0, scale=1, size=None, **k:
                loc + scale * st('truncnorm', bs(size, a, b, loc, scale), (a, b), truncgen(a, b))),
            (ss.johnsonsu, 'rvs', lambda a, b, loc=0, scale=1, size=None, **k:
                loc + scale * np.sinh((st('Z', bs(size, a, b, loc, scale)) - a) / b)),
        ]
        import sys
        by = {}
        for h, n, f in table:
            old = getattr(h, n)
            by[id(old)] = (old, f)
            self.saved.append((h, n, h.__dict__.get(n, None), n in h.__dict__))
            setattr(h, n, f)
        for m in list(sys.modules.values()):
            if m is not None and getattr(m, '__name__', '').startswith('pyHalo'):
                for n, v in list(vars(m).items()):
                    if id(v) in by and by[id(v)][0] is v:
                        self.saved.append((m, n, v, True))
                        setattr(m, n, by[id(v)][1])
        return self

    def __exit__(self, *a):
        for h, n, v, had in reversed(self.saved):
            if had:
                setattr(h, n, v)
            else:
                try:
                    delattr(h, n)
                except AttributeError:
                    pass
        self.saved = []


# ------------------------------------------------------------------------------------------------------------ execution

import os
EARLIER = os.environ.get('PV_EARLIER')      # development: an earlier call in every native run


def run_concrete(fn, seed=0, oracle=None, nmax=5):
    """one native run of a contract; returns the kit or None when the sampled input is outside the precondition"""
    import warnings
    STANDINS.clear()
    k = ConcKit(seed, oracle, nmax)
    k.again = getattr(fn, 'again', True)
    if EARLIER != 'all' and (oracle is not None or random.Random('again%s' % seed).random() > 0.4):
        k.again = False
    st = np.random.get_state()
    T.CTX[0] = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                np.random.seed(int(hashlib.md5(str(seed).encode()).hexdigest()[:8], 16) % (2 ** 31))
                with Recorder(k):
                    k.begin()
                    try:
                        fn(k)
                    except EndPath:
                        pass
    except Skip:
        return None
    except Unsupported:
        if not k.fails:
            return None
    except Exception as e:
        # raised by the contract itself: what the code returned does not have the form the contract describes
        if not k.fails:
            if not (k.under_contract and isinstance(e, (AttributeError, IndexError, KeyError, TypeError, ValueError))) or _private(e):
                raise
            k.fail_form(e)
    finally:
        k.close()
        np.random.set_state(st)
    return k


def _private(e):
    """a private name the contract knows is gone (a renamed helper is not a violation)"""
    n = getattr(e, 'name', None)
    if n is None and isinstance(e, KeyError) and e.args and isinstance(e.args[0], str):
        n = e.args[0]
    return isinstance(n, str) and n.startswith('_')


class SymReport(object):
    def __init__(self):
        self.obls = []
        self.paths = 0
        self.unsupported = None
        self.reached = 0
        self.notes = []
        self.wall = 0.0
        self.trace = ''


def run_symbolic(fn, budget=60.0, timeout=4.0):
    import time
    import traceback
    rep = SymReport()
    t0 = time.time()
    ctx = IN.Context(deadline=t0 + budget)
    T.CTX[0] = ctx
    S.DEADLINE[0] = t0 + budget
    STANDINS.clear()
    kit = SymKit(ctx, timeout)
    try:
        def go():
            kit.path += 1
            kit.I = IN.Interp(ctx, {})
            M.CURRENT[0] = kit.I
            kit.begin()
            try:
                fn(kit)
            except EndPath:
                pass
            return None
        for ex, out, trail in ctx.explore(go):
            rep.paths += 1
            if kit.reached:
                rep.reached += 1
    except Unsupported as e:
        rep.unsupported = str(e)
        rep.trace = traceback.format_exc()[-1500:]
    except RecursionError as e:
        rep.unsupported = 'recursion'
    except Exception as e:
        rep.unsupported = 'engine error %s: %s' % (type(e).__name__, e)
        rep.trace = traceback.format_exc()[-3000:]
    finally:
        T.CTX[0] = None
    rep.obls = kit.obls
    rep.notes = list(kit.notes) + sorted(set(ctx.notes))
    rep.wall = time.time() - t0
    return rep
