"""Symbolic interpreter for the Python source of /repo: generates the verification conditions path by path.

The source text is read from the files of the imported modules on every run; in-repository callees are entered
(inlined), calls leaving the repository go to models (numpy/scipy contracts) or to the contract's stub objects.
"""
import ast
import builtins
import os
import types

import numpy as np

from . import terms as T
from . import smt as S
from . import seqs as Q
from .seqs import Comp, Arr, Arr2
from .terms import Term, Unsupported, Infeasible

REPO = os.environ.get('PV_REPO', '/repo')
REPO_PKG = os.path.join(REPO, 'pyHalo') + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep

COVER = {}            # filename -> set of executed line numbers (statement starts)
FUNCS = {}            # (filename, qualname/line) -> times entered


class Ret(BaseException):
    def __init__(self, v): self.v = v


class Brk(BaseException):
    pass


class Cont(BaseException):
    pass


class Poison(object):
    """value that the summarised loop left undefined"""

    def __init__(self, why):
        self.__dict__['why'] = why

    def _bad(self, *a, **k):
        raise Unsupported('use of a value the loop summary does not define: ' + self.__dict__['why'])
    __getattr__ = _bad
    __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __iter__ = __len__ = __bool__ = __pow__ = __rpow__ = _bad
    __neg__ = __contains__ = __iadd__ = _bad

    def _pv_subst(self, m, memo):
        return self

    def __repr__(self):
        return '<poison %s>' % self.__dict__['why']


_MISSING = object()


# --------------------------------------------------------------------------------------------------- source access

_ast_cache = {}


def module_ast(fn):
    r = _ast_cache.get(fn)
    if r is None:
        with open(fn) as f:
            src = f.read()
        tree = ast.parse(src, fn)
        idx = {}
        stack = [(tree, '')]
        while stack:
            n, q = stack.pop()
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                    line = ch.lineno
                    name = getattr(ch, 'name', '<lambda>')
                    if isinstance(ch, ast.FunctionDef) and ch.decorator_list:
                        line = min([line] + [d.lineno for d in ch.decorator_list])
                    idx.setdefault((name, line), []).append(ch)
                    stack.append((ch, q))
                else:
                    stack.append((ch, q))
        r = (tree, idx)
        _ast_cache[fn] = r
    return r


def func_node(f):
    co = f.__code__
    tree, idx = module_ast(co.co_filename)
    c = idx.get((co.co_name, co.co_firstlineno))
    if not c or (len(c) > 1):
        raise Unsupported('no unique source for %s' % f)
    return c[0]


STUBS = VERIF + 'stubs' + os.sep
SPECS = os.path.join(os.path.dirname(STUBS.rstrip(os.sep)), 'contracts', 'specs') + os.sep     # specification functions written as code
STUB_INTERP = STUBS + os.path.join('lenstronomy', 'Cosmo') + os.sep


def in_repo(f):
    co = getattr(f, '__code__', None)
    return co is not None and (co.co_filename.startswith(REPO_PKG) or co.co_filename.startswith(STUB_INTERP) or
                              co.co_filename.startswith(SPECS))


def in_stub(f):
    co = getattr(f, '__code__', None)
    return co is not None and co.co_filename.startswith(STUBS) and not co.co_filename.startswith(STUB_INTERP)


def stub_call(fn, obj, args, kwargs):
    """function of the lensing-library stand-in: an uninterpreted symbol of its arguments"""
    from .kit import broadcast, _argval
    if fn.__name__ == '__init__':
        return fn(obj, *args, **kwargs)
    names = fn.__code__.co_varnames[1:fn.__code__.co_argcount]
    args = list(args)
    for n in names[len(args):]:
        if n in kwargs:
            args.append(kwargs.pop(n))
        else:
            args.append(fn.__defaults__[list(names).index(n) - (len(names) - len(fn.__defaults__))])
    base = '%s.%s' % (type(obj).__name__, fn.__name__)
    ret = getattr(fn, '_pv_ret', 1)

    def one(tag):
        return lambda *a: T.app(base + tag, [_argval(x) for x in a])
    if ret == 1:
        return broadcast(one(''), args)
    return tuple(broadcast(one('.%d' % i), args) for i in range(ret))


def in_verif(f):
    co = getattr(f, '__code__', None)
    return co is not None and co.co_filename.startswith(VERIF)


_isgen = {}


def is_generator(node):
    r = _isgen.get(node)
    if r is None:
        r = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _isgen[node] = r
    return r


class Env(object):
    __slots__ = ('vars', 'parent', 'globals', 'cls', 'selfarg', 'glob_names', 'nonlocal_names', 'filename')

    def __init__(self, parent, globs, filename, cls=None):
        self.vars = {}
        self.parent = parent
        self.globals = globs
        self.cls = cls
        self.selfarg = None
        self.glob_names = ()
        self.nonlocal_names = ()
        self.filename = filename


class IFunc(object):
    """closure created by interpreted code"""
    _pv_ifunc = True

    def __init__(self, interp, node, env, defaults, kwdefaults, name):
        self.interp, self.node, self.env = interp, node, env
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name

    def __call__(self, *args, **kwargs):
        return self.interp.call_ifunc(self, list(args), dict(kwargs))

    def __get__(self, obj, typ=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def _pv_subst(self, m, memo):
        env = self.env
        # substitute in captured variables
        new = {k: Q.subst_val(v, m, memo) for k, v in env.vars.items() if v is not self}
        if all(new[k] is env.vars[k] for k in new):
            return self
        e2 = Env(env.parent, env.globals, env.filename, env.cls)
        e2.vars = new
        return IFunc(self.interp, self.node, e2, self.defaults, self.kwdefaults, self.__name__)


# --------------------------------------------------------------------------------------------------------- context

class Explorer(object):
    def __init__(self, prefix, base):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []          # list of [cond, value, other_feasible]
        self.base = base
        self.facts = []

    def pc(self):
        return self.base + self.facts


MAX_PATHS = 4000


class Context(object):
    """one exploration: owns the path condition, the mutation trail and name supply"""

    def __init__(self, deadline=None):
        self.ex = Explorer([], [])
        self.trail = []
        self.counter = {}
        self.locked = {}            # id(list) -> list   lists only appended to inside a summarised loop body
        self.fam_local = []
        self.draws = []
        self.drawn = set()
        self.npaths = 0
        self.notes = []
        self.deadline = deadline
        self.loops = 0
        self.assumed = set()
        self.steps = 0
        self.famlock = {}
        self.dictviews = {}
        self.loopvars = []
        self.families = {}
        self.scope = []             # (bound variable, facts) while value functions are applied under a binder

    # names
    def fresh_name(self, prefix):
        k = self.counter.get(prefix, 0)
        self.counter[prefix] = k + 1
        return '%s#%d' % (prefix, k)

    def fresh_dep(self, prefix, sort='R', idx=()):
        """fresh value; inside summarised loops a function of the loop indices"""
        name = self.fresh_name(prefix)
        deps = list(self.loopvars) + list(idx)
        if deps:
            return T.app(name, deps, sort)
        return T.var(name, sort)

    def fresh(self, prefix, sort='R', pos=False):
        k = self.counter.get(prefix, 0)
        self.counter[prefix] = k + 1
        return T.var('%s#%d' % (prefix, k), sort, pos)

    def pc(self):
        if self.scope:
            return self.ex.pc() + [f for _, fs in self.scope for f in fs]
        return self.ex.pc()

    def assume(self, c):
        c = T.truth(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if c.op == 'and':
            for d in c.args:
                if d not in self.ex.facts:
                    self.ex.facts.append(d)
        elif c not in self.ex.facts:
            self.ex.facts.append(c)

    def branch(self, c):
        c = T.truth(c)
        if not isinstance(c, Term):
            return c
        ex = self.ex
        pc = self.pc()
        for h in pc:
            if h is c:
                return True
        n = T.neg(c)
        for h in pc:
            if h is n:
                return False
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported('time budget for this contract exhausted')
        if self.scope and any(v in c.fv for v, _ in self.scope):
            t, f = S.feasible(pc, c), S.feasible(pc, n)
            if t and f:
                raise Unsupported('undetermined branch on a bound element: ' + T.show(c)[:200])
            if not t and not f:
                raise Infeasible()
            return t
        if ex.pos < len(ex.prefix):
            val, other = ex.prefix[ex.pos]
            ex.pos += 1
        else:
            t = S.feasible(pc, c)
            f = S.feasible(pc, n)
            if not t and not f:
                raise Infeasible()
            val = t
            other = t and f
            ex.prefix.append((val, other))
            ex.pos += 1
        ex.decisions.append((c, val, other))
        self.assume(c if val else n)
        return val

    def explore(self, fn, base=None):
        """enumerate all paths of fn(); yields (decision_terms, extra_facts, outcome, trail_slice) - trail undone after each"""
        prefix = []
        saved = self.ex
        base = list(saved.pc()) if base is None else base
        counter0 = dict(self.counter)
        draws0 = len(self.draws)
        k = 0
        try:
            while True:
                k += 1
                self.npaths += 1
                if k > MAX_PATHS:
                    raise Unsupported('too many paths')
                self.counter = dict(counter0)
                del self.draws[draws0:]
                ex = Explorer(prefix, base)
                self.ex = ex
                mark = len(self.trail)
                try:
                    out = fn()
                    feasible = True
                except Infeasible:
                    feasible = False
                    out = None
                if feasible:
                    yield ex, out, self.trail[mark:]
                self.undo(mark)
                # next prefix
                prefix = list(ex.prefix[:len(ex.decisions)])
                while prefix and not prefix[-1][1]:
                    prefix.pop()
                if not prefix:
                    return
                v, _ = prefix[-1]
                prefix[-1] = (not v, False)
        finally:
            self.ex = saved

    # trail
    def log(self, rec):
        self.trail.append(rec)

    def undo(self, mark):
        """roll back; objects created since `mark` are unreachable from the restored state and keep their contents"""
        new = {id(r[1]) for r in self.trail[mark:] if r[0] == 'new'}
        keep = []
        while len(self.trail) > mark:
            r = self.trail.pop()
            if r[0] == 'new':
                keep.append(r[1])
                continue
            if r[0] in UNDO_SKIP and id(r[1]) in new:
                continue
            r[-1]()


UNDO_SKIP = ('local', 'attr', 'list', 'dict', 'set', 'np', 'arr')


def _noop():
    pass


class SuperProxy(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


# ------------------------------------------------------------------------------------------------------ interpreter

class Interp(object):
    def __init__(self, ctx, overrides=None):
        from . import models
        self.ctx = ctx
        self.models = models
        self.M = models.TABLE
        self.overrides = overrides or {}       # function object -> native replacement (assumed contract)
        self.depth = 0

    # ---------------------------------------------------------------------------------------------- mutation with trail
    def set_local(self, env, name, v):
        if name in env.glob_names:
            raise Unsupported('assignment to global ' + name)
        if name in env.nonlocal_names:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            env = e
        old = env.vars.get(name, _MISSING)
        env.vars[name] = v

        def undo(env=env, name=name, old=old):
            if old is _MISSING:
                env.vars.pop(name, None)
            else:
                env.vars[name] = old
        self.ctx.log(('local', env, name, old, undo))

    def del_attr(self, o, name):
        if hasattr(type(o), '_pv_delattr'):
            return o._pv_delattr(self, name)
        d = getattr(o, '__dict__', None)
        if d is None or isinstance(o, (type, types.ModuleType)):
            raise Unsupported('del of an attribute of %s' % type(o).__name__)
        if name not in d:
            raise AttributeError(name)
        old = d.pop(name)

        def undo(d=d, n=name, old=old):
            d[n] = old
        self.ctx.log(('attr', o, name, old, undo))

    def set_attr(self, obj, name, v):
        if hasattr(type(obj), '_pv_setattr'):
            return obj._pv_setattr(self, name, v)
        if isinstance(obj, (Term, Arr, Arr2)):
            raise Unsupported('attribute assignment on a symbolic scalar/array')
        p = _class_attr(type(obj), name)
        if isinstance(p, property):
            if p.fset is None:
                raise AttributeError("property '%s' has no setter" % name)
            return self.call(p.fset, [obj, v], {})
        if isinstance(obj, type) or isinstance(obj, types.ModuleType):
            old = obj.__dict__.get(name, _MISSING)
            setattr(obj, name, v)

            def undo(obj=obj, name=name, old=old):
                if old is _MISSING:
                    delattr(obj, name)
                else:
                    setattr(obj, name, old)
            self.ctx.log(('attr', obj, name, old, undo))
            return
        d = obj.__dict__
        old = d.get(name, _MISSING)
        d[name] = v

        def undo(d=d, name=name, old=old):
            if old is _MISSING:
                d.pop(name, None)
            else:
                d[name] = old
        self.ctx.log(('attr', obj, name, old, undo))

    def touch_list(self, lst, appending=False):
        if not appending and id(lst) in self.ctx.locked:
            raise Unsupported('list modified other than by append in a summarised loop')
        old = list(lst)

        def undo(lst=lst, old=old):
            lst[:] = old
        self.ctx.log(('list', lst, old, None, undo))

    def read_list(self, lst):
        if isinstance(lst, list) and id(lst) in self.ctx.locked:
            raise Unsupported('list read while being built by a summarised loop')

    def touch_dict(self, d):
        old = dict(d)

        def undo(d=d, old=old):
            d.clear()
            d.update(old)
        self.ctx.log(('dict', d, old, None, undo))

    def touch_set(self, d):
        old = set(d)

        def undo(d=d, old=old):
            d.clear()
            d.update(old)
        self.ctx.log(('set', d, old, None, undo))

    def touch_np(self, a):
        old = a.copy()

        def undo(a=a, old=old):
            a[...] = old
        self.ctx.log(('np', a, old, None, undo))

    def touch_arr(self, a):
        old = list(a.parts)

        def undo(a=a, old=old):
            a.parts = old
        self.ctx.log(('arr', a, old, None, undo))

    # ------------------------------------------------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        self.ctx.steps += 1
        if self.ctx.deadline is not None and self.ctx.steps % 64 == 0:
            import time
            if time.time() > self.ctx.deadline:
                raise Unsupported('time budget for this contract exhausted')
        ov = self.overrides.get(f) if _hashable(f) else None
        if ov is not None:
            return ov(*args, **kwargs)
        if isinstance(f, IFunc):
            return self.call_ifunc(f, args, kwargs)
        if isinstance(f, types.MethodType):
            m = self.M.get(f) if _hashable(f) else None
            if m is not None and (getattr(m, 'always', False) or _sym(args) or _sym(kwargs)):
                return m(self, *args, **kwargs)
            fn, obj = f.__func__, f.__self__
            ov = self.overrides.get(fn) if _hashable(fn) else None
            if ov is not None:
                return ov(obj, *args, **kwargs)
            if isinstance(fn, IFunc):
                return self.call_ifunc(fn, [obj] + args, kwargs)
            if in_repo(fn):
                return self.call_repo(fn, [obj] + args, kwargs)
            if in_stub(fn) and (_sym(args) or _sym(kwargs)):
                return stub_call(fn, obj, args, kwargs)
            if in_verif(fn):
                return f(*args, **kwargs)
            m = self.M.get(fn) if _hashable(fn) else None
            if m is not None and (_sym(args) or _sym(kwargs) or _sym(obj) or getattr(m, 'always', False)):
                return m(self, obj, *args, **kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.call_type(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            m = self.M.get(f)
            if m is not None and (getattr(m, 'always', False) or _sym(args) or _sym(kwargs)):
                return m(self, *args, **kwargs)
            if in_repo(f):
                return self.call_repo(f, args, kwargs)
            if in_verif(f):
                return f(*args, **kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and getattr(f, '__self__', None) is not None \
                and not isinstance(f.__self__, types.ModuleType):
            m = self.M.get(f) if _hashable(f) else None
            if m is not None:
                if getattr(m, 'always', False) or _sym(args) or _sym(kwargs):
                    return m(self, *args, **kwargs)
            return self.models.builtin_method(self, f, args, kwargs)
        if isinstance(f, Poison):
            f._bad()
        m = self.M.get(f) if _hashable(f) else None
        if m is not None and (getattr(m, 'always', False) or _sym(args) or _sym(kwargs)):
            return m(self, *args, **kwargs)
        if isinstance(f, self.models.BoundModel):
            return f.fn(self, f.obj, *args, **kwargs)
        call = _class_attr(type(f), '__call__')
        if call is not None and isinstance(call, types.FunctionType):
            if in_repo(call):
                return self.call_repo(call, [f] + args, kwargs)
            if in_verif(call):
                return f(*args, **kwargs)
        r = self.models.call_object(self, f, args, kwargs)
        if r is not NotImplemented:
            return r
        return self.native(f, args, kwargs)

    def native(self, f, args, kwargs):
        if f is None or isinstance(f, (str, bytes, int, float, list, tuple, dict, set)):
            raise TypeError("'%s' object is not callable" % type(f).__name__)
        if _sym(args) or _sym(kwargs):
            raise Unsupported('call of %s with symbolic arguments' % getattr(f, '__qualname__', getattr(f, '__name__', repr(f))))
        s = getattr(f, '__self__', None)
        if s is not None and not isinstance(s, types.ModuleType) and _sym(s):
            raise Unsupported('method %s of a symbolic object' % getattr(f, '__name__', f))
        r = f(*args, **kwargs)
        if isinstance(r, (list, dict, set, np.ndarray)):
            self.new(r)
        return r

    def new(self, x):
        self.ctx.log(('new', x, None, None, _noop))
        return x

    def call_type(self, cls, args, kwargs):
        m = self.M.get(cls)
        if m is not None and (getattr(m, 'always', False) or _sym(args) or _sym(kwargs)):
            return m(self, *args, **kwargs)
        init = _class_attr(cls, '__init__')
        new = _class_attr(cls, '__new__')
        if isinstance(init, (types.FunctionType,)) and in_repo(init) and not issubclass(cls, BaseException):
            if isinstance(new, staticmethod):
                new = new.__func__
            if isinstance(new, types.FunctionType) and in_repo(new):
                obj = self.call_repo(new, [cls] + args, kwargs)
            else:
                obj = cls.__new__(cls)
            self.new(obj)
            self.call(init, [obj] + args, kwargs)
            return obj
        if cls is super:
            if args:
                return SuperProxy(args[0], args[1])
        if (cls.__module__ or '').startswith('pyHalo') and not issubclass(cls, BaseException) and init is object.__init__:
            return self.new(cls.__new__(cls))
        if issubclass(cls, BaseException):
            return cls(*[self.models.plain(a) for a in args])
        if in_verif(init) if isinstance(init, types.FunctionType) else False:
            return cls(*args, **kwargs)
        return self.native(cls, args, kwargs)

    def call_repo(self, f, args, kwargs):
        node = func_node(f)
        if is_generator(node):
            raise Unsupported('generator function ' + f.__qualname__)
        key = (f.__code__.co_filename, f.__qualname__)
        FUNCS[key] = FUNCS.get(key, 0) + 1
        env = Env(None, f.__globals__, f.__code__.co_filename)
        if f.__closure__:
            cenv = Env(None, f.__globals__, f.__code__.co_filename)
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    cenv.vars[n] = c.cell_contents
                except ValueError:
                    pass
            env.parent = cenv
            env.cls = cenv.vars.get('__class__')
        defaults = list(f.__defaults__ or ())
        return self.run_function(node, env, args, kwargs, defaults, f.__kwdefaults__ or {}, f.__qualname__)

    def call_ifunc(self, f, args, kwargs):
        env = Env(f.env, f.env.globals, f.env.filename, f.env.cls)
        return self.run_function(f.node, env, args, kwargs, f.defaults, f.kwdefaults, f.__name__)

    def run_function(self, node, env, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise TypeError('%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args)))
        for n, v in zip(pos, args):
            vals[n] = v
        extra = args[len(pos):]
        kw = {}
        ponly = {x.arg for x in a.posonlyargs}
        names = set(pos) - ponly | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in vals:
                    raise TypeError("%s() got multiple values for argument '%s'" % (name, k))
                vals[k] = v
            elif a.kwarg is not None:
                kw[k] = v
            else:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, k))
        for n, d in zip(pos[len(pos) - len(defaults):], defaults):
            if n not in vals:
                vals[n] = d
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in kwdefaults:
                    vals[x.arg] = kwdefaults[x.arg]
                else:
                    raise TypeError("%s() missing keyword-only argument '%s'" % (name, x.arg))
        miss = [n for n in pos if n not in vals]
        if miss:
            raise TypeError('%s() missing %d required positional arguments: %s' % (name, len(miss), ', '.join(miss)))
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kw
        self.new(env)
        env.vars.update(vals)
        env.selfarg = vals.get(pos[0]) if pos else None
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('call depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            self.block(node.body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    # ------------------------------------------------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        COVER.setdefault(env.filename, set()).add(s.lineno)
        getattr(self, 's_' + type(s).__name__, self.s_bad)(s, env)

    def s_bad(self, s, env):
        raise Unsupported('statement ' + type(s).__name__)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Global(self, s, env):
        env.glob_names = tuple(env.glob_names) + tuple(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocal_names = tuple(env.nonlocal_names) + tuple(s.names)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.aug(s.op, cur, self.ev(s.value, env))
            if v is not cur or not isinstance(cur, list):
                self.set_local(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, env)
            cur = self.getattr(obj, t.attr)
            v = self.aug(s.op, cur, self.ev(s.value, env))
            self.set_attr(obj, t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env)
            k = self.index(t.slice, env)
            cur = self.getitem(obj, k)
            v = self.aug(s.op, cur, self.ev(s.value, env))
            self.setitem(obj, k, v)
        else:
            raise Unsupported('augmented assignment target')

    def aug(self, op, cur, v):
        if isinstance(cur, list) and isinstance(op, ast.Add):
            self.touch_list(cur, appending=True)
            self.read_list(v)
            cur.extend(self.seq_parts(v))
            return cur
        if isinstance(cur, np.ndarray) and cur.ndim > 0:
            new = self.binop(op, cur, v)
            if isinstance(new, np.ndarray) and new.shape == cur.shape:
                self.touch_np(cur)
                cur[...] = new
                return cur
            raise Unsupported('in-place array update with symbolic values')
        if isinstance(cur, Arr):
            new = self.binop(op, cur, v)
            self.touch_arr(cur)
            if cur.view:
                raise Unsupported('in-place update of a view')
            cur.parts = new.parts
            return cur
        if isinstance(cur, set) and isinstance(op, ast.BitOr):
            self.touch_set(cur)
            cur |= v
            return cur
        if isinstance(cur, dict):
            raise Unsupported('in-place dict operator')
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_local(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.concrete_seq(v, 'unpacking')
            if any(isinstance(x, ast.Starred) for x in t.elts):
                k = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)][0]
                after = len(t.elts) - k - 1
                vals = vals[:k] + [list(vals[k:len(vals) - after])] + vals[len(vals) - after:]
                for tt, x in zip(t.elts, vals):
                    self.assign(tt.value if isinstance(tt, ast.Starred) else tt, x, env)
                return
            if len(vals) != len(t.elts):
                raise ValueError('too many/not enough values to unpack (expected %d, got %d)' % (len(t.elts), len(vals)))
            for tt, x in zip(t.elts, vals):
                self.assign(tt, x, env)
        else:
            raise Unsupported('assignment target')

    def concrete_seq(self, v, what):
        if isinstance(v, (Arr, Arr2)):
            if isinstance(v, Arr2):
                raise Unsupported(what + ' of 2-D symbolic array')
            v = v.parts
        if isinstance(v, Term):
            raise TypeError('cannot unpack non-iterable')
        if isinstance(v, Poison):
            v._bad()
        self.read_list(v)
        v = list(v)
        if Q.has_comp(v):
            raise Unsupported(what + ' of a sequence of symbolic length')
        return v

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.index(t.slice, env)
                if isinstance(o, dict):
                    self.touch_dict(o)
                    del o[k]
                elif isinstance(o, list) and not Q.has_comp(o) and isinstance(k, int):
                    self.touch_list(o)
                    del o[k]
                else:
                    raise Unsupported('del')
            elif isinstance(t, ast.Attribute):
                self.del_attr(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Name):
                old = env.vars.pop(t.id)

                def undo(env=env, n=t.id, old=old):
                    env.vars[n] = old
                self.ctx.log(('local', env, t.id, old, undo))
            else:
                raise Unsupported('del')

    def s_If(self, s, env):
        if self.test(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def test(self, v):
        c = self.truth(v)
        if isinstance(c, Term):
            return self.ctx.branch(c)
        return c

    def truth(self, v):
        """truth value: bool or Term"""
        if isinstance(v, Term):
            return T.truth(v)
        if isinstance(v, list) or isinstance(v, tuple):
            self.read_list(v)
            return Q.nonempty(v)
        if isinstance(v, Arr):
            if not Q.has_comp(v.parts) and len(v.parts) == 1:
                return T.truth(v.parts[0])
            raise Unsupported('truth value of an array')
        if isinstance(v, Arr2):
            raise Unsupported('truth value of an array')
        b = _class_attr(type(v), '__bool__')
        if isinstance(b, types.FunctionType) and in_repo(b):
            return self.truth(self.call(b, [v], {}))
        l = _class_attr(type(v), '__len__')
        if b is None and isinstance(l, types.FunctionType) and in_repo(l):
            return self.truth(self.call(l, [v], {}))
        return bool(v)

    def s_Assert(self, s, env):
        if not self.test(self.ev(s.test, env)):
            raise AssertionError(self.models.plain(self.ev(s.msg, env)) if s.msg is not None else '')

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = env.vars.get('$exc')
            e = env
            while cur is None and e is not None:
                cur = e.vars.get('$exc')
                e = e.parent
            raise cur if cur is not None else RuntimeError('No active exception to reraise')
        e = self.ev(s.exc, env)
        if isinstance(e, type):
            e = e()
        raise e

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Exception as e:
                for h in s.handlers:
                    ty = self.ev(h.type, env) if h.type is not None else Exception
                    if isinstance(e, ty):
                        if h.name:
                            self.set_local(env, h.name, e)
                        self.set_local(env, '$exc', e)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        raise Unsupported('with statement')

    def s_Import(self, s, env):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                import importlib
                mod = importlib.import_module(a.name)
            self.set_local(env, a.asname or a.name.split('.')[0], mod)

    def s_ImportFrom(self, s, env):
        import importlib
        mod = importlib.import_module(s.module)
        for a in s.names:
            try:
                v = getattr(mod, a.name)
            except AttributeError:
                v = importlib.import_module(s.module + '.' + a.name)
            self.set_local(env, a.asname or a.name, v)

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        self.set_local(env, s.name, self.mkfunc(s, env, s.name))

    def mkfunc(self, node, env, name):
        d = [self.ev(x, env) for x in node.args.defaults]
        kd = {a.arg: self.ev(x, env) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        if not isinstance(node, ast.Lambda) and is_generator(node):
            raise Unsupported('generator function')
        return IFunc(self, node, env, d, kd, name)

    def s_While(self, s, env):
        n = 0
        while True:
            n += 1
            if n > 300:
                raise Unsupported('while loop not finished after 300 iterations')
            c = self.truth(self.ev(s.test, env))
            if isinstance(c, Term):
                if n > 12:
                    raise Unsupported('symbolic while loop: no invariant available')
                c = self.ctx.branch(c)
            if not c:
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                continue

    # --------------------------------------------------------------------------------------------------- for-loops
    def iter_parts(self, it):
        """parts list for iteration"""
        if isinstance(it, Arr):
            return it.parts
        if isinstance(it, Arr2):
            return self.models.arr2_rows(it)
        if isinstance(it, Term):
            raise TypeError("'%s' object is not iterable" % ('float' if it.sort == 'R' else 'int'))
        if isinstance(it, Poison):
            it._bad()
        if isinstance(it, np.ndarray) and it.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if isinstance(it, range) and len(it) > 4096:
            v = self.ctx.fresh('i', 'I')
            return [Comp(v, len(it), True, [T.add(it.start, T.mul(it.step, v))])]
        self.read_list(it)
        f = _class_attr(type(it), '__iter__')
        if isinstance(f, types.FunctionType) and in_repo(f):
            raise Unsupported('repo-defined iterator')
        return list(it)

    def seq_parts(self, v):
        if isinstance(v, dict):
            return list(v)
        return self.iter_parts(v)

    def s_For(self, s, env):
        parts = Q.simplify(self.iter_parts(self.ev(s.iter, env)))

        def body(elem):
            self.assign(s.target, elem, env)
            self.block(s.body, env)
        names = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
        status = self.run_loop(parts, body, names, env)
        if status != 'break':
            self.block(s.orelse, env)

    def run_loop(self, parts, body, target_names, env):
        for p in parts:
            if isinstance(p, Comp):
                st = self.summarise(p, body, target_names, env)
                if st == 'break':
                    return 'break'
            else:
                try:
                    body(p)
                except Brk:
                    return 'break'
                except Cont:
                    pass
        return 'done'

    def summarise(self, comp, body, target_names, env):
        return Summary(self, body, target_names, env).run(comp)

    # ------------------------------------------------------------------------------------------------------ expressions
    def ev(self, e, env):
        return getattr(self, 'e_' + type(e).__name__, self.e_bad)(e, env)

    def e_bad(self, e, env):
        raise Unsupported('expression ' + type(e).__name__)

    def e_Constant(self, e, env):
        return e.value

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        g = env.globals
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError("name '%s' is not defined" % name)

    def e_Name(self, e, env):
        v = self.lookup(e.id, env)
        return v

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.set_local(env, e.target.id, v)
        return v

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env, '<lambda>')

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.new(self.elts(e.elts, env))

    def e_Set(self, e, env):
        l = self.elts(e.elts, env)
        if _sym(l):
            return self.models.SymSet(l)
        return self.new(set(l))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_parts(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return self.new(d)

    def e_JoinedStr(self, e, env):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.models.plain(self.ev(v.value, env))
                out += str(x)
        return out

    def e_IfExp(self, e, env):
        return self.ev(e.body, env) if self.test(self.ev(e.test, env)) else self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, Term):
                # pure boolean operands: keep as one formula if the rest is a side-effect free comparison
                t = self.ctx.branch(t)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return T.neg(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Term):
                return T.mul(-1, v)
            if isinstance(v, (Arr, Arr2)):
                return -v
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Term):
                return T.neg(v)
            return ~v
        raise Unsupported('unary op')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        acc = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            c = self.models.compare(self, op, left, right)
            if len(e.ops) == 1:
                return c
            acc = c if acc is None else T.conj(acc, self.truth(c))
            if acc is False:
                return False
            left = right
        return acc

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def getattr(self, obj, name):
        if isinstance(obj, SuperProxy):
            mro = type(obj.obj).__mro__ if not isinstance(obj.obj, type) else obj.obj.__mro__
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, property):
                        return self.call(a.fget, [obj.obj], {})
                    if isinstance(a, types.FunctionType):
                        return types.MethodType(a, obj.obj)
                    if isinstance(a, staticmethod):
                        return a.__func__
                    if isinstance(a, classmethod):
                        return types.MethodType(a.__func__, type(obj.obj))
                    if name == '__init__':
                        return lambda *a, **k: None
                    return a
            raise AttributeError(name)
        if hasattr(type(obj), '_pv_getattr'):
            return obj._pv_getattr(self, name)
        if isinstance(obj, (Term, Arr, Arr2)):
            return self.models.sym_attr(self, obj, name)
        if isinstance(obj, Poison):
            obj._bad()
        p = _class_attr(type(obj), name) if not isinstance(obj, type) else None
        if isinstance(p, property) and in_repo(p.fget):
            ov = self.overrides.get(p.fget)
            if ov is not None:
                return ov(obj)
            return self.call_repo(p.fget, [obj], {})
        if p is None and not isinstance(obj, type):
            ga = _class_attr(type(obj), '__getattr__')
            if isinstance(ga, types.FunctionType) and in_repo(ga) and name not in getattr(obj, '__dict__', {}):
                return self.call_repo(ga, [obj, name], {})
        if isinstance(obj, list) and name in ('append', 'extend'):
            return self.models.BoundModel(obj, self.models.list_append if name == 'append' else self.models.list_extend)
        return getattr(obj, name)

    def index(self, e, env):
        if isinstance(e, ast.Slice):
            return slice(*[self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return tuple(self.index(x, env) for x in e.elts)
        return self.ev(e, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.index(e.slice, env))

    def getitem(self, obj, k):
        return self.models.getitem(self, obj, k)

    def setitem(self, obj, k, v):
        return self.models.setitem(self, obj, k, v)

    def e_Call(self, e, env):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = self.lookup('__class__', env)
            x = env
            while x is not None and x.selfarg is None:
                x = x.parent
            return SuperProxy(cls, x.selfarg)
        f = self.ev(e.func, env)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                parts = self.iter_parts(v)
                if Q.has_comp(parts):
                    if f is zip and len(e.args) == 1:
                        return self.models.unzip(self, parts)
                    raise Unsupported('star-argument of symbolic length')
                args.extend(parts)
            else:
                args.append(self.ev(x, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for a, b in d.items():
                    if a in kwargs:
                        raise TypeError('got multiple values for keyword argument ' + a)
                    kwargs[a] = b
            else:
                if k.arg in kwargs:
                    raise TypeError('got multiple values for keyword argument ' + k.arg)
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs)

    # comprehensions: executed like loops appending to a list
    def comp_list(self, e, env):
        out = self.new([])
        inner = self.new(Env(env, env.globals, env.filename, env.cls))

        def rec(i):
            if i == len(e.generators):
                self.touch_list(out, appending=True)
                out.append(self.ev(e.elt, inner))
                return
            g = e.generators[i]
            parts = Q.simplify(self.iter_parts(self.ev(g.iter, inner)))
            names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]

            def body(elem):
                self.assign(g.target, elem, inner)
                for c in g.ifs:
                    if not self.test(self.ev(c, inner)):
                        return
                rec(i + 1)
            self.run_loop(parts, body, names, inner)
        rec(0)
        return out

    def e_ListComp(self, e, env):
        return self.comp_list(e, env)

    def e_GeneratorExp(self, e, env):
        return self.comp_list(e, env)

    def e_SetComp(self, e, env):
        l = self.comp_list(e, env)
        if Q.has_comp(l) or _sym(l):
            return self.models.SymSet(l)
        return set(l)

    def e_DictComp(self, e, env):
        fake = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(fake, e)
        l = self.comp_list(fake, env)
        if Q.has_comp(l):
            raise Unsupported('dict comprehension over symbolic sequence')
        return self.new(dict(l))

    def e_Starred(self, e, env):
        raise Unsupported('starred')


def _class_attr(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _sym(v, depth=0):
    if isinstance(v, (Term, Comp, Arr, Arr2, Poison)):
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        if depth > 6:
            return False
        return any(_sym(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(_sym(x, depth + 1) for x in v.values()) or any(_sym(x, depth + 1) for x in v.keys())
    if isinstance(v, slice):
        return _sym((v.start, v.stop, v.step))
    if isinstance(v, IFunc):
        return True
    if isinstance(v, types.MethodType):
        return isinstance(v.__func__, IFunc) or _sym(v.__self__)
    if getattr(type(v), '_pv_symbolic', False):
        return True
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(_sym(x, depth + 1) for x in v.flat)
    return False


# --------------------------------------------------------------------------------------------------- loop summaries

def _conjuncts(c):
    return [] if c is True else list(c.args) if isinstance(c, Term) and c.op == 'and' else [c]


def _drop_implied(cond, exits):
    """no element takes an exit path: conjuncts c of a normal path with (rest and not c) an exit condition always hold"""
    cs = _conjuncts(cond)
    ex = [_conjuncts(p[0]) for p in exits]
    changed = True
    while changed:
        changed = False
        for c in cs:
            nc = T.neg(c) if isinstance(c, Term) else None
            if any(any(e is nc for e in es) and all(e is nc or any(e is x for x in cs) for e in es) for es in ex):
                cs = [x for x in cs if x is not c]
                changed = True
                break
    return T.conj(*cs) if cs else True


class Summary(object):
    """effect of `for elem in Comp: body(elem)` by one symbolic execution of the body at a generic index"""

    def __init__(self, interp, body, target_names, env):
        self.I = interp
        self.ctx = interp.ctx
        self.body = body
        self.targets = set(target_names)
        self.env = env
        self.seqcarry = {}

    def run(self, comp):
        ctx = self.ctx
        ctx.loops += 1
        if comp.var is None:
            # guarded group: an ordinary branch
            if ctx.branch(comp.guard):
                return self.I.run_loop(comp.items, self.body, self.targets, self.env)
            return 'done'
        v, comp = Q.rename(comp)
        rng = [T.le(0, v), T.lt(v, comp.n), comp.guard]
        # -------- pass 1: which cells does the body write?
        cells = None
        counter0 = dict(ctx.counter)
        for attempt in range(4):
            for d in ctx.drawn:
                ctx.counter[d] = counter0.get(d, 0)
            paths = self.explore(comp, v, rng, cells)
            found = self.written(paths)
            if cells is not None and set(found) <= set(cells):
                break
            new = dict(cells or {})
            new.update(found)
            if cells is not None and set(new) == set(cells):
                break
            cells = new
        else:
            raise Unsupported('loop effects do not stabilise')
        return self.apply(comp, v, rng, cells, paths)

    def explore(self, comp, v, rng, cells):
        """all body paths at generic index v; cells: cell key -> record to havoc"""
        ctx = self.ctx
        mark = len(ctx.trail)
        carry = {}
        locked = dict(ctx.locked)
        famlock = dict(ctx.famlock)
        saved_ex = ctx.ex
        ctx.loopvars = ctx.loopvars + [v]
        try:
            if cells:
                for k, rec in cells.items():
                    kind = rec[0]
                    if kind == 'local':
                        env, name = rec[1], rec[2]
                        cur = env.vars.get(name, _MISSING)
                        if cur is _MISSING:
                            continue
                        hv = self.havoc(cur, name)
                        carry[k] = (cur, hv)
                        env.vars[name] = hv
                        ctx.trail.append(('havoc', None, None, None,
                                          (lambda env=env, name=name, cur=cur: env.vars.__setitem__(name, cur))))
                    elif kind == 'attr':
                        obj, name = rec[1], rec[2]
                        d = obj.__dict__
                        cur = d.get(name, _MISSING)
                        if cur is _MISSING:
                            continue
                        hv = self.havoc(cur, name)
                        carry[k] = (cur, hv)
                        d[name] = hv
                        ctx.trail.append(('havoc', None, None, None,
                                          (lambda d=d, name=name, cur=cur: d.__setitem__(name, cur))))
                    elif kind == 'list':
                        ctx.locked[id(rec[1])] = rec[1]
                    elif kind == 'fam':
                        ctx.famlock[(id(rec[1]), rec[2])] = v
            base = saved_ex.pc()
            rngf = []
            for c in rng:
                c = T.truth(c)
                if c is False:
                    return []
                if c is not True:
                    rngf += list(c.args) if c.op == 'and' else [c]
            if any(not S.feasible(base + rngf[:i], c) for i, c in enumerate(rngf)):
                return []
            paths = []

            def go():
                try:
                    st = self.I.run_loop(comp.items, self.body, self.targets, self.env)
                    return ('break', None) if st == 'break' else ('next', None)
                except Cont:
                    return ('next', None)
                except Brk:
                    return ('break', None)
                except Ret as r:
                    return ('return', r.v)
                except Exception as e:
                    return ('raise', e)
            for ex, out, trail in ctx.explore(go, base + rngf):
                cond = T.conj(*[c if val else T.neg(c) for c, val, _ in ex.decisions]) if ex.decisions else True
                facts = [f for f in ex.facts]
                eff = self.effects(trail)
                paths.append((cond, out, eff, facts, list(ctx.draws)))
            self.carry = carry
            return paths
        finally:
            ctx.loopvars = ctx.loopvars[:-1]
            ctx.undo(mark)
            ctx.locked = locked
            ctx.famlock = famlock
            ctx.ex = saved_ex

    def havoc(self, cur, name):
        if isinstance(cur, (bool, np.bool_)):
            return self.ctx.fresh('carryB_' + name, 'B')
        if T.is_num(cur):
            return self.ctx.fresh('carry_' + name, 'R' if isinstance(cur, (float, np.floating)) else 'I')
        if isinstance(cur, Term) and cur.sort in 'RIB':
            return self.ctx.fresh('carry_' + name, cur.sort)
        if isinstance(cur, (Q.Arr, list)) or isinstance(cur, np.ndarray) and cur.ndim == 1:
            # a sequence of unknown length and content; the body may only extend it
            n = self.ctx.fresh('carrylen_' + name, 'I')
            mark = [Q.Comp(self.ctx.fresh('i', 'I'), n, True, [Poison('earlier entries of %s' % name)])]
            hv = mark if isinstance(cur, list) else Q.Arr(mark)
            self.seqcarry[id(hv)] = (hv, n)
            return hv
        return Poison('loop-carried %s' % name)

    def effects(self, trail):
        """final values of all cells that existed before this body execution"""
        eff = {}
        newobjs = {id(r[1]) for r in trail if r[0] == 'new'}
        for r in trail:
            kind = r[0]
            if kind == 'new' or (kind in UNDO_SKIP and id(r[1]) in newobjs):
                continue
            if kind == 'local':
                eff.setdefault(('local', id(r[1]), r[2]), (r, r[3]))
            elif kind == 'attr':
                eff.setdefault(('attr', id(r[1]), r[2]), (r, r[3]))
            elif kind == 'list':
                eff.setdefault(('list', id(r[1])), (r, r[2]))
            elif kind in ('dict', 'set', 'np', 'arr'):
                eff.setdefault((kind, id(r[1])), (r, r[2]))
            elif kind == 'fam':
                eff.setdefault(('fam', id(r[1]), r[2]), (r, r[3]))
            elif kind == 'havoc':
                pass
            else:
                eff.setdefault((kind, id(r[1])), (r, None))
        out = {}
        for k, (r, old) in eff.items():
            kind = k[0]
            if kind == 'local':
                val = r[1].vars.get(r[2], _MISSING)
            elif kind == 'attr':
                val = r[1].__dict__.get(r[2], _MISSING)
            elif kind == 'list':
                val = list(r[1])
            elif kind == 'dict':
                val = dict(r[1])
            elif kind == 'fam':
                val = r[1].local_value(r[2])
            else:
                val = None
            out[k] = (r, old, val)
        return out

    def written(self, paths):
        """cells that exist outside the body: reachable before the loop, i.e. not created inside"""
        cells = {}
        for cond, out, eff, facts, draws in paths:
            for k, (r, old, val) in eff.items():
                kind = k[0]
                if kind == 'local':
                    # only the frames alive outside matter
                    if not self.outer_env(r[1]):
                        continue
                    cells[k] = r
                elif kind == 'attr':
                    if old is _MISSING and self.created_inside(r[1], eff, paths):
                        continue
                    cells[k] = r
                else:
                    cells[k] = r
        return cells

    def outer_env(self, env):
        e = self.env
        while e is not None:
            if e is env:
                return True
            e = e.parent
        return False

    def created_inside(self, obj, eff, paths):
        # an object created in the body: all of its attributes were written in the body starting from nothing
        d = getattr(obj, '__dict__', None)
        if d is None:
            return False
        return all(('attr', id(obj), n) in eff and eff[('attr', id(obj), n)][1] is _MISSING for n in d)

    # ------------------------------------------------------------------------------------------------------- application
    def apply(self, comp, v, rng, cells, paths):
        ctx = self.ctx
        I = self.I
        if not paths:
            return 'done'
        nxt = [p for p in paths if p[1][0] == 'next']
        exits = [p for p in paths if p[1][0] != 'next']
        if exits:
            E = T.disj(*[p[0] for p in exits])
            Eex = T.exists_over([(v, comp.n, comp.guard)], E)
            if isinstance(Eex, Term) or Eex is True:
                if ctx.branch(Eex) if isinstance(Eex, Term) else True:
                    j = ctx.fresh_dep('first', 'I')
                    mj = {v.args[0]: j}
                    ctx.assume(T.le(0, j))
                    ctx.assume(T.lt(j, comp.n))
                    ctx.assume(T.subst(comp.guard, mj) if isinstance(comp.guard, Term) else comp.guard)
                    ctx.assume(T.subst(E, mj) if isinstance(E, Term) else E)
                    k2 = ctx.fresh('i', 'I')
                    mk2 = {v.args[0]: k2}
                    before = T.conj(T.lt(k2, j), T.subst(comp.guard, mk2) if isinstance(comp.guard, Term) else comp.guard,
                                    T.subst(E, mk2) if isinstance(E, Term) else E)
                    ctx.assume(T.neg(T.exists_over([(k2, comp.n, True)], before)))
                    # iterations before j: normal effects with n := j
                    self.commit(Comp(comp.var, j, comp.guard, comp.items), v, cells, nxt)
                    items = [Q.subst_val(x, mj) for x in comp.items]
                    return I.run_loop(items, self.body, self.targets, self.env)
            nxt = [(_drop_implied(p[0], exits),) + tuple(p[1:]) for p in nxt]
        self.commit(comp, v, cells, nxt)
        return 'done'

    def commit(self, comp, v, cells, paths):
        ctx = self.ctx
        I = self.I
        if not paths:
            return
        gens = [(v, comp.n, comp.guard)]
        for k, rec in cells.items():
            kind = rec[0]
            touched = [p for p in paths if k in p[2]]
            if kind in ('local', 'attr'):
                if kind == 'local':
                    holder, name = rec[1].vars, rec[2]
                else:
                    holder, name = rec[1].__dict__, rec[2]
                cur = holder.get(name, _MISSING)
                if not touched:
                    continue
                if kind == 'local' and name in self.targets and rec[1] is self.env:
                    new = Poison('loop variable %s after the loop' % name)
                elif cur is _MISSING:
                    new = Poison('%s assigned in a summarised loop' % name)
                else:
                    new = self.scalar_summary(gens, v, k, cur, paths, name)
                if kind == 'local':
                    I.set_local(rec[1], name, new)
                else:
                    I.set_attr(rec[1], name, new)
            elif kind == 'list':
                lst = rec[1]
                if not touched:
                    continue
                groups = []
                for p in paths:
                    if k not in p[2]:
                        continue
                    r, old, val = p[2][k]
                    if len(val) < len(old) or any(a is not b for a, b in zip(old, val)):
                        raise Unsupported('list modified other than by append in a summarised loop')
                    app = val[len(old):]
                    if app:
                        groups.append(Comp(None, None, p[0], app))
                if not groups:
                    continue
                if len(groups) > 1:
                    items = merge_exclusive(groups)
                else:
                    items = Q.simplify(groups)
                I.touch_list(lst, appending=True)
                lst.extend(Q.simplify([Comp(v, comp.n, comp.guard, items)]))
            elif kind == 'fam':
                fam, attr = rec[1], rec[2]
                val = None
                old = fam.value_at(attr, v)
                new = old
                for p in paths:
                    if k in p[2]:
                        cond = T.conj(comp.guard, p[0])
                        new = Q.merge(cond, p[2][k][2], new) if cond is not True else p[2][k][2]
                fam.commit(I, attr, v, new, comp.n)
            elif kind == 'dict':
                for p in touched:
                    r, old, val = p[2][k]
                    same = set(old) == set(val) and all(old[a] is val[a] for a in old)
                    dv = ctx.dictviews.get(id(rec[1]))
                    if not same and dv is not None and len(paths) == 1 and comp.guard is True and T.eq(dv[3], comp.n) is True:
                        I.touch_dict(rec[1])
                        for a in val:
                            if a not in old or old[a] is not val[a]:
                                rec[1][a] = val[a]
                        continue
                    if not same:
                        raise Unsupported('dictionary written in a summarised loop')
            else:
                raise Unsupported('%s mutated in a summarised loop' % kind)

    def seq_summary(self, gens, k, cur, paths, name, n):
        """a sequence rebuilt in every iteration as the old one followed by new entries"""
        bad = lambda why: Poison('%s %s in a summarised loop' % (name, why))
        free = lambda x: Q.subst_val(x, {n.args[0]: T.const(0)}) is x
        groups = []
        for p in paths:
            if not all(free(kk) for kk in [p[0]] + [e[2] for kk, e in p[2].items() if kk != k]):
                return bad('read while it grows')
            if k not in p[2]:
                continue
            val = p[2][k][2]
            if isinstance(cur, list) != isinstance(val, list) or not isinstance(val, (list, Q.Arr)):
                return bad('replaced')
            parts = Q.simplify(Q.as_parts(val))
            if not parts or not isinstance(parts[0], Q.Comp) or parts[0].n is not n:
                return bad('reassigned')
            rest = parts[1:]
            if not all(free(x) for x in rest):
                return bad('read while it grows')
            if rest:
                groups.append(Q.Comp(None, None, p[0], rest))
        if not groups:
            return cur
        (v, cn, guard), = gens
        items = merge_exclusive(groups) if len(groups) > 1 else Q.simplify(groups)
        out = list(Q.as_parts(cur)) + Q.simplify([Q.Comp(v, cn, guard, items)])
        return out if isinstance(cur, list) else Q.Arr(out)

    def scalar_summary(self, gens, v, k, cur, paths, name):
        carry = self.carry.get(k)
        if carry is None:
            return Poison('%s written in a summarised loop' % name)
        hv = carry[1]
        if id(hv) in self.seqcarry:
            return self.seq_summary(gens, k, cur, paths, name, self.seqcarry[id(hv)][1])
        if isinstance(hv, Poison):
            # list / object valued local reassigned in the body: one and the same value, or undefined
            vals, conds = [], []
            for p in paths:
                if k in p[2]:
                    vals.append(_under(p[2][k][2], p[0]))
                    conds.append(p[0])
            v0 = vals[0] if vals else None
            if vals and all(x is v0 or (isinstance(x, str) and x == v0) for x in vals) \
                    and (v0 is None or isinstance(v0, str) or isinstance(v0, Term) and v.args[0] not in v0.fv) \
                    and (cur is None or isinstance(cur, (str, Term))) and all(not isinstance(c, Poison) for c in conds):
                return T.ite(T.exists_over(gens, T.disj(*conds)), v0, cur)
            return Poison('%s reassigned in a summarised loop' % name)
        cname = hv.args[0]
        incs = []
        sets = []
        for p in paths:
            if k not in p[2]:
                continue
            val = p[2][k][2]
            if val is hv:
                continue
            inc = _increment(val, hv)
            if inc is not None:
                incs.append((p[0], inc))
            elif T.is_num(val) or T.is_bool(val) or (isinstance(val, Term) and cname not in val.fv):
                sets.append((p[0], _under(val, p[0])))
            else:
                return Poison('%s updated in an unsupported way in a summarised loop' % name)
        if any(isinstance(c, Term) and cname in c.fv for c, _ in incs + sets):
            return Poison('%s controls its own update in a summarised loop' % name)
        if incs and not sets:
            body = 0
            for c, e in incs:
                body = T.add(body, T.ite(c, e, 0))
            return T.add(cur, T.sum_over(gens, body))
        if sets and not incs:
            v0 = sets[0][1]
            ok = all((x is v0 or (not isinstance(x, Term) and not isinstance(v0, Term) and x == v0)) for _, x in sets)
            dep = isinstance(v0, Term) and v.args[0] in v0.fv
            if ok and not dep:
                return T.ite(T.exists_over(gens, T.disj(*[c for c, _ in sets])), v0, cur)
            return Poison('%s overwritten in a summarised loop' % name)
        return Poison('%s updated in an unsupported way in a summarised loop' % name)


def _under(val, guard):
    """val simplified with the conjuncts of guard"""
    known = set()
    st = [guard]
    while st:
        g = st.pop()
        if isinstance(g, Term):
            if g.op == 'and':
                st += list(g.args)
            known.add(g.id)
    while isinstance(val, Term) and val.op == 'ite':
        if val.args[0].id in known:
            val = T.unconst(val.args[1])
        elif isinstance(T.neg(val.args[0]), Term) and T.neg(val.args[0]).id in known:
            val = T.unconst(val.args[2])
        else:
            break
    return val


def _increment(val, hv):
    """e such that val == hv + e with e free of hv, or None"""
    if not isinstance(val, Term):
        return None
    name = hv.args[0]
    if val.op == '+':
        a, b = val.args
        if a is hv and name not in b.fv:
            return T.unconst(b)
        if b is hv and name not in a.fv:
            return T.unconst(a)
        for x, y in ((a, b), (b, a)):
            if name in x.fv and name not in y.fv:
                e = _increment(x, hv)
                if e is not None:
                    return T.add(e, T.unconst(y))
    return None


def merge_exclusive(groups):
    """groups: guarded groups with mutually exclusive guards; merge into one when every group emits one plain value"""
    raw = [Q.simplify(g.items) for g in groups]
    if all(any(isinstance(x, Comp) for x in r) for r in raw):
        # entries every path appends in the same way, first
        from .models import fingerprint
        n = 0
        while all(len(r) > n for r in raw) and len({fingerprint([r[n]]) for r in raw}) == 1:
            n += 1
        if n:
            rest = [Comp(None, None, g.guard, r[n:]) for g, r in zip(groups, raw) if r[n:]]
            return Q.simplify([Comp(None, None, T.disj(*[g.guard for g in groups]), raw[0][:n])]
                              + (merge_exclusive(rest) if len(rest) > 1 else rest))
    gs = []
    for g in groups:
        items = Q.simplify(g.items)
        if len(items) != 1 or isinstance(items[0], Comp):
            return Q.simplify(groups)
        gs.append((g.guard, items[0]))
    try:
        val = gs[-1][1]
        guard = gs[-1][0]
        for c, x in reversed(gs[:-1]):
            val = Q.merge(c, x, val)
            guard = T.disj(guard, c)
    except Unsupported:
        return Q.simplify(groups)
    return Q.simplify([Comp(None, None, guard, [val])])
