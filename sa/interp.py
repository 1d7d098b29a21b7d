"""interp.py - abstract interpreter for Python source (syntax-tree walking).

Interprets the functions and classes of /repo's current source over the domains
of core.py.  Nothing of /repo is imported or executed: the only input is the
syntax tree.  Library functions are replaced by models (stubs.py)."""

import ast
import builtins
import operator
import types

from . import core
from .core import (Fin, Unk, PyRaise, Unsupported, Infeasible, PathLimit, may_contain, may_start, may_end,
                   str_eq, value_eq, seq_contains, has_hole, unfresh, canon)
from .lazy import Lazy

MAX_STEPS = 400000
MAX_DEPTH = 120


NOTHING = object()


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


ENGINE = (PyRaise, Unsupported, Infeasible, PathLimit, _Return, _Break, _Continue, RecursionError)

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
          ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
          ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
          ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
        ast.BitOr: operator.ior, ast.BitAnd: operator.iand, ast.BitXor: operator.ixor}


ORDER_SENSITIVE = (enumerate, zip, iter, dict.fromkeys)


def force(v):
    return v.force() if isinstance(v, Fin) else v


def truth(v):
    if isinstance(v, Fin):
        v = v.force()
    if isinstance(v, str) or v is None or isinstance(v, (bool, int, list, tuple, dict)):
        return bool(v)
    try:
        return bool(v)
    except ENGINE:
        raise
    except Exception as e:
        raise PyRaise(e)


class Env:
    __slots__ = ('vars', 'parent', 'module', 'globals_', 'nonlocals', 'is_class', 'func', 'locals_')

    def __init__(self, parent, module, is_class=False, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = ()
        self.nonlocals = ()
        self.is_class = is_class
        self.func = func
        self.locals_ = None


class _Plain:
    pass


_real_dict = _Plain.__dict__['__dict__'].__get__
_INTERNAL = {'interp', 'node', 'env', 'defcls', 'is_gen', 'locals_'}


class _Attributes(dict):
    """`__dict__` of an interpreted function: the attributes the program has set."""

    def __init__(self, func):
        super().__init__((k, v) for k, v in _real_dict(func).items()
                         if k not in _INTERNAL and not (k.startswith('__') and k.endswith('__') and k != '__wrapped__'))
        self.func = func

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        setattr(self.func, k, v)

    def update(self, *a, **k):
        for n, v in dict(*a, **k).items():
            self[n] = v


class Func(_Plain):
    """An interpreted function; callable by the interpreter and by native code."""
    _is_func = True
    __dict__ = property(_Attributes)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, interp, node, env, name, defaults, kwdefaults, qualname):
        self.interp = interp
        self.node = node
        self.env = env
        self.__name__ = name
        self.__qualname__ = qualname
        self.__module__ = env.module.__name__
        self.__defaults__ = defaults
        self.__kwdefaults__ = kwdefaults
        self.__doc__ = ast.get_docstring(node) if not isinstance(node, ast.Lambda) else None
        self.defcls = None
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        allargs = names + [x.arg for x in a.kwonlyargs] + \
            ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        self.__code__ = types.SimpleNamespace(
            co_varnames=tuple(allargs), co_argcount=len(names),
            co_kwonlyargcount=len(a.kwonlyargs), co_posonlyargcount=len(a.posonlyargs),
            co_flags=(4 if a.vararg else 0) | (8 if a.kwarg else 0), co_name=name)
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.locals_ = _locals_of(node)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, /, *args, **kwargs):
        return self.interp.call_func(self, args, kwargs)

    def __repr__(self):
        return f'<function {self.__qualname__}>'


def _walk_scope(node):
    """Nodes of a function body without nested scopes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # names bound by walrus leak out, targets do not
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    yield s.target
            stack.append(n.generators[0].iter)
            continue
        stack.extend(ast.iter_child_nodes(n))


def _per_node(f):
    """Facts about a function are found once per syntax-tree node."""
    attr = '_sa' + f.__name__

    def g(node):
        try:
            return getattr(node, attr)
        except AttributeError:
            setattr(node, attr, f(node))
            return getattr(node, attr)
    return g


@_per_node
def _has_yield(node):
    for n in _walk_scope(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


@_per_node
def _locals_of(node):
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    excl = set()
    for n in _walk_scope(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            excl.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
    return names - excl


def undo(log):
    """Takes back assignments to attributes of classes."""
    while log:
        obj, name, old = log.pop()
        try:
            if old is NOTHING:
                type.__delattr__(obj, name)
            else:
                type.__setattr__(obj, name, old)
        except (AttributeError, TypeError):
            pass


class Module:
    def __init__(self, name, path):
        self.__name__ = name
        self.path = path
        self.ns = {'__name__': name, '__file__': path}

    def __getattr__(self, name):
        try:
            return self.__dict__['ns'][name]
        except KeyError:
            raise AttributeError(f'module {self.__name__} has no attribute {name}')

    def __setattr__(self, name, value):
        if name in ('__name__', 'path', 'ns'):
            self.__dict__[name] = value
        else:
            self.ns[name] = value


class Interp:
    def __init__(self, importer):
        """importer(name, fromlist, level, module) -> module-like object"""
        self.importer = importer
        self.depth = 0
        self.intrinsics = {}     # native function -> replacement(interp, args, kwargs)
        self.builtins = dict(vars(builtins))
        self.undo = []           # attributes of classes set by the interpreted code
        self.step = None         # called before each statement (interleaving of threads)

    # ---------------------------------------------------------------- modules

    def run_module(self, source, name, path):
        m = Module(name, path)
        tree = ast.parse(source, path)
        m.tree = tree
        env = Env(None, m)
        env.vars = m.ns
        self.exec_block(tree.body, env)
        return m

    # ------------------------------------------------------------- statements

    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec_stmt(s, env)

    def exec_stmt(self, s, env):
        c = core.CTX
        if c is not None:
            c.steps += 1
            if c.steps > MAX_STEPS:
                raise Unsupported('step limit')
        if self.step is not None:
            self.step(s, env)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} line {s.lineno}')
        try:
            m(s, env)
        except PyRaise as e:
            if not e.trace or e.trace[-1][0] is not env:
                e.trace.append((env, env.func.__qualname__ if env.func else '<module>', s.lineno,
                                env.module.path))
            raise

    def st_Expr(self, s, env):
        self.eval(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            v = self.eval(s.value, env)
            self.assign(s.target, v, env)
        if env.is_class and isinstance(s.target, ast.Name):
            env.vars.setdefault('__annotations__', {})[s.target.id] = s.annotation

    def st_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            v = self.aug(s.op, cur, self.eval(s.value, env))
            self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            cur = self.getattr(obj, t.attr)
            v = self.aug(s.op, cur, self.eval(s.value, env))
            self.setattr(obj, t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(obj, k)
            v = self.aug(s.op, cur, self.eval(s.value, env))
            self.setitem(obj, k, v)
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, a, b):
        a, b = force(a), force(b)
        f = IOPS.get(type(op))
        if f is not None and isinstance(a, (list, set, dict)):
            return self.native(f, a, b)
        return self.binop(op, a, b)

    def st_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value is not None else None)

    def st_If(self, s, env):
        self.exec_block(s.body if truth(self.eval(s.test, env)) else s.orelse, env)

    def st_While(self, s, env):
        n = 0
        while truth(self.eval(s.test, env)):
            n += 1
            if n > 300:
                raise Unsupported('loop bound')
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def st_For(self, s, env):
        it = self.iterate(self.eval(s.iter, env))
        n = 0
        for v in it:
            n += 1
            if n > 3000:
                raise Unsupported('loop bound')
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def st_Break(self, s, env):
        raise _Break()

    def st_Continue(self, s, env):
        raise _Continue()

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                self.delitem(obj, k)
            elif isinstance(t, ast.Attribute):
                self.native(delattr, self.eval(t.value, env), t.attr)
            else:
                raise Unsupported('del')

    def st_Global(self, s, env):
        env.globals_ = tuple(env.globals_) + tuple(s.names)

    def st_Nonlocal(self, s, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def st_Assert(self, s, env):
        if not truth(self.eval(s.test, env)):
            msg = str(self.eval(s.msg, env)) if s.msg is not None else ''
            raise PyRaise(AssertionError(msg))

    def st_Raise(self, s, env):
        if s.exc is None:
            cur = self.current_exc(env)
            if cur is None:
                raise PyRaise(RuntimeError('No active exception to reraise'))
            raise cur
        e = self.eval(s.exc, env)
        if s.cause is not None:
            self.eval(s.cause, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, (), {})
        if not isinstance(e, BaseException):
            if isinstance(e, Unk):
                e = Exception(f'<{e.label}>')
            else:
                raise PyRaise(TypeError('exceptions must derive from BaseException'))
        raise PyRaise(e)

    def current_exc(self, env):
        e = env
        while e is not None:
            if '#exc' in e.vars and e.vars['#exc'] is not None:
                return e.vars['#exc']
            e = e.parent
        return None

    def st_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                h = self.find_handler(s.handlers, e, env)
                if h is None:
                    raise
                saved = env.vars.get('#exc')
                env.vars['#exc'] = e
                if h.name:
                    self.assign(ast.Name(id=h.name, ctx=ast.Store(), lineno=h.lineno), e.exc, env)
                c = core.CTX
                if c is not None:
                    c.event('handled', type(e.exc).__name__, h.lineno)
                try:
                    self.exec_block(h.body, env)
                finally:
                    env.vars['#exc'] = saved
                    if h.name:
                        env.vars.pop(h.name, None)
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, _Return, _Break, _Continue):
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def find_handler(self, handlers, e, env):
        for h in handlers:
            if h.type is None:
                return h
            t = self.eval(h.type, env)
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                if isinstance(x, type) and isinstance(e.exc, x):
                    return h
                if isinstance(x, Unk) and core.CTX.oracle.pick(
                        ('handles', x.label, type(e.exc).__name__), [False, True]):
                    return h
        return None

    def st_With(self, s, env):
        self._with(s.items, s.body, env)

    def _with(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        it = items[0]
        cm = self.eval(it.context_expr, env)
        v = self.call(self.getattr(cm, '__enter__'), (), {}) if not isinstance(cm, Unk) else cm.__enter__()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        exit_ = self.getattr(cm, '__exit__') if not isinstance(cm, Unk) else cm.__exit__
        try:
            self._with(items[1:], body, env)
        except PyRaise as e:
            if not truth(self.call(exit_, (type(e.exc), e.exc, None), {})):
                raise
        except (_Return, _Break, _Continue):
            self.call(exit_, (None, None, None), {})
            raise
        else:
            self.call(exit_, (None, None, None), {})

    def st_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            dec = self.eval(d, env)
            f = self.call(dec, (f,), {})
        self.assign(ast.Name(id=s.name, ctx=ast.Store(), lineno=s.lineno), f, env)

    def make_func(self, s, env, name):
        a = s.args
        defaults = tuple(self.eval(d, env) for d in a.defaults)
        kwdefaults = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults)
                      if d is not None}
        outer = env.func.__qualname__ + '.<locals>.' if env.func is not None else ''
        if env.is_class:
            outer = env.vars.get('__qualname__', '') + '.'
        f = Func(self, s, env, name, defaults, kwdefaults, outer + name)
        f.annotations_ast = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs
                             if x.annotation is not None}
        return f

    def st_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        kw = {k.arg: self.eval(k.value, env) for k in s.keywords}
        cenv = Env(env, env.module, is_class=True, func=env.func)
        cenv.vars['__module__'] = env.module.__name__
        cenv.vars['__qualname__'] = s.name
        self.exec_block(s.body, cenv)
        ns = dict(cenv.vars)
        anns = ns.pop('__annotations__', None)
        ns = {k: v for k, v in ns.items() if not k.startswith('#')}
        hostbases = tuple(b if isinstance(b, type) else object for b in bases) or ()
        if len(hostbases) > 1:
            hostbases = tuple(b for b in hostbases if b is not object) or (object,)
        meta = kw.pop('metaclass', None)
        ns['#annotations_ast'] = anns or {}
        try:
            if isinstance(meta, type):
                cls = meta(s.name, hostbases, ns, **kw)
            else:
                cls = types.new_class(s.name, hostbases, {}, lambda d: d.update(ns))
        except ENGINE:
            raise
        except Exception as e:
            raise Unsupported(f'class {s.name}: {e!r}')
        for v in ns.values():
            for f in self._funcs_in(v):
                if f.defcls is None:
                    f.defcls = cls
        for d in reversed(s.decorator_list):
            cls = self.call(self.eval(d, env), (cls,), {})
        self.assign(ast.Name(id=s.name, ctx=ast.Store(), lineno=s.lineno), cls, env)

    @staticmethod
    def _funcs_in(v):
        if isinstance(v, Func):
            yield v
        elif isinstance(v, (staticmethod, classmethod)):
            yield from Interp._funcs_in(v.__func__)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    yield from Interp._funcs_in(f)
        elif hasattr(v, '__wrapped__') and isinstance(getattr(v, '__wrapped__'), Func):
            yield v.__wrapped__

    def st_Import(self, s, env):
        for al in s.names:
            m = self.importer(self, al.name, None, 0, env.module)
            if al.asname:
                self.assign(ast.Name(id=al.asname, ctx=ast.Store(), lineno=s.lineno), m, env)
            else:
                top = al.name.split('.')[0]
                if top != al.name:
                    m = self.importer(self, top, None, 0, env.module)
                self.assign(ast.Name(id=top, ctx=ast.Store(), lineno=s.lineno), m, env)

    def st_ImportFrom(self, s, env):
        m = self.importer(self, s.module or '', [a.name for a in s.names], s.level, env.module)
        for al in s.names:
            if al.name == '*':
                raise Unsupported('import *')
            try:
                v = getattr(m, al.name)
            except ENGINE:
                raise
            except AttributeError:
                raise PyRaise(ImportError(f'cannot import name {al.name!r} from {s.module!r}'))
            self.assign(ast.Name(id=al.asname or al.name, ctx=ast.Store(), lineno=s.lineno), v, env)

    def st_Match(self, s, env):
        subj = self.eval(s.subject, env)
        for case in s.cases:
            if self.match_pattern(case.pattern, subj, env) and \
                    (case.guard is None or truth(self.eval(case.guard, env))):
                self.exec_block(case.body, env)
                return

    def match_pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return value_eq(v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return force(v) is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, env):
                return False
            if p.name:
                self.assign(ast.Name(id=p.name, ctx=ast.Store(), lineno=p.lineno), v, env)
            return True
        if isinstance(p, ast.MatchSequence):
            v = force(v)
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(
                    self.match_pattern(q, x, env) for q, x in zip(p.patterns, v))
            i = star[0]
            tail = len(p.patterns) - i - 1
            if len(v) < i + tail:
                return False
            if not all(self.match_pattern(q, x, env) for q, x in zip(p.patterns[:i], v)):
                return False
            if tail and not all(self.match_pattern(q, x, env)
                                for q, x in zip(p.patterns[i + 1:], v[len(v) - tail:])):
                return False
            if p.patterns[i].name:
                self.assign(ast.Name(id=p.patterns[i].name, ctx=ast.Store(), lineno=p.lineno),
                            list(v[i:len(v) - tail]), env)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return truth(self.call(isinstance, (v, self.eval(p.cls, env)), {}))
        raise Unsupported('match pattern')

    # ------------------------------------------------------------- assignment

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            name = t.id
            if name in env.globals_:
                c = core.CTX
                if c is not None:
                    c.event('global-write', env.module.__name__, name)
                env.module.ns[name] = v
                return
            if name in env.nonlocals:
                e = env.parent
                while e is not None:
                    if not e.is_class and name in (e.locals_ or e.vars):
                        e.vars[name] = v
                        return
                    e = e.parent
                raise Unsupported(f'nonlocal {name}')
            env.vars[name] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                tail = len(t.elts) - i - 1
                if len(vals) < i + tail:
                    raise PyRaise(ValueError('not enough values to unpack'))
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - tail], env)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(x, y, env)
            else:
                if isinstance(v, Unk):
                    vals = [v._sub(f'[{i}]') for i in range(len(t.elts))]
                if len(vals) != len(t.elts):
                    raise PyRaise(ValueError('wrong number of values to unpack'))
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment target')

    # ------------------------------------------------------------ expressions

    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} line {getattr(e, "lineno", "?")}')
        return m(e, env)

    def ex_Constant(self, e, env):
        return e.value

    def ex_Name(self, e, env):
        return self.load_name(e.id, env)

    def load_name(self, name, env):
        first = True
        x = env
        if name in env.globals_:
            x = None
        while x is not None:
            if (first or not x.is_class):
                if name in x.vars:
                    return x.vars[name]
                if x.locals_ is not None and name in x.locals_:
                    raise PyRaise(UnboundLocalError(
                        f"cannot access local variable '{name}' where it is not associated with a value"))
            first = False
            x = x.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        if name in self.builtins:
            if name in self.intrinsics:
                return self.intrinsics[name]
            return self.builtins[name]
        raise PyRaise(NameError(f"name '{name}' is not defined"))

    def ex_Tuple(self, e, env):
        return tuple(self.elements(e.elts, env))

    def ex_List(self, e, env):
        return list(self.elements(e.elts, env))

    def ex_Set(self, e, env):
        return set(force(x) for x in self.elements(e.elts, env))

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def ex_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = force(self.eval(v, env))
                if isinstance(m, Unk):
                    continue
                self.native(d.update, m)
            else:
                kk = force(self.eval(k, env))
                self.setitem(d, kk, self.eval(v, env))
        return d

    def ex_BinOp(self, e, env):
        return self.binop(e.op, force(self.eval(e.left, env)), force(self.eval(e.right, env)))

    def binop(self, op, a, b):
        f = BINOPS.get(type(op))
        if f is None:
            raise Unsupported('operator')
        if isinstance(op, ast.Mod) and isinstance(a, str):
            b = tuple(force(x) for x in b) if isinstance(b, tuple) else b
        return self.native(f, a, b)

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not truth(v)
        v = force(v)
        if isinstance(e.op, ast.USub):
            return self.native(operator.neg, v)
        if isinstance(e.op, ast.Invert):
            return self.native(operator.invert, v)
        return self.native(operator.pos, v)

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            if truth(v) != isand:
                return v
        return v

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            if not truth(self.compare(op, left, right)):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return not truth(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.same(force(a), force(b))
        if isinstance(op, ast.IsNot):
            return not self.same(force(a), force(b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not truth(self.contains(b, a))
        a, b = force(a), force(b)
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        return self.native(f, a, b)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(b, Lazy):
            a, b = b, a
        if isinstance(a, Lazy) and (b is None or isinstance(b, bool)):
            return a._is(b)
        return False

    def eq(self, a, b):
        try:
            return value_eq(a, b)
        except ENGINE:
            raise
        except Exception as e:
            raise PyRaise(e)

    def contains(self, coll, x):
        coll = force(coll)
        if isinstance(x, Lazy) and not isinstance(coll, (str, Lazy)):
            return self.native(x._contained, coll)
        if isinstance(coll, str):
            x = force(x)
            if not isinstance(x, str):
                raise PyRaise(TypeError("'in <string>' requires string as left operand"))
            return may_contain(coll, x)
        if isinstance(coll, (list, tuple, set, frozenset, dict)) or type(coll) in (
                type({}.keys()), type({}.values())):
            if isinstance(coll, (set, frozenset, dict)) and not isinstance(x, (str, Fin)):
                return self.native(operator.contains, coll, x)
            return seq_contains(list(coll), x)
        return self.native(operator.contains, coll, force(x))

    def ex_IfExp(self, e, env):
        return self.eval(e.body if truth(self.eval(e.test, env)) else e.orelse, env)

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, obj, name):
        obj = force(obj)
        if name == '__class__' and isinstance(obj, Lazy):
            return obj._type()
        try:
            return getattr(obj, name)
        except ENGINE:
            raise
        except Exception as ex:
            raise PyRaise(ex)

    def setattr(self, obj, name, v):
        if isinstance(obj, type):
            self.undo.append((obj, name, vars(obj).get(name, NOTHING)))
        try:
            setattr(obj, name, v)
        except ENGINE:
            raise
        except Exception as ex:
            raise PyRaise(ex)

    def ex_Subscript(self, e, env):
        obj = self.eval(e.value, env)
        return self.getitem(obj, self.eval(e.slice, env))

    def ex_Slice(self, e, env):
        f = lambda x: force(self.eval(x, env)) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def find_key(self, d, k):
        """The key of dict d that equals k, or None - splits if undetermined."""
        k = force(k)
        if isinstance(k, Lazy):
            return self.native(k._key_in, d)
        try:
            if k in d:
                return (k,)
        except TypeError as e:
            raise PyRaise(e)
        if isinstance(k, str):
            kc = canon(k)
            if kc in d:
                return (kc,)
            if has_hole(kc) and unfresh(kc) or any(isinstance(x, str) and has_hole(x) and unfresh(x) for x in d):
                for x in list(d):
                    if isinstance(x, str) and str_eq(x, kc):
                        return (x,)
        return None

    def getitem(self, obj, k):
        obj, k = force(obj), force(k)
        if isinstance(obj, dict):
            f = self.find_key(obj, k)
            if f is None:
                if hasattr(type(obj), '__missing__'):
                    return self.native(operator.getitem, obj, k)
                raise PyRaise(KeyError(k))
            return obj[f[0]]
        if isinstance(obj, type) and not hasattr(obj, '__class_getitem__') \
                and not hasattr(type(obj), '__getitem__'):
            return obj     # subscripted annotations such as List[str]
        return self.native(operator.getitem, obj, k)

    def setitem(self, obj, k, v):
        obj, k = force(obj), force(k)
        if isinstance(obj, dict):
            f = self.find_key(obj, k)
            if f is not None:
                k = f[0]
        self.native(operator.setitem, obj, k, v)

    def delitem(self, obj, k):
        obj, k = force(obj), force(k)
        if isinstance(obj, dict):
            f = self.find_key(obj, k)
            if f is None:
                raise PyRaise(KeyError(k))
            k = f[0]
        self.native(operator.delitem, obj, k)

    def ex_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                out.append(self.ex_FormattedValue(v, env))
        return ''.join(out)

    def ex_FormattedValue(self, e, env):
        v = force(self.eval(e.value, env))
        spec = self.eval(e.format_spec, env) if e.format_spec is not None else ''
        if e.conversion == ord('r'):
            v = self.call(repr, (v,), {})
        elif e.conversion == ord('s'):
            v = self.call(str, (v,), {})
        return self.native(format, v, spec)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        x = env
        while x.func is not None and x.parent is not None and x.locals_ is None and not x.is_class:
            x = x.parent     # comprehension scope
        self.assign(e.target, v, x)
        return v

    def ex_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def ex_Starred(self, e, env):
        raise Unsupported('starred')

    def _comp(self, e, env, emit):
        def rec(gens, env):
            if not gens:
                yield emit(env)
                return
            g = gens[0]
            for v in self.iterate(self.eval(g.iter, env)):
                cenv = Env(env, env.module, func=env.func)
                self.assign(g.target, v, cenv)
                if all(truth(self.eval(c, cenv)) for c in g.ifs):
                    yield from rec(gens[1:], cenv)
        cenv = Env(env, env.module, func=env.func)
        return rec(e.generators, cenv)

    def ex_ListComp(self, e, env):
        return list(self._comp(e, env, lambda en: self.eval(e.elt, en)))

    def ex_SetComp(self, e, env):
        return set(force(x) for x in self._comp(e, env, lambda en: self.eval(e.elt, en)))

    def ex_GeneratorExp(self, e, env):
        return self._comp(e, env, lambda en: self.eval(e.elt, en))

    def ex_DictComp(self, e, env):
        d = {}
        for k, v in self._comp(e, env, lambda en: (force(self.eval(e.key, en)), self.eval(e.value, en))):
            self.setitem(d, k, v)
        return d

    def ex_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        self._yield_target(env).append(v)
        return None

    def ex_YieldFrom(self, e, env):
        self._yield_target(env).extend(self.iterate(self.eval(e.value, env)))
        return None

    def _yield_target(self, env):
        x = env
        while x is not None:
            if '#yields' in x.vars:
                return x.vars['#yields']
            x = x.parent
        raise Unsupported('yield')

    def iterate(self, v):
        v = force(v)
        if isinstance(v, Unk):
            return iter(v)
        if type(v) in (set, frozenset) and len(v) > 1:
            v = self.in_any_order(v)
        try:
            it = iter(v)
        except ENGINE:
            raise
        except Exception as e:
            raise PyRaise(e)
        return self._guard_iter(it)

    def in_any_order(self, v):
        """Sets have no order: both the one and the opposite order are possible."""
        try:
            items = sorted(v)
        except Exception:
            try:
                items = sorted(v, key=lambda x: (type(x).__name__, getattr(x, '__name__', ''), repr(x)))
            except Exception:
                return v
        c = core.CTX
        if c is not None and c.set_orders and not all(isinstance(x, (int, bool)) for x in items):
            if c.oracle.pick('set-order', (0, 1), 'order of sets is reversed'):
                items.reverse()
        return items

    def _guard_iter(self, it):
        while True:
            try:
                v = next(it)
            except StopIteration:
                return
            except ENGINE:
                raise
            except Exception as e:
                raise PyRaise(e)
            yield v

    # ------------------------------------------------------------------ calls

    def ex_Call(self, e, env):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            x = env
            while x is not None and (x.func is None or x.locals_ is None):
                x = x.parent
            f = x.func
            while f is not None and f.defcls is None and f.env.func is not None:
                f = f.env.func
            self_name = x.func.__code__.co_varnames[0]
            return super(f.defcls, x.vars[self_name])
        if isinstance(e.func, ast.Attribute):
            obj = force(self.eval(e.func.value, env))
            args, kwargs = self.args(e, env)
            return self.call_method(obj, e.func.attr, args, kwargs, e)
        f = self.eval(e.func, env)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals') and f in (
                locals, globals):
            return dict(env.vars) if f is locals else env.module.ns
        args, kwargs = self.args(e, env)
        return self.call(f, args, kwargs)

    def args(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                v = force(v)
                if isinstance(v, Unk):
                    continue
                for kk, vv in self.native(dict, v).items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        return tuple(args), kwargs

    def call(self, f, args, kwargs):
        f = force(f)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, types.MethodType):
            if isinstance(f.__func__, Func):
                return self.call_func(f.__func__, (f.__self__,) + tuple(args), kwargs)
        try:
            intr = self.intrinsics.get(f)
        except TypeError:
            intr = None
        if intr is not None:
            try:
                return intr(self, *args, **kwargs)
            except ENGINE:
                raise
            except Exception as e:
                raise PyRaise(e)
        if isinstance(f, types.BuiltinMethodType) and isinstance(
                getattr(f, '__self__', None), (str, dict, list)) and not isinstance(f.__self__, types.ModuleType):
            return self.call_method(f.__self__, f.__name__, tuple(args), kwargs, None)
        if args and isinstance(f, (type, types.BuiltinFunctionType)) and f in ORDER_SENSITIVE and any(type(a) in (set, frozenset) for a in args):
            args = tuple(self.in_any_order(a) if type(a) in (set, frozenset) and len(a) > 1 else a for a in args)
        return self.native(f, *args, **kwargs)

    def native(self, f, /, *args, **kwargs):
        try:
            return f(*args, **kwargs)
        except ENGINE:
            raise
        except Exception as e:
            raise PyRaise(e)

    def call_method(self, obj, name, args, kwargs, node):
        if isinstance(obj, str):
            m = getattr(self, 'str_' + name, None)
            if m is not None:
                args = tuple(force(a) for a in args)
                try:
                    return m(obj, *args, **kwargs)
                except ENGINE:
                    raise
                except Exception as e:
                    raise PyRaise(e)
            if name in ('format',):
                args = tuple(force(a) for a in args)
                kwargs = {k: force(v) for k, v in kwargs.items()}
        elif isinstance(obj, dict) and name in ('get', 'setdefault', 'pop'):
            if not args:
                raise PyRaise(TypeError(f'{name} expected at least 1 argument'))
            k = force(args[0])
            f = self.find_key(obj, k)
            if f is not None:
                k = f[0]
            return self.native(getattr(obj, name), k, *args[1:], **kwargs)
        elif isinstance(obj, list) and name in ('index', 'remove', 'count'):
            x = args[0]
            hits = [i for i, y in enumerate(obj) if truth(self.eq(y, x))]
            if name == 'count':
                return len(hits)
            if not hits:
                raise PyRaise(ValueError('not in list'))
            if name == 'index':
                return hits[0]
            del obj[hits[0]]
            return None
        elif isinstance(obj, set) and name in ('add', 'discard', 'remove'):
            args = tuple(force(a) for a in args)
        f = self.getattr(obj, name)
        return self.call(f, args, kwargs) if not isinstance(obj, (str, list, dict)) \
            else self.native(f, *args, **kwargs)

    # content-sensitive operations on templates

    def str_startswith(self, s, prefix, *rest):
        if rest:
            return s.startswith(prefix, *rest)
        ps = prefix if isinstance(prefix, tuple) else (prefix,)
        return any(may_start(s, p) for p in ps)

    def str_endswith(self, s, suffix, *rest):
        if rest:
            return s.endswith(suffix, *rest)
        ps = suffix if isinstance(suffix, tuple) else (suffix,)
        return any(may_end(s, p) for p in ps)

    def _find(self, s, sub, rest, native, missing):
        r = native(sub, *rest)
        if r >= 0 or rest:
            return r
        if may_contain(s, sub):
            for i, c in enumerate(s):
                if core.CTX.oracle.memo.get(('contains', c, sub)):
                    return i
            return 0
        return missing

    def str_find(self, s, sub, *rest):
        return self._find(s, sub, rest, s.find, -1)

    def str_rfind(self, s, sub, *rest):
        return self._find(s, sub, rest, s.rfind, -1)

    def str_index(self, s, sub, *rest):
        r = self._find(s, sub, rest, s.find, -1)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def str_count(self, s, sub, *rest):
        r = s.count(sub, *rest)
        if r == 0 and may_contain(s, sub):
            return 1
        return r

    def str_join(self, s, it):
        parts = [force(x) for x in self.iterate(it)]
        parts = [str(p) if isinstance(p, Unk) else p for p in parts]
        return s.join(parts)

    def _case(self, s, name):
        for c in canon(s):
            if c in core.CTX.holes:
                return core.CTX.oracle.pick((name, c), [False, True], f'{core.CTX.decode(c)}.{name}()')
        return getattr(canon(s), name)()

    def str_isupper(self, s): return self._case(s, 'isupper')
    def str_islower(self, s): return self._case(s, 'islower')
    def str_isdecimal(self, s): return self._num(s, 'isdecimal')
    def str_isdigit(self, s): return self._num(s, 'isdigit')
    def str_isnumeric(self, s): return self._num(s, 'isnumeric')

    def _num(self, s, name):
        for c in s:
            h = core.CTX.holes.get(c)
            if h is not None and h.kind == 'num':
                return core.CTX.oracle.pick((name, c), [True, False])
        return getattr(s, name)()

    def call_func(self, f, args, kwargs):
        self.depth += 1
        c = core.CTX
        if self.depth > MAX_DEPTH:
            self.depth -= 1
            raise Unsupported('call depth')
        if c is not None:
            c.visited.add(f.__qualname__)
            c.calls.append(f.__qualname__)
        try:
            env = Env(f.env, f.env.module, func=f)
            env.locals_ = f.locals_
            self.bind(f, args, kwargs, env)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.is_gen:
                env.vars['#yields'] = []
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                if not f.is_gen:
                    return r.v
            if f.is_gen:
                return iter(env.vars['#yields'])
            return None
        finally:
            self.depth -= 1
            if c is not None:
                c.calls.pop()

    def bind(self, f, args, kwargs, env):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        v = env.vars
        npos = min(len(pos), len(args))
        for n, x in zip(pos, args):
            v[n] = x
        extra = args[npos:]
        if a.vararg:
            v[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyRaise(TypeError(f'{f.__name__}() takes {len(pos)} positional arguments but '
                                    f'{len(args)} were given'))
        posonly = {x.arg for x in a.posonlyargs}
        for n in pos[npos:] + [x.arg for x in a.kwonlyargs]:
            if n in kwargs and n not in posonly:
                v[n] = kwargs.pop(n)
        for n in pos[:npos]:
            if n in kwargs and n not in posonly:
                raise PyRaise(TypeError(f"{f.__name__}() got multiple values for argument '{n}'"))
        d = f.__defaults__ or ()
        for n, x in zip(pos[len(pos) - len(d):], d):
            if n not in v:
                v[n] = x
        for n, x in (f.__kwdefaults__ or {}).items():
            if n not in v:
                v[n] = x
        missing = [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in v]
        if missing:
            raise PyRaise(TypeError(f'{f.__name__}() missing arguments: {missing}'))
        if a.kwarg:
            v[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise(TypeError(f'{f.__name__}() got unexpected keyword arguments {list(kwargs)}'))
