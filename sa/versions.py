"""versions.py - generated modules and the runtime library on all Python versions (C35).

The import of a module is evaluated on its syntax tree for one version of Python at a
time: version guards are decided, imports succeed or fail according to what the version
offers, failures are routed to the except-clauses.  What remains: names that are not
bound and constructs the version does not have."""

import ast
import builtins
import functools
import glob
import importlib
import os
import sys

from . import core, engine, families as FF, pipeline, stubs
from .cli import VERSIONS as COMPATIBILITY

ALL_VERSIONS = [(3, m) for m in range(7, 14)]
NEVER = (99, 0)

SINCE = {
    'typing': {**dict.fromkeys('Literal TypedDict Final Protocol final runtime_checkable get_origin get_args SupportsIndex '
                               '_TypedDictMeta'.split(), (3, 8)),
               **dict.fromkeys('Annotated BinaryIO_ _AnnotatedAlias'.split(), (3, 9)),
               **dict.fromkeys('ParamSpec Concatenate TypeAlias TypeGuard is_typeddict ParamSpecArgs ParamSpecKwargs'.split(),
                               (3, 10)),
               **dict.fromkeys('NotRequired Required Self Never LiteralString Unpack TypeVarTuple assert_never assert_type '
                               'reveal_type dataclass_transform get_overloads clear_overloads Any_'.split(), (3, 11)),
               **dict.fromkeys('override TypeAliasType'.split(), (3, 12)),
               **dict.fromkeys('ReadOnly TypeIs NoDefault get_protocol_members is_protocol'.split(), (3, 13))},
    'functools': {**dict.fromkeys('singledispatchmethod cached_property'.split(), (3, 8)), 'cache': (3, 9)},
    'types': {**dict.fromkeys('UnionType NoneType EllipsisType NotImplementedType'.split(), (3, 10)), 'GenericAlias': (3, 9),
              'get_original_bases': (3, 12)},
    'enum': dict.fromkeys('StrEnum EnumType EnumCheck verify property member nonmember ReprEnum FlagBoundary KEEP STRICT '
                          'CONFORM EJECT global_enum show_flag_values'.split(), (3, 11)),
    'inspect': {'get_annotations': (3, 10)},
    'sys': {'orig_argv': (3, 10), 'stdlib_module_names': (3, 10), 'exception': (3, 11)},
    'collections.abc': {'Buffer': (3, 12)},
    'itertools': {'pairwise': (3, 10), 'batched': (3, 12)},
    'ast': {'unparse': (3, 9)},
    'builtins': {**dict.fromkeys('aiter anext EncodingWarning'.split(), (3, 10)),
                 **dict.fromkeys('ExceptionGroup BaseExceptionGroup'.split(), (3, 11)), 'PythonFinalizationError': (3, 13)},
}
REMOVED = {'typing': {'GenericMeta': (3, 7), '_ForwardRef': (3, 7), 'io': (3, 13), 're': (3, 13)}}
MODULES_SINCE = {'graphlib': (3, 9), 'zoneinfo': (3, 9), 'tomllib': (3, 11), 'annotationlib': (3, 14), 'importlib.metadata': (3, 8),
                 'importlib.resources': (3, 7), 'contextvars': (3, 7), 'dataclasses': (3, 7)}
METHODS_SINCE = {'removeprefix': (3, 9), 'removesuffix': (3, 9), 'bit_count': (3, 10), 'is_integer_': (3, 12)}
ARITY = {'Coroutine': 3, 'Generator': 3, 'AsyncGenerator': 2, 'Dict': 2, 'Mapping': 2, 'DefaultDict': 2, 'OrderedDict': 2,
         **dict.fromkeys('List Set FrozenSet Iterable Iterator Sequence Awaitable AsyncIterable AsyncIterator Type Optional ClassVar '
                         'Required NotRequired Final Collection Deque Counter'.split(), 1)}
STDLIB = set(sys.stdlib_module_names)


def stdlib_has(module, name, version):
    if REMOVED.get(module, {}).get(name, NEVER) <= version:
        return False
    if name in SINCE.get(module, {}):
        return SINCE[module][name] <= version
    try:
        return hasattr(importlib.import_module(module), name)
    except ImportError:
        return False


class Failure(Exception):
    """What would be raised on import."""
    def __init__(self, kind, msg, line):
        self.kind, self.msg, self.line = kind, msg, line


HANDLES = {'ImportError': {'ImportError', 'ModuleNotFoundError'}, 'ModuleNotFoundError': {'ModuleNotFoundError'},
           'NameError': {'NameError'}, 'AttributeError': {'AttributeError'}, 'TypeError': {'TypeError'},
           'Exception': {'ImportError', 'ModuleNotFoundError', 'NameError', 'AttributeError', 'TypeError'},
           'BaseException': {'ImportError', 'ModuleNotFoundError', 'NameError', 'AttributeError', 'TypeError'}}


class World:
    """The modules one version of Python finds."""
    def __init__(self, version, extensions=True, library=True):
        self.version, self.extensions, self.library = version, extensions, library
        self.modules = {}
        site = glob.glob(os.path.join(os.path.dirname(os.path.dirname(pipeline.DH_PYTHON)), 'lib', 'python3*', 'site-packages'))
        self.roots = [stubs.REPO] + site

    def __str__(self):
        return f'Python {self.version[0]}.{self.version[1]}' + ('' if self.extensions else ', without typing_extensions') + \
            ('' if self.library else ', without ts2python')

    def load(self, name):
        """-> Module | 'stdlib' | None"""
        if name in self.modules:
            return self.modules[name]
        top = name.split('.')[0]
        r = None
        if top in STDLIB:
            r = 'stdlib'
            if MODULES_SINCE.get(name, (3, 0)) > self.version:
                r = None
            else:
                try:
                    importlib.import_module(name)
                except ImportError:
                    r = None
        elif top == 'typing_extensions' and not self.extensions or top == 'ts2python' and not self.library:
            r = None
        elif top == 'typing_extensions':
            r = 'extensions'
        else:
            for root in self.roots:
                p = os.path.join(root, *name.split('.'))
                for f in (p + '.py', os.path.join(p, '__init__.py')):
                    if os.path.isfile(f) and r is None:
                        self.modules[name] = m = Module(self, name, f)
                        m.run()
                        r = m
        self.modules[name] = r
        return r

    def has(self, mod, modname, name):
        if mod == 'stdlib':
            return stdlib_has(modname, name, self.version) or self.load(f'{modname}.{name}') is not None
        if mod == 'extensions':
            return name != 'GenericMeta' and (hasattr(importlib.import_module('typing'), name) or
                                              name in SINCE['typing']) and not name.startswith('_')
        if mod is None:
            return False
        if mod.trusted:
            return name in mod.names or mod.star
        return name in mod.names or self.load(f'{modname}.{name}') is not None


def version_test(e, version, consts):
    """Decides a guard; None if it does not depend on the version."""
    if isinstance(e, ast.BoolOp):
        vs = [version_test(v, version, consts) for v in e.values]
        if isinstance(e.op, ast.And):
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = version_test(e.operand, version, consts)
        return None if v is None else not v
    if isinstance(e, ast.Name):
        return consts.get(e.id)
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.Call) and getattr(e.func, 'id', '') == 'hasattr' and len(e.args) == 2 and \
            isinstance(e.args[1], ast.Constant) and isinstance(e.args[0], ast.Name) and e.args[0].id in ('sys', 'typing', 'functools'):
        return stdlib_has(e.args[0].id, e.args[1].value, version)
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        left, right = value(e.left, version), value(e.comparators[0], version)
        if left is None or right is None or 'version' not in ast.unparse(e):
            return None
        op = type(e.ops[0])
        f = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
             ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}.get(op)
        try:
            return None if f is None else f(left, right)
        except TypeError:
            return None
    return None


def value(e, version):
    full = version + (9, 'final', 0)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'sys' and e.attr == 'version_info':
        return full
    if isinstance(e, ast.Attribute) and e.attr in ('major', 'minor', 'micro') and value(e.value, version) == full:
        return full[('major', 'minor', 'micro').index(e.attr)]
    if isinstance(e, ast.Subscript) and value(e.value, version) == full:
        try:
            if isinstance(e.slice, ast.Slice):
                lo = ast.literal_eval(e.slice.lower) if e.slice.lower else None
                hi = ast.literal_eval(e.slice.upper) if e.slice.upper else None
                return full[lo:hi]
            return full[ast.literal_eval(e.slice)]
        except (ValueError, IndexError):
            return None
    try:
        v = ast.literal_eval(e)
        return v if isinstance(v, (int, tuple)) else None
    except (ValueError, SyntaxError):
        return None


class Module:
    def __init__(self, world, name, path=None, tree=None, source=None, lenient=None):
        self.world, self.name, self.path = world, name, path
        self.trusted = bool(path) and not path.startswith(stubs.REPO + os.sep) or (path or '').endswith('typing_extensions.py')
        if tree is None:
            if source is None:
                with open(path, encoding='utf-8') as f:
                    source = f.read()
            tree = ast.parse(source)
        self.source = source
        self.tree = tree
        self.names = {'__name__': None, '__file__': None, '__doc__': None, '__package__': None, '__spec__': None}
        self.consts = {}
        self.findings = []
        self.functions = []
        self.lenient = lenient         # names that may be unbound, because the document leaves them undefined
        self.star = False
        self.future = any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and
                          any(a.name == 'annotations' for a in s.names) for s in tree.body)
        self.obligations = 0

    # -- evaluation of the import -------------------------------------------
    def run(self):
        if not self.trusted and self.source is not None:
            try:
                ast.parse(self.source, feature_version=self.world.version)
            except SyntaxError as e:
                self.find(getattr(e, 'lineno', 0), f'syntax error: {e.msg}')
        try:
            self.block(self.tree.body, self.names)
        except Failure as e:
            self.find(e.line, f'{e.kind}: {e.msg}')
        if not self.trusted:
            for fn, outer in self.functions:
                self.function(fn, outer)
        return self

    def find(self, line, msg):
        if self.trusted:
            return
        f = (line, msg)
        if f not in self.findings:
            self.findings.append(f)

    def block(self, stmts, ns):
        for s in stmts:
            getattr(self, 's_' + type(s).__name__, self.s_other)(s, ns)

    def s_other(self, s, ns):
        for v in ast.iter_child_nodes(s):
            if isinstance(v, ast.expr):
                self.expr(v, ns)
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(s, f, None), list):
                self.block(getattr(s, f), ns)

    def s_Match(self, s, ns):
        self.need(s, (3, 10), 'match statement')
        self.expr(s.subject, ns)
        for c in s.cases:
            self.block(c.body, ns)

    def s_TypeAlias(self, s, ns):
        self.need(s, (3, 12), 'type statement')
        self.bind(s.name, ns, None)

    def s_Global(self, s, ns):
        pass

    def s_Import(self, s, ns):
        for a in s.names:
            if self.world.load(a.name) is None:
                raise Failure('ModuleNotFoundError', f'no module named {a.name}', s.lineno)
            self.obligations += 1
            ns[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, ns):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            parts = self.name.split('.')
            if not (self.path or '').endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - s.level + 1]
            name = '.'.join(parts + ([s.module] if s.module else []))
        if not name:
            raise Failure('ImportError', 'attempted relative import with no known parent package', s.lineno)
        mod = self.world.load(name)
        if mod is None:
            raise Failure('ModuleNotFoundError', f'no module named {name}', s.lineno)
        for a in s.names:
            self.obligations += 1
            if a.name == '*':
                self.star = True
                if isinstance(mod, Module):
                    ns.update(mod.names)
                continue
            if not self.world.has(mod, name, a.name):
                raise Failure('ImportError', f'cannot import name {a.name} from {name}', s.lineno)
            ns[a.asname or a.name] = ('name', name, a.name)

    def s_Try(self, s, ns):
        try:
            self.block(s.body, ns)
        except Failure as e:
            for h in s.handlers:
                types = [ast.unparse(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type else \
                    ['BaseException']
                if any(e.kind in HANDLES.get(t, ()) for t in types):
                    if h.name:
                        ns[h.name] = None
                    self.block(h.body, ns)
                    break
            else:
                self.block(s.finalbody, ns)
                raise
        else:
            self.block(s.orelse, ns)
        self.block(s.finalbody, ns)

    def s_TryStar(self, s, ns):
        self.need(s, (3, 11), 'except*')
        self.s_Try(s, ns)

    def s_If(self, s, ns):
        t = self.guard(s.test)
        if t is None:
            self.expr(s.test, ns)
        if t is not False:
            self.block(s.body, ns)
        if t is not True:
            self.block(s.orelse, ns)

    def s_Assign(self, s, ns):
        self.expr(s.value, ns)
        t = self.guard(s.value)
        origin = ns.get(s.value.id, self.names.get(s.value.id)) if isinstance(s.value, ast.Name) else None
        for target in s.targets:
            if isinstance(target, ast.Name) and t is not None:
                self.consts[target.id] = t
            self.bind(target, ns, origin)

    def s_AnnAssign(self, s, ns):
        if not self.future:
            self.expr(s.annotation, ns)
        if s.value is not None:
            self.expr(s.value, ns)
            self.bind(s.target, ns, None)

    def s_AugAssign(self, s, ns):
        self.expr(s.value, ns)

    def s_For(self, s, ns):
        self.expr(s.iter, ns)
        self.bind(s.target, ns, None)
        self.block(s.body + s.orelse, ns)

    def s_With(self, s, ns):
        for i in s.items:
            self.expr(i.context_expr, ns)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, ns, None)
        self.block(s.body, ns)

    def s_FunctionDef(self, s, ns):
        for d in s.decorator_list:
            self.expr(d, ns)
        self.arguments(s.args, ns)
        if s.returns is not None and not self.future:
            self.expr(s.returns, ns)
        if getattr(s, 'type_params', None):
            self.need(s, (3, 12), 'type parameters in brackets')
        ns[s.name] = ('function', s)
        self.functions.append((s, ()))

    s_AsyncFunctionDef = s_FunctionDef

    def arguments(self, a, ns):
        if a.posonlyargs:
            self.need(a.posonlyargs[0], (3, 8), 'positional-only parameters')
        for d in a.defaults + [d for d in a.kw_defaults if d is not None]:
            self.expr(d, ns)
        if not self.future:
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                if x.annotation is not None:
                    self.expr(x.annotation, ns)

    def s_ClassDef(self, s, ns):
        for e in s.decorator_list + s.bases + [k.value for k in s.keywords]:
            self.expr(e, ns)
        if getattr(s, 'type_params', None):
            self.need(s, (3, 12), 'type parameters in brackets')
        inner = ClassNames(ns)
        self.block(s.body, inner)
        ns[s.name] = ('class', s)

    def bind(self, t, ns, origin):
        if isinstance(t, ast.Name):
            ns[t.id] = origin
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, ns, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, ns, None)

    # -- expressions that are evaluated --------------------------------------
    def guard(self, e):
        return version_test(e, self.world.version, self.consts)

    def need(self, n, version, what):
        self.obligations += 1
        if self.world.version < version:
            self.find(n.lineno, f'{what} (available since Python {version[0]}.{version[1]})')

    def origin(self, e, ns):
        if isinstance(e, ast.Name):
            o = ns.get(e.id, 0)
            if o == 0:
                o = self.names.get(e.id, 0)
            if o == 0 and hasattr(builtins, e.id):
                return ('name', 'builtins', e.id)
            return o if isinstance(o, tuple) else None
        if isinstance(e, ast.Attribute):
            o = self.origin(e.value, ns)
            if o and o[0] == 'module':
                return ('name', o[1], e.attr)
        return None

    def expr(self, e, ns, bound=()):
        """Walks an expression in the order of evaluation."""
        v = self.world.version
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.expr(x, ns, bound)
                t = self.guard(x)
                if t is (not isinstance(e.op, ast.And)):
                    break
            return
        if isinstance(e, ast.IfExp):
            t = self.guard(e.test)
            self.expr(e.test, ns, bound)
            if t is not False:
                self.expr(e.body, ns, bound)
            if t is not True:
                self.expr(e.orelse, ns, bound)
            return
        if isinstance(e, ast.Lambda):
            self.arguments(e.args, ns)
            self.functions.append((e, tuple(bound) + tuple(k for k in ns if ns is not self.names)))
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = set(bound)
            for g in e.generators:
                self.expr(g.iter, ns, names)
                names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    self.expr(c, ns, names)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, ns, names)
            return
        if isinstance(e, ast.Name):
            self.obligations += 1
            if not isinstance(e.ctx, ast.Load) or e.id in bound or e.id in ns or e.id in self.names:
                return
            if hasattr(builtins, e.id) or e.id in SINCE['builtins']:
                if stdlib_has('builtins', e.id, v):
                    return
            elif self.star:
                return
            if self.lenient is not None and e.id not in self.lenient:
                return
            raise Failure('NameError', f'name {e.id} is not defined', e.lineno)
        if isinstance(e, ast.Attribute):
            self.expr(e.value, ns, bound)
            o = self.origin(e.value, ns)
            if o and o[0] == 'module':
                self.obligations += 1
                mod = self.world.load(o[1])
                if not self.world.has(mod, o[1], e.attr):
                    raise Failure('AttributeError', f'module {o[1]} has no attribute {e.attr}', e.lineno)
            elif e.attr in METHODS_SINCE:
                self.need(e, METHODS_SINCE[e.attr], f'method {e.attr}')
            return
        if isinstance(e, ast.NamedExpr):
            self.need(e, (3, 8), 'assignment expression')
            self.expr(e.value, ns, bound)
            self.bind(e.target, ns, None)
            return
        if isinstance(e, ast.Subscript):
            o = self.origin(e.value, ns)
            if o and o[0] == 'name' and (o[1] == 'builtins' and isinstance(getattr(builtins, o[2], None), type) or
                                         o[1] == 'collections.abc' or o[1] == 'collections' and o[2][0].islower()):
                self.need(e, (3, 9), f'{o[2]}[...]')
            sl = e.slice
            if o and o[0] == 'name' and o[1] == 'typing' and o[2] in ARITY:
                self.obligations += 1
                n = len(sl.elts) if isinstance(sl, ast.Tuple) else 1
                if n != ARITY[o[2]] and not (v >= (3, 13) and o[2] in ('Generator', 'AsyncGenerator', 'ContextManager')):
                    self.find(e.lineno, f'TypeError: typing.{o[2]} takes {ARITY[o[2]]} type parameters, not {n}')
            if isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Starred) for x in sl.elts) or isinstance(sl, ast.Starred):
                self.need(e, (3, 11), 'unpacking in brackets')
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr) and \
                any(self.typelike(x, ns) for x in (e.left, e.right)):
            self.need(e, (3, 10), f'union "{ast.unparse(e)[:60]}"')
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            self.obligations += 1
            if any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (e.left, e.right)):
                o = [self.origin(x.value if isinstance(x, ast.Subscript) else x, ns) for x in (e.left, e.right)]
                if not any(x and x[0] == 'name' and x[1].startswith('typing') for x in o):
                    self.find(e.lineno, f'TypeError: unsupported operands "{ast.unparse(e)[:60]}"')
        if isinstance(e, ast.Call):
            self.call(e)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(x, ns, bound)
            elif isinstance(x, ast.keyword):
                self.expr(x.value, ns, bound)
            elif isinstance(x, ast.Slice):
                for y in ast.iter_child_nodes(x):
                    self.expr(y, ns, bound)

    def typelike(self, e, ns):
        if isinstance(e, ast.Constant):
            return e.value is None
        if isinstance(e, ast.Subscript):
            return self.typelike(e.value, ns)
        o = self.origin(e, ns)
        return bool(o) and (o[0] == 'class' or o[0] == 'name' and (o[1] == 'typing' or o[1] == 'builtins' and isinstance(
            getattr(builtins, o[2], None), type)))

    def call(self, e):
        """Library functions whose signature depends on the version."""
        v = self.world.version
        if isinstance(e.func, ast.Attribute) and e.func.attr == '_evaluate':
            kw = {k.arg for k in e.keywords}
            self.obligations += 1
            if v < (3, 9):
                ok = len(e.args) == 2 and not kw
            elif v < (3, 13):
                ok = len(e.args) == 3 and not kw or len(e.args) == 2 and kw == {'recursive_guard'}
            else:
                ok = len(e.args) in (2, 3) and 'recursive_guard' in kw
            if not ok and None not in kw:
                self.find(e.lineno, f'ForwardRef._evaluate() does not take these arguments: {ast.unparse(e)[:80]}')
        if isinstance(e.func, ast.Name) and e.func.id == 'get_type_hints' and any(k.arg == 'include_extras' for k in e.keywords):
            self.need(e, (3, 9), 'get_type_hints(include_extras)')

    # -- bodies of functions ------------------------------------------------------
    def function(self, fn, outer):
        a = fn.args
        names = set(outer) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        body = [ast.Expr(fn.body)] if isinstance(fn, ast.Lambda) else fn.body
        names |= self.locals(body)
        ns = ClassNames(self.names)
        for n in names:
            ns[n] = None
        ns['__class__'] = None
        self.body(body, ns)

    def locals(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    out.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
        return out

    def body(self, stmts, ns):
        """Statements of a function: every one may be reached, unless a version guard excludes it."""
        for s in stmts:
            try:
                if isinstance(s, ast.If):
                    t = self.guard(s.test)
                    if t is None:
                        self.expr(s.test, ns)
                    if t is not False:
                        self.body(s.body, ns)
                        if t is True and any(isinstance(x, (ast.Return, ast.Raise)) for x in s.body):
                            return
                    if t is not True:
                        self.body(s.orelse, ns)
                        if t is False and any(isinstance(x, (ast.Return, ast.Raise)) for x in s.orelse):
                            return
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    for f in ('iter', 'test'):
                        if getattr(s, f, None) is not None:
                            self.expr(getattr(s, f), ns)
                    for i in getattr(s, 'items', []):
                        self.expr(i.context_expr, ns)
                    self.body(s.body, ns)
                    self.body(getattr(s, 'orelse', []), ns)
                elif isinstance(s, ast.Try):
                    types = {ast.unparse(t) for h in s.handlers for t in
                             ((h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if h.type else
                              [ast.Name('BaseException')])}
                    kinds = set().union(*(HANDLES.get(t, set()) for t in types)) if types else set()
                    n = len(self.findings)
                    self.body(s.body, ns)
                    self.findings[n:] = [f for f in self.findings[n:] if f[1].split(':')[0] not in kinds]
                    for h in s.handlers:
                        self.body(h.body, ns)
                    self.body(s.orelse + s.finalbody, ns)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for d in s.decorator_list:
                        self.expr(d, ns)
                    self.arguments(s.args, ns)
                    self.function(s, tuple(ns.own()))
                elif isinstance(s, ast.ClassDef):
                    pass
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    getattr(self, 's_' + type(s).__name__)(s, ns)
                else:
                    for x in ast.iter_child_nodes(s):
                        if isinstance(x, ast.expr):
                            self.expr(x, ns)
            except Failure as e:
                self.find(e.line, f'{e.kind}: {e.msg}')


class ClassNames(dict):
    """Names of an inner scope."""
    def __init__(self, outer):
        super().__init__()
        self.outer = outer

    def own(self):
        return list(self.keys()) + (self.outer.own() if isinstance(self.outer, ClassNames) else [])

    def __contains__(self, k):
        return dict.__contains__(self, k) or isinstance(self.outer, ClassNames) and k in self.outer


# ------------------------------------------------------------------ the cases

LIBRARY = ('ts2python', 'ts2python.typeddict_shim', 'ts2python.json_validation', 'ts2python.singledispatch_shim')


LIBRARY_TYPES = ('Thenable', 'ReadonlyArray', 'Error', 'RegExp', 'Uint32Array')


class Case:
    style = ''

    def __init__(self, label, **kw):
        self.label = label
        self.__dict__.update(kw)


@functools.lru_cache(maxsize=None)
def world(version, extensions, library):
    return World(version, extensions, library)


def job(case):
    res = {'label': case.label, 'cfg': '', 'findings': [], 'undecided': [], 'paths': 0, 'functions': set(), 'source': ''}
    if case.module:
        for ext in (True, False):
            w = World(case.version, ext)
            m = w.load(case.module)
            res['paths'] += 1
            res['source'] = case.module
            if m is None:
                res['findings'].append(('missing', case.module, 'module not found'))
                continue
            res['functions'] |= {f'{case.module}.{getattr(f, "name", "<lambda>")}' for f, _ in m.functions}
            for line, msg in m.findings:
                res['findings'].append(('version', f'{os.path.relpath(m.path, stubs.REPO)} line {line}', f'{w}: {msg}'))
        return res
    r = generated(case.doc, case.cfg)
    if isinstance(r, str):
        res['undecided'].append(r)
        return res
    code, functions, decode = r
    res['functions'] = functions
    res['source'] = decode(pipeline.body_of(code)).strip()[:600]
    try:
        tree = ast.parse(code)
    except SyntaxError as e:
        res['undecided'].append(f'syntax error: {e}')      # C15
        return res
    seen = set()
    for library in (True, False):
        for v in case.versions:
            if not library and v < (3, 8):
                continue
            for ext in (True, False):
                w = world(v, ext, library)
                m = Module(w, '__generated__', tree=tree, source=code, lenient=())
                # the unknown names of the document may be declared elsewhere
                m.lenient = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id.isascii()}
                m.functions = []
                try:
                    m.run()
                finally:
                    res['paths'] += 1
                for line, msg in m.findings:
                    text = code.split('\n')[line - 1].strip() if line else ''
                    f = ('version', 'generated code', decode(f'{w}: {msg}, in: {text[:90]}'))
                    if (msg, line) not in seen and len(seen) < 12:
                        seen.add((msg, line))
                        res['findings'].append(f)
    return res


def generated(doc, cfg):
    from .tsast import Printer
    site = pipeline.site()

    def run(c):
        site.restore()
        c.config.update(pipeline.full_config(cfg))
        return site.run(site.compiler(), site.tree(doc.ts(Printer(c))))
    try:
        for c, kind, v in core.explore(run, 4):
            if kind == 'done' or kind not in ('undecided', 'raise'):
                if isinstance(v, str):
                    return v, c.visited, c.decode
            return f'{kind}: {str(v)[:100]}'
    except Exception as e:
        return f'{type(e).__name__}: {str(e)[:100]}'
    return 'no path'


def version_cases(tier):
    for v in ALL_VERSIONS:
        for m in LIBRARY:
            yield Case(f'{m} on Python {v[0]}.{v[1]}', module=m, version=v)
    docs = list(FF.declaration_docs()) + list(FF.order_docs())
    types = FF.light_types() if tier == 'quick' else FF.all_types()
    if tier == 'quick':
        types = dict(types, **{k: t for k, t in FF.all_types().items() if k in LIBRARY_TYPES})
    for k, t in types.items():
        docs += list(FF.in_positions(k, t, ('field', 'optfield', 'param', 'alias', 'optparam') if tier == 'quick' else None))
    if tier == 'thorough':
        docs += list(FF.header_docs()) + list(FF.member_docs()) + list(FF.function_docs()) + list(FF.value_docs())
    for label in ('3.7', '3.8', '3.10', '3.11', '3.13'):
        base = tuple(int(x) for x in label.split('.'))
        versions = [v for v in ALL_VERSIONS if v >= base]
        if tier == 'quick':
            versions = versions[:2] + versions[-1:]
        for extra in ({}, {'RenderAnonymous': 'toplevel'}, {'RenderAnonymous': 'functional'}):
            if extra and tier == 'quick' and label not in ('3.7', '3.11'):
                continue
            for d in docs:
                if extra and 'record' not in d.label:
                    continue
                yield Case(f'{d.label} with -c {label}' + (f' -a {extra["RenderAnonymous"]}' if extra else ''), module='', doc=d,
                           cfg={**COMPATIBILITY[label], **extra}, versions=versions)
