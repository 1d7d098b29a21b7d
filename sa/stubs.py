"""stubs.py - models of the libraries the repository uses."""

import ast
import collections
import collections.abc
import functools
import itertools
import keyword
import os
import os.path
import posixpath
import re
import string
import sys
import types
import typing

from . import core, grammar
from .core import Fin, Unk, PyRaise, Unsupported
from .interp import Interp, Module, Func, truth, force
from .nodes import ANode

REPO = os.environ.get('VERIF_REPO', '/repo')


class Stub:
    """A modelled library module: known names, everything else is Top."""
    def __init__(self, name, ns=None, strict=False):
        self.__dict__['_name'] = name
        self.__dict__['_ns'] = ns or {}
        self.__dict__['_strict'] = strict

    def __getattr__(self, name):
        ns = self.__dict__['_ns']
        if name in ns:
            return ns[name]
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if self.__dict__['_strict']:
            raise AttributeError(f'module {self._name!r} has no attribute {name!r}')
        ns[name] = Unk(f'{self._name}.{name}')
        return ns[name]

    def __setattr__(self, name, v):
        core.CTX and core.CTX.event('module-write', self._name, name)
        self._ns[name] = v


# ---------------------------------------------------------------- DHParser

class Compiler:
    """Model of DHParser.compile.Compiler"""

    def __init__(self):
        self.has_attribute_visitors = False
        self.forbid_returning_None = True
        self.reset()

    def reset(self):
        self.tree = None
        self.path = []
        self.finalizers = []
        self._dirty_flag = False
        self.method_dict = {}

    def prepare(self, root):
        pass

    def finalize(self, result):
        return result

    def visitor_name(self, node_name):
        if re.match(r'\w+$', node_name):
            return 'on_' + node_name
        return 'on_' + re.sub(r'\W', lambda m: hex(ord(m.group()))[2:], node_name)

    def wildcard(self, node):
        return self.fallback_compiler(node)

    def fallback_compiler(self, node):
        for child in node.children:
            r = self.compile(child)
            if r is not None and not isinstance(r, ANode):
                raise TypeError(f'Fallback compiler for Node "{node.name}" received a text')
        return node

    def find_compilation_method(self, name):
        return getattr(self, self.visitor_name(name), self.wildcard)

    def compile(self, node):
        c = core.CTX
        hook = getattr(c, 'compile_hook', None)
        node.compiled += 1
        if node.summary is not None:
            if len(node.summary) == 1:
                v = node.summary[0]
            else:
                v = c.oracle.pick(('summary', id(node), node.compiled), node.summary,
                                  f'rendering of {node.tag}')
            node.chosen = v
            c.event('compiled', node, v)
            if callable(v) and not isinstance(v, str):
                v = v(self, node)
            return v
        method = self.find_compilation_method(node.name)
        if getattr(method, '__func__', method) is Compiler.wildcard or \
                getattr(method, '__func__', None) is Compiler.fallback_compiler:
            c.event('no-handler', node)
        self.path.append(node)
        if hook:
            hook('enter', self, node, None)
        result = method(node)
        self.path.pop()
        if hook:
            hook('exit', self, node, result)
        if result is None:
            raise CompilerError(f'on_{node.name} returned None')
        c.event('compiled', node, result)
        return result

    def __call__(self, root):
        if self._dirty_flag:
            self.reset()
        self._dirty_flag = True
        self.tree = root
        self.prepare(self.tree)
        result = self.compile(self.tree)
        return self.finalize(result)


class CompilerError(Exception):
    pass


def as_list(x):
    if isinstance(x, Unk):
        return x
    if isinstance(x, collections.abc.Iterable) and not isinstance(x, (str, bytes, bytearray)):
        return list(x)
    return [x]


def pick_from_path(path, criteria, reverse=False):
    p = reversed(path) if reverse else path
    for nd in p:
        if nd.name == criteria:
            return nd
    return None


def get_config_value(key, default=None):
    c = core.CTX
    c.event('config-read', key)
    if key in c.config:
        v = c.config[key]
        return v
    return default


def set_config_value(key, value, allow_new_key=False):
    core.CTX.event('config-write', key, value, False)
    core.CTX.config[key] = value


def set_preset_value(key, value, allow_new_key=False):
    c = core.CTX
    c.event('preset', key, value, bool(allow_new_key))
    c.config[key] = value


def get_config_values(pattern, *a):
    c = core.CTX
    return {k: v for k, v in c.config.items() if k.startswith(pattern.rstrip('*'))}


def md5(*args):
    c = core.CTX
    key = ('md5',) + tuple(str(a) for a in args)
    if key not in c.oracle.memo:
        c.oracle.memo[key] = c.hole('hash', 'md5')
    h = c.oracle.memo[key]
    c.event('md5', h, args)
    return h


class ErrorCode(int):
    pass


def has_errors(errors, level=1000):
    c = core.CTX
    if isinstance(errors, AErrors):
        if int(errors.level) >= int(level):
            return True
        return False
    if isinstance(errors, Unk):
        return c.oracle.pick(('has_errors', id(errors), int(level)), [False, True])
    return any(getattr(e, 'code', 0) >= int(level) for e in errors)


class AErrors(list):
    """A list of diagnostics of known maximum level."""
    level = 0


class Error:
    node = None

    @property
    def severity(self):
        c = int(self.code)
        return 'none' if c <= 0 else 'notice' if c < 100 else 'warning' if c < 1000 else 'error' if c < 10000 else 'fatal'

    def __init__(self, message, pos=0, code=1000, *a, **k):
        self.message, self.pos, self.code = message, pos, code


class ThreadLocalSingletonFactory:
    def __init__(self, factory, name='', *a, **k):
        self.factory = factory

    def __call__(self):
        return self.factory()


class Junction(tuple):
    def __new__(cls, src, factory, dst):
        return tuple.__new__(cls, (src, factory, dst))
    src = property(lambda s: s[0])
    factory = property(lambda s: s[1])
    dst = property(lambda s: s[2])


def recorder(name):
    def f(*args, **kw):
        return Rec(name, args, kw)
    f.__name__ = name
    return f


class Rec:
    """A recorded application of a library combinator."""
    _rec = True

    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw

    def __call__(self, *args, **kw):
        return Rec(self.name + '()', (self,) + args, kw)

    def __repr__(self):
        return f'{self.name}{self.args}'


def StringView(s=''):
    return s


class _SV:
    pass


def dhparser_ns():
    ns = dict(grammar.COMBINATORS)
    ns.update(
        Compiler=Compiler, CompilerError=CompilerError, as_list=as_list, pick_from_path=pick_from_path,
        get_config_value=get_config_value, set_config_value=set_config_value,
        set_preset_value=set_preset_value, get_config_values=get_config_values,
        get_preset_value=get_config_value, md5=md5, ErrorCode=ErrorCode, Error=Error,
        has_errors=has_errors, NOTICE=1, WARNING=100, ERROR=1000, FATAL=10000,
        ThreadLocalSingletonFactory=ThreadLocalSingletonFactory, Junction=Junction,
        Node=ANode, RootNode=ANode, Path=list, StringView=_SV,
        NEVER_MATCH_PATTERN=r'..(?<=^)', RX_NEVER_MATCH=re.compile(r'..(?<=^)'),
        expand_table=lambda t: t,
        create_junction=lambda cls, src, dst, *a: Junction(src, cls, dst),
    )
    for n in ('change_name', 'remove_if', 'apply_if', 'add_error', 'move_fringes', 'has_child',
              'reduce_single_child', 'transformer', 'remove_children', 'apply_unless', 'replace_by_single_child'):
        ns[n] = recorder(n)
    return ns


# ---------------------------------------------------------------- builtins

def m_isinstance(interp, obj, cls):
    obj = force(obj)
    if isinstance(obj, Unk):
        return core.CTX.oracle.pick(('isinstance', id(obj), repr(cls)), [True, False],
                                    f'isinstance({obj.label}, {cls!r})')
    model = getattr(core.CTX, 'isinstance_model', None)
    if model is not None:
        r = model(obj, cls)
        if r is not NotImplemented:
            return r
    if isinstance(cls, tuple):
        return any(m_isinstance(interp, obj, c) for c in cls)
    if isinstance(cls, Unk):
        return core.CTX.oracle.pick(('isinstance', id(obj), cls.label), [True, False],
                                    f'isinstance({obj!r}, {cls.label})')
    if cls is _SV:
        return False
    return isinstance(obj, cls)


def m_issubclass(interp, a, b):
    model = getattr(core.CTX, 'issubclass_model', None)
    if model is not None:
        r = model(a, b)
        if r is not NotImplemented:
            return r
    return issubclass(a, b)


def m_bool(interp, x=False):
    return truth(x)


def m_str(interp, x=''):
    x = force(x)
    if isinstance(x, ANode):
        return x.content
    return str(x)


def m_repr(interp, x):
    x = force(x)
    return repr(x)      # hole letters are printable


def m_int(interp, x=0, *a):
    x = force(x)
    if isinstance(x, str) and core.has_hole(x):
        kinds = {core.CTX.holes[c].kind for c in x if c in core.CTX.holes}
        if kinds == {'num'} and core.CTX.oracle.pick(('int', x), [True, False], f'int({core.CTX.decode(x)})'):
            return 0
        raise ValueError('invalid literal for int()')
    return int(x, *a)


def m_len(interp, x):
    x = force(x)
    if isinstance(x, Unk):
        return core.CTX.oracle.pick(('len', id(x)), [0, 1, 2], f'len({x.label})')
    return len(x)


def m_print(interp, *args, **kw):
    core.CTX and core.CTX.event('print', args)


def m_type(interp, *a):
    if len(a) == 1:
        x = force(a[0])
        model = getattr(core.CTX, 'type_model', None)
        if model is not None:
            r = model(x)
            if r is not NotImplemented:
                return r
        return type(x)
    return type(*a)


def m_any(interp, it):
    for x in interp.iterate(it):
        if truth(x):
            return True
    return False


def m_all(interp, it):
    for x in interp.iterate(it):
        if not truth(x):
            return False
    return True


def m_filter(interp, f, it):
    return iter([x for x in interp.iterate(it)
                 if truth(interp.call(f, (x,), {}) if f is not None else x)])


def m_map(interp, f, *its):
    return (interp.call(f, args, {}) for args in zip(*[interp.iterate(i) for i in its]))


def m_set(interp, it=()):
    return set(force(x) for x in interp.iterate(it))


def m_frozenset(interp, it=()):
    return frozenset(force(x) for x in interp.iterate(it))


def m_list(interp, it=()):
    return list(interp.iterate(it))


def m_tuple(interp, it=()):
    return tuple(interp.iterate(it))


def m_next(interp, it, *d):
    return next(it, *d)


def m_getattr(interp, obj, name, *d):
    try:
        return interp.getattr(obj, name)
    except PyRaise as e:
        if d and isinstance(e.exc, AttributeError):
            return d[0]
        raise


def m_hasattr(interp, obj, name):
    obj = force(obj)
    if isinstance(obj, Unk):
        return core.CTX.oracle.pick(('hasattr', id(obj), name), [True, False])
    try:
        interp.getattr(obj, name)
        return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


def m_callable(interp, x):
    x = force(x)
    return callable(x)


def m_dict(interp, *a, **k):
    d = {}
    for x in a:
        x = force(x)
        if isinstance(x, dict) or hasattr(x, 'keys'):
            for kk in x.keys():
                interp.setitem(d, kk, x[kk])
        else:
            for kk, vv in interp.iterate(x):
                interp.setitem(d, kk, vv)
    d.update(k)
    return d


def m_iskeyword(interp, s):
    s = core.canon(s)
    if isinstance(s, str) and core.has_hole(s):
        hs = [core.CTX.holes[c] for c in s if c in core.CTX.holes]
        if len(s) == 1 and not hs[0].fresh and hs[0].kind == 'ident':
            return core.CTX.oracle.pick(('kw', s), [False, True], f'iskeyword({core.CTX.decode(s)})')
        return False
    return keyword.iskeyword(s)


def m_super(interp, *a):
    return super(*a)


def m_open(interp, name, mode='r', *a, **k):
    h = getattr(core.CTX, 'open_model', None)
    if h is None:
        core.CTX.event('open', name, mode, k.get('encoding', a[1] if len(a) > 1 else None))
        return AFile(name, mode)
    return h(name, mode, *a, **k)


class AFile:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        core.CTX.event('close', self.name)
        return False

    def read(self, *a):
        core.CTX.event('read', self.name)
        key = ('content', str(self.name))
        if key not in core.CTX.oracle.memo:
            core.CTX.oracle.memo[key] = core.CTX.hole('text', f'content of {core.CTX.decode(str(self.name))}',
                                                      fresh=False, contains=('*',))
        return core.CTX.oracle.memo[key]

    def readlines(self):
        return [self.read()]

    def write(self, data):
        core.CTX.event('write', self.name, data)
        return 1

    def writelines(self, seq):
        for x in seq:
            self.write(x)

    def close(self):
        core.CTX.event('close', self.name)

    def flush(self):
        pass


def _cache_key(x):
    x = force(x)
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return x
    if isinstance(x, tuple):
        return tuple(_cache_key(y) for y in x)
    if isinstance(x, (list, dict, set)):
        raise PyRaise(TypeError(f"unhashable type: '{type(x).__name__}'"))
    return ('id', id(x))


class Cached:
    """Model of a memoised function: results are remembered for the whole history."""
    _is_func = True

    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', 'cached')
        self.__wrapped__ = f
        CACHED.append(self)

    def __get__(self, obj, cls=None):
        return self if obj is None else functools.partial(self, obj)

    def __call__(self, /, *args, **kw):
        c = core.CTX
        store = c.__dict__.setdefault('caches', {}).setdefault(id(self), {})
        key = (tuple(_cache_key(a) for a in args), tuple(sorted((k, _cache_key(v)) for k, v in kw.items())))
        if key not in store:
            store[key] = (self.f(*args, **kw), args)      # keeps arguments alive: ids stay unique
        return store[key][0]

    def cache_clear(self):
        core.CTX.__dict__.setdefault('caches', {}).pop(id(self), None)

    def cache_info(self):
        return Unk('cache_info')


def lru_cache(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return Cached(a[0])
    return Cached


CACHED = []


def re_guard(fn):
    """re functions: force finite arguments."""
    def g(*a, **k):
        return fn(*[force(x) for x in a], **k)
    return g


class ReStub(Stub):
    pass


def make_re():
    ns = {k: getattr(re, k) for k in dir(re) if not k.startswith('_')}
    return Stub('re', ns, strict=True)


def make_os():
    path = Stub('os.path', {})
    for n in ('join', 'splitext', 'basename', 'dirname', 'split', 'normpath', 'commonprefix', 'sep'):
        path._ns[n] = getattr(posixpath, n)

    def abspath(p):
        h = getattr(core.CTX, 'abspath_model', None)
        return h(p) if h else (p if p.startswith('/') else '/cwd/' + p)
    path._ns['abspath'] = abspath
    path._ns['realpath'] = abspath

    def fs(pred):
        def f(p):
            h = getattr(core.CTX, 'fs_model', None)
            if h is not None:
                r = h(pred, p)
                if r is not NotImplemented:
                    return r
            return core.CTX.oracle.pick((pred, p), [True, False], f'{pred}({core.CTX.decode(p)})')
        return f
    for n in ('isfile', 'isdir', 'exists', 'lexists', 'islink'):
        path._ns[n] = fs(n)
    path._ns['samefile'] = lambda a, b: core.str_eq(abspath(a), abspath(b))
    o = Stub('os', {'path': path, 'sep': '/', 'linesep': '\n', 'name': 'posix'})

    def eff(n):
        def f(*a, **k):
            core.CTX.event('os.' + n, *a)
            h = getattr(core.CTX, 'os_model', None)
            if h is not None:
                return h(n, *a, **k)
            return Unk(f'os.{n}()')
        return f
    for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'makedirs', 'rmdir', 'listdir', 'getcwd',
              'scandir', 'walk'):
        o._ns[n] = eff(n)
    o._ns['environ'] = {}
    return o


class SysStub(Stub):
    def __getattr__(self, name):
        if name not in self.__dict__['_ns'] and not hasattr(sys, name):
            raise AttributeError(f"module 'sys' has no attribute {name!r}")
        return Stub.__getattr__(self, name)


def make_sys():
    def exit_(code=None):
        core.CTX.event('exit', code)
        raise PyRaise(SystemExit(code))
    return SysStub('sys', {'version_info': (3, 12, 3, 'final', 0), 'path': [], 'argv': Unk('sys.argv'),
                        'modules': Unk('sys.modules'), 'platform': 'linux', 'exit': exit_,
                        'version': '3.12', 'stderr': Unk('stderr'), 'stdout': Unk('stdout'),
                        'maxsize': sys.maxsize})


def make_datetime():
    class DT:
        @staticmethod
        def now(*a):
            return Unk('now')
    m = Stub('datetime', {'datetime': DT})
    return m


def real(mod, names=None):
    return Stub(mod.__name__, {k: v for k, v in vars(mod).items()
                               if not (k.startswith('__') and k.endswith('__'))}, strict=True)


def make_ast():
    def literal_eval(x):
        x = force(x)
        try:
            return ast.literal_eval(x)      # hole letters in string literals are ordinary letters
        except (ValueError, SyntaxError) as e:
            if isinstance(x, str) and core.has_hole(x) and not isinstance(e, SyntaxError):
                return Unk('literal_eval()')
            raise PyRaise(e)
    return Stub('ast', {'literal_eval': literal_eval})


def make_functools():
    ns = {k: getattr(functools, k) for k in ('partial', 'reduce', 'wraps', 'update_wrapper', 'cmp_to_key',
                                             'total_ordering', 'cached_property')}
    ns['lru_cache'] = lru_cache
    ns['cache'] = lru_cache
    return Stub('functools', ns)


INTRINSICS = {isinstance: m_isinstance, issubclass: m_issubclass, bool: m_bool, str: m_str, repr: m_repr,
              int: m_int, len: m_len, print: m_print, type: m_type, any: m_any, all: m_all,
              filter: m_filter, map: m_map, set: m_set, frozenset: m_frozenset, list: m_list,
              tuple: m_tuple, next: m_next, getattr: m_getattr, hasattr: m_hasattr, callable: m_callable,
              dict: m_dict, keyword.iskeyword: m_iskeyword, open: m_open}


class World:
    """All modules of one analysis: the repository's own are interpreted from
    source on first import, libraries are models."""

    def __init__(self, repo=REPO, overrides=None, source_overrides=None):
        self.repo = repo
        self.source_overrides = source_overrides or {}
        self.modules = {}
        self.interp = Interp(self.import_)
        self.interp.intrinsics = dict(INTRINSICS)
        self.analysed = []
        dh = dhparser_ns()
        self.dhparser = dh
        self.stubs = {
            're': make_re(), 'regex': None, 'os': make_os(), 'sys': make_sys(),
            'datetime': make_datetime(), 'functools': make_functools(),
            'keyword': real(keyword), 'typing': real(typing), 'types': real(types),
            'collections': real(collections), 'itertools': real(itertools), 'string': real(string),
            'collections.abc': real(collections.abc), 'DHParser': Stub('DHParser', dh)}
        import enum
        import textwrap
        import operator as op
        self.stubs['enum'] = real(enum)
        self.stubs['textwrap'] = real(textwrap)
        self.stubs['operator'] = real(op)
        for n in ('copy', 'json', 'math', 'bisect', 'heapq', 'html', 'unicodedata', 'difflib', 'shlex', 'fnmatch',
                  'numbers', 'statistics', 'random', 'dataclasses', 'contextlib'):
            self.stubs[n] = real(__import__(n))
        self.stubs['ast'] = make_ast()
        self.stubs['os.path'] = self.stubs['os'].path
        if overrides:
            self.stubs.update(overrides)

    def find_source(self, name):
        rel = name.replace('.', '/')
        for cand in (rel + '.py', rel + '/__init__.py'):
            p = os.path.join(self.repo, cand)
            if os.path.isfile(p):
                return p
        p = os.path.join(self.repo, 'ts2python', rel + '.py')
        if os.path.isfile(p) and '.' not in name:
            return p
        return None

    def import_(self, interp, name, fromlist, level, module):
        if level:
            name = 'ts2python' + ('.' + name if name else '')
        if name in self.stubs:
            m = self.stubs[name]
            if m is None:
                raise PyRaise(ImportError(f'No module named {name!r}'))
            return m
        if name.startswith('DHParser'):
            return self.stubs['DHParser']
        p = self.find_source(name) if name not in ('typing_extensions',) else None
        if p is not None:
            return self.load(name, p)
        self.stubs[name] = Stub(name)
        return self.stubs[name]

    def load(self, name, path=None):
        if name in self.modules:
            return self.modules[name]
        path = path or self.find_source(name)
        src = self.source_overrides.get(path)
        if src is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        self.analysed.append(path)
        m = Module(name, path)
        self.modules[name] = m
        if core.CTX is None:
            core.set_ctx(core.Ctx())
        tree = ast.parse(src, path)
        m.tree = tree
        from .interp import Env
        env = Env(None, m)
        env.vars = m.ns
        self.interp.exec_block(tree.body, env)
        return m
