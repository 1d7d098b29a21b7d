"""validation.py - decides what json_validation.py accepts and rejects.

json_validation.py (and the TypedDict replacement it imports) is interpreted
abstractly with *unknown JSON values* (lazy.py) against types of every form the
transpiler renders.  Every abstract path ends in acceptance or rejection and
carries the set of JSON values that take it; that set is compared with the set
of values that conform to the TypeScript type."""

import functools
import inspect
import os
import sys
import types
import typing

from . import core, lazy, sched, stubs
from .core import PyRaise
from .lazy import Lazy, pick, key
from .interp import Interp
from .pipeline import Stateful, Anchor

MODULE = 'verif_types'
MAXDEPTH = 3


# ------------------------------------------------------------ JSON type model

class Ty:
    """TypeScript type: k = kind, a = arguments"""

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __repr__(self):
        return self.k + (f'({", ".join(map(repr, self.a))})' if self.a else '')


STR, NUM, INT, BOOL, NULL, ANY = (Ty(k) for k in ('str', 'num', 'int', 'bool', 'null', 'any'))


def lit(*v): return Ty('lit', *v)
def arr(t): return Ty('arr', t)
def tup(*t): return Ty('tup', *t)
def vtup(t): return Ty('vtup', t)
def mp(t): return Ty('map', t)
def uni(*t): return Ty('uni', *t)
def ref(name, *args): return Ty('ref', name, *args)


class Rec:
    """record declaration"""
    def __init__(self, name, fields, bases=(), tps=()):
        self.name, self.fields, self.bases, self.tps = name, fields, bases, tps


class Enm:
    def __init__(self, name, values, qual=None):
        self.name, self.values, self.qual = name, values, qual


class Alias:
    def __init__(self, name, ty):
        self.name, self.ty = name, ty


class Fn:
    """A function skeleton: params = (name, kind, type or None, has default)"""
    def __init__(self, params, ret=None):
        self.params, self.ret = params, ret


class Case:
    def __init__(self, label, ty, decls=(), style='modern', forward=False):
        self.label, self.ty, self.decls, self.style, self.forward = label, ty, list(decls), style, forward
        self.depth = MAXDEPTH - 1 if any(d.name == 'Node' for d in self.decls) else MAXDEPTH

    def decl(self, name):
        for d in self.decls:
            if d.name == name:
                return d
        raise KeyError(name)


STYLES = {
    'modern': 'typing.TypedDict with NotRequired, X | Y, evaluated annotations',
    'shim': 'TypedDict of typeddict_shim with Optional, Union, evaluated annotations',
    'shimfuture': 'TypedDict of typeddict_shim with Optional, from __future__ import annotations',
}


class Printer:
    def __init__(self, case):
        self.case = case
        self.holes = {}
        self.c = core.CTX
        self.pipe = case.style in ('modern', 'future')
        self.shim = case.style.startswith('shim')
        self.future = case.style.endswith('future')

    def name(self, n):
        if n not in self.holes:
            self.holes[n] = key_hole(n)
        return self.holes[n]

    def ty(self, t, quote=False):
        k, a = t.k, t.a
        if k in PYNAMES:
            return PYNAMES[k]
        if k == 'lit':
            return 'Literal[' + ', '.join(repr(v) for v in a) + ']'
        if k == 'arr':
            return f'List[{self.ty(a[0], quote)}]'
        if k == 'tup':
            return 'Tuple[' + ', '.join(self.ty(x, quote) for x in a) + ']'
        if k == 'vtup':
            return f'Tuple[{self.ty(a[0], quote)}, ...]'
        if k == 'map':
            return f'Dict[str, {self.ty(a[0], quote)}]'
        if k == 'uni':
            if self.pipe and not quote:
                return ' | '.join(self.ty(x, quote) for x in a)
            if len(a) == 2 and a[1].k == 'null' and self.shim:
                return f'Optional[{self.ty(a[0], quote)}]'
            return 'Union[' + ', '.join(self.ty(x, quote) for x in a) + ']'
        if k == 'var':
            return a[0]
        if k == 'ref':
            d = self.case.decl(a[0])
            n = getattr(d, 'qual', None) or d.name
            s = n + (f'[{", ".join(self.ty(x, quote) for x in a[1:])}]' if a[1:] else '')
            return f'"{s}"' if quote else s
        raise core.Unsupported(f'type {k}')

    def field(self, t, opt, quote):
        s = self.ty(t, quote)
        if opt:
            if self.shim:
                return s if t.k == 'uni' and any(x.k == 'null' for x in t.a) else f'Optional[{s}]'
            return f'NotRequired[{s}]'
        return s

    def module(self):
        out = ['from __future__ import annotations'] if self.future else []
        out.append('from typing import *\nfrom enum import Enum, IntEnum\nimport enum')
        out.append('T = TypeVar("T")')
        if self.shim:
            out.append('from _shim import TypedDict')
        for d in self.case.decls:
            if isinstance(d, Enm):
                ind = ''
                if d.qual:
                    out.append(f'class {d.qual.split(".")[0]}:')
                    ind = '    '
                out.append(f'{ind}class {getattr(d, "py", d.name)}(Enum):')
                out += [f'{ind}    m{i} = {v!r}' for i, v in enumerate(d.values)]
            elif isinstance(d, Alias):
                out.append(f'{d.name} = {self.ty(d.ty, self.case.forward)}')
            else:
                bases = list(d.bases) or ['TypedDict']
                if d.tps:
                    bases.append(f'Generic[{", ".join(d.tps)}]')
                out.append(f'class {getattr(d, "py", d.name)}({", ".join(bases)}):')
                quote = self.case.forward and not self.future
                out += [f'    {self.name(f)}: {self.field(t, o, quote)}' for f, t, o in d.fields] or ['    pass']
            if hasattr(d, 'py'):
                out.append(f'{d.name} = {d.py}')
        return '\n'.join(out) + '\n'


PYNAMES = {'str': 'str', 'num': 'float', 'int': 'int', 'bool': 'bool', 'null': 'None', 'any': 'Any'}


def key_hole(n):
    m = core.CTX.oracle.memo
    k = ('key', n)
    if k not in m:
        m[k] = core.CTX.hole('ident', n)
    return m[k]


# ------------------------------------------------------- shapes of containers

class Shapes:
    """Which containers an unknown value may turn out to be, if a value of
    type ty is expected there (only the choice of shapes, nothing is decided)."""

    def __init__(self, case, ty, env=None):
        self.case, self.env = case, env or {}
        self.types = list(flat(case, ty, self.env, True))

    def _child(self, lv, label, tys):
        if not tys:
            return Lazy(label, None, lv._depth + 1)
        if lv._depth + 1 >= self.case.depth:
            # recursion bound: below this depth only scalars and empty containers
            return Lazy(label, Flat(), lv._depth + 1)
        t, env = (tys[0] if len(tys) == 1 else (Ty('many', *tys), {}))
        return Lazy(label, Shapes(self.case, t, env), lv._depth + 1)

    def make_list(self, lv):
        ts = [x for x in self.types if x[0].k in ('arr', 'tup', 'vtup')]
        n = max([2] + [len(t.a) + 1 for t, e in ts if t.k == 'tup'])
        size = pick(range(n + 1), f'len({lv._label})')
        out = []
        for i in range(size):
            tys = []
            for t, e in ts:
                if t.k != 'tup':
                    tys.append((t.a[0], e))
                elif i < len(t.a):
                    tys.append((t.a[i], e))
            out.append(self._child(lv, f'{lv._label}[{i}]', tys))
        return out

    def make_dict(self, lv):
        recs = [(t, e) for t, e in self.types if t.k == 'ref']
        maps = [(t, e) for t, e in self.types if t.k == 'map']
        names = {}
        for t, e in recs:
            for f, (ft, o, fe) in fields(self.case, t, e).items():
                names.setdefault(f, []).append((ft, fe))
        d = {}
        for f, tys in names.items():
            if pick([True, False], f'{f} in {lv._label}'):
                d[key_hole(f)] = self._child(lv, f'{lv._label}.{f}', tys)
        vals = [(t.a[0], e) for t, e in maps]
        extra = pick([0, 1, 2] if maps and not names else [0, 1], f'further keys of {lv._label}')
        for i in range(extra):
            d[key_hole(f'other{i}')] = self._child(lv, f'{lv._label}.other{i}', vals)
        return d


class Flat(lazy.NoShapes):
    def make_list(self, lv):
        return []

    def make_dict(self, lv):
        return {}


def flat(case, ty, env, shapes=False):
    """The non-union alternatives of a type."""
    if ty.k == 'many':
        for t, e in ty.a:
            yield from flat(case, t, e, shapes)
    elif ty.k == 'uni':
        for t in ty.a:
            yield from flat(case, t, env, shapes)
    elif ty.k == 'var':
        if shapes and ty.a[0] in env:
            t, e = env[ty.a[0]]
            yield from flat(case, t, e, shapes)
        else:
            yield (ANY, {})     # documented: type arguments are not checked
    elif ty.k == 'ref' and isinstance(case.decl(ty.a[0]), Alias):
        yield from flat(case, case.decl(ty.a[0]).ty, {}, shapes)
    else:
        yield (ty, env)


def fields(case, t, env):
    """name -> (type, optional, env) of a record with all inherited fields"""
    d = case.decl(t.a[0])
    if not isinstance(d, Rec):
        return {}
    out = {}
    e = {n: (x, env) for n, x in zip(d.tps, t.a[1:])}
    for b in d.bases:
        out.update(fields(case, ref(b), {}))
    for f, ft, o in d.fields:
        out[f] = (ft, o, e)
    return out


# -------------------------------------------------------------------- oracle

T, F, Q = 'T', 'F', '?'     # conforms / does not conform / no claim


def conj(parts):
    out = {T}
    for p in parts:
        out = {F if F in (a, b) else Q if Q in (a, b) else T for a in out for b in p}
    return out


def disj(parts):
    out = {F}
    for p in parts:
        out = {T if T in (a, b) else Q if Q in (a, b) else F for a in out for b in p}
    return out


def conforms(case, lv, ty, env=None, legacy=False):
    """The possible verdicts over all JSON values that lv still stands for.
    legacy: the code base cannot express the difference between optional and nullable fields."""
    alts = list(flat(case, ty, env or {}))
    if any(t.k == 'any' for t, e in alts):
        return {T}
    out = set()
    for k in lv._kinds:
        out |= disj([kind_conforms(case, lv, k, t, e, legacy) for t, e in alts])
    return out


def kind_conforms(case, lv, k, t, env, legacy):
    if t.k == 'str':
        return {T if k == 'str' else F}
    if t.k == 'num':
        # a bool is an int in Python: no claim
        return {T if k in ('int', 'fint', 'float') else Q if k in ('true', 'false') else F}
    if t.k == 'int':
        return {T if k == 'int' else Q if k in ('true', 'false', 'fint') else F}
    if t.k == 'bool':
        return {T if k in ('true', 'false') else F}
    if t.k == 'null':
        return {T if k == 'none' else F}
    if t.k in ('lit', 'enum'):
        return disj([value_is(lv, k, v) for v in t.a])
    if t.k == 'ref' and isinstance(case.decl(t.a[0]), Enm):
        return disj([value_is(lv, k, v) for v in case.decl(t.a[0]).values])
    if t.k in ('arr', 'vtup', 'tup'):
        if k != 'list':
            return {F}
        v = lv._value
        if v is None:
            return {T, F}
        if t.k == 'tup':
            if len(lv._snap) != len(t.a):
                return {F}
            return conj([conforms(case, x, y, env, legacy) for x, y in zip(lv._snap, t.a)])
        return conj([conforms(case, x, t.a[0], env, legacy) for x in lv._snap])
    if t.k == 'map':
        if k != 'dict':
            return {F}
        if lv._value is None:
            return {T, F}
        return conj([conforms(case, x, t.a[0], env, legacy) for x in lv._snap.values()])
    if t.k == 'ref':
        if k != 'dict':
            return {F}
        if lv._value is None:
            return {T, F}
        fs = {key_hole(f): v for f, v in fields(case, t, env).items()}
        parts = []
        for f, (ft, opt, e) in fs.items():
            nullable = any(x.k in ('null', 'any') for x, _ in flat(case, ft, e))
            if f in lv._snap:
                x = lv._snap[f]
                r = conforms(case, x, ft, e, legacy)
                if legacy and opt and not nullable and 'none' in x._kinds:
                    r = {Q if y == F and x._kinds == ['none'] else y for y in r} | (
                        {Q} if x._kinds != ['none'] else set())
                parts.append(r)
            elif not opt or legacy and ft.k == 'null':
                parts.append({Q} if legacy and nullable and ft.k != 'any' else {F})
        if any(x not in fs for x in lv._snap):
            parts.append({F})
        return conj(parts)
    raise core.Unsupported(f'conformance to {t.k}')


def value_is(lv, k, v):
    if not Lazy._may_equal(k, v):
        return {F}
    exact = k == {type(None): 'none', bool: 'true' if v else 'false', int: 'int', float: 'float', str: 'str'}[type(v)]
    if lv._known:
        w = lv._value
        if isinstance(w, str):
            w = core.canon(w)
            if core.has_hole(w) and core.unfresh(w):
                r = core.CTX.oracle.memo.get(('eq', min(w, v), max(w, v)))
                return {F} if r is False else {T, F}
        return {(T if exact else Q) if w == v else F}
    if any(type(c) is type(v) and c == v for c in lv._not):
        return {F}
    if k in ('none', 'true', 'false'):
        return {T if exact else Q}
    return ({T} if exact else {Q}) | {F}


# ---------------------------------------------------------------- the program

class RefModule(types.ModuleType):
    pass


class Val(Stateful):
    def __init__(self):
        self._modules = {}
        real = stubs.real
        te = stubs.Stub('typing_extensions', {k: v for k, v in vars(typing).items() if not k.startswith('__')},
                        strict=True)
        te._ns['GenericMeta'] = type
        sysm = stubs.make_sys()
        sysm._ns['modules'] = sys.modules
        sysm._ns['_getframe'] = getframe
        sysm._ns['implementation'] = sys.implementation
        self.world = stubs.World(overrides={
            'typing_extensions': te, 'DHParser.externallibs.typing_extensions': te, 'sys': sysm,
            'inspect': real(inspect), 'weakref': real(__import__('weakref')),
            'functools': Functools(), 'threading': sched.threading_module()})
        self.world.interp.intrinsics[functools.wraps] = lambda interp, f, *a, **k: functools.wraps(f, *a, **k)
        self.mod = self.world.load('ts2python.json_validation')
        self.shim = self.world.load('ts2python.typeddict_shim')
        for n in ('validate_type', 'type_check', 'validate_uniform_sequence', 'validate_compound_type',
                  'validate_TypedDict'):
            if n not in self.mod.ns:
                raise Anchor(f'{n} not found in json_validation.py')
        self.snapshot()

    def call(self, name, *args, **kw):
        return self.world.interp.call(self.mod.ns[name], args, kw)

    def types(self, case, extra=''):
        """The module with the types of a case (built once, brought back to its original state on every path)."""
        k = (id(case), extra)
        if k in self._modules:
            m, holes, state, _ = self._modules[k]
            for h in holes:
                key_hole(h)
            for cls, d in state:
                revert(cls, d)
            sys.modules[MODULE] = m
            return m
        shim = types.ModuleType('_shim')
        shim.TypedDict = self.shim.ns['TypedDict']
        sys.modules['_shim'] = shim
        m = types.ModuleType(MODULE)
        sys.modules[MODULE] = m
        pr = Printer(case)
        src = pr.module()
        if case.ty is not None:
            src += f'THE_TYPE = {pr.ty(case.ty)}\n'
        if callable(extra):
            src += extra(pr)
        m.SOURCE = src
        try:
            exec(compile(src, '<types>', 'exec', dont_inherit=True), m.__dict__)
        except PyRaise:
            raise
        except Exception as e:
            raise core.Unsupported(f'types of {case.label}: {type(e).__name__}: {e}\n{core.CTX.decode(src)}')
        self.world.interp.undo.clear()
        state = [(v, dict(vars(v))) for v in classes(m)]
        self._modules[k] = (m, list(pr.holes), state, case)
        return m


def classes(m):
    seen, stack = set(), [v for v in vars(m).values() if isinstance(v, type)]
    while stack:
        v = stack.pop()
        if v.__module__ == MODULE and v not in seen:
            seen.add(v)
            stack += [x for x in vars(v).values() if isinstance(x, type)]
    return seen


def revert(cls, d):
    cur = dict(vars(cls))
    for k in cur:
        if k not in d:
            type.__delattr__(cls, k)
        elif cur[k] is not d[k] and k not in ('__dict__', '__weakref__'):
            type.__setattr__(cls, k, d[k])


class Frame:
    def __init__(self, f_globals, f_locals, name):
        self.f_globals, self.f_locals = f_globals, f_locals
        self.f_code = types.SimpleNamespace(co_name=name)


def getframe(depth=0):
    """sys._getframe: frames of the interpreted program and of the module with the types"""
    here = os.path.dirname(os.path.abspath(__file__))
    f = sys._getframe(1)
    while f is not None:
        if f.f_code is Interp.call_func.__code__:
            g = f.f_locals['f']
            fr = Frame(g.env.module.ns, f.f_locals['env'].vars if 'env' in f.f_locals else {}, g.__name__)
        elif f.f_code.co_filename.startswith(here) or f.f_code.co_filename.startswith('<frozen'):
            fr = None
        else:
            fr = f
        if fr is not None:
            if depth == 0:
                return fr
            depth -= 1
        f = f.f_back
    raise PyRaise(ValueError('call stack is not deep enough'))


class Functools(stubs.Stub):
    def __init__(self):
        super().__init__('functools', dict(stubs.make_functools()._ns))


_VAL = None


def val():
    global _VAL
    if _VAL is None:
        _VAL = Val()
    return _VAL


def prepare(c):
    c.isinstance_model = lazy.isinstance_model
    c.type_model = lazy.type_model
    val().restore()


# ------------------------------------------------------------------- families

P = Rec('P', [('a', INT, False)])
PO = Rec('PO', [('a', INT, True)])
PM = Rec('PM', [('a', INT, False), ('b', STR, True)])
PE = Rec('PE', [])
ES, EI, EM = Enm('ES', ['x', 'y']), Enm('EI', [1, 2]), Enm('EM', ['x', 3])
AU = Alias('AU', uni(INT, STR))
AL = Alias('AL', arr(STR))
G = Rec('G', [('v', Ty('var', 'T'), False)], tps=('T',))
GL = Rec('GL', [('v', arr(Ty('var', 'T')), True)], tps=('T',))
NR = Rec('Node', [('val', INT, False), ('next', ref('Node'), True)])
NK = Rec('Tree', [('kids', arr(ref('Tree')), True)])
DECLS = {d.name: d for d in (P, PO, PM, PE, ES, EI, EM, AU, AL, G, GL, NR, NK)}

LEAVES = {
    'string': STR, 'number': NUM, 'integer': INT, 'boolean': BOOL, 'null': NULL, 'any': ANY,
    'lit:str': lit('u', 'v'), 'lit:int': lit(1, 2), 'lit:mixed': lit('u', 0), 'lit:bool': lit(True),
    'enum:str': ref('ES'), 'enum:int': ref('EI'), 'enum:mixed': ref('EM'),
    'record': ref('P'), 'record:opt': ref('PO'), 'alias:union': ref('AU'), 'alias:array': ref('AL'),
}
MORE_LEAVES = {'record:mixed': ref('PM'), 'record:empty': ref('PE'), 'recursive': ref('Node'), 'tree': ref('Tree'),
               'generic': ref('G'), 'generic:array': ref('GL')}
CONSTRUCTORS = {
    'array': arr, 'tuple1': tup, 'tuple2': lambda t: tup(t, STR), 'vtuple': vtup, 'map': mp,
    'nullable': lambda t: uni(t, NULL), 'union': lambda t: uni(t, lit('w')), 'union:rev': lambda t: uni(NUM, t),
}


def used(t, out=None):
    """names of the declarations a type refers to, dependencies first"""
    out = [] if out is None else out
    for x in t.a:
        if isinstance(x, Ty):
            used(x, out)
    if t.k == 'ref' and t.a[0] in DECLS and t.a[0] not in out:
        d = DECLS[t.a[0]]
        if isinstance(d, Alias):
            used(d.ty, out)
        elif isinstance(d, Rec):
            for _, ft, _ in d.fields:
                if not (ft.k == 'ref' and ft.a[0] == d.name) and not any(
                        isinstance(y, Ty) and y.k == 'ref' and y.a[0] == d.name for y in ft.a):
                    used(ft, out)
        out.append(t.a[0])
    return out


def self_referential(t):
    return any(n in ('Node', 'Tree') for n in used(t))


def type_cases(tier, styles=('modern', 'shim')):
    """Every type form by itself and as field of a record."""
    level1 = dict(LEAVES)
    level1.update(MORE_LEAVES)
    level2 = {f'{c}({n})': f(t) for c, f in CONSTRUCTORS.items() for n, t in LEAVES.items()}
    level3 = {}
    for n in ('nullable(null)', 'union:rev(null)'):
        del level2[n]
    if tier == 'thorough':
        level2.update({f'{c}({n})': f(t) for c, f in CONSTRUCTORS.items() for n, t in MORE_LEAVES.items()})
        some = ('integer', 'lit:str', 'enum:str', 'record')
        level3 = {f'{c}({d}({n}))': f(g(LEAVES[n])) for c, f in CONSTRUCTORS.items() for d, g in CONSTRUCTORS.items()
                  for n in some}
    for style in styles:
        for n, t in {**level1, **level2, **level3}.items():
            ds = [DECLS[x] for x in used(t)]
            fwd = self_referential(t)
            yield Case(n, t, ds, style, fwd)
        inside = {**level1, **level2} if tier == 'thorough' else {
            **level1, **{k: t for k, t in level2.items() if k.split('(')[1][:-1] in
                         ('integer', 'record', 'enum:str', 'lit:str', 'alias:union', 'string')}}
        for n, t in inside.items():
            ds = [DECLS[x] for x in used(t)]
            for opt in (False, True):
                r = Rec('R', [('f', t, opt)])
                yield Case(f'field{"?" * opt}({n})', ref('R'), ds + [r], style, self_referential(t))
                if style == 'shim' and tier == 'thorough':
                    yield Case(f'field{"?" * opt}({n})', ref('R'), ds + [r], 'shimfuture')
        # records: several fields, inheritance, generics, forward references, recursion
        two = {'int,str': [('f', INT, False), ('g', STR, False)], 'int?,str': [('f', INT, True), ('g', STR, False)],
               'array,record?': [('f', arr(INT), False), ('g', ref('P'), True)],
               'enum,null': [('f', ref('ES'), False), ('g', uni(INT, NULL), False)],
               'any,union': [('f', ANY, False), ('g', uni(ref('P'), STR), False)],
               'lit,map': [('f', lit('u'), False), ('g', mp(INT), True)]}
        for n, fs in two.items():
            ds = [DECLS[x] for f in fs for x in used(f[1])]
            yield Case(f'record({n})', ref('R'), ds + [Rec('R', fs)], style)
            yield Case(f'array(record({n}))', arr(ref('R')), ds + [Rec('R', fs)], style) if tier == 'thorough' else \
                Case(f'nullable(record({n}))', uni(ref('R'), NULL), ds + [Rec('R', fs)], style)
        base = Rec('B', [('f', INT, False), ('g', ANY, True)])
        yield Case('derived', ref('D'), [base, Rec('D', [('h', INT, False)], ('B',))], style)
        yield Case('derived:empty', ref('D'), [base, Rec('D', [], ('B',))], style)
        yield Case('derived:opt', ref('D'), [base, Rec('D', [('h', ref('P'), True)], ('B',)), ][:1] + [P] + [
            Rec('D', [('h', ref('P'), True)], ('B',))], style)
        yield Case('derived:two', ref('D'), [base, Rec('C', [('k', ANY, True)]),
                                             Rec('D', [('h', INT, False)], ('B', 'C'))], style)
        yield Case('derived:deep', ref('E'), [base, Rec('D', [('h', INT, True)], ('B',)), Rec('E', [], ('D',))], style)
        yield Case('discriminated', uni(ref('A1'), ref('A2')), [
            Rec('A1', [('kind', lit('u'), False), ('f', INT, False)]),
            Rec('A2', [('kind', lit('v'), False), ('g', INT, True)])], style)
        for arg in (INT, uni(INT, NULL), ref('P')):
            yield Case(f'generic<{arg}>', ref('G', arg), [P, G], style)
            yield Case(f'field(generic<{arg}>)', ref('R'), [P, G, Rec('R', [('f', ref('G', arg), False)])], style)
        for n, t in {'record': ref('P'), 'array': arr(ref('P')), 'union': uni(ref('P'), INT), 'enum': ref('ES'),
                     'map': mp(ref('P')), 'nullable': uni(ref('P'), NULL), 'alias': ref('AU')}.items():
            for opt in (False, True):
                # declared behind its use
                yield Case(f'forward{"?" * opt}({n})', ref('R'),
                           [Rec('R', [('f', t, opt)])] + [DECLS[x] for x in used(t)], style, True)
        nested = Enm('ES', ['p', 'q'], 'NS.ES')
        yield Case('enum:namespace', uni(ref('ES'), ref('ES2')), [nested, Enm('ES2', ['x'])], style)


MAX_PATHS = 6000


def value_of(case, label='value', ty=None):
    return Lazy(label, Shapes(case, ty or case.ty))


def legacy(case):
    return case.style.startswith('shim')


def verdict(case, c, lv, kind, r, ty=None):
    """Is the outcome of a path right?  -> (aspect, message) or None"""
    cf = conforms(case, lv, ty or case.ty, None, legacy(case))
    if kind == 'ok':
        if F in cf:
            return 'accepts', f'{lv.describe()} is accepted as {show(ty or case.ty)}'
        return None
    if not isinstance(r.exc, (TypeError, ValueError)) or isinstance(r.exc, UnicodeError):
        return 'crash', f'{lv.describe()} as {show(ty or case.ty)}: {type(r.exc).__name__}: {c.decode(str(r.exc))}'
    if T in cf:
        return 'rejects', f'{lv.describe()} is rejected as {show(ty or case.ty)}: {c.decode(str(r.exc))[:160]}'
    return None


def show(t):
    return repr(t)


def outcome(case, run, judge, limit=MAX_PATHS):
    """Explores run(ctx); judge(ctx, kind, result) -> finding or None."""
    res = {'label': case.label, 'cfg': case.style, 'findings': [], 'undecided': [], 'paths': 0, 'functions': set(),
           'source': ''}
    for c, kind, r in core.explore(run, limit):
        res['paths'] += 1
        res['functions'] |= c.visited
        if not res['source']:
            res['source'] = c.decode(getattr(c, 'source', ''))
        if kind == 'undecided':
            res['undecided'].append(r)
            continue
        try:
            f = judge(c, kind, r)
        except core.Unsupported as e:
            res['undecided'].append(f'oracle: {e}')
            continue
        if f is not None:
            tr = r.trace[0] if kind == 'raise' and r.trace else None
            f = (f[0], f'{tr[1]} line {tr[2]}' if tr else '', f[1])
            if len(res['findings']) < 6 and f not in res['findings']:
                res['findings'].append(f)
    return res


def job_validate(case):
    def run(c):
        prepare(c)
        m = val().types(case)
        c.source = m.SOURCE
        c.lv = value_of(case)
        return val().call('validate_type', c.lv, m.THE_TYPE)
    return outcome(case, run, lambda c, k, r: verdict(case, c, c.lv, k, r))


# ------------------------------------------------- decorated functions (C20)

class Par:
    def __init__(self, name, kind='pos', ty=None, default=False):
        self.name, self.kind, self.ty, self.default = name, kind, ty, default


class FnCase(Case):
    def __init__(self, label, params, ret=None, decls=(), style='modern', check_return=True, quoted=False,
                 warm=False):
        ds = list(decls)
        super().__init__(label, None, ds, style)
        self.params, self.ret, self.check_return, self.quoted, self.warm = \
            params, ret, check_return, quoted, warm

    def extra(self, pr):
        sig, star = [], False
        posonly = [p for p in self.params if p.kind == 'posonly']
        for i, p in enumerate(self.params):
            ann = ''
            if p.ty is not None:
                t = pr.ty(p.ty)
                ann = ': ' + (f'"{t}"' if self.quoted else t)
            if p.kind == 'kw' and not star:
                if not any(q.kind == 'var' for q in self.params):
                    sig.append('*')
                star = True
            sig.append({'var': '*', 'varkw': '**'}.get(p.kind, '') + p.name + ann +
                       (f' = DEFAULT["{p.name}"]' if p.default else ''))
            if posonly and p is posonly[-1]:
                sig.append('/')
        ret = ''
        if self.ret is not None:
            t = pr.ty(self.ret)
            ret = ' -> ' + (f'"{t}"' if self.quoted else t)
        args = ', '.join(p.name for p in self.params)
        return (f'class _D(dict):\n    def __missing__(self, k):\n        self[k] = object()\n        return self[k]\n'
                f'DEFAULT = _D()\ndef fn({", ".join(sig)}){ret}:\n    return BODY({args})\n')


def flow(case, pname, ty, label):
    return Lazy(label, Shapes(case, ty), 1) if ty is not None else Lazy(label, None, 1)


def job_function(case):
    def run(c):
        prepare(c)
        v = val()
        m = v.types(case, case.extra)
        c.source = m.SOURCE
        c.bodies = []
        c.passed = []
        c.legit = True
        c.result = flow(case, 'result', case.ret, 'result')

        def body(*a):
            c.bodies.append(a)
            return c.result
        m.BODY = body
        kw = {} if case.check_return else {'check_return_type': False}
        guard = v.call('type_check', m.fn, **kw)
        if case.warm:
            # an earlier call, whatever its outcome
            first = [flow(case, 'earlier ' + p.name, p.ty, 'earlier ' + p.name) for p in case.params
                     if p.kind in ('pos', 'posonly')]
            result, c.result = c.result, flow(case, 'earlier result', case.ret, 'earlier result')
            try:
                v.world.interp.call(guard, tuple(first), {})
            except PyRaise as e:
                if not isinstance(e.exc, (TypeError, ValueError)):
                    raise
            c.bodies, c.result = [], result
        args, kwargs = [], {}
        expect = {}
        positional = True
        for p in case.params:
            if p.kind in ('pos', 'posonly'):
                opts = (['by position'] if positional else []) + (['by name'] if p.kind == 'pos' else [])
                if p.default or p is case.params[0]:
                    opts.append('left out')
                how = pick(opts, f'{p.name} passed')
                if how == 'left out':
                    positional = False
                    if not p.default:
                        c.legit = False
                    expect[p.name] = m.DEFAULT[p.name] if p.default else None
                    continue
                x = flow(case, p.name, p.ty, p.name)
                c.passed.append((p, x))
                expect[p.name] = x
                if how == 'by name':
                    positional = False
                    kwargs[p.name] = x
                else:
                    args.append(x)
            elif p.kind == 'kw':
                if p.default and not pick([True, False], f'{p.name} passed'):
                    expect[p.name] = m.DEFAULT[p.name]
                    continue
                x = flow(case, p.name, p.ty, p.name)
                c.passed.append((p, x))
                kwargs[p.name] = expect[p.name] = x
            elif p.kind == 'var':
                n = pick([0, 1, 2], f'*{p.name}') if positional else 0
                xs = [flow(case, p.name, p.ty, f'{p.name}[{i}]') for i in range(n)]
                args += xs
                c.passed += [(p, x) for x in xs]
                expect[p.name] = tuple(xs)
            else:
                n = pick([0, 1], f'**{p.name}')
                xs = {f'extra{i}': flow(case, p.name, p.ty, f'extra{i}') for i in range(n)}
                kwargs.update(xs)
                c.passed += [(p, x) for x in xs.values()]
                expect[p.name] = xs
        if pick([False, True], 'unexpected argument') and not any(p.kind in ('varkw', 'var') for p in case.params):
            c.legit = False
            kwargs['unexpected'] = Lazy('unexpected', None, 1)
        c.expect = [expect[p.name] for p in case.params]
        return v.world.interp.call(guard, tuple(args), kwargs)

    def judge(c, kind, r):
        if kind == 'raise' and not hasattr(c, 'expect'):
            return 'crash', f'decorating raises {type(r.exc).__name__}: {c.decode(str(r.exc))}'
        args = conj([conforms(case, x, p.ty, None, legacy(case)) for p, x in c.passed if p.ty is not None])
        what = ', '.join(f'{p.name}={x.describe()}' for p, x in c.passed) or 'nothing'
        if len(c.bodies) > 1:
            return 'calls', f'the function is called {len(c.bodies)} times'
        if c.bodies:
            if not c.legit:
                return 'calls', f'called although the arguments ({what}) do not fit its signature'
            if F in args:
                return 'accepts', f'the function is called with {what}'
            got = c.bodies[0]
            for p, g, e in zip(case.params, got, c.expect):
                same = g is e or isinstance(e, (tuple, dict)) and type(g) is type(e) and len(g) == len(e) and \
                    all(x is y for x, y in (zip(g, e) if isinstance(e, tuple) else
                                            ((g.get(k), e[k]) for k in e)))
                if not same:
                    return 'calls', f'the function receives {g!r} for {p.name}, expected {e!r}'
        if kind == 'ok':
            if not c.bodies:
                return 'calls', f'returns without calling the function ({what})'
            if r is not c.result:
                return 'result', 'the result of the function is not returned'
            if case.ret is not None and case.check_return and F in conforms(case, c.result, case.ret, None,
                                                                            legacy(case)):
                return 'accepts', f'the result {c.result.describe()} is returned as {show(case.ret)}'
            return None
        if not isinstance(r.exc, (TypeError, ValueError)):
            return 'crash', f'{what}: {type(r.exc).__name__}: {c.decode(str(r.exc))}'
        if not c.bodies:
            if c.legit and T in args:
                return 'rejects', f'the call with {what} is rejected: {c.decode(str(r.exc))[:160]}'
            return None
        if case.ret is None or not case.check_return:
            return 'rejects', f'unchecked result is rejected: {c.decode(str(r.exc))[:160]}'
        if T in conforms(case, c.result, case.ret, None, legacy(case)):
            return 'rejects', f'the result {c.result.describe()} is rejected: {c.decode(str(r.exc))[:160]}'
        return None
    return outcome(case, run, judge)


def function_cases(tier):
    i, s, e, p, n = INT, STR, ref('ES'), ref('P'), uni(INT, NULL)
    ds = [ES, P]
    styles = ('modern', 'shim') if tier == 'thorough' else ('modern',)
    for style in styles:
        def fc(label, params, ret=None, **k):
            return FnCase(label, params, ret, ds, style, **k)
        for name, t in {'int': i, 'enum': e, 'record': p, 'nullable': n, 'array': arr(i), 'any': ANY,
                        'union': uni(p, s), 'map': mp(i), 'lit': lit('u', 1), 'null': NULL,
                        'number': NUM, 'tuple': tup(i, s)}.items():
            yield fc(f'one({name})', [Par('a', 'pos', t)])
            yield fc(f'default({name})', [Par('a', 'pos', t, True)])
            yield fc(f'returns({name})', [Par('a')], t)
            yield fc(f'both({name})', [Par('a', 'pos', t)], t)
            yield fc(f'unchecked({name})', [Par('a', 'pos', t)], t, check_return=False)
            yield fc(f'var({name})', [Par('a', 'var', t)])
            yield fc(f'varkw({name})', [Par('a', 'varkw', t)])
            yield fc(f'kwonly({name})', [Par('a', 'kw', t)])
            yield fc(f'quoted({name})', [Par('a', 'pos', t)], t, quoted=True)
        yield fc('two', [Par('a', 'pos', i), Par('b', 'pos', s)])
        yield fc('two:unannotated-first', [Par('self'), Par('b', 'pos', s)])
        yield fc('two:unannotated-second', [Par('a', 'pos', i), Par('b')])
        yield fc('three', [Par('a', 'pos', i), Par('b', 'pos', s, True), Par('c', 'pos', n, True)])
        yield fc('posonly', [Par('a', 'posonly', i), Par('b', 'pos', s)])
        yield fc('pos+var', [Par('a', 'pos', i), Par('r', 'var', s)])
        yield fc('default+var', [Par('a', 'pos', i, True), Par('r', 'var', s)])
        yield fc('pos+kw', [Par('a', 'pos', i), Par('k', 'kw', s)])
        yield fc('pos+kwdefault', [Par('a', 'pos', i), Par('k', 'kw', s, True)])
        yield fc('pos+varkw', [Par('a', 'pos', i), Par('k', 'varkw', s)])
        yield fc('var+kw+varkw', [Par('r', 'var', i), Par('k', 'kw', s, True), Par('m', 'varkw', i)])
        yield fc('var:unannotated', [Par('a', 'pos', i), Par('r', 'var')])
        yield fc('varkw:unannotated', [Par('a', 'pos', i), Par('m', 'varkw')])
        yield fc('all', [Par('a', 'pos', i), Par('b', 'pos', i, True), Par('r', 'var', s), Par('k', 'kw', i, True),
                         Par('m', 'varkw', s)], i)
        for name, t in {'int': i, 'enum': e, 'nullable': n, 'array': arr(i)}.items():
            yield fc(f'again({name})', [Par('a', 'pos', t), Par('b', 'pos', s, True)], i, warm=True)
        yield fc('again(no return)', [Par('a', 'pos', i), Par('b', 'pos', s)], warm=True)
        yield fc('two+return', [Par('a', 'pos', p), Par('b', 'pos', e, True)], n)


# ------------------------------------------- histories of validations (C21)

class HistCase(Case):
    def __init__(self, label, t1, t2, decls, style, same):
        super().__init__(label, t1, decls, style, True)
        self.t2, self.same = t2, same

    def extra(self, pr):
        return f'TYPE2 = {pr.ty(self.t2)}\n'


def job_history(case):
    def run(c):
        prepare(c)
        v = val()
        m = v.types(case, case.extra)
        c.source = m.SOURCE
        c.module = m
        before = facts(m)
        c.v1 = value_of(case, 'first')
        attempt(m.THE_TYPE, c.v1)
        c.v2 = c.v1 if case.same else value_of(case, 'second', case.t2)
        c.after = attempt(m.TYPE2, c.v2)
        c.changed = [k for k, x in facts(m).items() if before.get(k) != x]
        # the same validation in a fresh process
        v.restore()
        m = v.types(case, case.extra)
        c.fresh = attempt(m.TYPE2, c.v2)

    def attempt(typ, value):
        try:
            val().call('validate_type', value, typ)
            return 'is accepted'
        except PyRaise as e:
            if isinstance(e.exc, (TypeError, ValueError)):
                return 'is rejected'
            return f'raises {type(e.exc).__name__}'

    def judge(c, kind, r):
        if kind == 'raise':
            return 'crash', f'{type(r.exc).__name__}: {c.decode(str(r.exc))}'
        if c.v1.mutated():
            return 'mutation', f'the first value is changed: {c.v1.describe()}'
        if c.v2.mutated():
            return 'mutation', f'the value is changed: {c.v2.describe()}'
        if c.changed:
            return 'mutation', f'the validation changes {c.changed[0]}'
        if c.after != c.fresh:
            return 'history', (f'{c.v2.describe()} as {show(case.t2)} {c.after} after validating {c.v1.describe()} as '
                               f'{show(case.ty)}, but {c.fresh} otherwise')
        return None
    return outcome(case, run, judge)


def facts(m):
    out = {}
    for cls in classes(m):
        d = vars(cls)
        for a in ('__annotations__', '__required_keys__', '__optional_keys__', '__total__'):
            if a in d:
                x = d[a]
                out[f'{cls.__qualname__}.{a}'] = list(x) if isinstance(x, dict) else x
        if '_member_map_' in d:
            out[f'{cls.__qualname__} members'] = {k: v.value for k, v in d['_member_map_'].items()}
    return out


def homonyms():
    """Pairs of different classes that have the same name (e.g. because they are made within functions)."""
    def pair(a, b):
        a.name, b.name, a.py, b.py = 'FIRST', 'SECOND', 'X', 'X'
        return a, b
    return {
        'enums': pair(Enm('', ['x', 'y']), Enm('', ['p', 'q'])),
        'enums2': pair(Enm('', ['x', 'y']), Enm('', ['x'])),
        'enums3': pair(Enm('', [1]), Enm('', [1, 2])),
        'records': pair(Rec('', [('a', INT, False)]), Rec('', [('a', STR, False)])),
        'records2': pair(Rec('', [('a', INT, True)]), Rec('', [('a', INT, False)])),
        'records3': pair(Rec('', [('a', INT, False)]), Rec('', [('b', INT, False)])),
    }


def history_cases(tier):
    nested = Enm('ES', ['p', 'q'], 'NS.ES')
    types_ = {
        'int': (INT, []), 'lit': (lit('u', 1), []), 'lit2': (lit('w', 2), []), 'enum': (ref('ES'), [ES]),
        'enum2': (ref('EM'), [EM]), 'record': (ref('P'), [P]), 'record2': (ref('PO'), [PO]),
        'array': (arr(INT), []), 'array2': (arr(STR), []), 'union': (uni(INT, STR), []),
        'nullable': (uni(INT, NULL), []), 'map': (mp(STR), []), 'tuple': (tup(INT, STR), []),
        'number': (NUM, []), 'any': (ANY, []), 'forward': (ref('R'), [Rec('R', [('f', ref('ES'), True)]), ES]),
        'alias': (ref('AU'), [AU]), 'field-array': (ref('R2'), [Rec('R2', [('f', arr(INT), False)])]),
    }
    if tier == 'thorough':
        types_.update({'generic': (ref('G', INT), [G]), 'map-enum': (mp(ref('ES')), [ES]),
                       'union-record': (uni(ref('P'), ref('PO')), [P, PO])})
    styles = ('modern', 'shim') if tier == 'thorough' else ('modern',)
    for style in styles:
        for k, (d1, d2) in homonyms().items():
            for same in (False, True):
                yield HistCase(f'homonyms:{k}' + (' same value' if same else ''), ref('FIRST'), ref('SECOND'), [d1, d2], style, same)
                yield HistCase(f'homonyms:{k} reversed' + (' same value' if same else ''), ref('SECOND'), ref('FIRST'), [d1, d2], style, same)
            yield HistCase(f'homonyms:{k}[]', arr(ref('FIRST')), arr(ref('SECOND')), [d1, d2], style, False)
        for n1, (t1, d1) in types_.items():
            for n2, (t2, d2) in types_.items():
                ds = d1 + [d for d in d2 if all(d is not x for x in d1)]
                yield HistCase(f'{n1};{n2}', t1, t2, ds, style, False)
                if n1 != n2 and (tier == 'thorough' or 'record' in n1 + n2 or 'enum' in n1 + n2):
                    yield HistCase(f'{n1};{n2} same value', t1, t2, ds, style, True)
                elif n1 == n2:
                    yield HistCase(f'{n1};{n2} same value', t1, t2, ds, style, True)
