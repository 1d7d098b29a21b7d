"""shims.py - decides what typeddict_shim.py makes of a class declaration.

The metaclass of the replacement TypedDict is interpreted abstractly on class
declarations with unknown field and type names and annotations of every form."""

import keyword
import sys
import types
import typing

from . import core, validation as V
from .core import PyRaise
from .lazy import pick

MODULE = 'verif_shim_types'

# annotation -> may the field be left out?   X: an unknown class, declared later
FORMS = {
    'int': False, 'Any': False, 'List[int]': False, 'Literal["u"]': False, 'T': False,
    'Optional[int]': True, 'Union[int, None]': True, 'Union[None, int]': True, 'Union[int, str, None]': True,
    'Union[Optional[int], str]': True, 'Optional[Union[int, str]]': True,
    'Union[int, str]': False, 'List[Optional[int]]': False, 'Dict[str, Union[int, None]]': False,
    'Tuple[Optional[int], str]': False, 'Union[List[Optional[int]], str]': False,
    'Callable[[Optional[int]], str]': False, 'Optional[Callable[[int], str]]': True,
    'int | None': True, 'None | int': True, 'int | str': False, 'int | str | None': True,
    'List[int | None]': False, 'List[int] | None': True,
    'NotRequired[int]': True, 'NotRequired[List[int]]': True, 'NotRequired[Optional[int]]': True,
    'NotRequired["X"]': True, 'Literal["u", None]': False,
    '"X"': False, 'Optional["X"]': True, 'Union["X", None]': True, 'List["X"]': False, 'List[Optional["X"]]': False,
    '"Optional[X]"': True, '"NotRequired[X]"': True, '"Union[X, None]"': True, '"Union[None, X]"': True,
    '"X | None"': True, '"None | X"': True, '"X | int"': False, '"int | X | None"': True, '"List[X]"': False,
    '"List[Optional[X]]"': False, '"List[X | None]"': False, '"Dict[str, Optional[X]]"': False,
    '"Union[X, int]"': False, '"Union[List[Optional[X]], int]"': False, '"Union[List[X], None]"': True,
    '"Union[Dict[str, X], None]"': True, '"Union[X, int, None]"': True, '"Dict[str, X] | None"': True,
    '"Callable[[X, None], int]"': False, '"Callable[[X], None]"': False, '"Callable[[X], None] | None"': True,
    '"Union[Optional[X], int]"': True, '"Union[int, Union[X, None]]"': True, '"NotRequired[X | None]"': True,
    '"Union[X, int] | None"': True, '"Union[X, None] | int"': True, '"Union[X, int] | str"': False,
    '"None | Union[X, int]"': True, '"Union[X, int] | List[Union[X, None]]"': False, '"Union[X, List[int]] | Dict[str, None]"': False,
    '"Callable[(int, None), X]"': False, '"Literal[None]"': False, '"Optional[X] | int"': True,
    '"X | List[None]"': False,
    '"Tuple[X, None]"': False, '"Optional[Callable[[X], None]]"': True, '"Any"': False,
}
FEW = ('int', 'Optional[int]', '"X"', '"X | None"', 'NotRequired[int]', 'List[Optional[int]]')


class ShimCase:
    """classes: [(name, bases, [(field, form)])]; the last one is judged."""
    style = 'shim'

    def __init__(self, label, classes, how='class', generic=False):
        self.label, self.classes, self.how, self.generic = label, classes, how, generic

    def source(self, n):
        out = ['from typing import *', 'from _shim import TypedDict, GenericTypedDict', 'T = TypeVar("T")']

        def form(f):
            return f.replace('X', n('@X'))
        for name, bases, fields in self.classes:
            if self.how == 'class':
                bs = list(bases) or ['TypedDict']
                if self.generic and not bases:
                    bs = ['GenericTypedDict', 'Generic[T]'] if self.generic == 'both' else ['Generic[T]', 'GenericTypedDict']
                out.append(f'class {name}({", ".join(bs)}):')
                out += [f'    {n(f)}: {form(t)}' for f, t in fields] or ['    pass']
            elif self.how == 'dict':
                out.append(f'{name} = TypedDict("{name}", {{' +
                           ', '.join(f'"{n(f)}": {form(t)}' for f, t in fields) + '})')
            elif self.how == 'kwargs':
                out.append(f'{name} = TypedDict("{name}", ' + ', '.join(f'{n(f)}={form(t)}' for f, t in fields) + ')')
            elif self.how == 'future':
                if 'from __future__' not in out[0]:
                    out.insert(0, 'from __future__ import annotations')
                out.append(f'class {name}({", ".join(bases) or "TypedDict"}):')
                out += [f'    {n(f)}: {form(t).strip(chr(34))}' for f, t in fields] or ['    pass']
        return '\n'.join(out) + '\n'

    def expected(self):
        """field -> optional?, of the last class"""
        table = {}
        for name, bases, fields in self.classes:
            d = {}
            for b in bases:
                d.update(table[b])
            for f, t in fields:
                d.pop(f, None)
                d[f] = (FORMS[t], t)
            table[name] = d
        return table[self.classes[-1][0]]


def job(case):
    def run(c):
        V.prepare(c)
        v = V.val()
        holes = {}

        def n(name):
            if name not in holes:
                # the type name is arbitrary: it may begin with anything
                holes[name] = c.hole('ident', name, fresh=name != '@X')
            return holes[name]
        src = case.source(n)
        c.source = src
        shim = types.ModuleType('_shim')
        shim.TypedDict = v.shim.ns['TypedDict']
        shim.GenericTypedDict = v.shim.ns['GenericTypedDict']
        sys.modules['_shim'] = shim
        m = types.ModuleType(MODULE)
        sys.modules[MODULE] = m
        c.n = n
        try:
            exec(compile(src, '<types>', 'exec', dont_inherit=True), m.__dict__)
        except PyRaise:
            raise
        except core.Infeasible:
            raise
        except Exception as e:
            # raised natively while the class is created
            raise PyRaise(e)
        cls = getattr(m, case.classes[-1][0])
        c.cls = cls
        if case.how == 'class':
            c.made = v.world.interp.call(cls, (), {'k': 1})
        else:
            c.made = {'k': 1}
        c.isdict = v.world.interp.call(v.shim.ns['is_typeddict'], (cls,), {})
        c.isnot = [x for x in (int, dict, typing.List[int], None, str, 'Foo')
                   if v.world.interp.call(v.shim.ns['is_typeddict'], (x,), {})]
        return cls

    def judge(c, kind, r):
        if kind == 'raise':
            return 'crash', f'{type(r.exc).__name__}: {c.decode(str(r.exc))}'
        if keyword.iskeyword(core.canon(c.n('@X'))):
            return None       # no class can have such a name
        exp = {c.n(f): v for f, v in case.expected().items()}
        req = getattr(r, '__required_keys__', None)
        opt = getattr(r, '__optional_keys__', None)
        ann = getattr(r, '__annotations__', {})
        d = lambda ks: '{' + ', '.join(sorted(c.decode(k) for k in ks)) + '}'
        if req is None or opt is None:
            return 'keys', 'required or optional keys are missing'
        if set(req) & set(opt):
            return 'keys', f'{d(set(req) & set(opt))} are required and optional at the same time'
        if set(req) | set(opt) != set(exp):
            return 'keys', f'the keys are {d(set(req) | set(opt))} instead of {d(exp)}'
        if set(ann) != set(exp):
            return 'annotations', f'the annotations are {d(ann)} instead of {d(exp)}'
        for f, (o, t) in exp.items():
            if o != (f in opt):
                cond = '; '.join(lb for k, n, lb in c.oracle.trace if n > 1 and k)
                return 'optional', (f'{c.decode(f)}: {t} is {"required" if o else "optional"}' +
                                    (f' if {cond}' if cond else ''))
        if not isinstance(c.made, dict) or c.made != {'k': 1} or type(c.made) is not dict:
            return 'instance', f'calling the class returns {c.made!r} instead of a plain dictionary'
        if getattr(r, '__module__', None) != MODULE:
            return 'module', (f'the class belongs to the module {r.__module__} instead of the one that declares it: '
                              'types it refers to by name are looked up there')
        if getattr(r, '__name__', None) != case.classes[-1][0]:
            return 'name', f'the class is called {r.__name__}'
        if not c.isdict:
            return 'is_typeddict', 'is_typeddict() does not recognise the class'
        if c.isnot:
            return 'is_typeddict', f'is_typeddict() is true for {c.isnot[0]!r}'
        return None
    return V.outcome(case, run, judge)


def partition_cases(tier):
    forms = list(FORMS)
    for f in forms:
        yield ShimCase(f'one({f})', [('A', [], [('@a', f)])])
    second = forms if tier == 'thorough' else FEW
    for f in forms:
        for g in second:
            yield ShimCase(f'two({f}; {g})', [('A', [], [('@a', f), ('@b', g)])])
            if f not in FEW:
                yield ShimCase(f'two({g}; {f})', [('A', [], [('@a', g), ('@b', f)])])
            yield ShimCase(f'derived({f}; {g})', [('A', [], [('@a', f)]), ('B', ['A'], [('@b', g)])])
            yield ShimCase(f'redeclared({f}; {g})', [('A', [], [('@a', f)]), ('B', ['A'], [('@a', g)])])
    for f in FEW:
        yield ShimCase(f'generic({f})', [('A', [], [('@a', f)])], generic='both')
        yield ShimCase(f'generic-first({f})', [('A', [], [('@a', f)])], generic='first')
        yield ShimCase(f'empty-derived({f})', [('A', [], [('@a', f)]), ('B', ['A'], [])])
        for g in FEW:
            yield ShimCase(f'bases({f}; {g})', [('A', [], [('@a', f)]), ('B', [], [('@b', g)]),
                                                ('C', ['A', 'B'], [('@c', 'int')])])
            yield ShimCase(f'grand({f}; {g})', [('A', [], [('@a', f)]), ('B', ['A'], [('@b', g)]), ('C', ['B'], [])])
            yield ShimCase(f'grand-redeclared({f}; {g})', [
                ('A', [], [('@a', f)]), ('B', ['A'], [('@b', 'int')]), ('C', ['B'], [('@a', g), ('@c', 'int')])])
            yield ShimCase(f'base-redeclared({f}; {g})', [
                ('A', [], [('@a', f)]), ('B', [], [('@a', g)]), ('C', ['A', 'B'], [])])
            yield ShimCase(f'both-redeclared({f}; {g})', [
                ('A', [], [('@a', f)]), ('B', [], [('@b', g)]), ('C', ['A', 'B'], [('@b', 'int'), ('@a', 'int')])])


def spelling_cases(tier):
    """The other ways to declare the same class."""
    for how in ('dict', 'kwargs', 'future'):
        forms = [f for f in FORMS if how != 'future' or f.count('"') in (0, 2) and (
            f.count('"') == 0 or f.startswith('"'))]
        for f in forms:
            yield ShimCase(f'{how}({f})', [('A', [], [('@a', f)])], how)
        for f in (forms if tier == 'thorough' else [x for x in FEW if x in forms]):
            for g in [x for x in FEW if x in forms]:
                yield ShimCase(f'{how}({f}; {g})', [('A', [], [('@a', f), ('@b', g)])], how)
                if how == 'future':
                    yield ShimCase(f'{how}:derived({f}; {g})', [('A', [], [('@a', f)]), ('B', ['A'], [('@b', g)])], how)
