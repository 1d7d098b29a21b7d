"""dispatch.py - decides what singledispatch_shim.py dispatches to.

The generic function is interpreted abstractly through histories of
registrations, declarations of classes and calls.  The classes are tokens with
an *unknown hierarchy*: whether one class is a kind of another, in which order the base
classes of a class are searched, and whether a class is abstract (so that
others may be declared its kind later on) is split only where it matters.
Every path is compared with the implementation that belongs to the most specific
class among all registrations, resolved as if all names had been known."""

import functools
import itertools
import sys
import types
import typing
import weakref

from . import core, sched, stubs, validation as V
from .core import PyRaise
from .pipeline import Stateful, Anchor

FLOOR = (object, list, dict, str, int, type(None), type)


class Facts:
    """What is known about the hierarchy of the token classes (on this path)."""

    def __init__(self, tokens, abstract=True):
        self.tokens, self.abstract = tokens, abstract
        self.sub_, self.rank, self.abc_ = {}, {}, {}
        self.token = 0

    def is_token(self, k):
        return k in self.tokens

    def abc(self, k):
        if not self.abstract:
            return False
        if k not in self.abc_:
            self.abc_[k] = bool(core.CTX.oracle.choose(2, f'{k.__name__} is an abstract base class'))
        return self.abc_[k]

    def sub(self, d, k):
        """Is d a kind of k?"""
        if d is k or k is object:
            return True
        if not isinstance(k, type):
            return False
        if not self.is_token(d):
            if not self.is_token(k):
                return issubclass(d, k)
            return self.sub_.get((d, k), False)
        if not self.is_token(k) and k not in (list, dict):
            return False
        if (d, k) not in self.sub_:
            if self.sub_.get((k, d)):
                return False
            if any(self.sub_.get((d, x)) and self.sub_.get((x, k)) for x in self.tokens):
                return True
            if any((self.sub_.get((x, d)) and self.sub_.get((x, k)) is False) or
                   (self.sub_.get((k, x)) and self.sub_.get((d, x)) is False) for x in self.tokens):
                return False
            self.sub_[d, k] = bool(core.CTX.oracle.choose(2, f'{d.__name__} is a kind of {k.__name__}'))
        return self.sub_[d, k]

    def nearest(self, d, classes):
        """The class that is searched first among those that d is a kind of."""
        cand = [k for k in classes if isinstance(k, type) and k is not object and self.sub(d, k)]
        if d in cand:
            return d
        if not cand:
            return object
        if not self.is_token(d) and not any(self.is_token(k) for k in cand):
            mro = [k for k in d.__mro__ if k in cand]
            return mro[0] if mro else cand[0]
        r = self.rank.setdefault(d, [])
        for k in cand:
            if k not in r:
                lo = max([i + 1 for i, x in enumerate(r) if self.sub_.get((x, k))], default=0)
                hi = min([i for i, x in enumerate(r) if self.sub_.get((k, x))], default=len(r))
                i = lo + (core.CTX.oracle.choose(hi - lo + 1, f'position of {k.__name__} among the bases of {d.__name__}')
                          if hi > lo else 0)
                r.insert(i, k)
        return min(cand, key=r.index)

    def virtual(self, d, k):
        """K.register(D) of an abstract base class K"""
        if not self.abc(k):
            raise core.Infeasible()
        if self.sub_.get((d, k)):
            raise core.Infeasible()
        self.sub_[d, k] = True
        self.token += 1


class Dispatch(Stateful):
    def __init__(self):
        real = stubs.real
        ft = {k: getattr(functools, k) for k in ('update_wrapper', 'wraps', 'partial', 'lru_cache', 'singledispatch')}
        ft['_find_impl'] = self.find_impl
        ft['get_cache_token'] = lambda: core.CTX.facts.token
        sysm = stubs.make_sys()
        sysm._ns['modules'] = sys.modules
        sysm._ns['version_info'] = sys.version_info
        self.world = stubs.World(overrides={
            'weakref': real(weakref), 'functools': stubs.Stub('functools', ft, strict=True), 'sys': sysm,
            'threading': sched.threading_module(),
            'abc': stubs.Stub('abc', {'get_cache_token': ft['get_cache_token']}, strict=True)})
        self.world.interp.intrinsics[hasattr] = self.hasattr_
        self.world.interp.intrinsics[issubclass] = self.issubclass_
        self.mod = self.world.load('ts2python.singledispatch_shim')
        for n in ('singledispatch', 'singledispatchmethod'):
            if n not in self.mod.ns:
                raise Anchor(f'{n} not found in singledispatch_shim.py')
        self.snapshot()

    @staticmethod
    def find_impl(cls, registry):
        k = core.CTX.facts.nearest(cls, registry.keys())
        return registry.get(k)

    @staticmethod
    def hasattr_(interp, obj, name):
        if name == '__abstractmethods__' and isinstance(obj, type) and core.CTX.facts.is_token(obj):
            return core.CTX.facts.abc(obj)
        return stubs.m_hasattr(interp, obj, name)

    @staticmethod
    def issubclass_(interp, a, b):
        f = core.CTX.facts
        if isinstance(a, type) and f.is_token(a) and isinstance(b, type):
            return f.sub(a, b)
        return stubs.m_issubclass(interp, a, b)

    def call(self, f, *a, **k):
        return self.world.interp.call(f, a, k)


_D = None


def disp():
    global _D
    if _D is None:
        _D = Dispatch()
    return _D


# ------------------------------------------------------------------ histories

# annotation -> (classes it stands for, names it needs)
FORMS = {
    'A': 'A', '"A"': 'A', '"B"': 'B', 'Optional["B"]': 'B NoneType', 'int': 'int', '"int"': 'int', 'None': 'NoneType', 'list': 'list',
    'Union[A, B]': 'A B', 'A | B': 'A B', 'Union["A", B]': 'A B', 'Union[A, "B"]': 'A B', '"Union[A, B]"': 'A B',
    '"A | B"': 'A B', 'Union["A", "B"]': 'A B', 'Union["A", int]': 'A int', '"A | int"': 'A int', '"int | A"': 'A int',
    'Union[A, int, str]': 'A int str', 'Optional["A"]': 'A NoneType', 'Optional[A]': 'A NoneType',
    '"Optional[A]"': 'A NoneType', '"A | None"': 'A NoneType', 'Optional[int]': 'int NoneType',
    'List[str]': 'list', 'List["A"]': 'list', '"List[A]"': 'list', 'list["A"]': 'list', 'Dict[str, "A"]': 'dict',
    'Dict[str, int]': 'dict', 'Union[List["A"], int]': 'list int', '"List[A] | B"': 'list B',
    'Optional[List[A]]': 'list NoneType', 'Literal["u", "v"]': 'str', 'Literal["u", 1]': 'str int',
    'Union[Literal["u"], A]': 'str A', 'Any': 'object', '"Any"': 'object', 'T': 'object', 'object': 'object',
    'Union["A", List["A"], None]': 'A list NoneType', 'Type[A]': 'type', 'Annotated[A, "u"]': 'A', 'Final["A"]': None,
    'Union[Union["A", int], B]': 'A int B',
}
FORMS = {k: v for k, v in FORMS.items() if v}
# ways to register with a class instead of an annotation
CLS = {'cls:A': 'A', 'cls:B': 'B', 'cls:int': 'int', 'cls:A|B': 'A B', 'cls:Union[A, B]': 'A B', 'cls:Union[A, int]': 'A int'}
ALL = {**FORMS, **CLS}
BUILTINS = {'int': int, 'str': str, 'list': list, 'dict': dict, 'NoneType': type(None), 'object': object, 'type': type}
VALUES = {int: 1, str: 'u', list: ['u'], dict: {'u': 1}, type(None): None}


def needs(form):
    """names that are evaluated when the function is defined, and later"""
    text = form[4:] if form.startswith('cls:') else form
    import re
    quoted = re.findall(r'"[^"]*"', text)
    out = re.sub(r'"[^"]*"', '', text)
    names = lambda s: {n for n in re.findall(r'\w+', s) if n in 'ABD'}
    return names(out), set().union(*[names(q) for q in quoted] or [set()])


class Hist(V.Case):
    """events: ('reg', form) | ('decl', name) | ('call', name) | ('virtual', sub, super) | ('par', event, event)"""
    bound = 1      # of preemptions

    def __init__(self, label, events, how='function', using='decorator'):
        super().__init__(label, None)
        self.events, self.how, self.using = events, how, using
        self.style = how

    def text(self):
        return f'{self.how}: ' + '; '.join(' '.join(map(str, e)) for e in self.events)


@functools.lru_cache(1000)
def compiled(src):
    return compile(src, '<functions>', 'exec', dont_inherit=True)


def job(case):
    def run(c):
        d = disp()
        tokens = {n: type(n, (), {'__module__': 'verif_dispatch'}) for n in ('A', 'B', 'D')}
        c.facts = Facts(set(tokens.values()), len([e for e in case.events if e[0] == 'reg']) < 2 or
                        any(e[0] == 'virtual' for e in case.events))
        for clear in typing._cleanups:      # forward references remember what they have been resolved to
            clear()
        d.restore()
        c.source = case.text()
        ns = {'__name__': 'verif_dispatch'}
        for n in ('Union', 'Optional', 'List', 'Dict', 'Any', 'Literal', 'TypeVar', 'Type', 'Annotated'):
            ns[n] = getattr(typing, n)
        ns['T'] = typing.TypeVar('T')
        mod = types.ModuleType('verif_dispatch')
        mod.__dict__.update(ns)
        ns = mod.__dict__
        sys.modules['verif_dispatch'] = mod
        known = {**BUILTINS, **tokens}
        logs = [], []

        def body(tag, *a, **k):
            logs[sched.current()].append((tag, a, k))
            return ('result', tag)
        ns['BODY'] = body
        meth = case.how != 'function'
        receiver = {'function': '', 'method': 'self, ', 'classmethod': 'cls, ', 'staticmethod': ''}[case.how]
        deco = {'classmethod': '@classmethod\n', 'staticmethod': '@staticmethod\n'}.get(case.how, '')

        def fn(tag, ann):
            if case.using == 'noreturn':
                ret = ''
            else:
                ret = ' -> Any'
            exec(compiled(f'{deco}def f{tag}({receiver}x{": " + ann if ann else ""}, *rest, **kw){ret}:\n'
                          f'    return BODY({tag}, {receiver}x, *rest, **kw)\n'), ns)
            return ns[f'f{tag}']
        base = fn(0, '')
        make = d.mod.ns['singledispatchmethod' if meth else 'singledispatch']
        gen = d.call(make, base)
        if meth:
            holder = type('G', (), {'gen': gen})
            inst = holder()
        regs = []          # (tag, form, classes, late)
        declared = set()
        c.judgements = []
        tag = 0

        def attr(obj, name):
            try:
                return getattr(obj, name)
            except AttributeError as x:
                raise PyRaise(x)

        def register(e):
            nonlocal tag
            tag += 1
            me = tag
            form = e[1]
            if form.startswith('cls:'):
                f = fn(me, '')
                cls = eval(form[4:], ns)
                if case.using == 'decorator':
                    r = d.call(d.call(attr(gen, 'register'), cls), f)
                else:
                    r = d.call(attr(gen, 'register'), cls, f)
            else:
                f = fn(me, form)
                r = d.call(attr(inst.gen if case.using == 'instance' else gen, 'register'), f)
            if r is not f:
                c.judgements.append(('returns', f'register() of {form} returns {r!r} instead of the function'))
            late = not needs(form)[1] <= declared
            return me, form, [known[x] for x in ALL[form].split()], late, set(declared)

        def call(e):
            k = known[e[1]]
            arg = k() if e[1] in tokens else VALUES[k]
            log = logs[sched.current()]
            log.clear()
            try:
                if case.using == 'query':
                    f = d.call(attr(gen, 'dispatch'), k)
                    res = f(arg, 'more', key='v') if callable(f) else f
                    lead = ()
                elif case.how == 'function':
                    res = d.call(gen, arg, 'more', key='v')
                    lead = ()
                else:
                    target = holder if case.how in ('classmethod', 'staticmethod') and case.using != 'instance' else inst
                    res = d.call(target.gen, arg, 'more', key='v')
                    lead = {'method': (inst,), 'classmethod': (holder,), 'staticmethod': ()}[case.how]
            except PyRaise as x:
                res, lead = x, ()
            except Exception as x:
                res, lead = PyRaise(x), ()
            return e, k, arg, res, lead, list(log)

        for e in case.events:
            if e[0] == 'decl':
                ns[e[1]] = tokens[e[1]]
                declared.add(e[1])
            elif e[0] == 'virtual':
                c.facts.virtual(tokens[e[1]], tokens[e[2]])
            elif e[0] == 'reg':
                regs.append(register(e))
            elif e[0] == 'bad':
                a = {'number': (5,), 'string': ('A',), 'unannotated': (fn(99, ''),), 'value': (fn(99, '5'),),
                     'both': (5, fn(99, ''))}[e[1]]
                if e[1] == 'unannotated':
                    a[0].__annotations__.clear()
                try:
                    d.call(attr(gen, 'register'), *a)
                    c.judgements.append(('register', f'register() accepts {e[1]}'))
                except PyRaise as x:
                    if not isinstance(x.exc, TypeError):
                        c.judgements.append(('register', f'register() of {e[1]} raises {type(x.exc).__name__}: {x.exc}'))
            elif e[0] == 'noargs':
                try:
                    d.call(gen)
                    c.judgements.append(('arguments', 'a call without arguments is accepted'))
                except PyRaise as x:
                    if not isinstance(x.exc, TypeError):
                        c.judgements.append(('arguments', f'a call without arguments raises {type(x.exc).__name__}'))
            elif e[0] == 'meta':
                g = inst.gen if meth else gen
                for n in ('__name__', '__doc__', '__module__', '__qualname__'):
                    if getattr(g, n, None) != getattr(base, n, None):
                        c.judgements.append(('meta', f'{n} of the generic function is {getattr(g, n, None)!r}'))
            elif e[0] == 'call':
                r = call(e)
                j = judge_call(c, case, *r, regs, declared)
                if j:
                    c.judgements.append(j)
            elif e[0] == 'par':
                ops = [functools.partial(call if x[0] == 'call' else register, x) for x in e[1:]]
                rs, where = sched.together(d.world, *ops, case.bound)
                at = f' (a thread goes on while the other one is at {where[0]})' if where else ''
                for kind, r in rs:
                    if kind == 'raise':
                        c.judgements.append(('crash', f'{type(r.exc).__name__}: {r.exc}{at}'))
                done = [r for kind, r in rs if kind == 'ok']
                new = sorted([r for r in done if isinstance(r[0], int)], key=lambda r: r[0])
                both = regs + new
                for r in done:
                    if not isinstance(r[0], int):
                        js = [judge_call(c, case, *r, x, declared) for x in ([regs, both] if new else [regs])]
                        if all(js):
                            c.judgements.append((js[0][0], js[0][1] + at))
                regs = both
        return None

    def judge(c, kind, r):
        if kind == 'raise':
            return 'crash', f'{case.text()}: {type(r.exc).__name__}: {r.exc}'
        if c.judgements:
            cond = '; '.join(lb if k else f'not ({lb})' for k, n, lb in c.oracle.trace
                             if n == 2 and 'thread goes on' not in lb)
            a, m = c.judgements[0]
            return a, f'{m}, after {case.text()}' + (f', if {cond}' if cond else '')
        return None
    return V.outcome(case, run, judge)


def judge_call(c, case, e, k, arg, res, lead, log, regs, declared):
    pending = [r for r in regs if not needs(r[1])[1] <= declared]
    table = {object: 0}
    unclear = set()
    lates = {}
    for tag, form, classes, late, then in regs:
        if not needs(form)[1] <= declared:
            unclear |= set(classes)
            continue
        for cls in classes:
            if any(not x <= then and x != needs(form)[1] for x in lates.get(cls, ())):
                unclear.add(cls)       # registered again, while an earlier registration was still postponed
            if late:
                lates.setdefault(cls, []).append(needs(form)[1])
            table[cls] = tag
    if isinstance(res, PyRaise):
        if pending and isinstance(res.exc, NameError):
            return None
        tr = ' in ' + res.trace[0][1] if res.trace else ''
        return 'crash', f'call with an instance of {e[1]} raises {type(res.exc).__name__}: {res.exc}{tr}'
    if pending and not any(k in r[2] for r in regs):
        return 'unresolved', (f'call with an instance of {e[1]} ignores that the reference in {pending[0][1]} '
                              'is still unknown')
    near = c.facts.nearest(k, list(table) + [u for u in unclear if u not in table])
    if near in unclear:
        return None
    want = table[near]
    if len(log) != 1:
        return 'calls', f'call with an instance of {e[1]}: implementations are called {len(log)} times'
    tag, a, kw = log[0]
    if tag != want:
        show = lambda t: 'the default' if t == 0 else f'the implementation for {dict((x[0], x[1]) for x in regs).get(t, "something else")}'
        return 'dispatch', f'call with an instance of {e[1]} ends up in {show(tag)} instead of {show(want)}'
    if len(a) != len(lead) + 2 or any(x is not y for x, y in zip(a, lead + (arg,))) or a[-1] != 'more' or kw != {'key': 'v'}:
        return 'arguments', f'the implementation for {e[1]} is called with other arguments: {a!r}, {kw!r}'
    if res != ('result', tag):
        return 'result', f'the result of the implementation for {e[1]} is not passed through: {res!r}'
    return None


def names_of(forms):
    now, later = set(), set()
    for f in forms:
        a, b = needs(f)
        now |= a
        later |= b
    return now, later


def schedules(forms, never=True):
    """All positions at which the classes can be declared."""
    now, later = names_of(forms)
    names = sorted(now | later)
    opts = []
    for n in names:
        firstuse = next((i for i, f in enumerate(forms) if n in needs(f)[0]), None)
        o = list(range(0, (len(forms) if firstuse is None else firstuse) + 1))
        if firstuse is None and never:
            o.append(None)
        opts.append([(n, i) for i in o])
    for combo in itertools.product(*opts):
        yield dict(combo)


def events(forms, sched, calls, gaps):
    """gaps: at which gaps (0..len) the calls are made; the end is always one"""
    ev = []
    for i in range(len(forms) + 1):
        for n, p in sched.items():
            if p == i:
                if (i, 'pre') in gaps:
                    ev += [('call', x) for x in calls if x not in sched or any(y == ('decl', x) for y in ev)]
                ev.append(('decl', n))
        if i in gaps or i == len(forms):
            ev += [('call', x) for x in calls if x not in sched or any(y == ('decl', x) for y in ev)]
        if i < len(forms):
            ev.append(('reg', forms[i]))
    return tuple(ev)


def calls_for(forms):
    ks = set(' '.join(ALL[f] for f in forms).split()) - {'object', 'type'}
    return sorted(ks) + ['D'] + ([] if 'str' in ks else ['str'])


def history_cases(tier):
    seen = set()

    def emit(ev, how, using):
        k = (ev, how, using)
        if k not in seen:
            seen.add(k)
            yield Hist(f'{how}({"; ".join(" ".join(e) for e in ev)})', ev, how, using)
    hows = [('function', 'decorator')]
    for f in ALL:
        for s in schedules([f]):
            cs = calls_for([f])
            for g in ((), (0,), (1,), (0, 1), (0, (1, 'pre'))):
                for how, using in hows + [('function', 'direct'), ('function', 'query')]:
                    yield from emit(events([f], s, cs, g), how, using)
                for x in cs:
                    yield from emit(events([f], s, [x], g), 'function', 'decorator')
    few = ['A', '"A"', '"B"', 'int', 'cls:A', 'Union["A", int]', '"A | B"', 'List["A"]', '"Any"', 'Optional["B"]']
    pool = few if tier == 'quick' else list(ALL)
    for f, g in itertools.product(pool, few):
        for s in schedules([f, g], never=tier == 'thorough' or (f in few[:4])):
            cs = calls_for([f, g])
            for gaps in ((), (1,), (0, 1, (1, 'pre'), (2, 'pre'))) + ((((2, 'pre'),),) if tier == 'thorough' else ()):
                yield from emit(events([f, g], s, cs, gaps), 'function', 'decorator')
    trio = ['"A"', '"B"', 'cls:A', 'int', '"A | B"'] + (['List["A"]', '"Any"'] if tier == 'thorough' else [])
    for fs in itertools.product(trio, repeat=3):
        for s in schedules(fs, never=False):
            for gaps in ((), (1, 2)) if tier == 'quick' else ((), (1, 2), (2, (3, 'pre'))):
                yield from emit(events(fs, s, calls_for(fs), gaps), 'function', 'decorator')
    # classes that become a kind of another one later
    for f in ('A', 'cls:A', '"A"', 'Union["A", int]', '"A | B"'):
        for others in ((), ('cls:B',), ('"B"',)):
            fs = [f, *others]
            for warm in (('D',), ('A', 'D'), ()):
                ev = [('decl', 'A'), ('decl', 'B')] + [('reg', x) for x in fs] + [('call', x) for x in warm] + \
                    [('virtual', 'D', 'A'), ('call', 'D'), ('call', 'A')]
                yield from emit(tuple(ev), 'function', 'decorator')
                ev = [('reg', x) for x in fs if '"' in x] + ev[:2] + [('reg', x) for x in fs if '"' not in x] + ev[2 + len(fs):]
                yield from emit(tuple(ev), 'function', 'decorator')


def method_cases(tier):
    seen = set()
    for how in ('method', 'classmethod', 'staticmethod'):
        for using in ('decorator', 'instance', 'direct'):
            for f in ALL:
                if f.startswith('cls:') and using == 'instance':
                    continue
                for s in schedules([f]):
                    for g in ((), (0, 1)) if tier == 'quick' else ((), (0,), (1,), (0, 1), (0, (1, 'pre'))):
                        ev = events([f], s, calls_for([f]), g)
                        if (ev, how, using) not in seen:
                            seen.add((ev, how, using))
                            yield Hist(f'{how}/{using}({"; ".join(" ".join(e) for e in ev)})', ev, how, using)
    for how in ('function', 'method'):
        yield Hist(f'{how}:meta', (('meta',), ('decl', 'A'), ('reg', 'A'), ('meta',), ('call', 'A'), ('meta',)), how)
        for bad in ('number', 'string', 'unannotated', 'value', 'both'):
            for regs in ((), ('int',), ('"A"',), ('int', '"A"')):
                ev = [('reg', r) for r in regs] + [('bad', bad), ('decl', 'A')] + [
                    ('call', x) for x in ('str', 'A', 'int')]
                yield Hist(f'{how}:bad({bad}; {"; ".join(regs)})', tuple(ev), how)
    yield Hist('function:noargs', (('noargs',), ('reg', 'int'), ('noargs',), ('call', 'int')))
    few = ['"A"', '"B"', 'int', 'cls:A', '"A | B"'] if tier == 'quick' else \
        ['A', '"A"', '"B"', 'int', 'cls:A', 'Union["A", int]', '"A | B"', 'List["A"]', '"Any"']
    for f, g in itertools.product(few, few):
        for s in schedules([f, g], never=False):
            for how in ('method', 'classmethod'):
                ev = events([f, g], s, calls_for([f, g]), (1,))
                yield Hist(f'{how}({"; ".join(" ".join(e) for e in ev)})', ev, how, 'decorator')
