"""core.py - path oracle, abstract text domain and finite value domains.

The analysis is a disjunctive (trace-partitioned) abstract interpretation:
every fact that the abstract state does not determine is split by the
*oracle* into its finitely many possibilities, and all of them are explored.

Text domain
    An abstract text is a *template*: literal fragments interleaved with
    *holes*.  A hole stands for a text the analysis does not know (the name of
    an interface, the rendering of a nested type ...).  Templates are encoded
    as ordinary Python strings in which every hole is one reserved letter
    (CJK block), so concatenation, formatting, joining, splitting, replacing
    and regular-expression substitution on templates are literally the
    operations on the encoded text.  Operations whose outcome depends on the
    unknown content of a hole are intercepted (see ``may_*`` below) and split.
"""

import re

HOLE_BASE = 0x4E00
HOLE_TOP = 0x9F00


class Unsupported(Exception):
    """The interpreter met a construct it has no abstract semantics for."""


class PathLimit(Exception):
    """Too many abstract paths."""


class Infeasible(Exception):
    """The current combination of choices contradicts itself."""


class PyRaise(BaseException):
    """An exception raised by the interpreted program."""
    def __init__(self, exc, trace=None):
        self.exc = exc
        self.trace = trace or []


class Oracle:
    """Depth-first enumeration of all choice sequences (replay based)."""

    def __init__(self, prefix=()):
        self.script = list(prefix)
        self.trace = []          # (index, number of options, label)
        self.memo = {}

    def choose(self, n, label=''):
        i = len(self.trace)
        k = self.script[i] if i < len(self.script) else 0
        self.trace.append((k, n, label))
        return k

    def pick(self, key, options, label=''):
        """Choose one of options, remembering the choice under key."""
        if key in self.memo:
            return self.memo[key]
        options = list(options)
        v = options[0] if len(options) == 1 else options[self.choose(len(options), label or str(key))]
        self.memo[key] = v
        return v

    def next_script(self):
        t = list(self.trace)
        while t:
            k, n, _ = t.pop()
            if k + 1 < n:
                return [x[0] for x in t] + [k + 1]
        return None


class Hole:
    """Metadata of one hole."""
    __slots__ = ('char', 'kind', 'label', 'fresh', 'contains', 'node')

    def __init__(self, char, kind, label, fresh=True, contains=(), node=None):
        self.char = char
        self.kind = kind          # 'ident', 'text', 'num', 'hash', 'raw' ...
        self.label = label
        self.fresh = fresh        # differs from every literal, keyword and other hole
        self.contains = contains  # sub-texts it may contain (beyond identifiers)
        self.node = node

    def __repr__(self):
        return f'<{self.kind}:{self.label}>'


class Ctx:
    """The abstract state that is not part of the interpreted program."""

    def __init__(self, oracle=None):
        self.oracle = oracle or Oracle()
        self.holes = {}
        self.events = []
        self.canon = {}
        self.steps = 0
        self.calls = []       # stack of interpreted functions (for diagnosis)
        self.visited = set()  # functions entered
        self.config = {}
        self.notes = []
        self.set_orders = False   # analyse more than one order of the elements of sets

    def hole(self, kind, label, fresh=True, contains=(), node=None):
        c = chr(HOLE_BASE + len(self.holes))
        assert ord(c) < HOLE_TOP
        self.holes[c] = Hole(c, kind, label, fresh, tuple(contains), node)
        return c

    def event(self, *ev):
        self.events.append(ev)

    def decode(self, s):
        if not isinstance(s, str):
            return repr(s)
        return ''.join(f'‹{self.holes[c].label}›' if c in self.holes else c for c in s)


CTX = None    # the current context (one analysis at a time)


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c
    return c


def is_hole_char(c):
    return HOLE_BASE <= ord(c) < HOLE_TOP


def has_hole(s):
    return isinstance(s, str) and any(HOLE_BASE <= ord(c) < HOLE_TOP for c in s)


def holes_in(s):
    return [c for c in s if HOLE_BASE <= ord(c) < HOLE_TOP]


def unfresh(s):
    """Are there holes in s whose content may coincide with something else?"""
    return any(not CTX.holes[c].fresh for c in s if c in CTX.holes)


def canon(s):
    if CTX.canon and isinstance(s, str):
        n = 0
        while any(c in CTX.canon for c in s) and n < 20:
            s = ''.join(CTX.canon.get(c, c) for c in s)
            n += 1
    return s


def _pattern(s):
    out = []
    for c in s:
        h = CTX.holes.get(c)
        if h is None:
            out.append(re.escape(c))
        elif h.fresh:
            out.append(re.escape(c))
        elif h.kind == 'ident':
            out.append(r'[^\W\d]\w*')
        elif h.kind == 'num':
            out.append(r'[\d.eE+-]+')
        else:
            out.append(r'(?:.|\n)*')
    return ''.join(out) + r'\Z'


def str_eq(a, b):
    """Abstract equality of two templates; splits if undetermined."""
    a, b = canon(a), canon(b)
    if a == b:
        return True
    ha, hb = has_hole(a), has_hole(b)
    if not ha and not hb:
        return False
    if not (unfresh(a) or unfresh(b)):
        return False
    try:
        possible = re.match(_pattern(a), b) or re.match(_pattern(b), a)
    except re.error:
        possible = True
    if not possible:
        return False
    key = ('eq', min(a, b), max(a, b))
    if key in CTX.oracle.memo:
        return CTX.oracle.memo[key]
    r = CTX.oracle.pick(key, [False, True], f'{CTX.decode(a)} == {CTX.decode(b)}')
    if r:
        if len(a) == 1 and a in CTX.holes and not CTX.holes[a].fresh:
            CTX.canon[a] = b
        elif len(b) == 1 and b in CTX.holes and not CTX.holes[b].fresh:
            CTX.canon[b] = a
    return r


def value_eq(a, b):
    if isinstance(a, Fin):
        a = a.force()
    if isinstance(b, Fin):
        b = b.force()
    if isinstance(a, str) and isinstance(b, str):
        return str_eq(a, b)
    if type(a) is type(b) and isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(value_eq(x, y) for x, y in zip(a, b))
    return a == b


def seq_contains(seq, x):
    if isinstance(x, Fin):
        if all(any(type(v) is type(y) and v == y for y in seq if not isinstance(y, (Fin, Unk)))
               for v in x.options):
            return True
        x = x.force()
    if isinstance(x, str) and x and has_hole(canon(x)) and unfresh(canon(x)) \
            and len(seq) > 6 and all(isinstance(y, str) and not has_hole(y) for y in seq):
        # large table of literals: member or not, without saying which one
        key = ('intable', canon(x), tuple(sorted(seq)))
        if not any(re.match(_pattern(canon(x)), y) for y in seq):
            return False
        return CTX.oracle.pick(key, [False, True], f'{CTX.decode(x)} in table')
    for y in seq:
        if value_eq(y, x):
            return True
    return False


def may_contain(s, sub):
    """Is sub a sub-text of template s?  True/False, splitting if undetermined."""
    s, sub = canon(s), canon(sub)
    if sub in s:
        return True
    if has_hole(sub) and not has_hole(s):
        if not unfresh(sub):
            return False
    for c in s:
        h = CTX.holes.get(c)
        if h is None or h.fresh and not h.contains:
            continue
        if (h.kind == 'ident' and not h.fresh and re.match(r'\w+\Z', sub)) or sub in h.contains \
                or ('*' in h.contains):
            return CTX.oracle.pick(('contains', c, sub), [False, True],
                                   f'{sub!r} in {CTX.decode(c)}')
    return False


def may_start(s, prefix):
    s, prefix = canon(s), canon(prefix)
    if s.startswith(prefix):
        return True
    if s and s[0] in CTX.holes:
        h = CTX.holes[s[0]]
        if not h.fresh and (h.kind == 'ident' and re.match(r'\w+\Z', prefix)
                            or h.kind not in ('ident', 'num')):
            return CTX.oracle.pick(('starts', s[0], prefix), [False, True],
                                   f'{CTX.decode(s[0])} starts with {prefix!r}')
    return False


def may_end(s, suffix):
    s, suffix = canon(s), canon(suffix)
    if s.endswith(suffix):
        return True
    if s and s[-1] in CTX.holes:
        h = CTX.holes[s[-1]]
        if not h.fresh and (h.kind == 'ident' and re.match(r'\w+\Z', suffix)
                            or h.kind not in ('ident', 'num')):
            return CTX.oracle.pick(('ends', s[-1], suffix), [False, True],
                                   f'{CTX.decode(s[-1])} ends with {suffix!r}')
    return False


class Fin:
    """A value of a known finite set; resolved (split) when it is looked at."""

    def __init__(self, label, options):
        self.label = label
        self.options = list(options)

    def force(self):
        return CTX.oracle.pick(('fin', self.label), self.options, self.label)

    def __bool__(self):
        return bool(self.force())

    def __eq__(self, other):
        return value_eq(self.force(), other)

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return hash(self.force())

    def _text(self):
        key = ('fin', self.label)
        if key in CTX.oracle.memo:
            return str(CTX.oracle.memo[key])
        if any(isinstance(v, str) for v in self.options):
            return str(self.force())
        k = ('fintext', self.label)
        if k not in CTX.oracle.memo:
            CTX.oracle.memo[k] = CTX.hole('cfg', f'value of {self.label}')
        return CTX.oracle.memo[k]

    def __str__(self):
        return self._text()

    def __repr__(self):
        return self._text()

    def __format__(self, spec):
        return format(self._text(), spec)

    def __getattr__(self, name):
        if name.startswith('__') or name in ('label', 'options'):
            raise AttributeError(name)
        return getattr(self.force(), name)


class Unk:
    """Top: a value the analysis knows nothing about (except where it is from)."""

    def __init__(self, label):
        object.__setattr__(self, 'label', label)
        object.__setattr__(self, 'cells', {})

    def _sub(self, what):
        d = object.__getattribute__(self, 'cells')
        if what not in d:
            d[what] = Unk(f'{self.label}{what}')
        return d[what]

    def __bool__(self):
        return CTX.oracle.pick(('truth', id(self)), [True, False], f'bool({self.label})')

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__') and name not in ('__dict__x',):
            raise AttributeError(name)
        return self._sub('.' + name)

    def __setattr__(self, name, value):
        self.cells['.' + name] = value

    def __call__(self, *args, **kwargs):
        if CTX is not None:
            CTX.event('call', self.label, args, kwargs)
        # used as a decorator: transparent
        if len(args) == 1 and not kwargs and getattr(args[0], '_is_func', False):
            return args[0]
        return Unk(self.label + '()')

    def __getitem__(self, k):
        return self._sub(f'[{k!r}]')

    def __iter__(self):
        n = CTX.oracle.pick(('len', id(self)), [0, 1, 2], f'len({self.label})')
        return iter([self._sub(f'[{i}]') for i in range(n)])

    def __contains__(self, x):
        return CTX.oracle.pick(('in', id(self), repr(x)), [False, True], f'{x!r} in {self.label}')

    def __eq__(self, other):
        if self is other:
            return True
        return CTX.oracle.pick(('eq', id(self), repr(other)), [False, True], f'{self.label} == {other!r}')

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'<{self.label}>'

    def __str__(self):
        d = object.__getattribute__(self, 'cells')
        if '#str' not in d:
            d['#str'] = CTX.hole('text', self.label, fresh=False)
        return d['#str']

    def __format__(self, spec):
        return str(self)

    def _bin(self, other, op='?'):
        return Unk(f'({self.label} {op} ..)')

    for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'mod', 'rmod', 'or', 'ror', 'and',
               'rand', 'xor', 'truediv', 'floordiv', 'lshift', 'rshift'):
        exec(f'def __{_n}__(self, other): return self._bin(other, "{_n}")')
    del _n

    def _cmp(self, other, op):
        return CTX.oracle.pick((op, id(self), repr(other)), [True, False],
                               f'{self.label} {op} {other!r}')

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __enter__(self): return self._sub('#enter')
    def __exit__(self, *a): return False


def explore(run, limit=4000):
    """Runs run(ctx) once per abstract path; yields (ctx, kind, value) where kind
    is 'ok', 'raise' or 'undecided'."""
    script = []
    n = 0
    while script is not None:
        c = set_ctx(Ctx(Oracle(script)))
        try:
            v = run(c)
            yield c, 'ok', v
        except PyRaise as e:
            yield c, 'raise', e
        except Infeasible:
            pass
        except Unsupported as e:
            yield c, 'undecided', str(e)
        except RecursionError:
            yield c, 'undecided', 'recursion'
        n += 1
        if n >= limit:
            nxt = c.oracle.next_script()
            if nxt is not None:
                yield c, 'undecided', f'path limit {limit} reached'
            return
        script = c.oracle.next_script()
