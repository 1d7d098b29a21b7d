"""lazy.py - lazily refined unknown JSON values.

An unknown JSON value starts as "any kind".  Whatever the analysed code asks
about it (isinstance, type, comparison, length, iteration, keys ...) splits the
set of remaining possibilities; only what was asked for becomes definite.  After
the run the refined value stands for the set of all JSON values that take this
path."""

import operator

from . import core

KINDS = ('none', 'true', 'false', 'int', 'fint', 'float', 'str', 'list', 'dict')
SAMPLE = {'none': None, 'true': True, 'false': False, 'int': 7, 'fint': 7.0, 'float': 1.5, 'str': 'text',
          'list': [], 'dict': {}}


def pick(options, label):
    options = list(options)
    if len(options) == 1:
        return options[0]
    return options[core.CTX.oracle.choose(len(options), label)]


class Lazy:
    """An unknown JSON value."""

    def __init__(self, label, shapes=None, depth=0, kinds=KINDS):
        d = self.__dict__
        d['_label'] = label
        d['_kinds'] = list(kinds)
        d['_shapes'] = shapes or NoShapes()
        d['_depth'] = depth
        d['_known'] = False      # scalar value known?
        d['_value'] = None       # the scalar value, list or dict
        d['_not'] = []           # constants it differs from
        d['_snap'] = None

    # ---- refinement

    def _only(self, yes, label):
        """Splits the kinds into those in yes and the others; returns whether it is in yes."""
        no = [k for k in self._kinds if k not in yes]
        ys = [k for k in self._kinds if k in yes]
        if not no or not ys:
            return bool(ys)
        r = pick([True, False], label)
        self.__dict__['_kinds'] = ys if r else no
        return r

    def _isinstance(self, cls):
        yes = [k for k in self._kinds if isinstance(SAMPLE[k], cls)]
        return self._only(yes, f'isinstance({self._label}, {cls})')

    def _kind(self):
        """Decides the kind completely."""
        while len(self._kinds) > 1:
            self._only([self._kinds[0]], f'{self._label} is {self._kinds[0]}')
        return self._kinds[0]

    def _type(self):
        groups = {}
        for k in self._kinds:
            groups.setdefault(type(SAMPLE[k]), []).append(k)
        t = pick(groups, f'type({self._label})')
        self.__dict__['_kinds'] = groups[t]
        return t

    def _equals(self, const):
        """Does it equal a (hashable, scalar) constant?"""
        if isinstance(const, Lazy):
            return self is const or (self._force() == const._force())
        if self._known:
            v = self._value
            return type(v) is type(const) and core.value_eq(v, const) or \
                (not isinstance(v, str) and not isinstance(const, str) and v == const)
        if any(type(c) is type(const) and c == const for c in self._not):
            return False
        poss = [k for k in self._kinds if self._may_equal(k, const)]
        if not poss:
            if isinstance(const, (list, dict, tuple)):
                return self._force() == const
            return False
        if not pick([False, True], f'{self._label} == {const!r}'):
            self._not.append(const)
            rest = [k for k in self._kinds if not (k in poss and k in ('none', 'true', 'false'))]
            if not rest:
                raise core.Infeasible()
            self.__dict__['_kinds'] = rest
            return False
        k = pick(poss, f'kind of {self._label}')
        self.__dict__['_kinds'] = [k]
        self.__dict__['_known'] = True
        self.__dict__['_value'] = {'none': lambda: None, 'true': lambda: True, 'false': lambda: False,
                                   'fint': lambda: float(const)}.get(k, lambda: const)()
        return True

    @staticmethod
    def _may_equal(k, const):
        if const is None:
            return k == 'none'
        if isinstance(const, bool):
            return k == ('true' if const else 'false') or k in ('int', 'fint')
        if isinstance(const, int):
            return k in ('int', 'fint') or k == 'true' and const == 1 or k == 'false' and const == 0
        if isinstance(const, float):
            return k == 'float' or const == int(const) and k in ('int', 'fint')
        if isinstance(const, str):
            return k == 'str'
        return False

    def _force(self):
        """A Python value (containers hold further unknown values)."""
        if self._value is not None or self._known:
            return self._value
        k = self._kind()
        if k == 'list':
            v = self._shapes.make_list(self)
        elif k == 'dict':
            v = self._shapes.make_dict(self)
        elif k in ('none', 'true', 'false'):
            v = SAMPLE[k]
        elif k == 'str':
            v = core.CTX.hole('text', self._label, fresh=False, contains=('*',))
        else:
            v = {'int': 7, 'fint': 7.0, 'float': 1.5}[k]
            while any(v == c for c in self._not):
                v += 1
        d = self.__dict__
        d['_known'] = k not in ('list', 'dict')
        d['_value'] = v
        if k == 'list':
            d['_snap'] = list(v)
        elif k == 'dict':
            d['_snap'] = dict(v)
        return v

    def mutated(self):
        """Has the analysed code changed the value?"""
        v = self._value
        if isinstance(v, list):
            return len(v) != len(self._snap) or any(a is not b for a, b in zip(v, self._snap)) or \
                any(x.mutated() for x in self._snap if isinstance(x, Lazy))
        if isinstance(v, dict):
            return list(v) != list(self._snap) or any(v[k] is not self._snap[k] for k in v) or \
                any(x.mutated() for x in self._snap.values() if isinstance(x, Lazy))
        return False

    # ---- Python protocol

    def __bool__(self):
        if not self._known and self._value is None:
            if self._only(['none', 'false'], f'{self._label} is None or False'):
                return False
            if self._kinds == ['true']:
                return True
            k = self._kind()
            if k in ('int', 'fint', 'str'):
                return not self._equals(0 if k != 'str' else '')
        return bool(self._force())

    def __eq__(self, other):
        return self._equals(other)

    def __ne__(self, other):
        return not self._equals(other)

    def __hash__(self):
        if self._only(['list', 'dict'], f'{self._label} is unhashable'):
            raise TypeError(f"unhashable type: '{self._kinds[0]}'")
        return id(self)

    def _contained(self, coll):
        """Is it an element of coll?"""
        if isinstance(coll, (set, frozenset, dict)) or type(coll) is type({}.keys()):
            hash(self)
        for x in coll:
            if isinstance(x, Lazy):
                if x is self:
                    return True
            elif self._equals(x):
                return True
        return False

    def _is(self, const):
        k = {None: 'none', True: 'true', False: 'false'}[const]
        return self._only([k], f'{self._label} is {const}')

    def _key_in(self, d):
        hash(self)
        for x in d:
            if x is self or not isinstance(x, Lazy) and self._equals(x):
                return (x,)
        return None

    def __iter__(self):
        if not self._isinstance((str, list, dict)):
            raise TypeError('object is not iterable')
        return iter(self._force())

    def __len__(self):
        if not self._isinstance((str, list, dict)):
            raise TypeError('object has no len()')
        return len(self._force())

    def __contains__(self, x):
        if not self._isinstance((str, list, dict)):
            raise TypeError('argument is not iterable')
        v = self._force()
        return x in v

    def __getitem__(self, k):
        if not self._isinstance((str, list, dict)):
            raise TypeError('object is not subscriptable')
        return self._force()[k]

    def __setitem__(self, k, v):
        if not self._isinstance((list, dict)):
            raise TypeError('object does not support item assignment')
        self._force()[k] = v

    def __delitem__(self, k):
        if not self._isinstance((list, dict)):
            raise TypeError('object does not support item deletion')
        del self._force()[k]

    def __getattr__(self, name):
        if name.startswith('_abs'):
            raise AttributeError(name)
        if name == '__class__':
            return self._type()
        yes = [k for k in self._kinds if hasattr(SAMPLE[k], name)]
        if not yes:
            raise AttributeError(f'no attribute {name!r}')
        if not self._only(yes, f'{self._label} has .{name}'):
            raise AttributeError(f'no attribute {name!r}')
        if name in ('__len__', '__iter__', '__hash__') and len(self._kinds) > 1:
            return getattr(SAMPLE[self._kinds[0]], name)
        v = self._force()
        if isinstance(v, (dict, list)) and not name.startswith('__'):
            return getattr(v, name)
        return getattr(v, name)

    def __repr__(self):
        return f'<{self._label}>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    for _n in ('lt', 'le', 'gt', 'ge', 'add', 'sub', 'mul', 'truediv', 'mod', 'and', 'or'):
        exec(f'def __{_n}__(self, o): return OPS["{_n}"](self._force(), o._force() if isinstance(o, Lazy) else o)')
    del _n

    def __neg__(self):
        return -self._force()

    def describe(self):
        if self._known:
            return core.CTX.decode(self._value) if isinstance(self._value, str) else repr(self._value)
        v = self._value
        if isinstance(v, dict):
            return '{' + ', '.join(f'{core.CTX.decode(k)}: {x.describe() if isinstance(x, Lazy) else x}'
                                   for k, x in v.items()) + '}'
        if isinstance(v, list):
            return '[' + ', '.join(x.describe() if isinstance(x, Lazy) else str(x) for x in v) + ']'
        if len(self._kinds) == len(KINDS):
            return '<anything>'
        s = '|'.join(self._kinds)
        if self._not:
            s += ' except ' + ', '.join(repr(c) for c in self._not)
        return f'<{s}>'


OPS = {n: getattr(operator, {'and': 'and_', 'or': 'or_'}.get(n, n)) for n in
       ('lt', 'le', 'gt', 'ge', 'add', 'sub', 'mul', 'truediv', 'mod', 'and', 'or')}


class NoShapes:
    """Possible containers if nothing is expected."""

    def make_list(self, lv):
        n = pick([0, 1, 2], f'len({lv._label})')
        return [Lazy(f'{lv._label}[{i}]', None, lv._depth + 1) for i in range(n)]

    def make_dict(self, lv):
        n = pick([0, 1], f'len({lv._label})')
        return {key(lv, f'k{i}'): Lazy(f'{lv._label}{{{i}}}', None, lv._depth + 1) for i in range(n)}


def key(lv, name):
    m = core.CTX.oracle.memo
    k = ('key', name)
    if k not in m:
        m[k] = core.CTX.hole('ident', name)
    return m[k]


# ------------------------------------------------------------------- models

def isinstance_model(obj, cls):
    if isinstance(obj, Lazy):
        return obj._isinstance(cls)
    return NotImplemented


def type_model(obj):
    if isinstance(obj, Lazy):
        return obj._type()
    return NotImplemented
