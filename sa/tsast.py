"""tsast.py - abstract TypeScript documents.

A document is a small syntax tree whose identifiers are either holes ('@X': any
identifier that differs from all other names in play) or concrete ('X').  Every
construct knows how to print itself as TypeScript (text template) - the meaning
the documentation promises for it is in spec.py."""


class N:
    fields = ()

    def __init__(self, *a, **k):
        for f, v in zip(self.fields, a):
            setattr(self, f, v)
        for f in self.fields[len(a):]:
            setattr(self, f, k.pop(f, self.defaults.get(f)))
        if k:
            raise TypeError(f'{type(self).__name__}: unknown {k}')

    defaults = {}

    def __repr__(self):
        return f'{type(self).__name__}({", ".join(repr(getattr(self, f)) for f in self.fields)})'


# ------------------------------------------------------------------- types

class Ty(N):
    pass


class B(Ty):                      # basic type
    fields = ('name',)

    def ts(self, p): return self.name


class R(Ty):                      # reference, possibly with arguments
    fields = ('name', 'args')
    defaults = {'args': ()}

    def ts(self, p):
        s = p.name(self.name)
        if self.args:
            s += '<' + ', '.join(a.ts(p) for a in self.args) + '>'
        return s


class A(Ty):                      # T[]
    fields = ('elem',)

    def ts(self, p): return self.elem.ts(p) + '[]'


class U(Ty):                      # A | B
    fields = ('alts', 'lead')
    defaults = {'lead': False}

    def ts(self, p): return ('| ' if self.lead else '') + ' | '.join(a.ts(p) for a in self.alts)


class I(Ty):                      # A & B
    fields = ('alts',)

    def ts(self, p): return ' & '.join(a.ts(p) for a in self.alts)


class O(Ty):                      # { ... }
    fields = ('members', 'sep')
    defaults = {'sep': '; '}

    def ts(self, p): return '{ ' + self.sep.join(m.ts(p) for m in self.members) + ' }'


class LT(O):                      # [a: A, b?: B], rendered like { a: A, b?: B }
    def ts(self, p): return '[' + ', '.join(m.ts(p) for m in self.members) + ']'


class TP(str):                    # a type parameter with a constraint or a default value
    def __new__(cls, name, suffix):
        x = str.__new__(cls, name)
        x.suffix = suffix
        return x

    def __getnewargs__(self):
        return str(self), self.suffix


def tplist(p, tps):
    return '<' + ', '.join(p.name(str(t)) + p.text(getattr(t, 'suffix', '')) for t in tps) + '>'


class T(Ty):                      # [A, B]
    fields = ('elems',)

    def ts(self, p): return '[' + ', '.join(e.ts(p) for e in self.elems) + ']'


class L(Ty):                      # literal type
    fields = ('kind', 'text')

    def ts(self, p): return p.text(self.text)


class F(Ty):                      # (a: A) => B
    fields = ('params', 'ret', 'new')
    defaults = {'new': False}

    def ts(self, p):
        return ('new ' if self.new else '') + '(' + ', '.join(x.ts(p) for x in self.params) + ') => ' + self.ret.ts(p)


class M(Ty):                      # { [k: K]: V }
    fields = ('key', 'val', 'style', 'end', 'opt', 'mods')
    defaults = {'style': ': ', 'end': '', 'opt': '', 'mods': ''}

    def ts(self, p):
        return '{ ' + self.mods + '[' + p.name('@key') + self.style + self.key.ts(p) + ']' + self.opt + ': ' + \
            self.val.ts(p) + self.end + ' }'


class X(Ty):                      # A['b']
    fields = ('base', 'idx')

    def ts(self, p): return p.name(self.base) + '[' + p.text(self.idx) + ']'


class P(Ty):                      # ( T )
    fields = ('inner',)

    def ts(self, p): return '(' + self.inner.ts(p) + ')'


class RO(Ty):                     # readonly T
    fields = ('inner',)

    def ts(self, p): return 'readonly ' + self.inner.ts(p)


# ----------------------------------------------------------------- members

class Fld(N):
    fields = ('name', 'ty', 'opt', 'mods', 'comment')
    defaults = {'ty': None, 'opt': False, 'mods': '', 'comment': ''}

    def ts(self, p):
        return self.mods + p.name(self.name) + ('?' if self.opt else '') + \
            (': ' + self.ty.ts(p) if self.ty is not None else '')


class Par(N):
    fields = ('name', 'ty', 'opt', 'rest')
    defaults = {'ty': None, 'opt': False, 'rest': False}

    def ts(self, p):
        return ('...' if self.rest else '') + p.name(self.name) + ('?' if self.opt else '') + \
            (': ' + self.ty.ts(p) if self.ty is not None else '')


class Fn(N):                      # method or function
    fields = ('name', 'params', 'ret', 'mods', 'tps', 'opt')
    defaults = {'params': (), 'ret': None, 'mods': '', 'tps': (), 'opt': False}

    def ts(self, p):
        return self.mods + (p.name(self.name) if self.name else '') + ('?' if self.opt else '') + \
            (tplist(p, self.tps) if self.tps else '') + \
            '(' + ', '.join(x.ts(p) for x in self.params) + ')' + \
            (': ' + self.ret.ts(p) if self.ret is not None else '')


class Special(N):                 # [Symbol.iterator](): T
    fields = ('name', 'params', 'ret')
    defaults = {'params': (), 'ret': None}

    def ts(self, p):
        return f'[{self.name}](' + ', '.join(x.ts(p) for x in self.params) + ')' + \
            (': ' + self.ret.ts(p) if self.ret is not None else '')


class Ix(N):                      # index signature among other members
    fields = ('key', 'val')

    def ts(self, p):
        return '[' + p.name('@key') + ': ' + self.key.ts(p) + ']: ' + self.val.ts(p)


# ------------------------------------------------------------ declarations

class Iface(N):
    fields = ('name', 'members', 'tps', 'ext', 'kw', 'mods', 'sep', 'end', 'extkw')
    defaults = {'members': (), 'tps': (), 'ext': (), 'kw': 'interface', 'mods': 'export ', 'sep': ';\n  ', 'end': '',
                'extkw': 'extends'}

    def ts(self, p):
        s = self.mods + self.kw + ' ' + p.name(self.name)
        if self.tps:
            s += tplist(p, self.tps)
        if self.ext:
            s += f' {self.extkw} ' + ', '.join(e.ts(p) for e in self.ext)
        if not self.members:
            return s + ' {}' + self.end
        return s + ' {\n  ' + self.sep.join(p.member(m) for m in self.members) + (self.sep.strip() or '') + '\n}' + self.end


class Alias(N):
    fields = ('name', 'ty', 'tps', 'mods')
    defaults = {'tps': (), 'mods': 'export '}

    def ts(self, p):
        return self.mods + 'type ' + p.name(self.name) + \
            (tplist(p, self.tps) if self.tps else '') + ' = ' + self.ty.ts(p) + ';'


class Enum(N):
    fields = ('name', 'items', 'mods', 'trail')
    defaults = {'mods': 'export ', 'trail': ''}

    def ts(self, p):
        its = []
        for it in self.items:
            nm, lit = it
            q = ''
            if nm[:1] in '"\'':
                q, nm = nm[0], nm[1:]
            its.append(q + p.name(nm) + q + (' = ' + p.text(lit[1]) if lit else ''))
        return self.mods + 'enum ' + p.name(self.name) + ' {\n  ' + ',\n  '.join(its) + self.trail + '\n}'


class Const(N):
    fields = ('name', 'ty', 'lit', 'mods')
    defaults = {'ty': None, 'lit': None, 'mods': 'export '}

    def ts(self, p):
        return self.mods + 'const ' + p.name(self.name) + (': ' + self.ty.ts(p) if self.ty is not None else '') + \
            (' = ' + p.text(self.lit[1]) if self.lit else '') + ';'


class NS(N):
    fields = ('name', 'decls', 'mods')
    defaults = {'mods': 'export '}

    def ts(self, p):
        return self.mods + 'namespace ' + p.name(self.name) + ' {\n  ' + '\n  '.join(p.decl(d) for d in self.decls) + '\n}'


class Module(N):
    fields = ('name', 'decls', 'quote')
    defaults = {'quote': '"'}

    def ts(self, p):
        return f'declare module {self.quote}' + p.name(self.name) + self.quote + ' {\n' + \
            '\n\n'.join(p.decl(d) for d in self.decls) + '\n}'


class Raw(N):                     # text without a counterpart in the output (import, comment ...)
    fields = ('text',)

    def ts(self, p): return p.text(self.text)


class Doc:
    def __init__(self, label, decls, sep='\n\n', tags=()):
        self.label = label
        self.decls = list(decls)
        self.sep = sep
        self.tags = tuple(tags)

    def ts(self, p):
        return self.sep.join(p.decl(d) for d in self.decls) + '\n'


class Printer:
    """Prints documents; maps '@x' to holes of the current context."""

    def __init__(self, ctx, comment=None):
        self.ctx = ctx
        self.holes = {}
        self.comment = comment     # comment placed before every member / declaration
        self.n = 0

    def name(self, s):
        if s[:1] != '@':
            return '.'.join(self.name(x) if x[:1] == '@' else x for x in s.split('.')) if '@' in s else s
        if '.' in s:
            return '.'.join(self.name(x) for x in s.split('.'))
        if s not in self.holes:
            self.holes[s] = self.ctx.hole('ident', s[1:])
        return self.holes[s]

    def text(self, s):
        """Replaces @x in s by holes."""
        if '@' not in s:
            return s
        import re
        return re.sub(r'@\w+', lambda m: self.name(m.group(0)), s)

    def member(self, m):
        s = m.ts(self)
        return s

    def decl(self, d):
        if isinstance(d, Fn):
            return d.ts(self) + ';'
        return d.ts(self)
