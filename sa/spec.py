"""spec.py - what the documentation promises for a TypeScript document, compared
with what the (abstract) output declares.

compare() returns findings (aspect, where, message).  Aspects:
  crash reject syntax            no usable output
  missing extra order dup        declarations (completeness)
  optional required total        optional marking
  type.<form>                    meaning of a type form
  bases generic kind             class headers
  method overload dispatch       functions
  value                          values of enum members and constants
  keyword                        reserved words
  unbound forward                names
  announce                       approximations that must be announced
"""

import ast
import re
import keyword

from . import tsast as ts
from . import core

BASIC = {'object': ('dict',), 'array': ('list',), 'string': ('name', 'str'), 'number': ('name', 'float'),
         'decimal': ('name', 'float'), 'integer': ('name', 'int'), 'uinteger': ('name', 'int'),
         'boolean': ('name', 'bool'), 'null': ('none',), 'unknown': ('any',), 'any': ('any',), 'void': ('none',)}

KNOWN_REFS = {'undefined': ('none',), 'Thenable': 'Coroutine', 'IterableIterator': 'Iterator', 'Array': 'List',
              'ReadonlyArray': 'List', 'Error': ('name', 'Exception'), 'RegExp': ('name', 'str'),
              'Uint32Array': ('list', ('name', 'int'))}

UNSUPPORTED_CODES = (310, 320)


def py(name):
    return '.'.join(n + '_' if keyword.iskeyword(n) else n for n in name.split('.'))


JS_ESCAPES = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '0': '\0'}


def js_strings(text):
    """String literals of TypeScript within a text as string literals of Python of the same value."""
    def escape(m):
        if m[1] or m[2] or m[3]:
            return chr(int(m[1] or m[2] or m[3], 16))
        return JS_ESCAPES.get(m[4], m[4])

    def literal(m):
        if '\\' not in m[0]:
            return m[0]
        return repr(re.sub(r'\\(?:u\{([0-9A-Fa-f]+)\}|u([0-9A-Fa-f]{4})|x([0-9A-Fa-f]{2})|(.))', escape, m[0][1:-1]))
    return re.sub(r'"[^"\n]*"|\'[^\'\n]*\'', literal, text)


class Flow(Exception):
    pass


def inside():
    """Marks a method that deals with something of a name."""
    def deco(method):
        def wrapped(self, thing, *args, **kw):
            self.path.append(str(getattr(thing, 'name', '') or ''))
            try:
                return method(self, thing, *args, **kw)
            finally:
                self.path.pop()
        return wrapped
    return deco


class Comparer:
    def __init__(self, doc, cfg, printer, model, diags):
        self.doc, self.cfg, self.p, self.m, self.diags = doc, cfg, printer, model, diags
        self.findings = []
        self.path = []             # the names of the things around
        self.consumed = set()
        self.tps = set()
        self.declared = {}
        self.typed_dicts = set()
        self.kinds = {}
        self.announce = []
        self.depth = 0

    def add(self, aspect, where, msg):
        f = (aspect, where, self.p.ctx.decode(msg))
        if f not in self.findings:
            self.findings.append(f)

    def unname(self, n, names):
        return next((x for x in names if self.nm(x) == n), None)

    def nm(self, s):
        return py(self.p.name(s))

    # ---------------------------------------------------------------- types
    def expected(self, t):
        """Normal form of the promised meaning of type t (as a list of alternatives)."""
        if isinstance(t, (ts.P, ts.RO)):
            return self.expected(t.inner)
        if isinstance(t, ts.U):
            out = []
            for a in t.alts:
                for x in self.expected(a):
                    out.append(x)
            return out
        if isinstance(t, ts.B):
            return [BASIC[t.name]]
        if isinstance(t, ts.L):
            return [self.literal(t)]
        if isinstance(t, ts.R):
            if t.name in KNOWN_REFS and not any(t.name == k for k in self.declared):
                v = KNOWN_REFS[t.name]
                if isinstance(v, tuple):
                    return [v]
                if v == 'List':
                    return [('list', t.args[0])] if t.args else [('list',)]
                return [('ref', v, tuple(t.args))]
            return [('ref', self.nm(t.name), tuple(t.args))]
        if isinstance(t, ts.A):
            return [('list', t.elem)]
        if isinstance(t, ts.T):
            return [('tuple', tuple(t.elems))]
        if isinstance(t, ts.M):
            if 'keyof' in t.style:
                self.announce.append(('keyof', id(t)))
                return [('dict', None, t.val, t.opt)]
            return [('dict', t.key, t.val, t.opt)]
        if isinstance(t, ts.F):
            return [('callable', t)]
        if isinstance(t, ts.O):
            return [('record', t)]
        if isinstance(t, ts.I):
            self.announce.append(('intersection', id(t)))
            return [('any',)]
        if isinstance(t, ts.X):
            self.announce.append(('indexed', id(t)))
            return [('any',)]
        raise core.Unsupported(type(t).__name__)

    def literal(self, t):
        if self.cfg.get('UseLiteralType'):
            return ('lit', t.kind, self.p.text(t.text))
        return {'string': ('name', 'str'), 'integer': ('name', 'int'), 'number': ('name', 'float'),
                'boolean': ('name', 'bool'), 'array': ('list',), 'object': ('dict',)}[t.kind]

    # -- reading the output
    def alternatives(self, e, scope, pos, ev=True):
        """Flattens unions; yields (expr, evaluated)."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                sub = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return [(e, ev)]
            return self.alternatives(sub, scope, pos, False)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.alternatives(e.left, scope, pos, ev) + self.alternatives(e.right, scope, pos, ev)
        if isinstance(e, ast.Subscript):
            n = self.head(e)
            if n == 'Union':
                return [x for a in self.args(e) for x in self.alternatives(a, scope, pos, ev)]
            if n == 'Optional':
                return [x for a in self.args(e) for x in self.alternatives(a, scope, pos, ev)] + \
                    [(ast.Constant(None), ev)]
            if n == 'Literal':
                return [(ast.Subscript(value=e.value, slice=a, ctx=ast.Load()), ev) for a in self.args(e)]
            if n in ('NotRequired', 'Required', 'ReadOnly'):
                return [x for a in self.args(e) for x in self.alternatives(a, scope, pos, ev)]
        return [(e, ev)]

    @staticmethod
    def head(e):
        v = e.value if isinstance(e, ast.Subscript) else e
        if isinstance(v, ast.Name):
            return v.id
        if isinstance(v, ast.Attribute):
            return ast.unparse(v)
        return ''

    @staticmethod
    def args(e):
        s = e.slice
        return list(s.elts) if isinstance(s, ast.Tuple) else [s]

    def resolve_record(self, name, scope, pos, ev):
        r = self.m.resolve(name, scope, pos, ev)
        if r is None or r[0] != 'def':
            return None
        item, sc = r[1], r[2]
        if item[1] == 'class':
            return ('class', item[2], self.m.scopes[id(item[2])])
        if item[1] == 'assign':
            return ('assign', item[2], sc)
        return None

    def match1(self, exp, act, scope, pos, ev):
        """One expected alternative against one alternative of the output -> list of findings."""
        k = exp[0]
        if k == 'any':
            return [] if self.head(act) == 'Any' else [('type.any', f'{self.show(act)} instead of Any')]
        if k == 'none':
            ok = isinstance(act, ast.Constant) and act.value is None
            return [] if ok else [('type.basic', f'{self.show(act)} instead of None')]
        if k == 'name':
            ok = isinstance(act, ast.Name) and act.id == exp[1]
            return [] if ok else [('type.basic', f'{self.show(act)} instead of {exp[1]}')]
        if k == 'lit':
            return self.match_literal(exp, act)
        if k == 'list':
            if self.head(act) not in ('List', 'list', 'Sequence'):
                return [('type.list', f'{self.show(act)} instead of a list type')]
            if len(exp) == 1:
                if isinstance(act, ast.Subscript) and self.head(self.args(act)[0]) != 'Any':
                    return [('type.list', f'{self.show(act)} instead of an unspecific list')]
                return []
            if not isinstance(act, ast.Subscript):
                return [('type.list', f'{self.show(act)} lost its element type')] \
                    if self.expected_is_known(exp[1]) else []
            if isinstance(exp[1], tuple):
                return self.match1(exp[1], self.args(act)[0], scope, pos, ev)
            return self.match(exp[1], self.args(act)[0], scope, pos, ev, 'type.list')
        if k == 'dict':
            if self.head(act) not in ('Dict', 'dict', 'Mapping'):
                return [('type.dict', f'{self.show(act)} instead of a dictionary type')]
            if len(exp) == 1:
                return []
            if not isinstance(act, ast.Subscript) or len(self.args(act)) != 2:
                return [('type.dict', f'{self.show(act)} lost its key or value type')]
            a, b = self.args(act)
            out = []
            if len(exp) > 3 and exp[3]:     # { [k in K]?: V }: the mark may be rendered with the key or the value
                strip = lambda e: self.args(e)[0] if isinstance(e, ast.Subscript) and self.head(e) == 'Optional' else e
                a, b = strip(a), strip(b)
            if exp[1] is None:
                if self.head(a) not in ('Any', 'Optional'):
                    out.append(('type.dict', f'key type {self.show(a)} instead of Any'))
            else:
                out += self.match(exp[1], a, scope, pos, ev, 'type.dict')
            return out + self.match(exp[2], b, scope, pos, ev, 'type.dict')
        if k == 'tuple':
            if self.head(act) not in ('Tuple', 'tuple') or not isinstance(act, ast.Subscript):
                return [('type.tuple', f'{self.show(act)} instead of a tuple type')]
            a = self.args(act)
            if len(a) != len(exp[1]):
                return [('type.tuple', f'{self.show(act)}: {len(a)} elements instead of {len(exp[1])}')]
            out = []
            for x, y in zip(exp[1], a):
                out += self.match(x, y, scope, pos, ev, 'type.tuple')
            return out
        if k == 'ref':
            if exp[1] == 'Iterator' and self.head(act) == 'Iterator' or self.head(act) == exp[1]:
                pass
            else:
                return [('type.ref', f'{self.show(act)} instead of {exp[1]}')]
            # Python must resolve the name to the declaration of that name
            root = exp[1].split('.')[0]
            if root in self.py_declared:
                r = self.m.resolve(root, scope, pos, ev)
                if r is not None and r[0] == 'def' and r[2] is not self.m.module \
                        and id(r[1][2]) not in self.decl_nodes and root not in self.nested_names:
                    return [('type.ref', f'{self.show(act)} is shadowed by a generated class of the same name')]
            args = exp[2]
            if not args:
                if isinstance(act, ast.Subscript):
                    return [('type.ref', f'{self.show(act)}: arguments out of nowhere')]
                return []
            if not isinstance(act, ast.Subscript):
                if len(args) == 1 and all(x == ('none',) for x in self.expected(args[0])):
                    return []
                return [('type.generic', f'{self.show(act)} lost its type arguments')]
            a = self.args(act)
            if len(a) != len(args):
                return [('type.generic', f'{self.show(act)}: {len(a)} type arguments instead of {len(args)}')]
            out = []
            for x, y in zip(args, a):
                out += self.match(x, y, scope, pos, ev, 'type.generic')
            return out
        if k == 'callable':
            return self.match_callable(exp[1], act, scope, pos, ev)
        if k == 'record':
            return self.match_record(exp[1], act, scope, pos, ev)
        raise core.Unsupported(k)

    def expected_is_known(self, t):
        return True

    def show(self, e):
        try:
            return ast.unparse(e)
        except Exception:
            return repr(e)

    def match_literal(self, exp, act):
        _, kind, text = exp
        want = {'true': 'True', 'false': 'False'}.get(text, text)
        if kind == 'string':
            want = js_strings(want)
        if self.head(act) != 'Literal':
            return [('type.literal', f'{self.show(act)} instead of Literal[{want}]')]
        a = self.args(act)
        try:
            w = ast.literal_eval(want)
        except (ValueError, SyntaxError):
            w = want
        try:
            got = ast.literal_eval(a[0]) if len(a) == 1 else None
        except (ValueError, SyntaxError):
            got = None
        if len(a) == 1 and got == w and type(got) is type(w):
            return []
        return [('type.literal', f'{self.show(act)} instead of Literal[{want}]')]

    def match_callable(self, t, act, scope, pos, ev):
        if self.head(act) != 'Callable' or not isinstance(act, ast.Subscript) or len(self.args(act)) != 2:
            return [('type.callable', f'{self.show(act)} instead of a Callable')]
        a, ret = self.args(act)
        out = []
        loose = any(q.rest or q.opt for q in t.params)
        if loose:
            if not (isinstance(a, ast.Constant) and a.value is Ellipsis):
                if not (isinstance(a, ast.List) and not any(q.rest for q in t.params)
                        and len(a.elts) == len(t.params)):
                    out.append(('type.callable', f'{self.show(act)}: parameters instead of ...'))
                elif any(q.opt for q in t.params):
                    out.append(('type.callable', f'{self.show(act)}: optional parameters became mandatory'))
            else:
                for q in t.params:      # the parameters are not expressed, hence nobody refers to their classes
                    self.waive(q.ty)
        else:
            if not isinstance(a, ast.List) or len(a.elts) != len(t.params):
                out.append(('type.callable', f'{self.show(act)}: wrong number of parameters'))
            else:
                for q, x in zip(t.params, a.elts):
                    if q.ty is not None:
                        self.path.append(str(q.name))
                        out += self.match(q.ty, x, scope, pos, ev, 'type.callable')
                        self.path.pop()
        out += self.match(t.ret, ret, scope, pos, ev, 'type.callable')
        return out

    def waive(self, t):
        """The classes of the anonymous interfaces in t need not be referred to."""
        if isinstance(t, ts.O):
            self.waived.add(tuple(self.nm(m.name) for m in t.members if isinstance(m, ts.Fld)))
            for m in t.members:
                self.waive(getattr(m, 'ty', None))
        elif isinstance(t, (tuple, list)):
            for x in t:
                self.waive(x)
        elif isinstance(t, (ts.Ty, ts.Par)):
            for f in t.fields:
                self.waive(getattr(t, f))

    def match_record(self, t, act, scope, pos, ev):
        if isinstance(act, ast.Call) and self.head(act.func) == 'TypedDict' and len(act.args) == 2 \
                and isinstance(act.args[1], ast.Dict):
            return self.match_inline(t, act.args[1], scope, pos)
        if isinstance(act, ast.Subscript) and self.head(act) == 'TypedDict' and isinstance(act.slice, ast.Dict):
            return self.match_inline(t, act.slice, scope, pos)
        if not isinstance(act, ast.Name):
            return [('type.record', f'{self.show(act)} instead of an anonymous record type')]
        r = self.resolve_record(act.id, scope, pos, ev)
        if r is None or r[0] != 'class':
            return [('type.record', f'{act.id} does not denote a class at this place')]
        node, sub = r[1], r[2]
        out = []
        atoms = lambda text: {x.lower() for x in re.findall('‹[^›]*›', text)}
        alien = atoms(self.p.ctx.decode(act.id)) - atoms(self.p.ctx.decode(' '.join(self.nm(x) for x in self.path)))
        if alien:
            out.append(('type.helper', f'{act.id} bears the name of something else ({", ".join(sorted(alien))})'))
        if self.cfg.get('BaseClassName', 'TypedDict') == 'TypedDict':
            bases = [self.head(b) for b in node.bases]
            if bases != ['TypedDict'] and not any(isinstance(m, (ts.Fn, ts.Special)) for m in t.members):
                out.append(('kind', f'record {act.id} has the bases {bases}'))
        saved = self.findings
        self.findings = []
        self.members(t.members, sub, f'{act.id}', record=True, node=node)
        out += [(a, f'{w}: {m}') for a, w, m in self.findings]
        self.findings = saved
        if not out:
            self.consumed.add(id(node))
            for n2 in ast.walk(node):
                if isinstance(n2, ast.ClassDef):
                    pass
        return out

    def match_inline(self, t, d, scope, pos):
        out = []
        flds = [m for m in t.members if isinstance(m, ts.Fld)]
        keys = [k.value if isinstance(k, ast.Constant) else None for k in d.keys]
        want = [self.nm(f.name) for f in flds]
        if keys != want:
            return [('missing' if set(want) - set(map(str, keys)) else 'type.record',
                     f'record entries {keys} instead of {want}')]
        for f, v in zip(flds, d.values):
            out += self.field_type(f, v, scope, pos)
        return out

    def match(self, t, act, scope, pos, ev=True, aspect='type'):
        """Expected TypeScript type t against annotation act -> list of findings."""
        alts = self.alternatives(act, scope, pos, ev)
        exp = []
        for x in self.expected(t):
            if not any(self.same(x, y) for y in exp):
                exp.append(x)
        return self.match_alts(exp, alts, scope, pos, act)

    def same(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] in ('name', 'none', 'any', 'lit'):
            return x == y
        if x[0] in ('list', 'dict') and len(x) == 1 and len(y) == 1:
            return True
        return x is y

    def match_alts(self, exp, alts, scope, pos, act):
        out = []
        used = set()
        any_act = any(self.head(a) == 'Any' for a, _ in alts)
        for x in exp:
            best = None
            for i, (a, ev) in enumerate(alts):
                if i in used and x[0] != 'record':
                    pass
                f = self.match1(x, a, scope, pos, ev)
                if not f:
                    best = (i, f)
                    if i not in used:
                        break
                elif best is None or (best[1] and len(f) < len(best[1])):
                    best = (i, f)
            if best is None:
                out.append(('type.union', f'{self.show(act)}: alternative missing'))
            elif best[1]:
                if len(exp) > 1:
                    out.append((best[1][0][0] if len(alts) >= len(exp) else 'type.union', best[1][0][1] +
                                f' (in {self.show(act)})'))
                else:
                    out += best[1]
            else:
                used.add(best[0])
        if not out:
            for i, (a, ev) in enumerate(alts):
                if i not in used and not any(not self.match1(x, a, scope, pos, ev) for x in exp):
                    out.append(('type.union', f'{self.show(act)}: unexpected alternative {self.show(a)}'))
        return out

    # ------------------------------------------------------------ optionality
    @inside()
    def field_type(self, f, ann, scope, pos, param=False):
        out = []
        nr = False
        e = ann
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                q = ast.parse(e.value, mode='eval').body
                if isinstance(q, ast.Subscript) and self.head(q) == 'NotRequired':
                    e = q
            except SyntaxError:
                pass
        if isinstance(e, ast.Subscript) and self.head(e) == 'NotRequired':
            nr = True
            e = self.args(e)[0]
        alts = self.alternatives(e, scope, pos)
        exp = []
        ty = f.ty if f.ty is not None else ts.B('any')
        for x in self.expected(ty):
            if not any(self.same(x, y) for y in exp):
                exp.append(x)
        has_none = any(isinstance(a, ast.Constant) and a.value is None for a, _ in alts)
        wants_none = any(x == ('none',) for x in exp)
        nrcfg = self.cfg.get('UseNotRequired') and not param
        if f.opt:
            if not (nr or has_none):
                out.append(('optional', f'optional property {self.nm(f.name)} is not marked: {self.show(ann)}'))
            elif nrcfg and not nr:
                out.append(('optional', f'optional property {self.nm(f.name)} is not marked NotRequired'))
            if has_none and not wants_none:
                alts = [x for x in alts if not (isinstance(x[0], ast.Constant) and x[0].value is None)]
        else:
            if nr:
                out.append(('required', f'required property {self.nm(f.name)} is marked NotRequired'))
            if has_none and not wants_none:
                out.append(('required', f'required property {self.nm(f.name)} accepts None: {self.show(ann)}'))
                alts = [x for x in alts if not (isinstance(x[0], ast.Constant) and x[0].value is None)]
        out += self.match_alts(exp, alts, scope, pos, ann)
        return out

    # ---------------------------------------------------------------- members
    def members(self, members, scope, where, record=False, node=None, interface=None):
        items = [it for it in scope.items]
        fields = [(it[0], it[2], it[3]) for it in items if it[1] == 'field']
        used = set()
        last = -1
        specials = []
        names = {}
        for m in members:
            if isinstance(m, (ts.Fld, ts.Par)):
                names.setdefault(self.nm(m.name), []).append(m)
        for m in members:
            if isinstance(m, ts.Fld):
                n = self.nm(m.name)
                cands = [f for f in fields if f[0] == n and id(f[1]) not in used]
                if not cands:
                    self.add('missing', where, f'property {n} does not occur in the output')
                    continue
                f = cands[0]
                used.add(id(f[1]))
                if f[2] < last:
                    self.add('order', where, f'property {n} is out of order')
                last = f[2]
                for a, msg in self.field_type(m, f[1].annotation, scope, f[2]):
                    self.add(a, where, f'{n}: {msg}')
            elif isinstance(m, ts.Ix):
                specials.append(m)
        for n, nd, pos in fields:
            if id(nd) not in used:
                self.add('extra', where, f'field {n} has no counterpart in the source')
        self.functions([m for m in members if isinstance(m, (ts.Fn, ts.Special))], scope, where, 'interface'
                       if interface is not None else 'record', interface)
        for m in specials:
            if not any(d[0] is not None for d in self.diags):
                self.add('missing', where, 'index signature is dropped silently')
        if self.cfg.get('BaseClassName', 'TypedDict') == 'TypedDict' and node is not None and \
                any(self.head(b) in ('TypedDict', 'GenericTypedDict') for b in node.bases):
            flds = [m for m in members if isinstance(m, ts.Fld)]
            total = next((k.value for k in node.keywords if k.arg == 'total'), None)
            tv = total.value if isinstance(total, ast.Constant) else True
            if any(m.opt for m in flds):
                if not self.cfg.get('UseNotRequired') and tv is not False:
                    self.add('total', where, 'class with optional properties is declared total')
            elif tv is False:
                self.add('total', where, 'class without optional properties is not declared total')
            if self.cfg.get('UseNotRequired') and tv is False:
                self.add('total', where, 'class using NotRequired is not total')
        self.leftover(scope, where)

    def leftover(self, scope, where):
        """Classes nobody refers to, statements without a counterpart."""
        self.scopes_seen.append((scope, where))

    def functions(self, fns, scope, where, context, interface=None):
        """context: module, namespace, interface, record."""
        defs = [it for it in scope.items if it[1] == 'def']
        groups = {}
        order = []
        for f in fns:
            key = '__iter__' if isinstance(f, ts.Special) else ('__call__' if not f.name else self.nm(f.name))
            if not isinstance(f, ts.Special) and f.name == 'constructor' and context == 'interface':
                key = ('ctor', self.nm(interface.name) + 'Constructor')
            groups.setdefault(key, []).append(f)
            if key not in order:
                order.append(key)
        used = set()
        last = -1
        for key in order:
            fs = groups[key]
            sc = scope
            if isinstance(key, tuple):
                name = key[1]
                sc = scope.parent or scope
                cands = [it for it in sc.items if it[1] == 'def' and it[0] == name]
                if len(cands) < 1:
                    self.add('missing', where, f'constructor function {name} does not occur in the output')
                    continue
                for c in cands:
                    self.consumed.add(id(c[2]))
                for f, c in zip(fs, cands):
                    self.signature(f, c[2], sc, c[3], where, 'interface')
                continue
            direct = [it for it in defs if it[0] == key]
            regs = [it for it in defs if self.registers(it[2]) == key]
            overloaded = len(fs) > 1
            if not overloaded:
                if not direct:
                    self.add('missing', where, f'function {key} does not occur in the output')
                    continue
                if len(direct) > 1:
                    self.add('dup', where, f'function {key} occurs {len(direct)} times')
                d = direct[0]
                used.add(id(d[2]))
                self.consumed.add(id(d[2]))
                if d[2].decorator_list:
                    self.add('overload', where, f'function {key} is decorated although it is not overloaded')
                if d[3] < last:
                    self.add('order', where, f'function {key} is out of order')
                last = d[3]
                self.signature(fs[0], d[2], scope, d[3], where, context)
            else:
                deco = 'singledispatchmethod' if context in ('interface', 'namespace', 'record') else 'singledispatch'
                if not direct:
                    self.add('missing', where, f'overloaded function {key} has no dispatcher')
                    continue
                d = direct[0]
                used.add(id(d[2]))
                self.consumed.add(id(d[2]))
                decs = [self.head(x) for x in d[2].decorator_list]
                if not regs:
                    self.add('overload', where, f'signatures of {key} are not registered: decorators {decs}, '
                             f'{len(direct)} definitions')
                    continue
                if not any(x in ('singledispatch', 'singledispatchmethod') for x in decs):
                    self.add('overload', where, f'dispatcher {key} is decorated with {decs}')
                elif decs != [deco]:
                    self.add('overload', where, f'dispatcher {key} is decorated with {decs} instead of {deco}')
                if len(direct) > 1:
                    self.add('overload', where, f'overloaded function {key} is redefined')
                if any(r[3] < d[3] for r in regs):
                    self.add('overload', where, f'a signature of {key} is registered before the dispatcher')
                for r in regs:
                    used.add(id(r[2]))
                    self.consumed.add(id(r[2]))
                    if r[0] == key:
                        self.add('overload', where, f'registered signature rebinds {key}')
                if len(regs) != len(fs):
                    self.add('missing' if len(regs) < len(fs) else 'overload', where, f'{len(regs)} of {len(fs)} signatures of {key} are registered')
                    continue
                for f, r in zip(fs, regs):
                    self.signature(f, r[2], scope, r[3], where, context)
        for it in defs:
            if id(it[2]) not in used and id(it[2]) not in self.consumed:
                self.add('extra' if not self.registers(it[2]) else 'overload', where,
                         f'function {self.registers(it[2]) or it[0]} has no counterpart in the source')

    @staticmethod
    def registers(node):
        for d in node.decorator_list:
            if isinstance(d, ast.Attribute) and d.attr == 'register' and isinstance(d.value, ast.Name):
                return d.value.id
        return ''

    @inside()
    def signature(self, f, node, scope, pos, where, context):
        name = node.name
        a = node.args
        pos_args = list(a.posonlyargs + a.args)
        if context == 'interface' or (context == 'record'):
            if pos_args and pos_args[0].arg == 'self':
                pos_args = pos_args[1:]
            else:
                self.add('method', where, f'method {name} has no self')
        elif pos_args and pos_args[0].arg == 'self':
            pos_args = pos_args[1:]
        plain = [q for q in f.params if not q.rest]
        rest = [q for q in f.params if q.rest]
        want = [self.nm(q.name) for q in plain]
        got = [x.arg for x in pos_args]
        if want != got:
            self.add('method', where, f'{name}: parameters {got} instead of {want}')
        else:
            nd = len(a.defaults)
            allargs = list(a.posonlyargs + a.args)
            for q, x in zip(plain, pos_args):
                has_default = allargs.index(x) >= len(allargs) - nd
                if has_default != bool(q.opt):
                    for asp in ('method', 'required' if has_default else 'optional'):
                        self.add(asp, where, f'{name}: parameter {x.arg} is ' +
                                 ('optional' if has_default else 'mandatory') + ' in the output')
                if q.ty is None:
                    if x.annotation is not None and self.head(x.annotation) != 'Any':
                        self.add('method', where, f'{name}: type of {x.arg} out of nowhere')
                    continue
                if x.annotation is None:
                    self.add('method', where, f'{name}: parameter {x.arg} lost its type')
                    continue
                fd = ts.Fld(q.name, q.ty, q.opt)
                fs = self.field_type(fd, x.annotation, scope, pos, param=True)
                for asp, msg in fs:
                    if asp in ('optional', 'required'):
                        self.add('method', where, f'{name}, parameter {x.arg}: {msg}')
                    self.add(asp, where, f'{name}, parameter {x.arg}: {msg}')
        if rest:
            if a.vararg is None:
                self.add('method', where, f'{name}: rest parameter is lost')
            elif a.vararg.arg != self.nm(rest[0].name):
                self.add('method', where, f'{name}: rest parameter {a.vararg.arg}')
            elif rest[0].ty is not None:
                t = rest[0].ty
                elem = t.elem if isinstance(t, ts.A) else (t.args[0] if isinstance(t, ts.R) and
                                                           t.name in ('Array', 'ReadonlyArray') else None)
                if elem is not None:
                    if a.vararg.annotation is None:
                        self.add('method', where, f'{name}: rest parameter lost its type')
                    else:
                        self.path.append(str(rest[0].name))
                        found = self.match(elem, a.vararg.annotation, scope, pos)
                        self.path.pop()
                        for asp, msg in found:
                            self.add(asp, where, f'{name}, rest parameter: {msg}')
        elif a.vararg is not None:
            self.add('method', where, f'{name}: rest parameter out of nowhere')
        if f.ret is not None:
            if node.returns is None:
                self.add('method', where, f'{name} lost its return type')
            else:
                for asp, msg in self.match(f.ret, node.returns, scope, pos):
                    self.add(asp, where, f'{name}, return type: {msg}')
        elif node.returns is not None and self.head(node.returns) != 'Any':
            self.add('method', where, f'{name}: return type {self.show(node.returns)} out of nowhere')

    # ------------------------------------------------------------ declarations
    def flatten(self, decls):
        out = []
        for d in decls:
            if isinstance(d, ts.Module):
                out += self.flatten(d.decls)
            else:
                out.append(d)
        return out

    def collect(self, decls):
        for d in decls:
            if isinstance(d, (ts.Iface, ts.Alias, ts.Enum, ts.NS, ts.Const)):
                self.declared.setdefault(d.name, d)
                self.py_declared.add(self.nm(d.name))
            if isinstance(d, ts.NS):
                for x in d.decls:
                    if isinstance(x, (ts.Iface, ts.Alias, ts.Enum)):
                        self.nested_names.add(self.nm(x.name))
            for t in getattr(d, 'tps', ()):
                self.tps.add(self.nm(t))
            for m in getattr(d, 'members', ()) or getattr(d, 'decls', ()):
                for t in getattr(m, 'tps', ()):
                    self.tps.add(self.nm(t))

    def run(self):
        if self.m.error is not None:
            self.add('syntax', '<module>', f'output is not valid Python: {self.m.error}')
            return self.findings
        self.py_declared, self.nested_names, self.decl_nodes = set(), set(), set()
        self.scopes_seen = []
        self.waived = set()
        decls = self.flatten(self.doc.decls)
        self.collect(decls)
        for s in ast.walk(self.m.tree):
            if isinstance(s, ast.ClassDef) and s.name in (self.py_declared | self.nested_names):
                pass
        for it in self.m.module.items:
            if it[1] in ('class', 'assign') and it[0] in self.py_declared:
                self.decl_nodes.add(id(it[2]))
        self.declarations(decls, self.m.module, '<module>', 'module')
        self.names()
        for scope, where in self.scopes_seen:
            for it in scope.items:
                if it[1] == 'class' and id(it[2]) not in self.consumed and \
                        tuple(x[0] for x in self.m.scopes[id(it[2])].items if x[1] == 'field') not in self.waived:
                    self.add('extra', where, f'class {it[0]} has no counterpart in the source')
        self.announcements()
        self.features()
        return self.findings

    def features(self):
        """Constructs of newer Python-versions occur only where they have been asked for."""
        on = lambda k: bool(self.cfg.get(k))
        switch = {'NotRequired': 'UseNotRequired', 'Literal': 'UseLiteralType', 'Unpack': 'UseVariadicGenerics',
                  'TypeVarTuple': 'UseVariadicGenerics'}
        source = self.source_names()
        import re
        literals = {a or b for a, b in re.findall(r'"([^"\n]*)"|\'([^\'\n]*)\'', self.doc.ts(self.p))}

        def walk(stmts, where):
            for s in stmts:
                for x in ast.walk(s):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and '|' in x.value and x.value not in literals:
                        try:
                            x = ast.parse(x.value.strip(), mode='eval').body
                        except (SyntaxError, ValueError):
                            continue
                    if isinstance(x, ast.Name) and x.id in switch and x.id not in source and not on(switch[x.id]):
                        self.add('feature', where, f'{x.id} is used, although {switch[x.id]} is off')
                    elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr) and not on('UseTypeUnion'):
                        self.add('feature', where, f'{self.show(x)}: type union, although UseTypeUnion is off')
                    elif isinstance(x, ast.Subscript) and self.head(x.value) == 'Union' and on('UseTypeUnion') \
                            and 'Union' not in source:
                        self.add('feature', where, f'{self.show(x)}, although UseTypeUnion is on')
                    elif isinstance(x, (ast.ClassDef, ast.FunctionDef)) and getattr(x, 'type_params', None) \
                            and not on('UseTypeParameters'):
                        self.add('feature', where, f'{x.name}: type parameter syntax, although UseTypeParameters is off')
        walk(self.m.body, '<module>')

    def announcements(self):
        want = set(self.announce)
        if not want:
            return
        kinds = sorted({k for k, _ in want})
        if not self.diags:
            self.add('announce', '<module>', f'approximation of {kinds} is not announced')
        elif len(self.diags) < len(want):
            self.add('announce', '<module>', f'{len(self.diags)} messages for {len(want)} approximations of {kinds}')

    def declarations(self, decls, scope, where, context):
        last = -1
        used = set()
        fns = []
        td_known = getattr(self, 'td_known', None)
        if td_known is None:
            td_known = self.td_known = {'TypedDict'}
        virtual = context == 'virtual'
        merged = {}
        for d in decls:
            if isinstance(d, (ts.Alias, ts.NS, ts.Enum)):
                merged.setdefault(d.name, []).append(d)
        for d in decls:
            if isinstance(d, ts.Raw):
                continue
            if isinstance(d, ts.Fn):
                fns.append(d)
                continue
            n = self.nm(d.name)
            kinds = {ts.Iface: ('class',), ts.Enum: ('class',), ts.NS: ('class',), ts.Alias: ('assign',),
                     ts.Const: ('field', 'assign')}[type(d)]
            if isinstance(d, ts.Alias) and len(merged[d.name]) > 1:
                # type and namespace of the same name: the enumeration takes precedence
                continue
            cands = [it for it in scope.items if it[0] == n and it[1] in kinds]
            if isinstance(d, ts.Const):
                free = [it for it in cands if id(it[2]) not in used]
                cands = free[:1]
            if not cands:
                self.add('missing', where, f'{type(d).__name__.lower()} {n} does not occur in the output')
                continue
            same = [x for x in decls if not isinstance(x, (ts.Raw, ts.Fn)) and x.name == d.name
                    and type(x) is type(d)]
            if len(cands) > len(same):
                self.add('dup', where, f'{n} occurs {len(cands)} times in the output')
            k = same.index(d) if len(cands) == len(same) else 0
            it = cands[k]
            used.add(id(it[2]))
            self.consumed.add(id(it[2]))
            if it[3] < last:
                self.add('order', where, f'{n} is out of order')
            last = max(last, it[3])
            if isinstance(d, ts.Iface):
                self.interface(d, it, scope, where)
            elif isinstance(d, ts.Alias):
                self.alias(d, it, scope, where)
            elif isinstance(d, ts.Enum):
                self.enum(d, it, where)
            elif isinstance(d, ts.NS):
                self.namespace(d, it, scope, where)
            elif isinstance(d, ts.Const):
                self.const(d, it, scope, where, virtual)
        if context != 'virtual' or fns:
            self.functions(fns, scope, where, 'module' if context == 'module' else 'namespace')
        for it in scope.items:
            if it[1] == 'assign' and id(it[2]) not in used and any(
                    isinstance(x, ts.Alias) for x in merged.get(self.unname(it[0], merged), ())):
                continue        # the alias beside a namespace of the same name
            if it[1] in ('field', 'assign') and id(it[2]) not in used:
                if it[1] == 'assign' and isinstance(it[2], ast.Assign) and isinstance(it[2].value, ast.Call) and \
                        self.head(it[2].value.func) in ('TypeVar', 'TypeVarTuple', 'ParamSpec'):
                    if it[0] in self.tps:
                        continue
                self.add('extra', where, f'{it[0]} has no counterpart in the source')
        self.leftover(scope, where)

    def is_td(self, d):
        """Is the class promised to be a TypedDict?"""
        if any(isinstance(m, (ts.Fn, ts.Special)) for m in d.members):
            return False
        return all(e.name in self.td_known for e in d.ext)

    @inside()
    def interface(self, d, it, scope, where):
        node = it[2]
        n = it[0]
        sub = self.m.scopes[id(node)]
        w = n if where == '<module>' else f'{where}.{n}'
        w = self.p.ctx.decode(w)
        base_cfg = self.cfg.get('BaseClassName', 'TypedDict')
        bases = list(node.bases)
        rest = []
        generic = None
        for b in bases:
            if self.head(b) == 'Generic' and isinstance(b, ast.Subscript):
                generic = [self.head(x) for x in self.args(b)]
            else:
                rest.append(b)
        tps = [self.nm(t) for t in d.tps]
        if d.tps and generic is None and getattr(node, 'type_params', None):
            generic = [t.name for t in node.type_params]
        if (generic or []) != tps:
            self.add('generic', w, f'type parameters {generic or []} instead of {tps}')
        # base classes
        frame = {'TypedDict', 'GenericTypedDict', base_cfg.split('.')[-1]}
        ext_heads = [self.head(b) for b in rest]
        want = []
        for e in d.ext:
            x = self.expected(e)[0]
            want.append(x)
        got = list(rest)
        framework = []
        while len(got) > len(want):
            framework.append(got.pop())
        if len(got) < len(want):
            self.add('bases', w, f'base classes {ext_heads} instead of {[self.p.ctx.decode(str(x[1])) for x in want]}')
        else:
            for x, b in zip(want, got):
                for alt, ev in self.alternatives(b, scope, sub.order):
                    for asp, msg in self.match1(x, alt, scope, sub.order, ev):
                        self.add('bases', w, f'base class: {msg}')
        fw = [self.head(b) for b in framework]
        td = self.is_td(d)
        if base_cfg == 'TypedDict':
            if td:
                self.td_known.add(d.name)
                ok = len(fw) == 1 and fw[0] in ('TypedDict', 'GenericTypedDict')
                if not ok:
                    self.add('kind', w, f'interface without methods is not a TypedDict (bases {ext_heads})')
            elif any(x in ('TypedDict', 'GenericTypedDict') for x in fw):
                self.add('kind', w, f'class with methods or non-TypedDict bases is a TypedDict (bases {ext_heads})')
        else:
            if td:
                self.td_known.add(d.name)
            if td and fw != [base_cfg.split('.')[-1]] and base_cfg:
                if d.ext and not fw:
                    pass
                else:
                    self.add('kind', w, f'bases {ext_heads} lack the configured base class')
        if self.cfg.get('ClassDecorator'):
            if [self.show(x) for x in node.decorator_list] != [self.cfg['ClassDecorator'].lstrip('@').strip()]:
                self.add('decorator', w, 'class decorator is missing')
        elif node.decorator_list:
            self.add('decorator', w, 'class decorator out of nowhere')
        self.members(d.members, sub, w, node=node, interface=d)

    @inside()
    def alias(self, d, it, scope, where):
        node = it[2]
        val = node.value
        w = self.p.ctx.decode(it[0])
        for asp, msg in self.match(d.ty, val, scope, it[3]):
            self.add(asp, w, msg)
        if d.tps and isinstance(node, ast.Assign):
            from .pymodel import Evaluation
            got = list(Evaluation(self.m).value(val, scope, it[3], None).params or ())
            want = [self.nm(t) for t in d.tps]
            if got != want:
                self.add('evaluate', w, f'{it[0]} has the type parameters {got} instead of {want}: no generic type alias'
                         if set(got) != set(want) else
                         f'{it[0]} has the type parameters {got} instead of {want}: other order in the type alias')

    def value_of(self, lit, ident_ok=True):
        kind, text = lit
        text = self.p.text(text)
        if kind in ('string', 'array', 'object'):
            text = js_strings(text)
        if kind in ('array', 'object'):
            parts = re.split(r'("[^"\n]*"|\'[^\'\n]*\')', text)
            for i in range(0, len(parts), 2):
                parts[i] = re.sub(r'\btrue\b', 'True', re.sub(r'\bfalse\b', 'False', parts[i]))
                parts[i] = re.sub(r'([{,]\s*)([^\W\d]\w*)\s*:', r'\1"\2":', parts[i])
            text = ''.join(parts)
        elif kind == 'boolean':
            text = {'true': 'True', 'false': 'False'}[text]
        return text

    def same_value(self, lit, node):
        text = self.value_of(lit)
        try:
            want = ast.literal_eval(text)
            got = ast.literal_eval(node)
            return want == got and type(want) is type(got)
        except (ValueError, SyntaxError):
            return ast.unparse(node) == py(text)

    def enum(self, d, it, where):
        node = it[2]
        w = self.p.ctx.decode(it[0])
        sub = self.m.scopes[id(node)]
        bases = [self.head(b) for b in node.bases]
        lits = [l for _, l in d.items if l]
        all_int = all(l[0] == 'integer' for l in lits)
        if self.cfg.get('UseEnum', True):
            want = ['IntEnum'] if all_int else ['Enum']
            if bases != want:
                self.add('kind', w, f'enumeration has the bases {bases} instead of {want}')
        elif bases:
            self.add('kind', w, f'enumeration has the bases {bases} instead of none')
        self.assigned([(n.lstrip('"\''), l) for n, l in d.items], sub, w, auto=True)

    def assigned(self, items, sub, w, auto=False):
        got = [it for it in sub.items]
        last = -1
        used = set()
        for n, lit in items:
            name = self.nm(n)
            c = [x for x in got if x[0] == name and x[1] in ('assign', 'field')]
            if not c:
                self.add('missing', w, f'member {name} does not occur in the output')
                continue
            if len(c) > 1:
                self.add('dup', w, f'member {name} occurs {len(c)} times')
            x = c[0]
            used.add(id(x[2]))
            if x[3] < last:
                self.add('order', w, f'member {name} is out of order')
            last = x[3]
            if x[1] == 'field':
                self.add('kind', w, f'member {name} is annotated, hence not a member of the enumeration')
            v = x[2].value
            if lit:
                if v is None or not self.same_value(lit, v):
                    self.add('value', w, f'{name} = {self.show(v) if v is not None else None} instead of '
                             f'{self.value_of(lit)}')
            elif auto:
                if self.cfg.get('UseEnum', True):
                    if not (isinstance(v, ast.Call) and self.head(v.func).split('.')[-1] == 'auto'):
                        self.add('value', w, f'{name} = {self.show(v)} instead of an automatic value')
                elif not (isinstance(v, ast.Constant) and v.value == name):
                    self.add('value', w, f'{name} = {self.show(v)} instead of its own name')
        for x in got:
            if x[1] in ('assign', 'field', 'def', 'expr') and id(x[2]) not in used:
                self.add('extra', w, f'member {x[0]} has no counterpart in the source')
        self.leftover(sub, w)

    @inside()
    def namespace(self, d, it, scope, where):
        node = it[2]
        w = self.p.ctx.decode(it[0])
        sub = self.m.scopes[id(node)]
        consts = all(isinstance(x, ts.Const) and x.lit for x in d.decls)
        bases = [self.head(b) for b in node.bases]
        if consts and d.decls:
            lits = [x.lit for x in d.decls if x.lit]
            all_int = all(l[0] == 'integer' for l in lits)
            want = [] if not self.cfg.get('UseEnum', True) else ['IntEnum'] if all_int else ['Enum']
            if bases != want:
                self.add('kind', w, f'namespace of constants has the bases {bases} instead of {want}')
            self.assigned([(x.name, x.lit) for x in d.decls], sub, w)
            return
        self.nested_names |= {self.nm(x.name) for x in d.decls if not isinstance(x, (ts.Raw,)) and
                              getattr(x, 'name', None)}
        self.declarations(d.decls, sub, w, 'virtual' if not any(isinstance(x, ts.Fn) for x in d.decls) else 'namespace')

    @inside()
    def const(self, d, it, scope, where, virtual):
        node = it[2]
        w = self.p.ctx.decode(it[0])
        if it[1] == 'assign' and d.ty is not None and not virtual and where == '<module>':
            self.add('type', w, f'the constant {it[0]} lost its type')
        if it[1] == 'field':
            if d.ty is not None:
                for asp, msg in self.field_type(ts.Fld(d.name, d.ty), node.annotation, scope, it[3]):
                    self.add(asp, w, msg)
        v = node.value
        if d.lit:
            if v is None or not self.same_value(d.lit, v):
                self.add('value', w, f'{it[0]} = {self.show(v) if v is not None else None} instead of '
                         f'{self.value_of(d.lit)}')
        elif v is not None:
            self.add('value', w, f'{it[0]} has the value {self.show(v)} out of nowhere')

    # -------------------------------------------------------------------- names
    def names(self):
        given = self.cfg.get('ClassDecorator', '').lstrip('@').split('(')[0].split('.')[0].strip()
        for n, where, later in self.m.unbound():
            if n == given:
                continue        # the user has to see to that
            d = self.p.ctx.decode(n)
            if later:
                self.add('forward', where, f'{d} is used before it is defined')
            else:
                self.add('unbound', where, f'{d} is not bound')
        for where, msg in self.m.definition_errors():
            self.add('evaluate', where, msg)
        used_kw = keyword.kwlist
        hole_names = set(self.p.holes.values()) | set(self.p.holes)
        for name, text, scope, pos in self.m.forward_refs():
            if name is None:
                self.add('syntax', scope.name or '<module>', f'forward reference {text!r} is not an expression')
                continue
            r = self.m.resolve(name, scope, pos, evaluated=False)
            if r is None and name not in self.source_names():
                self.add('unbound', scope.name or '<module>', f'forward reference {name!r} to nothing')

    def source_names(self):
        if not hasattr(self, '_sn'):
            import re
            text = self.doc.ts(self.p)
            self._sn = {py(x) for x in re.findall(r'[^\W\d]\w*', text)}
        return self._sn


def compare(doc, cfg, printer, code, diags):
    from .pymodel import Model
    m = Model(code)
    return Comparer(doc, cfg, printer, m, diags).run()
