"""pymodel.py - what a generated Python module declares.

Works on the syntax tree of the generated text (a template: hole letters are
ordinary identifiers for the Python parser).  Name resolution follows Python's
scoping: a class body sees its own earlier names and then the module, not the
enclosing class."""

import ast
import builtins

BUILTINS = set(dir(builtins)) | {'__name__', '__file__', '__doc__'}


class Scope:
    def __init__(self, kind, node, parent=None, name=''):
        self.kind, self.node, self.parent, self.name = kind, node, parent, name
        self.items = []            # (name, kind, ast node, position)
        self.classes = {}          # id(ClassDef) -> Scope
        self.pos_in_parent = 0
        self.order = 0

    def defs(self, name):
        return [it for it in self.items if it[0] == name]


class Model:
    """The part of the module after the header."""

    def __init__(self, code, begin='##### BEGIN', end='##### END'):
        self.error = None
        self.code = code
        self.header_names = set()
        self.header_names_alt = None
        try:
            tree = ast.parse(code)
        except (SyntaxError, ValueError) as e:
            self.error = e
            return
        self.tree = tree
        lines = code.split('\n')
        begin_line = next((i + 1 for i, l in enumerate(lines) if l.startswith(begin)), 0)
        self.begin_line = begin_line
        self.header = [s for s in tree.body if s.lineno <= begin_line]
        self.body = [s for s in tree.body if s.lineno > begin_line]
        self.header_names = names_bound(self.header)
        self.counter = 0
        self.scopes = {}
        self.module = Scope('module', tree)
        self.errors = []
        self.fill(self.module, self.body)

    def fill(self, scope, stmts):
        for s in stmts:
            self.counter += 1
            pos = self.counter
            if isinstance(s, ast.ClassDef):
                sub = Scope('class', s, scope, s.name)
                self.scopes[id(s)] = sub
                sub.order = pos
                scope.classes[id(s)] = sub
                self.fill(sub, s.body)
                self.counter += 1
                sub.end = self.counter
                scope.items.append((s.name, 'class', s, self.counter))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s._pos = pos
                scope.items.append((s.name, 'def', s, pos))
            elif isinstance(s, ast.AnnAssign):
                s._pos = pos
                nm = s.target.id if isinstance(s.target, ast.Name) else ast.unparse(s.target)
                scope.items.append((nm, 'field', s, pos))
            elif isinstance(s, ast.Assign):
                s._pos = pos
                for t in s.targets:
                    nm = t.id if isinstance(t, ast.Name) else ast.unparse(t)
                    scope.items.append((nm, 'assign', s, pos))
            elif isinstance(s, ast.Pass):
                pass
            elif isinstance(s, ast.Expr):
                scope.items.append(('', 'expr', s, pos))
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    scope.items.append(((a.asname or a.name).split('.')[0], 'import', s, pos))
            elif hasattr(ast, 'TypeAlias') and isinstance(s, ast.TypeAlias):
                scope.items.append((s.name.id, 'assign', s, pos))
            else:
                scope.items.append(('', type(s).__name__, s, pos))

    # -- name resolution -----------------------------------------------------
    def resolve(self, name, scope, pos, evaluated=True):
        """-> ('header',) | ('builtin',) | ('def', item, scope) | None"""
        s = scope
        while s is not None:
            if s is scope or s.kind == 'module':
                cands = [it for it in s.items if it[0] == name and (it[1] != 'field' or it[2].value is not None)]
                early = [it for it in cands if it[3] < pos]
                if early:
                    return ('def', early[-1], s)
                if not evaluated and cands:
                    return ('def', cands[0], s)
            s = s.parent
        if name in self.header_names:
            return ('header',)
        if name in BUILTINS:
            return ('builtin',)
        return None

    def class_scope(self, item):
        return self.scopes.get(id(item[2])) if item[1] == 'class' else None

    # -- unbound names ---------------------------------------------------------
    def unbound(self):
        """Names evaluated before (or without) being bound: list of (name, where, later)."""
        out = []

        def names(expr, scope, pos, tparams=()):
            if expr is None:
                return
            for n in ast.walk(expr):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in tparams:
                    if self.resolve(n.id, scope, pos) is None:
                        out.append((n.id, where(scope, n), self.declared_anywhere(n.id)))

        def where(scope, n):
            parts = []
            s = scope
            while s is not None and s.kind != 'module':
                parts.append(s.name)
                s = s.parent
            return '.'.join(reversed(parts)) or '<module>'

        def visit(scope):
            for name, kind, node, pos in scope.items:
                if kind == 'class':
                    sub = self.scopes[id(node)]
                    tps = [t.name for t in getattr(node, 'type_params', [])]
                    for b in node.bases:
                        names(b, scope, sub.order, tps)
                    for k in node.keywords:
                        names(k.value, scope, sub.order, tps)
                    for d in node.decorator_list:
                        names(d, scope, sub.order, tps)
                    visit(sub)
                elif kind == 'def':
                    tps = [t.name for t in getattr(node, 'type_params', [])]
                    for d in node.decorator_list:
                        names(d, scope, pos, tps)
                    a = node.args
                    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                        names(x.annotation, scope, pos, tps)
                    for x in a.defaults + [y for y in a.kw_defaults if y]:
                        names(x, scope, pos, tps)
                    names(node.returns, scope, pos, tps)
                elif kind == 'field':
                    names(node.annotation, scope, pos)
                    names(node.value, scope, pos)
                elif kind == 'assign':
                    names(node.value, scope, pos)
                elif kind == 'expr':
                    names(node.value, scope, pos)
        visit(self.module)
        return out

    # -- evaluation at definition time ------------------------------------------
    def definition_errors(self):
        """TypeErrors that the execution of the declarations raises: list of (where, message)."""
        return Evaluation(self).run()

    def forward_refs(self):
        """Names within string annotations with the scope they occur in."""
        out = []

        def strings(expr, scope, pos):
            if expr is None:
                return
            stack = [expr]
            while stack:
                n = stack.pop()
                if isinstance(n, ast.Call):
                    f = n.func.id if isinstance(n.func, ast.Name) else ''
                    if f == 'TypeVar':
                        continue
                    for a in n.args[1:]:
                        stack.append(a)
                    continue
                if isinstance(n, ast.Dict):
                    stack.extend(v for v in n.values if v is not None)
                    continue
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == 'Literal':
                    continue
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    try:
                        e = ast.parse(n.value, mode='eval').body
                    except SyntaxError:
                        out.append((None, n.value, scope, pos))
                        continue
                    for m in ast.walk(e):
                        if isinstance(m, ast.Name):
                            out.append((m.id, n.value, scope, pos))
                    continue
                stack.extend(ast.iter_child_nodes(n))

        def visit(scope):
            for name, kind, node, pos in scope.items:
                if kind == 'class':
                    for b in node.bases:
                        strings(b, scope, pos)
                    visit(self.scopes[id(node)])
                elif kind == 'def':
                    a = node.args
                    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                        strings(x.annotation, scope, pos)
                    strings(node.returns, scope, pos)
                elif kind == 'field':
                    strings(node.annotation, scope, pos)
        visit(self.module)
        return out

    def declared_anywhere(self, name):
        return any(it[0] == name for it in self.module.items)


LATER = 1 << 60
ARITY = {'List': 1, 'Dict': 2, 'Optional': 1, 'Iterator': 1, 'Set': 1, 'NotRequired': 1, 'Callable': 2, 'Sequence': 1,
         'Required': 1, 'ReadOnly': 1, 'Mapping': 2}
PLAIN = {'str', 'int', 'float', 'bool', 'object', 'Exception', 'bytes', 'complex'}


class Val:
    """What an expression denotes: kind is one of
    class (not subscripted class), alias (typing object), union, typevar, str, none, any, data, unknown."""

    def __init__(self, kind, params=None, cls=None, name=''):
        self.kind, self.params, self.cls, self.name = kind, params, cls, name


class Evaluation:
    def __init__(self, model):
        self.m = model
        self.out = []
        self.classes = {}        # id(ClassDef) -> Val
        self.td = {}             # id(ClassDef) -> is a TypedDict?
        self.linear = {}         # id(ClassDef) -> linearization (None: unknown)
        self.cache = {}

    def err(self, where, msg):
        if (where, msg) not in self.out:
            self.out.append((where, msg))

    def run(self):
        self.visit(self.m.module, '<module>')       # declares the classes
        self.out = []
        self.cache = {}
        self.visit(self.m.module, '<module>')
        return self.out

    # ---- expressions
    def name(self, n, scope, pos):
        r = self.m.resolve(n, scope, pos, pos != LATER)
        if r is None:
            return Val('unknown')
        if r[0] == 'builtin' or n in PLAIN:
            return Val('class', () if n in PLAIN else None, name=n)
        if r[0] == 'header':
            if n == 'Any':
                return Val('any', ())
            if n in ('TypedDict', 'GenericTypedDict', 'Generic', 'Enum', 'IntEnum'):
                return Val('class', None if n == 'Generic' else (), name=n)
            return Val('special', None, name=n)
        _, item, sc = r
        if item[1] == 'class':
            return self.classes.get(id(item[2]), Val('unknown'))
        if item[1] in ('assign', 'field') and getattr(item[2], 'value', None) is not None:
            if id(item[2]) in self.cache:
                return self.cache[id(item[2])]
            self.cache[id(item[2])] = Val('unknown')
            if hasattr(ast, 'TypeAlias') and isinstance(item[2], ast.TypeAlias):
                v = Val('alias', None)
            else:
                v = self.value(item[2].value, sc, item[3], None)
            if v.kind != 'typevar':
                v = Val(v.kind, v.params, v.cls, v.name if v.kind == 'special' else n)
                v.isalias = True
            else:
                v = Val('typevar', (n,), None, n) if not getattr(v, 'isalias', False) and isinstance(
                    item[2].value, ast.Call) else Val('typevar', v.params, None, n)
                v.isalias = not isinstance(item[2].value, ast.Call)
            self.cache[id(item[2])] = v
            return v
        return Val('unknown')

    def value(self, e, scope, pos, where):
        """where=None: do not report (the expression is reported at its own place)."""
        def say(msg):
            if where is not None:
                self.err(where, msg)
        if e is None:
            return Val('unknown')
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                if where is not None:       # when the reference is resolved
                    try:
                        self.value(ast.parse(e.value, mode='eval').body, scope, LATER, where)
                    except (SyntaxError, ValueError):
                        pass
                return Val('str', ())
            return Val('none' if e.value is None else 'data', ())
        if isinstance(e, ast.Name):
            return self.name(e.id, scope, pos)
        if isinstance(e, ast.Call):
            f = e.func.id if isinstance(e.func, ast.Name) else ''
            if f in ('TypeVar', 'TypeVarTuple', 'ParamSpec') and e.args and isinstance(e.args[0], ast.Constant):
                return Val('typevar', (e.args[0].value,))
            if f == 'TypedDict':
                for a in e.args[1:]:
                    for v in getattr(a, 'values', ()):
                        self.value(v, scope, pos, where)
                return Val('class', ())
            return Val('unknown')
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.value(e.left, scope, pos, where), self.value(e.right, scope, pos, where)
            weak = ('class', 'none', 'any', 'str', 'uniontype', 'galias')     # no objects of module typing
            if 'unknown' not in (a.kind, b.kind):
                if 'str' in (a.kind, b.kind) and a.kind in weak and b.kind in weak:
                    x = a if a.kind == 'str' else b
                    say(f'{ast.unparse(e)}: a string cannot be combined by |' +
                        ((' (type alias, when resolved)' if pos == LATER else ' (type alias)')
                         if getattr(x, 'isalias', False) else ''))
                elif a.kind == b.kind == 'none':
                    say(f'{ast.unparse(e)}: None cannot be combined by | with None' +
                        (' (type alias)' if getattr(a, 'isalias', False) or getattr(b, 'isalias', False) else ''))
            return Val('uniontype' if a.kind in weak and b.kind in weak else 'union', self.free([a, b]))
        if isinstance(e, ast.List):
            return Val('list', self.free([self.value(x, scope, pos, where) for x in e.elts]))
        if isinstance(e, ast.Subscript):
            h = self.value(e.value, scope, pos, where)
            args = list(e.slice.elts) if isinstance(e.slice, ast.Tuple) else [e.slice]
            if h.kind == 'special' and h.name == 'Literal':
                return Val('alias', ())
            vs = [self.value(a, scope, pos, where) for a in args]
            for i, (a, v) in enumerate(zip(args, vs)):
                if v.kind == 'data' and not (isinstance(a, ast.Constant) and a.value is Ellipsis):
                    say(f'{ast.unparse(e)}: {ast.unparse(a)} is no type')
                if v.kind == 'list' and not (h.name == 'Callable' and i == 0) and h.kind not in ('unknown',) \
                        and h.params != None:
                    say(f'{ast.unparse(e)}: {ast.unparse(a)} is no type')
            params = self.free(vs)
            what = 'type alias' if getattr(h, 'isalias', False) else 'class'
            if h.kind == 'unknown' or h.params is None:
                n = ARITY.get(h.name) if h.kind == 'special' else None
                if n is not None and len(args) != n and getattr(h, 'isalias', False):
                    say(f'{ast.unparse(e)}: {ast.unparse(e.value)} is no generic type alias')
                elif n is not None and len(args) != n:
                    say(f'{ast.unparse(e)}: {h.name} takes {n} type arguments')
                if h.kind == 'class' and h.name == 'Generic':
                    if any(v.kind not in ('typevar', 'unknown') for v in vs) or len(set(params)) < len(vs):
                        say(f'{ast.unparse(e)}: the arguments of Generic must be distinct type variables')
            elif h.kind in ('str', 'none', 'any', 'data', 'typevar'):
                say(f'{ast.unparse(e)}: {ast.unparse(e.value)} is no generic {what}')
            elif len(h.params) != len(args):
                say(f'{ast.unparse(e)}: {ast.unparse(e.value)} is no generic {what}' if not h.params else
                    f'{ast.unparse(e)}: the {what} takes {len(h.params)} type arguments')
            kind = 'union' if h.name in ('Union', 'Optional') else 'alias'
            if h.kind == 'class' and h.params is None and h.name != 'Generic':
                kind = 'galias'
            return Val(kind, params, h.cls, h.name)
        return Val('unknown')

    @staticmethod
    def free(vs):
        out = []
        for v in vs:
            if v.kind in ('typevar', 'alias', 'union', 'list', 'uniontype', 'galias'):
                for p in v.params or ():
                    if p not in out:
                        out.append(p)
        return tuple(out)

    # ---- declarations
    def visit(self, scope, where):
        for name, kind, node, pos in scope.items:
            if kind == 'class':
                self.klass(node, scope, self.m.scopes[id(node)], where)
            elif kind == 'def':
                tps = getattr(node, 'type_params', [])
                if tps:
                    continue
                a = node.args
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    self.value(x.annotation, scope, pos, where)
                self.value(node.returns, scope, pos, where)
            elif kind == 'field':
                self.value(node.annotation, scope, pos, where)
            elif kind == 'assign' and isinstance(node, ast.Assign) and not any(
                    isinstance(b, ast.Name) and b.id in ('Enum', 'IntEnum')
                    for b in getattr(scope.node, 'bases', ())):
                if isinstance(node.value, (ast.Subscript, ast.BinOp, ast.Call)):
                    self.value(node.value, scope, pos, where)

    def klass(self, node, scope, sub, where):
        w = node.name if where == '<module>' else f'{where}.{node.name}'
        self.visit(sub, w)
        if getattr(node, 'type_params', None):
            self.classes[id(node)] = Val('class', tuple(t.name for t in node.type_params), node, node.name)
            return
        params = None
        inherited = []
        vals = []
        for b in node.bases:
            v = self.value(b, scope, sub.order, w)
            vals.append(v)
            head = b.value if isinstance(b, ast.Subscript) else b
            if isinstance(head, ast.Name) and head.id == 'Generic':
                params = v.params
            elif isinstance(b, ast.Subscript):
                inherited += [p for p in v.params or () if p not in inherited]
            if v.kind in ('str', 'none', 'typevar', 'union', 'uniontype', 'data', 'list') or \
                    v.kind == 'alias' and v.name in ('Callable', 'Literal', 'Tuple', 'List', 'Dict'):
                self.err(w, f'{ast.unparse(b)} cannot be the base of a class')
        if params is not None and set(inherited) - set(params):
            self.err(w, f'Generic[{", ".join(params)}] lacks type variables of the other bases')
        self.classes[id(node)] = Val('class', tuple(params if params is not None else inherited), node, node.name)
        known = all(v.kind != 'unknown' for v in vals)
        tds = [v.name in ('TypedDict', 'GenericTypedDict') or v.cls is not None and self.td.get(id(v.cls), False)
               for v in vals]
        real = [(t, b) for t, b, v in zip(tds, node.bases, vals) if v.name != 'Generic']
        self.td[id(node)] = any(tds)
        if any(tds) and not self.classes[id(node)].params:
            self.classes[id(node)].params = None        # dict can always be subscripted
        if any(tds) and known and not all(t for t, _ in real):
            self.err(w, 'a TypedDict cannot have bases that are no TypedDicts: ' +
                     ', '.join(ast.unparse(b) for t, b in real if not t))
        elif not any(tds) and known:
            self.mro(node, vals, w)

    def mro(self, node, vals, w):
        ids = [id(v.cls) if v.cls is not None else v.name for v in vals]
        if len(set(ids)) < len(ids):
            self.err(w, 'duplicate base class')
            return
        seqs = []
        for v, i in zip(vals, ids):
            if v.cls is not None:
                lin = self.linear.get(id(v.cls))
                if lin is None:
                    return
                seqs.append(list(lin))
            else:
                seqs.append([i])
        seqs.append(list(ids))
        out = [id(node)]
        seqs = [s for s in seqs if s]
        while seqs:
            c = next((s[0] for s in seqs if not any(s[0] in t[1:] for t in seqs)), None)
            if c is None:
                self.err(w, 'the base classes cannot be put in an order: ' + ', '.join(ast.unparse(b) for b in node.bases))
                return
            out.append(c)
            seqs = [[x for x in s if x != c] for s in seqs]
            seqs = [s for s in seqs if s]
        self.linear[id(node)] = out


def names_bound(stmts):
    """Names bound by the header on the path where the runtime packages are installed;
    alternative branches of a version test must bind the name on both sides."""
    out = set()
    for s in stmts:
        if isinstance(s, ast.Import):
            out |= {(a.asname or a.name.split('.')[0]) for a in s.names}
        elif isinstance(s, ast.ImportFrom):
            out |= {a.asname or a.name for a in s.names}
        elif isinstance(s, ast.If):
            a, b = names_bound(s.body), names_bound(s.orelse)
            out |= (a & b) if s.orelse else set()
        elif isinstance(s, ast.Try):
            out |= names_bound(s.body) | names_bound(s.orelse) | names_bound(s.finalbody)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        out.add(n.id)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.add(s.target.id)
    return out
