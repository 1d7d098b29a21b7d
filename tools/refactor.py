#!/usr/bin/env python3
"""Makes behaviour-preserving variants of the sources, to test that the checks stay quiet.

refactor.py TRANSFORMATION DIRECTORY  rewrites the functions of the modules in DIRECTORY (a copy of the repository)"""
import ast
import os
import sys
import textwrap

FILES = ('ts2pythonParser.py', 'demo/extract_ts_from_lsp_specs.py', 'ts2python/json_validation.py', 'ts2python/typeddict_shim.py',
         'ts2python/singledispatch_shim.py')


def local_names(fn):
    names = set()
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            skip |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            a = n.args
            skip |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        if isinstance(n, ast.ClassDef):
            return set()
    a = fn.args
    skip |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    if a.vararg:
        skip.add(a.vararg.arg)
    if a.kwarg:
        skip.add(a.kwarg.arg)
    return names - skip


class Rename(ast.NodeTransformer):
    """local variables get other names"""
    def __init__(self, fn):
        self.names = local_names(fn)

    def visit_Name(self, n):
        if n.id in self.names:
            n.id += '_local'
        return n


class Base(ast.NodeTransformer):
    def __init__(self, fn):
        self.n = 0
        self.fn = fn

    def fresh(self, s='tmp'):
        self.n += 1
        return f'_{s}{self.n}'


class Invert(Base):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Loops(Base):
    """comprehensions as loops"""
    def expand(self, target, comp):
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(target, ast.Load()), 'append', ast.Load()), [comp.elt], []))]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([ast.Name(target, ast.Store())], ast.List([], ast.Load()))] + body

    def stmt(self, n):
        v = n.value
        if isinstance(v, ast.ListComp):
            t = self.fresh('list')
            n.value = ast.Name(t, ast.Load())
            return self.expand(t, v) + [n]
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) and \
                isinstance(v.func, ast.Attribute) and v.func.attr == 'join' and isinstance(v.func.value, ast.Constant):
            t = self.fresh('list')
            c = v.args[0]
            v.args[0] = ast.Name(t, ast.Load())
            return self.expand(t, c) + [n]
        return n
    visit_Assign = visit_Return = lambda self, n: self.stmt(n) if n.value is not None else n


class Enumerate(Base):
    """for x in xs -> for i, x in enumerate(xs)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([ast.Name(self.fresh('i'), ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
        return n


class While(Base):
    """for x in xs -> it = iter(list(xs)); while True: try: x = next(it) ..."""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        seq, i = self.fresh('seq'), self.fresh('i')
        N = lambda s: ast.Name(s, ast.Load())
        for m in ast.walk(ast.Module(n.body, [])):
            if isinstance(m, ast.Continue):
                return n
        return [ast.Assign([ast.Name(seq, ast.Store())], ast.Call(N('list'), [n.iter], [])),
                ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                ast.While(ast.Compare(N(i), [ast.Lt()], [ast.Call(N('len'), [N(seq)], [])]),
                          [ast.Assign([n.target], ast.Subscript(N(seq), N(i), ast.Load())),
                           ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]


class Result(Base):
    """return e -> result = e; return result"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = self.fresh('result')
        return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]


class Format(Base):
    """f-strings as str.format"""
    def visit_JoinedStr(self, n):
        fmt, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('{', '{{').replace('}', '}}')
            elif v.format_spec is None and v.conversion in (-1, 114):
                fmt += '{!r}' if v.conversion == 114 else '{}'
                args.append(v.value)
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])


class Concat(Base):
    """f-strings as concatenations"""
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None and v.conversion == -1:
                parts.append(ast.Call(ast.Name('str', ast.Load()), [v.value], []))
            else:
                return n
        e = parts[0] if parts else ast.Constant('')
        for p in parts[1:]:
            e = ast.BinOp(e, ast.Add(), p)
        return e


class Statements(Base):
    """conditional expressions as statements"""
    def stmt(self, n):
        v = n.value
        if isinstance(v, ast.IfExp):
            t = self.fresh('cond')
            n.value = ast.Name(t, ast.Load())
            return [ast.If(v.test, [ast.Assign([ast.Name(t, ast.Store())], v.body)],
                           [ast.Assign([ast.Name(t, ast.Store())], v.orelse)]), n]
        return n
    visit_Assign = visit_Return = lambda self, n: self.stmt(n) if n.value is not None else n


class Membership(Base):
    """x in (a, b) -> x == a or x == b, simple x only"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.comparators[0], (ast.Tuple, ast.Set)) and isinstance(n.left, (ast.Name, ast.Attribute)) and \
                all(isinstance(e, ast.Constant) for e in n.comparators[0].elts):
            e = ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [c]) for c in n.comparators[0].elts])
            return ast.UnaryOp(ast.Not(), e) if isinstance(n.ops[0], ast.NotIn) else e
        return n


class Guards(Base):
    """for ...: if c: body -> for ...: if not c: continue; body"""
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return n


class Nest(Base):
    """and/or in conditions of if-statements as nested ifs"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for t in reversed(n.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        return n


class Extract(Base):
    """bodies of if-statements and loops as local functions"""
    def ok(self, body):
        for s in body:
            for m in ast.walk(s):
                if isinstance(m, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda,
                                  ast.Global, ast.Nonlocal, ast.ListComp, ast.GeneratorExp, ast.Import, ast.ImportFrom,
                                  ast.SetComp, ast.DictComp, ast.Delete)):
                    return False
                if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id in ('super', 'locals'):
                    return False
        return True

    def visit_If(self, n):
        self.generic_visit(n)
        if self.ok(n.body) and not isinstance(n.body[0], ast.Pass):
            f = self.fresh('helper')
            stored = sorted({m.id for s in n.body for m in ast.walk(s)
                             if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
            if any(s not in self.assigned for s in stored):
                return n
            self.stored |= set(stored)
            body = ([ast.Nonlocal(stored)] if stored else []) + n.body
            d = ast.FunctionDef(f, ast.arguments([], [], None, [], [], None, []), body, [], None, None, [])
            n.body = [d, ast.Expr(ast.Call(ast.Name(f, ast.Load()), [], []))]
        return n

    def visit_FunctionDef(self, n):
        if n is not self.fn:
            return n
        a = n.args
        params = {x.arg for x in a.args + a.kwonlyargs}
        self.assigned = local_names(n) | params
        self.stored = set()
        self.generic_visit(n)
        names = sorted(self.stored - params)
        if names:
            i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body.insert(i, ast.Assign([ast.Name(x, ast.Store()) for x in names], ast.Constant(None)))
        return n


class Helper(Base):
    """right-hand sides as helper functions"""
    def visit_Assign(self, n):
        if isinstance(n.value, (ast.Constant, ast.Name)) or any(
                isinstance(m, (ast.Yield, ast.NamedExpr, ast.Lambda)) or isinstance(m, ast.Call) and
                isinstance(m.func, ast.Name) and m.func.id in ('super', 'locals') for m in ast.walk(n.value)):
            return n
        f = self.fresh('calc')
        d = ast.FunctionDef(f, ast.arguments([], [], None, [], [], None, []), [ast.Return(n.value)], [], None, None, [])
        n.value = ast.Call(ast.Name(f, ast.Load()), [], [])
        return [d, n]

    def visit_ClassDef(self, n):
        return n


class With(Base):
    """with open(...) as f -> f = open(...); try: ... finally: f.close()"""
    def visit_With(self, n):
        self.generic_visit(n)
        it = n.items[0]
        if len(n.items) == 1 and isinstance(it.context_expr, ast.Call) and getattr(it.context_expr.func, 'id', '') == 'open':
            name = it.optional_vars.id
            return [ast.Assign([ast.Name(name, ast.Store())], it.context_expr),
                    ast.Try(n.body, [], [], [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'close', ast.Load()),
                                                               [], []))])]
        return n


class Join(Base):
    """'sep'.join(generator) -> 'sep'.join([list])"""
    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return ast.ListComp(n.elt, n.generators)


class Lambdas(Base):
    """comprehensions as map/filter with lambdas"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or not isinstance(n.generators[0].target, ast.Name):
            return n
        g = n.generators[0]
        args = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
        it = g.iter
        for c in g.ifs:
            it = ast.Call(ast.Name('filter', ast.Load()), [ast.Lambda(args, c), it], [])
        return ast.Call(ast.Name('list', ast.Load()), [ast.Call(ast.Name('map', ast.Load()), [ast.Lambda(args, n.elt), it], [])],
                        [])


class Unparse(Base):
    """formatting only"""


class Locals(Base):
    """attributes of self that are read first as local variables"""
    def visit_Expr(self, n):
        return n

    def visit_Call(self, n):
        # arguments as keyword-free temporaries are beyond this tool; calls via a local alias
        self.generic_visit(n)
        return n


class DictGet(Base):
    """a += b -> a = a + b for strings built from constants or f-strings"""
    def visit_AugAssign(self, n):
        if isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and isinstance(n.value, (ast.Constant, ast.JoinedStr)):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), ast.Add(), n.value))
        return n


class Match(Base):
    """if/elif chains of isinstance / equality: else branches nested explicitly"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.orelse = [ast.Pass()] + n.orelse
        return n


class Strings(Base):
    """== comparisons swapped"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            n.left, n.comparators = n.comparators[0], [n.left]
        return n


class Slices(Base):
    """x[-1:] == 'c' -> x.endswith('c'), x[:n] == 'abc' -> x.startswith('abc')"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and isinstance(n.left, ast.Subscript) and \
                isinstance(n.left.slice, ast.Slice) and isinstance(n.comparators[0], ast.Constant) and \
                isinstance(n.comparators[0].value, str) and n.comparators[0].value:
            s, c = n.left.slice, n.comparators[0]
            num = lambda x: x.value if isinstance(x, ast.Constant) else -x.operand.value if isinstance(x, ast.UnaryOp) else None
            if s.lower is None and s.upper is not None and num(s.upper) == len(c.value):
                return ast.Call(ast.Attribute(n.left.value, 'startswith', ast.Load()), [c], [])
            if s.upper is None and s.lower is not None and num(s.lower) == -len(c.value):
                return ast.Call(ast.Attribute(n.left.value, 'endswith', ast.Load()), [c], [])
        return n


ALL = {c.__name__: c for c in (Unparse, Rename, Invert, Loops, Enumerate, While, Result, Format, Concat, Statements, Membership,
                               Guards, Nest, Extract, Helper, With, Join, Lambdas, DictGet, Match, Strings, Slices)}


def transform(src, T, only=None):
    tree = ast.parse(src)
    lines = src.split('\n')
    todo = []

    def collect(body, indent):
        for n in body:
            if isinstance(n, ast.FunctionDef) and n.name not in ('__new__',) and (only is None or n.name in only):
                todo.append((n, indent))
            elif isinstance(n, ast.ClassDef) and n.name != 'ts2pythonGrammar':
                collect(n.body, indent + 4)
            elif isinstance(n, ast.If):
                collect(n.body, n.body[0].col_offset)
                collect(n.orelse, n.orelse[0].col_offset if n.orelse else 0)
    collect(tree.body, 0)
    for n, _ in sorted(todo, key=lambda t: -t[0].lineno):
        first = min([n.lineno] + [d.lineno for d in n.decorator_list])
        indent = n.col_offset
        new = T(n).visit(n)
        ast.fix_missing_locations(new)
        text = textwrap.indent(ast.unparse(new), ' ' * indent)
        if T is not Unparse and any(isinstance(m, ast.Constant) and isinstance(m.value, str) and '\n' in m.value
                                    for m in ast.walk(new)):
            # indentation must not change multi-line strings
            text = '\n'.join((' ' * indent + l if indent else l) for l in ast.unparse(new).split('\n'))
        lines[first - 1:n.end_lineno] = text.split('\n')
    return '\n'.join(lines)


def main():
    T, d = ALL[sys.argv[1]], sys.argv[2]
    for f in FILES:
        p = os.path.join(d, f)
        with open(p, encoding='utf-8') as fp:
            src = fp.read()
        new = transform(src, T)
        compile(new, p, 'exec')
        with open(p, 'w', encoding='utf-8') as fp:
            fp.write(new)


if __name__ == '__main__':
    main()
