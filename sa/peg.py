"""peg.py - abstract recogniser: what trees does the grammar assign to a text?

The grammar class of /repo is evaluated over recording combinators (grammar.py),
which yields its parsing expressions as data.  This module gives those
expressions their meaning (ordered choice, tree reduction, dropped tokens) over
abstract texts, and interprets the AST-transformation table the same way."""

import re

from . import core
from .core import Unsupported
from .grammar import P
from .nodes import ANode

EMPTY = ANode(':EMPTY__')
COMMENT = 'comment__'
RX_NAMED = re.compile(r'\(\?P<(:?\w+)>')


class Reject(Exception):
    def __init__(self, pos, symbol, text):
        self.pos, self.symbol, self.text = pos, symbol, text


class Recogniser:
    def __init__(self, model):
        self.model = model
        self.rx = {}
        self.smart = {}

    # -- helpers -----------------------------------------------------------
    def _re(self, pat):
        if not isinstance(pat, str):
            pat = pat.pattern
        if pat not in self.rx:
            self.rx[pat] = re.compile(pat)
        return self.rx[pat]

    def _smart(self, pat):
        if pat not in self.smart:
            names = {}
            p = pat
            for i, name in enumerate(RX_NAMED.findall(pat)):
                alias = f'g{i}_'
                names[alias] = name
                p = p.replace(f'(?P<{name}>', f'(?P<{alias}>', 1)
            rx = re.compile(p)
            real = {idx: names[a] for a, idx in rx.groupindex.items() if a in names}
            groups = [(real.get(i, ':RegExp')) for i in range(1, rx.groups + 1)]
            self.smart[pat] = rx, groups
        return self.smart[pat]

    def _anon(self, name):
        return name[:1] == ':'

    def _disposable(self, p):
        return not p.symbol or self.model.is_disposable(p.symbol)

    def _name(self, p):
        if p.symbol:
            return (':' if self.model.is_disposable(p.symbol) else '') + p.symbol
        return ':' + p.op

    # -- entry -------------------------------------------------------------
    def parse(self, text, symbol='root'):
        self.text = text
        self.memo = {}
        self.far = 0
        self.dead = False
        p = self.model.symbols[symbol]
        node, pos = self.p(p, 0)
        if node is None or pos < len(text) and symbol != 'root':
            raise Reject(self.far, symbol, text)
        if node.name != symbol:
            node = ANode(symbol, (node,)) if not self._anon(node.name) else self._rename(node, symbol)
        return node

    def _rename(self, node, name):
        return ANode(name, node._children, node._text)

    # -- parsing -----------------------------------------------------------
    def p(self, p, pos):
        if isinstance(p, str):
            raise Unsupported('string as parser')
        while p.op == 'Forward' and 'target' in p.__dict__:
            p = p.target
        key = (id(p), pos)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (None, pos)          # left recursion fails
        r = getattr(self, 'p_' + p.op, self.p_unknown)(p, pos)
        if r[0] is not None and r[1] > self.far:
            self.far = r[1]
        self.memo[key] = r
        return r

    def p_unknown(self, p, pos):
        raise Unsupported(f'parsing expression {p.op}')

    def value(self, p, node):
        if p.kw.get('dropped'):
            return EMPTY
        if self._disposable(p):
            return node
        if self._anon(node.name):
            return ANode(p.symbol, node._children, node._text)
        return ANode(p.symbol, (node,))

    def values(self, p, results):
        n = len(results)
        disp = self._disposable(p)
        if n > 1:
            nr, merge = [], True
            for c in results:
                if self._anon(c.name):
                    if c._children:
                        nr.extend(c._children)
                        if any(g._children or not self._anon(g.name) for g in c._children):
                            merge = False
                    elif c._text:
                        nr.append(c)
                else:
                    nr.append(c)
                    merge = False
            if nr:
                if merge:
                    t = ''.join(x._text for x in nr)
                    if t or not disp:
                        return ANode(self._name(p), (), t)
                    return EMPTY
                return ANode(self._name(p), nr)
            return EMPTY if disp else ANode(self._name(p), (), '')
        if n == 1:
            return self.value(p, results[0])
        return EMPTY if disp else ANode(self._name(p), (), '')

    def p_Text(self, p, pos):
        s = p.args[0]
        if self.text.startswith(s, pos):
            if s or not self._disposable(p):
                return ANode(self._name(p), (), s), pos + len(s)
            return EMPTY, pos
        return None, pos

    def p_IgnoreCase(self, p, pos):
        s = p.args[0]
        if self.text[pos:pos + len(s)].lower() == s.lower():
            return ANode(self._name(p), (), self.text[pos:pos + len(s)]), pos + len(s)
        return None, pos

    def p_RegExp(self, p, pos):
        m = self._re(p.args[0]).match(self.text, pos)
        if not m:
            return None, pos
        t = m.group(0)
        if t or not self._disposable(p):
            return ANode(self._name(p), (), t), m.end()
        return EMPTY, m.end()

    def p_SmartRE(self, p, pos):
        rx, groups = self._smart(p.args[0])
        m = rx.match(self.text, pos)
        if not m:
            return None, pos
        vals = m.groups()
        if self._disposable(p) and not any(vals):
            return EMPTY, m.end()
        res = []
        for name, c in zip(groups, vals):
            if c is None:
                continue
            disp = self._anon(name) or self.model.is_disposable(name)
            if ((not disp or c) and name != COMMENT) or c.strip():
                res.append(ANode(name, (), c))
        return self.values(p, res), m.end()

    def p_Whitespace(self, p, pos, drop=False):
        m = self._re(p.args[0]).match(self.text, pos)
        if not m:
            return EMPTY, pos
        c = m.group(0)
        if not c:
            return EMPTY, pos
        if drop:
            if p.kw.get('keep_comments') and c.lstrip():
                return ANode(COMMENT, (), c), m.end()
            return EMPTY, m.end()
        return ANode(self._name(p), (), c), m.end()

    def p_Drop(self, p, pos):
        inner = p.args[0]
        while inner.op == 'Forward' and 'target' in inner.__dict__:
            inner = inner.target
        if inner.op == 'Whitespace':
            return self.p_Whitespace(inner, pos, drop=True)
        node, pos2 = self.p(inner, pos)
        if node is None:
            return None, pos
        return EMPTY, pos2

    def p_Series(self, p, pos):
        results = []
        loc = pos
        mandatory = p.kw.get('mandatory', 10 ** 9)
        for i, a in enumerate(p.args):
            node, loc2 = self.p(a, loc)
            if node is None:
                if i >= mandatory:
                    self.dead = True     # a committed construct failed: syntax error
                    raise Reject(max(loc, self.far), p.symbol or '', self.text)
                return None, pos
            loc = loc2
            if node._children or node._text or not self._anon(node.name):
                results.append(node)
        return self.values(p, results), loc

    def p_Required(self, p, pos):
        node, loc = self.p(p.args[0], pos)
        if node is None:
            raise Reject(pos, p.symbol or '', self.text)
        return self.value(p, node), loc

    def p_Alternative(self, p, pos):
        for a in p.args:
            node, loc = self.p(a, pos)
            if node is not None:
                return self.value(p, node), loc
        return None, pos

    def p_Option(self, p, pos):
        node, loc = self.p(p.args[0], pos)
        if node is None:
            node, loc = EMPTY, pos
        return self.value(p, node), loc

    def _repeat(self, p, pos, lo, hi):
        results, loc, n = [], pos, 0
        while n < hi:
            node, loc2 = self.p(p.args[0], loc)
            if node is None:
                break
            n += 1
            if node._children or node._text or not self._anon(node.name):
                results.append(node)
            if loc2 == loc:
                loc = loc2
                break
            loc = loc2
        if n < lo:
            return None, pos
        return self.values(p, results), loc

    def p_ZeroOrMore(self, p, pos):
        return self._repeat(p, pos, 0, 10 ** 9)

    def p_OneOrMore(self, p, pos):
        return self._repeat(p, pos, 1, 10 ** 9)

    def p_Counted(self, p, pos):
        lo, hi = p.kw.get('repetitions') or p.args[1]
        return self._repeat(p, pos, lo, hi)

    def p_Interleave(self, p, pos):
        reps = p.kw.get('repetitions') or [(1, 1)] * len(p.args)
        counts = [0] * len(p.args)
        results, loc = [], pos
        while True:
            progress = False
            for i, a in enumerate(p.args):
                if counts[i] >= reps[i][1]:
                    continue
                node, loc2 = self.p(a, loc)
                if node is None or loc2 == loc and counts[i] >= reps[i][0]:
                    continue
                counts[i] += 1
                loc = loc2
                if node._children or node._text or not self._anon(node.name):
                    results.append(node)
                progress = True
                break
            if not progress:
                break
        if any(c < r[0] for c, r in zip(counts, reps)):
            return None, pos
        return self.values(p, results), loc

    def p_Synonym(self, p, pos):
        node, loc = self.p(p.args[0], pos)
        if node is None:
            return None, pos
        if not self._disposable(p):
            if self._anon(node.name):
                return ANode(p.symbol, node._children, node._text), loc
            return ANode(p.symbol, (node,)), loc
        return node, loc

    p_Forward = p_Synonym

    def p_Lookahead(self, p, pos):
        node, _ = self.p(p.args[0], pos)
        return (EMPTY, pos) if node is not None else (None, pos)

    def p_NegativeLookahead(self, p, pos):
        node, _ = self.p(p.args[0], pos)
        return (EMPTY, pos) if node is None else (None, pos)

    def p_Lookbehind(self, p, pos):
        rx = p.args[0].args[0]
        rx = rx if isinstance(rx, str) else rx.pattern
        ok = re.search('(?:' + rx + r')\Z', self.text[:pos])
        return (EMPTY, pos) if ok else (None, pos)

    def p_NegativeLookbehind(self, p, pos):
        r = self.p_Lookbehind(p, pos)
        return (None, pos) if r[0] is not None else (EMPTY, pos)


# ------------------------------------------------------------ transformation

class Transformer:
    """Gives the recorded AST-transformation table its meaning."""

    def __init__(self, world, table):
        self.w = world
        self.table = {}
        for k, v in table.items():
            seq = list(v) if isinstance(v, (list, tuple)) else [v]
            for kk in (x.strip() for x in k.split(',')):
                self.table[kk] = seq

    def call(self, f, *args):
        return self.w.interp.call(f, args, {})

    def cond(self, c, path):
        from .interp import truth
        if getattr(c, '_rec', False):
            names = c.args[0] if c.args else ()
            if isinstance(names, str):
                names = set(c.args)
            if c.name == 'has_child':
                return any(x.name in names for x in path[-1]._children)
            if c.name in ('is_one_of', 'name_matches', 'is_named'):
                return path[-1].name in names
            raise Unsupported(f'condition {c.name}')
        return truth(self.call(c, list(path)))

    def apply(self, t, path):
        if isinstance(t, (list, tuple)):
            for x in t:
                self.apply(x, path)
            return
        if not getattr(t, '_rec', False):
            from .core import Unk
            name = getattr(t, '__name__', '')
            if name == 'reduce_single_child':
                return self.reduce_single_child(path)
            if isinstance(t, Unk):
                raise Unsupported(f'transformation {t.label}')
            self.call(t, list(path))
            return
        node = path[-1]
        if t.name == 'change_name':
            node.name = t.args[0]
        elif t.name == 'remove_if':
            if self.cond(t.args[0], path):
                parent = path[-2]
                parent.result = tuple(c for c in parent._children if c is not node)
        elif t.name == 'apply_if':
            if self.cond(t.args[1], path):
                self.apply(t.args[0], path)
        elif t.name == 'apply_unless':
            if not self.cond(t.args[1], path):
                self.apply(t.args[0], path)
        elif t.name == 'add_error':
            core.CTX.event('diagnostic', node, t.args[0], t.args[1] if len(t.args) > 1 else 1000)
        elif t.name == 'move_fringes':
            self.move_fringes(path, t.args[0])
        elif t.name == 'reduce_single_child':
            self.reduce_single_child(path)
        else:
            raise Unsupported(f'transformation {t.name}')

    def reduce_single_child(self, path):
        node = path[-1]
        if len(node._children) == 1:
            c = node._children[0]
            node.result = c.result
            d = dict(c._attr)
            d.update(node._attr)
            node._attr = d

    def move_fringes(self, path, cond):
        node = path[-1]
        if len(path) <= 1 or not node._children:
            return
        parent = path[-2]
        ch = node._children
        a, b = 0, len(ch)
        while a < b:
            if self.cond(cond, path + [ch[a]]):
                a += 1
            elif self.cond(cond, path + [ch[b - 1]]):
                b -= 1
            else:
                break
        before, after, mid = ch[:a], ch[b:], ch[a:b]
        if not (before or after):
            return
        node.result = mid
        pc = parent._children
        i = next(k for k, c in enumerate(pc) if c is node)
        a, b = i - 1, i + 1
        while a >= 0 and self.cond(cond, [pc[a]]):
            a -= 1
        prev = pc[a + 1:i]
        while b < len(pc) and self.cond(cond, [pc[b]]):
            b += 1
        nxt = pc[i + 1:b]

        def merge(target, nodes):
            if all(not n._children for n in nodes):
                target.result = ''.join(n._text for n in nodes)
                return True
            return False
        if len(before) + len(prev) > 1:
            t = before[-1] if before else prev[0]
            if merge(t, prev + before):
                before = (t,)
        before = before or prev
        if len(after) + len(nxt) > 1:
            t = after[0] if after else nxt[-1]
            if merge(t, after + nxt):
                after = (t,)
        after = after or nxt
        parent.result = pc[:a + 1] + before + (node,) + after + pc[b:]

    def run(self, tree):
        for t in self.table.get('<<<', []):
            self.apply(t, [tree])

        def rec(path):
            node = path[-1]
            children = node._children
            for c in children:
                rec(path + [c])
            name = node.name
            for t in self.table.get('<', []):
                self.apply(t, path)
            for t in self.table.get(name, self.table.get('*', [])):
                self.apply(t, path)
            for t in self.table.get('>', []):
                self.apply(t, path)
        rec([tree])
        for t in self.table.get('>>>', []):
            self.apply(t, [tree])
        return tree
