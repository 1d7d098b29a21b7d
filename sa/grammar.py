"""grammar.py - content models of the abstract syntax tree.

Evaluates the grammar class of /repo's parser over recording combinators and
derives, for every node kind, the sequences of child kinds that parsing plus
AST-transformation can produce (repetitions bounded by 0, 1 and 2)."""

import itertools
import re

DISPOSABLE = 'disposable__'


class P:
    """A parser expression."""
    def __init__(self, op, args=(), **kw):
        self.op = op
        self.args = list(args)
        self.kw = kw
        self.symbol = None

    def set(self, p):
        self.op = p.op
        self.args = p.args
        self.kw = p.kw
        self.target = p

    def __repr__(self):
        return f'{self.symbol or self.op}'


def _mk(op):
    def f(*args, **kw):
        return P(op, args, **kw)
    f.__name__ = op
    return f


class Grammar:
    """Base-class model for DHParser.parse.Grammar"""


class CombinedParser:
    MERGE_TREETOPS = 'MERGE_TREETOPS'
    MERGE_LEAVES = 'MERGE_LEAVES'
    FLATTEN = 'FLATTEN'
    NO_TREE_REDUCTION = 'NO_TREE_REDUCTION'
    MERGE_TREETOPS_ = 0


COMBINATORS = {n: _mk(n) for n in (
    'Series', 'Alternative', 'Option', 'ZeroOrMore', 'OneOrMore', 'Interleave', 'Synonym', 'Drop',
    'Text', 'RegExp', 'SmartRE', 'Whitespace', 'Lookahead', 'NegativeLookahead', 'Lookbehind',
    'NegativeLookbehind', 'Forward', 'Required', 'Counted', 'Capture', 'Retrieve', 'Pop', 'Custom',
    'AnyChar', 'IgnoreCase', 'CharRange')}
COMBINATORS['Grammar'] = Grammar
COMBINATORS['CombinedParser'] = CombinedParser
COMBINATORS['mixin_comment'] = lambda whitespace, comment: f'(?:{whitespace}(?:{comment}{whitespace})*)'

MAXREP = 2


class GrammarModel:
    def __init__(self, cls):
        self.cls = cls
        ns = {}
        for k in cls.__mro__[::-1]:
            ns.update(vars(k))
        self.symbols = {k: v for k, v in ns.items() if isinstance(v, P) and not k.endswith('__')}
        for k, v in self.symbols.items():
            v.symbol = k
        self.source_hash = ns.get('source_hash__', '')
        d = ns.get(DISPOSABLE)
        self.disposable = d if d is not None else re.compile('(?!)')
        self.cache = {}
        self.root = 'root'
        self._leaf = {}

    def is_disposable(self, name):
        return bool(self.disposable.match(name))

    def is_leaf(self, sym):
        """Does the symbol produce only text?"""
        if sym not in self._leaf:
            self._leaf[sym] = True
            self._leaf[sym] = not self._has_named(self.symbols[sym], top=True, seen=set())
        return self._leaf[sym]

    def _has_named(self, p, top=False, seen=()):
        if not top and p.symbol and not self.is_disposable(p.symbol):
            return True
        if p.symbol and p.symbol in seen:
            return False
        if p.symbol:
            seen.add(p.symbol)
        if p.op in ('Drop', 'Whitespace', 'Lookahead', 'NegativeLookahead', 'Lookbehind',
                    'NegativeLookbehind', 'Text', 'RegExp', 'SmartRE'):
            return False
        return any(self._has_named(a, False, seen) for a in p.args if isinstance(a, P))

    def words(self, sym, maxrep=MAXREP):
        """All (bounded) child words of symbol sym, as tuples of kinds."""
        key = (sym, maxrep)
        if key not in self.cache:
            if self.is_leaf(sym):
                self.cache[key] = [()]
            else:
                ws = self._words(self.symbols[sym], True, maxrep, ())
                seen, out = set(), []
                for w in ws:
                    w = tuple(x for x in w if not x.startswith(':'))
                    if w not in seen:
                        seen.add(w)
                        out.append(w)
                out = self.refine(sym, out)
                self.cache[key] = sorted(out, key=lambda w: (len(w), w))
        return self.cache[key]

    def refine(self, sym, words):
        """Prioritised choice: words that an earlier alternative consumes first."""
        # 'namespace' is only tried after 'virtual_enum' has failed, which it does
        # on function declarations and on exported declarations
        if sym == 'namespace' and '_namespace' in self.symbols:
            words = [w for w in words if 'function' in w or 'declaration' in w]
        return words

    def _words(self, p, top, maxrep, stack):
        if not top and p.symbol:
            if not self.is_disposable(p.symbol):
                return [(p.symbol,)]
            if p.symbol in stack:
                return [()]
            stack = stack + (p.symbol,)
        op = p.op
        if op in ('Drop', 'Whitespace', 'Lookahead', 'NegativeLookahead', 'Lookbehind',
                  'NegativeLookbehind'):
            return [()]
        if op in ('Text', 'RegExp', 'AnyChar', 'IgnoreCase', 'CharRange'):
            return [(':' + op,)]
        if op == 'SmartRE':
            pat = p.args[0] if p.args and isinstance(p.args[0], str) else ''
            pat = pat.replace('(?P<comment__>', '(?:')
            cap = re.search(r'\((?!\?)|\(\?P<', pat)
            return [(':RegExp',)] if cap else [()]
        if op in ('Series', 'Required'):
            out = [()]
            for a in p.args:
                if not isinstance(a, P):
                    continue
                ws = self._words(a, False, maxrep, stack)
                out = [x + y for x in out for y in ws]
                if len(out) > 20000:
                    raise ValueError('content model too large')
            return _uniq(out)
        if op == 'Alternative':
            out = []
            for a in p.args:
                out += self._words(a, False, maxrep, stack)
            return _uniq(out)
        if op == 'Option':
            return _uniq([()] + self._words(p.args[0], False, maxrep, stack))
        if op in ('ZeroOrMore', 'OneOrMore', 'Counted'):
            ws = self._words(p.args[0], False, maxrep, stack)
            out = [()] if op == 'ZeroOrMore' else []
            cur = [()]
            for i in range(maxrep):
                cur = _uniq([x + y for x in cur for y in ws])
                out += cur
                if len(cur) * len(ws) > 3000:
                    break
            return _uniq(out)
        if op == 'Interleave':
            reps = p.kw.get('repetitions') or [(1, 1)] * len(p.args)
            opts = []
            for a, (lo, hi) in zip(p.args, reps):
                ws = self._words(a, False, maxrep, stack)
                o = [] if lo > 0 else [None]
                opts.append(o + ws)
            out = []
            for combo in itertools.product(*opts):
                parts = [c for c in combo if c is not None]
                for perm in itertools.permutations(parts):
                    out.append(tuple(x for part in perm for x in part))
            return _uniq(out)
        if op in ('Synonym', 'Capture', 'Retrieve', 'Pop', 'Forward'):
            out = []
            for a in p.args:
                if isinstance(a, P):
                    out += self._words(a, False, maxrep, stack)
            return _uniq(out) or [()]
        raise ValueError(f'unknown parser {op}')

    def minimal(self):
        """kind -> minimal word (fewest nodes when expanded recursively)."""
        cost = {s: (1 if self.is_leaf(s) else None) for s in self.symbols}
        best = {s: () for s in self.symbols if self.is_leaf(s)}
        changed = True
        while changed:
            changed = False
            for s in self.symbols:
                if self.is_leaf(s) or self.is_disposable(s):
                    continue
                for w in self.words(s):
                    cs = [cost.get(k) for k in w]
                    if any(c is None for c in cs):
                        continue
                    c = 1 + sum(cs)
                    if cost[s] is None or c < cost[s]:
                        cost[s], best[s] = c, w
                        changed = True
        return best

    def reachable(self):
        """kinds that can occur in the tree, with a shortest chain of kinds from the root."""
        chains = {self.root: (self.root,)}
        todo = [self.root]
        while todo:
            s = todo.pop(0)
            for w in self.words(s):
                for k in w:
                    if k not in chains and not self.is_disposable(k):
                        chains[k] = chains[s] + (k,)
                        todo.append(k)
        return chains

    def parents(self):
        out = {}
        for s in self.reachable():
            for w in self.words(s):
                for k in w:
                    out.setdefault(k, set()).add(s)
        return out


def _uniq(ws):
    return list(dict.fromkeys(ws))
