"""agreement.py - the shipped parser implements the shipped grammar (C12)."""

import functools
import multiprocessing
import os
import re

from . import core, damage, families as FF, grammar, peg, pipeline, report, stubs
from .tsast import Printer

PARSER = os.path.join(stubs.REPO, pipeline.PARSER_MODULE + '.py')


def model_of(text):
    w = stubs.World(source_overrides={PARSER: text})
    ns = w.load(pipeline.PARSER_MODULE).ns
    if 'ts2pythonGrammar' not in ns:
        raise pipeline.Anchor('ts2pythonGrammar not found')
    return grammar.GrammarModel(ns['ts2pythonGrammar'])


def canonical(x, model, top=True):
    """A parsing expression as nested tuple; other symbols by name."""
    if isinstance(x, grammar.P):
        while x.op == 'Forward' and 'target' in x.__dict__:
            x = x.target
        if not top and x.symbol:
            return x.symbol
        kw = tuple(sorted((k, canonical(v, model, False)) for k, v in x.kw.items()))
        return (x.op,) + tuple(canonical(a, model, False) for a in x.args) + ((kw,) if kw else ())
    if isinstance(x, re.Pattern):
        return x.pattern
    if isinstance(x, (list, tuple)):
        return tuple(canonical(y, model, False) for y in x)
    return x


SETTINGS = ('early_tree_reduction__', 'COMMENT__', 'WHITESPACE__', 'WSP_RE__', 'resume_rules__', 'skip_rules__',
            'error_messages__', 'drop__')


def settings(model):
    ns = {}
    for k in model.cls.__mro__[::-1]:
        ns.update(vars(k))
    out = {}
    for k in SETTINGS:
        v = ns.get(k)
        if isinstance(v, dict):
            v = {a: canonical(b, model) for a, b in v.items()}
        out[k] = v
    r = ns.get('root__')
    out['root__'] = getattr(r, 'symbol', None)
    return out


def parse(rec, text):
    try:
        return show(rec.parse(text))
    except peg.Reject:
        return None


def show(nd):
    return (nd.name,) + (tuple(show(c) for c in nd._children) if nd._children else (nd._text,))


def differ(a, b):
    """The innermost nodes in which two trees differ first."""
    if a is None or b is None:
        return 'is rejected by ' + ('the parser' if a is None else 'the grammar')
    if a[0] != b[0]:
        return f'the parser yields a node "{a[0]}" instead of "{b[0]}"'
    if len(a) == len(b):
        for x, y in zip(a[1:], b[1:]):
            if x != y:
                if isinstance(x, tuple) and isinstance(y, tuple):
                    return differ(x, y)
                return f'the parser yields "{x}" instead of "{y}" in a node "{a[0]}"'
    ch = lambda t: [c[0] if isinstance(c, tuple) else 'text' for c in t[1:]]
    return f'the parser yields {ch(a)} instead of {ch(b)} in a node "{a[0]}"'


def _compare(recs, case):
    core.set_ctx(core.Ctx())
    c = core.ctx()
    text = case.doc.ts(Printer(c))
    out = []
    shipped, wanted = recs
    n = 0
    try:
        texts = [('', text)] + [(what, bad) for i, (what, bad, _) in enumerate(damage.damages(text)) if i % 9 == case.part % 9]
        texts += [(what, bad) for what, bad, _ in damage.deletions(text)]
        for what, t in texts:
            n += 1
            a, b = parse(shipped, t), parse(wanted, t)
            if a != b and len(out) < 4:
                out.append((case.label + (f' with {what}' if what else ''), c.decode(differ(a, b)), c.decode(t)))
    except core.Unsupported as e:
        return n, out, str(e)
    return n, out, ''


_RECS = None


def _work(case):
    return _compare(_RECS, case)


def check(tier):
    global _RECS
    with open(PARSER, encoding='utf-8') as f:
        text = f.read()
    assumptions = ['the parser generator of the installed DHParser translates the grammar correctly',
                   'the models of the parser combinators in sa/peg.py match DHParser']
    cov = {'explanation': 'the parsing expressions of the shipped grammar class are compared with those generated from ts2python.ebnf '
                          'symbol by symbol; where they differ in form, the trees of all document skeletons (also of damaged ones) are compared'}
    if pipeline.outdated():
        cov.update(obligations=1, stale='the parser section is regenerated by the next build or run')
        return report.Result([], cov, [], assumptions, 1)
    new = pipeline.regenerated()
    F = report.Finding
    if new is None:
        return report.Result([F('ts2python.ebnf', '', 'grammar', 'ts2python.ebnf', 'the grammar cannot be compiled', 'ts2python.ebnf')],
                             cov, [], assumptions, 1)
    core.set_ctx(core.Ctx())
    shipped, wanted = model_of(text), model_of(new)
    suspicious = []
    for k in sorted(set(shipped.symbols) | set(wanted.symbols)):
        a, b = shipped.symbols.get(k), wanted.symbols.get(k)
        if a is None or b is None or canonical(a, shipped) != canonical(b, wanted) or \
                shipped.is_disposable(k) != wanted.is_disposable(k):
            suspicious.append(k)
    sa, sb = settings(shipped), settings(wanted)
    suspicious += [k for k in sa if sa[k] != sb[k]]
    cov.update(symbols=len(wanted.symbols), settings=len(sa), obligations=len(wanted.symbols) + len(sa),
               symbols_that_differ_in_form=suspicious, documents_compared=0)
    findings, undecided = [], []
    if suspicious:
        _RECS = peg.Recogniser(shipped), peg.Recogniser(wanted)
        cases = list(damage.damage_cases(tier))
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
            for n, out, und in pool.imap_unordered(_work, cases, chunksize=4):
                cov['documents_compared'] += n
                undecided += [und] if und else []
                for label, msg, t in out:
                    findings.append(F(label, '', 'tree', f'{pipeline.PARSER_MODULE}.ts2pythonGrammar', msg,
                                      'ts2pythonGrammar.' + ', '.join(suspicious[:4]), f'    document:\n        {t}'))
        findings.sort(key=lambda f: (f.case, f.msg))
    return report.Result(findings, cov, undecided, assumptions, cov['obligations'] + cov['documents_compared'])
