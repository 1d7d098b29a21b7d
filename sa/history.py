"""history.py - decides whether the result of a transpilation depends on anything
but the document and the configuration.

One compiler object is interpreted abstractly on a sequence of documents, as
in one process (the compiler is a singleton): documents transpiled before, with
other configurations, or aborted at any node.  The output and the messages
for the last document must be those of a fresh process."""

from . import core, families as FF, peg, pipeline, validation as V
from .core import PyRaise
from .tsast import Printer


class Seq(V.Case):
    """steps: [(document, configuration, node at which the transpilation is aborted or None)]"""

    def __init__(self, label, steps):
        super().__init__(label, None)
        self.steps = steps
        self.style = FF.cfg_label(steps[-1][1])


class Order(V.Case):
    def __init__(self, doc, cfg):
        super().__init__('set-order:' + doc.label, None)
        self.doc, self.cfg = doc, cfg
        self.style = FF.cfg_label(cfg)


class Abort(Exception):
    pass


def transpile(site, c, comp, pr, doc, cfg, abort=None):
    """-> (output, messages)"""
    c.config.clear()
    c.config.update(pipeline.full_config(cfg))
    tree = site.tree(doc.ts(pr))
    start = len(c.events)
    if abort is not None:
        count = [0]

        def hook(what, compiler, node, result):
            if what == 'enter':
                count[0] += 1
                if count[0] > abort:
                    raise PyRaise(Abort('aborted'))
        c.compile_hook = hook
    try:
        code = site.run(comp, tree)
    except PyRaise as e:
        if not isinstance(e.exc, Abort):
            raise
        return None, None
    else:
        if abort is not None:
            return None, 'not aborted'
    finally:
        c.compile_hook = None
    return code, [tuple(str(x) for x in e[2:]) for e in c.events[start:] if e[0] == 'diagnostic']


def text(code):
    return pipeline.body_of(code)


def header(code):
    return [l for l in code.split(pipeline.BEGIN)[0].split('\n') if not l.startswith(('# Generated', 'source_hash__'))]


def job(case):
    if isinstance(case, Order):
        return job_order(case)
    site = pipeline.site()

    def run(c):
        pr = Printer(c)
        doc, cfg, _ = case.steps[-1]
        site.restore()
        c.source = doc.ts(pr)
        c.config.clear()
        c.config.update(pipeline.full_config(case.steps[0][1]))
        comp = site.compiler()
        for d, g, abort in case.steps[:-1]:
            try:
                if transpile(site, c, comp, pr, d, g, abort)[1] == 'not aborted':
                    return None         # the document has fewer nodes
            except PyRaise as e:
                raise core.Unsupported(f'the document before: {e.exc}')
            except peg.Reject:
                raise core.Unsupported('the document before is rejected')
        try:
            got, msgs2 = transpile(site, c, comp, pr, doc, cfg)
        except PyRaise as e:
            return 'crash', f'{type(e.exc).__name__}: {c.decode(str(e.exc))}'
        site.restore()
        c.config.clear()
        c.config.update(pipeline.full_config(cfg))
        try:
            fresh, msgs = transpile(site, c, site.compiler(), pr, doc, cfg)
        except PyRaise as e:
            raise core.Unsupported(f'the document alone: {e.exc}')
        if not isinstance(got, str) or not isinstance(fresh, str):
            return 'crash', 'no output'
        if text(got) != text(fresh) or header(got) != header(fresh):
            a, b = c.decode(text(fresh)).split('\n'), c.decode(text(got)).split('\n')
            if header(got) != header(fresh):
                a, b = header(fresh), header(got)
            for x, y in zip(a + [''] * len(b), b + [''] * len(a)):
                if x != y:
                    return 'output', f'the output is "{y.strip()}" instead of "{x.strip()}"'
        if msgs != msgs2:
            return 'messages', f'the messages are {msgs2} instead of {msgs}'
        return None

    def judge(c, kind, r):
        if kind == 'raise':
            raise core.Unsupported(f'{type(r.exc).__name__}: {r.exc}')
        if r is None:
            return None
        before = ', then '.join((f'{d.label} [{FF.cfg_label(g)}]' + (f' aborted at node {a}' if a is not None else ''))
                                for d, g, a in case.steps[:-1])
        return r[0], f'after {before}: {r[1]}'
    return V.outcome(case, run, judge, 64)


def job_order(case):
    site = pipeline.site()
    outs = {}

    def run(c):
        site.restore()
        c.set_orders = True
        pr = Printer(c)
        c.source = case.doc.ts(pr)
        code, msgs = transpile(site, c, site.compiler(), pr, case.doc, case.cfg)
        return code, msgs

    def judge(c, kind, r):
        rest = tuple((k, lb) for k, n, lb in c.oracle.trace if lb != 'order of sets is reversed')
        out = (type(r.exc).__name__, c.decode(str(r.exc))) if kind == 'raise' else (
            c.decode(text(r[0])), [[c.decode(x) for x in m] for m in r[1]])
        first = outs.setdefault(rest, out)
        if first != out:
            a, b = str(first[0]).split('\n'), str(out[0]).split('\n')
            diff = next(((x.strip(), y.strip()) for x, y in zip(a, b) if x != y), ('', 'the messages'))
            return 'order', f'the order in which a set is iterated decides between "{diff[0]}" and "{diff[1]}"'
        return None
    return V.outcome(case, run, judge, 64)


KINDS = ('iface:opt', 'iface:record', 'iface:union-records', 'iface:method-record', 'iface:overloads', 'iface:generic',
         'iface:extends', 'iface:call', 'alias:records', 'alias:array', 'enum:auto', 'ns:consts', 'ns:func', 'ns:overload',
         'const:record', 'func:record', 'func:overload', 'class', 'enum:int', 'const', 'alias:lits', 'module')
NODES = {}


def sequence_cases(tier):
    kinds = FF.decl_kinds('1')
    docs = {k: FF.Doc(f'decl:{k}', v) for k, v in kinds.items()}
    other = {k: FF.Doc(f'decl2:{k}', v) for k, v in FF.decl_kinds('2').items()}
    before = list(docs) if tier == 'thorough' else [k for k in docs if k in KINDS]
    for k1 in before:
        for k2 in docs:
            yield Seq(f'{k1} before {k2}', [(docs[k1], FF.BASE, None), (docs[k2], FF.BASE, None)])
            if tier == 'thorough':
                yield Seq(f'{k1} before other {k2}', [(docs[k1], FF.BASE, None), (other[k2], FF.BASE, None)])
    some = [k for k in ('iface:opt', 'iface:record', 'ns:consts', 'enum:auto', 'func:record', 'alias:records', 'iface:generic')
            if k in docs]
    cfgs = dict(FF.CONFIGS)
    for n1, g1 in cfgs.items():
        for n2, g2 in cfgs.items():
            if n1 != n2:
                for k in some if tier == 'thorough' else some[:5]:
                    yield Seq(f'{n1} before {n2}: {k}', [(docs[k], g1, None), (docs[k], g2, None)])
    # aborted at any node; whatever was left behind shows in one of many declarations
    final = FF.Doc('everything', [d for i, k in enumerate(docs if tier == 'thorough' else KINDS)
                                  for d in FF.decl_kinds(f'z{i}')[k]])
    again = FF.Doc('the same names', [d for k in ('iface:extends', 'const:record', 'const:str') for d in kinds[k]])
    for k in docs if tier == 'thorough' else KINDS:
        for at in range(1, NODES[k] if k in NODES else 40, 1 if tier == 'thorough' else 2):
            yield Seq(f'{k} aborted at {at} before everything', [(docs[k], FF.BASE, at), (final, FF.BASE, None)])
            yield Seq(f'{k} aborted at {at} before the same names', [(docs[k], FF.BASE, at), (again, FF.BASE, None)])
    for k in docs:
        yield Seq(f'{k} three times', [(docs[k], FF.BASE, None)] * 3)
        yield Seq(f'{k} aborted twice', [(docs[k], FF.BASE, 4), (docs[k], FF.BASE, 2), (docs[k], FF.BASE, None)])
    # the order of sets
    sets = list(FF.declaration_docs()) + list(FF.order_docs())
    types = FF.all_types() if tier == 'thorough' else {**FF.nested(), **FF.light_types()}
    for k, t in types.items():
        sets += list(FF.in_positions(k, t, ('field', 'param', 'return', 'alias', 'funcret') if tier == 'thorough' else
                                     ('field', 'alias', 'funcret')))
    names = list(FF.coincidence_docs()) + list(FF.scope_docs()) + list(FF.homonym_docs())
    sets += names if tier == 'thorough' else names[::4]
    for d in sets:
        yield Order(d, FF.BASE)
    for d in names if tier == 'thorough' else names[1::16]:
        yield Order(d, FF.C_UNION)
    mixed = list(FF.mixed_docs(400 if tier == 'thorough' else 60, 70000))
    for a, b in zip(mixed, mixed[1:]):
        yield Seq(f'{a.label} before {b.label}', [(a, FF.BASE, None), (b, FF.BASE, None)])
        yield Order(b, FF.C_FUN)
