"""threads.py - decides whether threads interfere with each other.

Two operations are interpreted abstractly at the same time.  Before every
statement of the analysed code the other operation may go on (bounded number
of such preemptions); locks block, thread-local objects are kept apart.  The
results must be those of the operations one after the other."""

from . import core, dispatch as D, families as FF, peg, pipeline, stubs, validation as V
from .core import PyRaise
from .sched import current, together, threading_module
from .tsast import Printer

class Singleton:
    """DHParser.toolkit.ThreadLocalSingletonFactory"""

    def __init__(self, factory, name='', *a, uniqueID=None, ident=None, **k):
        self.factory = factory

    def __call__(self):
        d = core.CTX.__dict__.setdefault('singletons', {}) if core.CTX is not None else {}
        k = id(self), current()
        if k not in d:
            f = self.factory
            d[k] = site_().world.interp.call(f, (), {}) if callable(f) else f
        return d[k]


# ----------------------------------------------------------- transpilation

class TSite(pipeline.Site):
    def prepare_world(self):
        self.world.stubs['threading'] = threading_module()
        self.world.dhparser.update(
            ThreadLocalSingletonFactory=Singleton, full_pipeline=full_pipeline,
            create_junction=lambda cls, src, dst, *a: stubs.Junction(src, Singleton(cls), dst),
            end_points=lambda junctions: {j.dst for j in junctions} - {j.src for j in junctions})


def full_pipeline(source, preprocessor, parser, junctions, targets):
    s = site_()
    tree = s.rec.parse(source, 'root')
    target, = targets
    stage, result = 'cst', tree
    tree.source = source
    js = {j.src: j for j in junctions}
    while stage != target:
        j = js.get(stage)
        if j is None:
            raise core.Unsupported(f'no junction from {stage} to {target}')
        obj = s.world.interp.call(j.factory, (), {}) if not isinstance(j.factory, Singleton) else j.factory()
        if stage == 'cst':
            table = getattr(obj, 'keywords', {}).get('transformation_table', s.table)
            peg.Transformer(s.world, table).run(tree)
        else:
            result = s.world.interp.call(obj, (tree,), {})
        stage = j.dst
    return {target: (result, list(tree.errors))}


_S = None


def site_():
    global _S
    if _S is None:
        _S = TSite()
        if 'compile_src' not in _S.mod.ns:
            raise pipeline.Anchor('compile_src not found')
    return _S


class Docs(V.Case):
    def __init__(self, doc1, cfg1, doc2, cfg2, bound=1, coarse=True):
        super().__init__(f'{doc1.label} with {doc2.label}', None)
        self.docs, self.cfgs, self.bound, self.coarse = (doc1, doc2), (cfg1, cfg2), bound, coarse
        self.style = FF.cfg_label(cfg1) + ('' if cfg1 == cfg2 else ';' + FF.cfg_label(cfg2))


def transpiled(r):
    code, errors = r
    if not isinstance(code, str):
        return None
    lines = [l for l in code.split('\n') if not l.startswith(('# Generated', 'source_hash__'))]
    return lines, [(int(e.code), str(e.message)) for e in errors]


def job_docs(case):
    s = site_()
    known = {}

    def fresh(c):
        s.restore()
        for k in ('singletons', 'locals', 'locks', 'caches'):
            c.__dict__.pop(k, None)

    def run(c):
        fresh(c)
        pr = Printer(c)
        texts = [d.ts(pr) for d in case.docs]
        c.source = texts[0] + '\n----\n' + texts[1]
        cfgs = [pipeline.full_config(g) for g in case.cfgs]
        f = s.mod.ns['compile_src']
        alone = []
        key = tuple(k for k, n, lb in c.oracle.trace)
        for t, g in zip(texts, cfgs) if key not in known else ():
            fresh(c)
            c.config.clear()
            c.config.update(g)
            try:
                alone.append(transpiled(s.world.interp.call(f, (t,), {})))
            except PyRaise as e:
                raise core.Unsupported(f'a document alone: {e.exc}')
        alone = known.setdefault(key, alone)
        fresh(c)
        r, where = together(s.world, lambda: s.world.interp.call(f, (texts[0],), {}),
                            lambda: s.world.interp.call(f, (texts[1],), {}), case.bound, cfgs,
                            s.compiler_class.__name__ + '.' if case.coarse else False)
        for i in 0, 1:
            kind, v = r[i]
            at = f', if another thread transpiles a document while the first one is at {where[0]}' if where else ''
            if kind == 'raise':
                return 'crash', f'{type(v.exc).__name__}: {c.decode(str(v.exc))}{at}'
            got = transpiled(v)
            if got == alone[i]:
                continue
            if got is None or alone[i] is None:
                return 'output', 'no output' + at
            if got[0] != alone[i][0]:
                a, b = [[c.decode(l) for l in x] for x in (alone[i][0], got[0])]
                for x, y in zip(a + [''] * len(b), b + [''] * len(a)):
                    if x != y:
                        return 'output', f'the output is "{y.strip()}" instead of "{x.strip()}"{at}'
            return 'messages', f'the messages are {got[1]} instead of {alone[i][1]}{at}'
        return None

    def judge(c, kind, r):
        if kind == 'raise':
            raise core.Unsupported(f'{type(r.exc).__name__}: {r.exc}')
        return r
    return V.outcome(case, run, judge, 20000)


# -------------------------------------------------------------- validation

class Values(V.HistCase):
    """validate_type of two values at the same time, or a call of a checked function"""

    def __init__(self, label, t1, t2, decls, style, bound=1, how='validate'):
        super().__init__(label, t1, t2, decls, style, False)
        self.bound, self.how = bound, how

    def extra(self, pr):
        q = lambda t: pr.ty(t)
        return f'TYPE2 = {q(self.t2)}\ndef FUN(x: {q(self.ty)}, y: {q(self.t2)} = None) -> {q(self.ty)}:\n    return x\n'


def job_values(case):
    def run(c):
        V.prepare(c)
        v = V.val()
        m = v.types(case, case.extra)
        c.source = m.SOURCE
        c.v1, c.v2 = V.value_of(case, 'first'), V.value_of(case, 'second', case.t2 if case.how == 'validate' else case.ty)

        def attempt(kind, r):
            if kind == 'ok':
                return 'is accepted'
            if isinstance(r.exc, (TypeError, ValueError)):
                return 'is rejected'
            return f'raises {type(r.exc).__name__}'

        def ops(m):
            if case.how == 'validate':
                return [lambda: v.call('validate_type', c.v1, m.THE_TYPE), lambda: v.call('validate_type', c.v2, m.TYPE2)]
            g = v.call('type_check', m.FUN)
            return [lambda: v.world.interp.call(g, (c.v1,), {}), lambda: v.world.interp.call(g, (c.v2,), {})]

        f, g = ops(m)
        r, c.where = together(v.world, f, g, case.bound)
        c.got = [attempt(*x) for x in r]
        c.alone = []
        for i in 0, 1:
            v.restore()
            m = v.types(case, case.extra)
            op = ops(m)[i]
            try:
                op()
                c.alone.append('is accepted')
            except PyRaise as e:
                c.alone.append(attempt('raise', e))

    def judge(c, kind, r):
        if kind == 'raise':
            return 'crash', f'{type(r.exc).__name__}: {c.decode(str(r.exc))}'
        for i, (lv, t) in enumerate(((c.v1, case.ty), (c.v2, case.t2 if case.how == 'validate' else case.ty))):
            if c.got[i] != c.alone[i]:
                return 'verdict', (f'{lv.describe()} as {V.show(t)} {c.got[i]} instead of: {c.alone[i]}, if another thread '
                                   f'validates while the first one is at {c.where[0] if c.where else "the end"}')
        return None
    return V.outcome(case, run, judge, 20000)


# ---------------------------------------------------------------- dispatch

def job(case):
    if isinstance(case, Docs):
        return job_docs(case)
    if isinstance(case, Values):
        return job_values(case)
    return D.job(case)


def prepare():
    return site_(), V.val(), D.disp()


def par_cases(tier):
    """Dispatch: histories with two operations at the same time."""
    forms = ['"A"', '"A | B"', 'A', 'List["A"]'] if tier == 'quick' else \
        ['"A"', '"B"', '"A | B"', 'A', 'int', 'cls:A', 'List["A"]', 'Union["A", int]', 'Optional["B"]']
    seen = set()
    bound = 1 if tier == 'quick' else 2

    def emit(ev, how='function', bound=1):
        k = (tuple(ev), how, bound)
        if k not in seen:
            seen.add(k)
            h = D.Hist(f'{how}({"; ".join(" ".join(map(str, e)) for e in ev)})', tuple(ev), how)
            h.bound = bound
            yield h
    decls = [('decl', 'A'), ('decl', 'B')]

    def end(f, *calls):
        return [('call', x) for x in D.calls_for(f) if tier == 'thorough' or x in ('A', 'list', 'int') or x in calls]
    two = [(f,) for f in forms] + [(f, g) for f in forms for g in forms if f == '"A"' and (tier == 'thorough' or g in ('"B"', '"A | B"', 'A'))]
    two += [('"A"', '"B"')]
    for fs in two:
        regs = [('reg', f) for f in fs]
        early = [f for f in fs if D.needs(f)[0]]
        ks = [k for k in D.calls_for(fs) if k in ('A', 'B', 'D', 'list', 'int')]
        decls = [('decl', 'A')] + ([('decl', 'B')] if tier == 'thorough' or 'B' in ks else [])
        pre = decls + regs if early else regs + decls
        for x in ks:
            for y in ks[:2] if tier == 'quick' or len(fs) > 1 else ks:
                if tier == 'quick' and '"A | B"' in fs and (x, y) not in (('A', 'A'), ('B', 'A')):
                    continue
                yield from emit(pre + [('par', ('call', x), ('call', y))] + end(fs, x, y), bound=1)
                if tier == 'thorough' and len(fs) == 1 and x == y and '|' not in fs[0]:
                    yield from emit(pre + [('par', ('call', x), ('call', y))] + end(fs), bound=2)
            # a registration while another thread calls
            for late in ('"A"', 'cls:B', 'int') if tier == 'quick' else ('"A"', 'cls:B', 'int', '"A | B"', 'A') if len(fs) == 1 else ('"A"', 'cls:B'):
                if tier == 'quick' and '"A | B"' in fs and (x, late) != ('B', 'cls:B'):
                    continue
                if tier == 'thorough' and '|' in late and fs[0] not in ('A', 'int', 'cls:A', '"A"'):
                    continue    # (thousands of paths)
                if 'B' in late and ('decl', 'B') not in pre:
                    pre = [('decl', 'B')] + pre
                op = ('par', ('call', x), ('reg', late))
                rev = ('par', ('reg', late), ('call', x))
                for o in (op, rev):
                    yield from emit(pre + [o] + end(fs + (late,), x), bound=1)
                    if not early:
                        continue
                    yield from emit(pre + [('call', x), o] + end(fs + (late,), x), bound=1)
    for f in ('"A"', '"A | B"'):
        for how in ('method', 'classmethod'):
            yield from emit([('reg', f)] + decls + [('par', ('call', 'A'), ('call', 'A'))] + end([f]), how)
    for f in ('"A"', 'cls:B', 'A'):
        for g in ('"A"', 'cls:B', '"B"', 'int'):
            if set(D.ALL[f].split()) & set(D.ALL[g].split()):
                continue
            yield from emit(decls + [('par', ('reg', f), ('reg', g))] + end((f, g)))


def value_cases(tier):
    types_ = {
        'int': (V.INT, []), 'lit': (V.lit('u', 1), []), 'enum': (V.ref('ES'), [V.ES]), 'enum2': (V.ref('EM'), [V.EM]),
        'record': (V.ref('P'), [V.P]), 'array': (V.arr(V.INT), []), 'union': (V.uni(V.INT, V.STR), []),
        'tuple': (V.tup(V.INT, V.STR), []), 'forward': (V.ref('R'), [V.Rec('R', [('f', V.ref('ES'), True)]), V.ES]),
        'map': (V.mp(V.STR), []),
    }
    few = ('int', 'enum', 'record', 'union', 'forward') if tier == 'quick' else tuple(types_)
    for style in ('modern',) if tier == 'quick' else ('modern', 'shim'):
        for n1 in few:
            for n2 in few:
                (t1, d1), (t2, d2) = types_[n1], types_[n2]
                ds = d1 + [d for d in d2 if all(d is not x for x in d1)]
                if tier == 'quick' and n1 + n2 in ('recordforward', 'forwardrecord', 'recordrecord', 'forwardforward'):
                    continue    # (thousands of paths)
                if n1 == n2 or 'enum' in n1 + n2 or 'forward' in n1 + n2:
                    yield Values(f'{n1} with {n2}', t1, t2, ds, style, 1)
            if tier == 'quick' and n1 in ('record', 'forward'):
                continue
            if style == 'modern' or n1 in few[:4]:
                yield Values(f'call {n1}', *types_[n1][:1], V.STR, types_[n1][1], style, 1, 'call')


def doc_cases(tier):
    kinds = FF.decl_kinds('1')
    docs = {k: FF.Doc(f'decl:{k}', v) for k, v in kinds.items()}
    other = {k: FF.Doc(f'decl2:{k}', v) for k, v in FF.decl_kinds('2').items()}
    some = ['iface:opt', 'iface:record', 'ns:consts', 'enum:auto', 'func:record', 'alias:records', 'iface:generic', 'iface:overloads']
    some = [k for k in some if k in docs]
    last = FF.Doc('the same names', [d for k in some[:5] for d in kinds[k]])
    for k in docs if tier == 'thorough' else some:
        yield Docs(docs[k], FF.BASE, docs[k], FF.BASE)
        yield Docs(docs[k], FF.BASE, last, FF.BASE)
        for n, g in FF.CONFIGS.items():
            if g != FF.BASE and (k in some if tier == 'thorough' else k in some[:3]):
                yield Docs(docs[k], FF.BASE, docs[k], g)
        for k2 in some if tier == 'thorough' and k in some else some[:3]:
            yield Docs(docs[k], FF.BASE, docs[k2], FF.BASE)
            yield Docs(docs[k], FF.BASE, other[k2], FF.BASE)


def cases(tier):
    yield from par_cases(tier)
    yield from value_cases(tier)
    yield from doc_cases(tier)
