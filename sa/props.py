"""props.py - the registry of properties."""

import itertools
import fnmatch
import functools
import multiprocessing
import os
import traceback

from . import agreement, cli, damage, dispatch, extractor, shims, engine, families as FF, history, pipeline, report, threads, validation, versions
from .report import Finding, Result

REGISTRY = {}

METHOD = ('abstract interpretation of the source of the transpiler (grammar class, AST-transformation table, compiler '
          'methods) over document skeletons with unknown names; the inferred output is compared with the promised '
          'meaning of the document')


def transpiler(pid, aspects, always=('crash', 'reject', 'syntax')):
    """Registers a property of the transpiler's output: jobs(tier) yields (document, configuration)."""
    def deco(jobs):
        def check(tier):
            js = list(jobs(tier))
            res = engine.run_jobs(js)
            return evaluate(res, aspects, always, js)
        check.__doc__ = jobs.__doc__
        REGISTRY[pid] = check
        return jobs
    return deco


def evaluate(res, aspects, always, jobs):
    findings, undecided = [], []
    fail, ok = {}, {}
    paths = obligations = nodes = 0
    functions = set()
    for r in res:
        paths += r['paths']
        nodes += r['nodes']
        functions |= r['functions']
        undecided += [f"{r['label']} [{r['cfg']}]: {u}" for u in r['undecided']][:1]
        hit = [f for f in r['findings'] if any(fnmatch.fnmatchcase(f[0], a) for a in tuple(aspects) + tuple(always))]
        for fn in r['functions']:
            d = fail if hit else ok
            d[fn] = d.get(fn, 0) + 1
        for asp, where, msg in hit:
            findings.append(Finding(r['label'], r['cfg'], asp, where, msg, '', detail(r)))
            findings[-1].functions = r['functions']
    for f in findings:
        # the construct: the functions on the abstract path, those that lead to the failure most often first
        sc = sorted(f.functions, key=lambda x: (-fail.get(x, 0) / (fail.get(x, 0) + 3 * ok.get(x, 0)), x))
        f.construct = ', '.join(sc[:3])
    sample = [r for r in res if r['code']][:3]
    cov = {
        'explanation': METHOD, 'aspects_decided': sorted(aspects),
        'documents': len({r['label'] for r in res}), 'configurations': len({r['cfg'] for r in res}),
        'obligations': len(res), 'abstract_paths': paths, 'nodes_compiled': nodes,
        'functions_analysed': len(functions), 'functions': sorted(functions),
        'samples': [{'document': r['ts'], 'configuration': r['cfg'], 'inferred output': r['code']} for r in sample],
    }
    return Result(findings, cov, undecided, ASSUMPTIONS, len(res))


ASSUMPTIONS = ['the models of DHParser (parser combinators, tree reduction, traversal, compiler dispatch) and of the '
               'standard library in sa/ match the installed versions',
               'names of a document are distinct unless the document repeats them; loops over siblings are uniform '
               'beyond the sizes analysed']


def detail(r):
    def ind(s):
        return '\n'.join('        ' + l for l in (s or '').split('\n'))
    return f"    document:\n{ind(r['ts'])}\n    inferred output:\n{ind(r['code'])}"


def cross(docs, *cfgs):
    docs = list(docs)
    for c in cfgs:
        for d in docs:
            yield d, c


def typed(positions=None, types=None):
    for k, t in (types or FF.all_types()).items():
        yield from FF.in_positions(k, t, positions)


ALL = ('missing', 'extra', 'dup', 'order', 'optional', 'required', 'total', 'type*', 'bases', 'generic', 'kind',
       'decorator', 'method', 'overload', 'value', 'syntax', 'unbound', 'forward', 'reject')
ANON = ('field', 'param', 'return', 'func', 'funcret', 'alias', 'const', 'rec', 'array', 'nsfield')


def records():
    """The type forms with anonymous interfaces."""
    return {k: t for k, t in FF.all_types().items() if 'record' in k}


def general(tier, cfg=FF.BASE):
    """The bread and butter: every type form in every position, every declaration, members side by side."""
    if tier == 'quick':
        yield from cross(typed(('field', 'param', 'return', 'alias', 'funcret')), cfg)
    else:
        yield from cross(typed(), cfg)
    yield from cross(FF.declaration_docs(), cfg)
    yield from cross(FF.order_docs(), cfg)
    yield from cross(FF.member_docs(), cfg)
    yield from cross(FF.shadow_docs(), cfg)
    yield from cross(FF.scope_docs(), cfg)
    yield from cross(FF.overload_docs(), cfg)
    yield from cross(names(), cfg)
    yield from cross(FF.mixed_docs(200 if tier == 'quick' else 3000), cfg)


def contents(tier, *cfgs):
    """String literals with all kinds of contents."""
    if tier == 'quick':
        docs = list(FF.content_docs(('field', 'optfield', 'param', 'rec')))
        for i, cfg in enumerate(cfgs):
            yield from cross(docs[i::2 * len(cfgs)], cfg)
    else:
        yield from cross(FF.content_docs(), *cfgs)


def names():
    """The families about names and their scopes."""
    yield from FF.coincidence_docs()
    yield from FF.constraint_docs()
    yield from FF.homonym_docs()
    yield from FF.sequence_docs()
    yield from FF.parameter_docs()


def mixed(tier, *cfgs, quick=100, thorough=1500):
    """Documents put together at random (by a fixed sequence)."""
    for k, cfg in enumerate(cfgs):
        n = quick if tier == 'quick' else thorough
        yield from cross(FF.mixed_docs(n, 10000 + k * n), cfg)


def wider(tier):
    """Other configurations."""
    yield from mixed(tier, FF.C_PYD, FF.C_TOP, FF.C_FUN, FF.C_UNION, FF.C_NR, FF.MODERN, quick=60, thorough=1000)
    if tier == 'quick':
        yield from cross(FF.declaration_docs(), FF.MODERN, FF.C_PYD, FF.C_TOP, FF.C_FUN)
        yield from cross(FF.scope_docs(), FF.C_PYD, FF.C_FUN)
        yield from cross(list(names())[::5], FF.C_UNION, FF.C_NR, FF.C_FUN)
        return
    yield from cross(names(), FF.C_UNION, FF.C_NR, FF.C_FUN, FF.C_PYD, FF.MODERN)
    light = list(typed(types=FF.light_types()))
    yield from cross(FF.scope_docs(), FF.C_PYD, FF.C_FUN, FF.C_KEEP, FF.C_LIT, FF.C_UNION, FF.C_NR)
    yield from cross(light, FF.MODERN, FF.C_LIT, FF.C_UNION, FF.C_NR, FF.C_VG, FF.C_PYD, FF.C_KEEP)
    yield from cross(FF.declaration_docs(), FF.MODERN, FF.C_LIT, FF.C_UNION, FF.C_NR, FF.C_VG, FF.C_PYD, FF.C_KEEP,
                     FF.C_TOP, FF.C_FUN)
    yield from cross(FF.order_docs(), FF.MODERN, FF.C_PYD, FF.C_KEEP, FF.C_TOP, FF.C_FUN)
    yield from cross(FF.member_docs(), FF.MODERN, FF.C_TOP, FF.C_FUN)
    yield from cross(typed(ANON, records()), FF.C_TOP, FF.C_FUN)


def pairs(tier, *cfgs):
    if tier == 'quick':
        kinds = ('iface:opt', 'iface:record', 'iface:union-records', 'iface:method-record', 'iface:overloads',
                 'iface:generic', 'iface:extends', 'iface:call', 'alias:records', 'alias:array', 'enum:auto',
                 'ns:consts', 'ns:func', 'ns:overload', 'const:record', 'const:typed', 'func:record', 'func:overload', 'class')
    else:
        kinds = None
    yield from cross((d for _, _, d in FF.pair_docs(kinds)), *cfgs)


@transpiler('C01', ('reject',))
def c01(tier):
    yield from general(tier)
    yield from wider(tier)
    if tier == 'thorough':
        yield from pairs(tier, FF.BASE, FF.MODERN, FF.C_TOP, FF.C_FUN)


@transpiler('C02', ('missing', 'extra', 'dup', 'order'))
def c02(tier):
    yield from general(tier)
    yield from wider(tier)


@transpiler('C03', ALL)
def c03(tier):
    if tier == 'quick':
        yield from pairs(tier, FF.BASE)
        few = ('iface:record', 'iface:union-records', 'iface:method-record', 'alias:records', 'func:overload',
               'ns:func', 'iface:generic', 'const:record')
        yield from cross((d for _, _, d in FF.pair_docs(few)), FF.C_TOP, FF.C_FUN, FF.MODERN)
    else:
        yield from pairs(tier, FF.BASE, FF.MODERN, FF.C_TOP, FF.C_FUN)
    yield from mixed(tier, FF.BASE, FF.C_TOP, FF.C_FUN)
    yield from cross(FF.sequence_docs(), FF.BASE, FF.C_NOENUM)


@transpiler('C05', ALL)
def c05(tier):
    if tier == 'thorough':
        yield from cross(FF.keyword_everywhere(), FF.BASE)
        yield from cross(FF.keyword_everywhere(4), FF.C_UNION, FF.C_FUN, FF.C_TOP)
    else:
        yield from cross(FF.keyword_everywhere(15), FF.BASE)
        yield from cross(FF.keyword_everywhere(97), FF.C_UNION, FF.C_FUN, FF.C_TOP)
    yield from cross(FF.keyword_docs(), FF.BASE)
    if tier == 'thorough':
        yield from cross(FF.keyword_docs(), FF.MODERN, FF.C_TOP, FF.C_FUN, FF.C_PYD)
    else:
        yield from cross(FF.keyword_docs(['from', 'None', 'lambda']), FF.MODERN, FF.C_TOP, FF.C_FUN)


@transpiler('C06', ('unbound',))
def c06(tier):
    yield from general(tier)
    yield from wider(tier)


@transpiler('C07', ('type.basic', 'type.any', 'type.ref', 'type.literal'))
def c07(tier):
    ts = FF.all_types()
    plain = {k: t for k, t in ts.items() if k.startswith(('basic:', 'leaf:', 'union', 'generic', 'callable')) or
             not k.endswith(')')}
    yield from cross(typed(types=plain), FF.BASE)
    yield from cross(typed(('field', 'param', 'alias', 'mapval', 'genarg'), plain), FF.C_LIT, FF.MODERN)
    if tier == 'thorough':
        yield from cross(typed(), FF.BASE, FF.C_LIT, FF.MODERN)
    yield from mixed(tier, FF.BASE, FF.C_LIT)
    yield from cross(FF.coincidence_docs(), FF.BASE, FF.C_LIT)
    yield from contents(tier, FF.C_LIT, FF.LIT_FUN, FF.LIT_TOP)


@transpiler('C08', ('optional', 'required', 'total'))
def c08(tier):
    ts = FF.all_types()
    pos = ('field', 'optfield', 'optparam', 'rec')
    yield from cross(typed(pos, ts), FF.BASE, FF.C_NR)
    yield from cross(FF.member_docs(), FF.BASE)
    yield from cross(FF.declaration_docs(), FF.BASE, FF.C_NR, FF.C_PYD)
    if tier == 'thorough':
        yield from cross(typed(pos, ts), FF.C_UNION, FF.MODERN, FF.C_TOP, FF.C_FUN, FF.C_PYD)
        yield from cross(FF.member_docs(), FF.C_NR, FF.MODERN, FF.C_TOP, FF.C_FUN, FF.C_PYD)
    yield from mixed(tier, FF.BASE, FF.C_NR, FF.C_FUN)
    yield from contents(tier, FF.C_LIT, FF.LIT_FUN, FF.LIT_UNION)


@transpiler('C13', ('forward',))
def c13(tier):
    yield from general(tier)
    yield from wider(tier)
    yield from cross(FF.string_alias_docs(), FF.BASE, FF.C_UNION, *(() if tier == 'quick' else (FF.MODERN, FF.C_FUN, FF.C_NR)))


@transpiler('C14', ('type', 'type.list', 'type.dict', 'type.tuple', 'type.generic', 'type.callable', 'type.union'))
def c14(tier):
    yield from cross(typed(), FF.BASE)
    yield from cross(typed(('field', 'param', 'alias', 'genarg'), FF.light_types()), FF.C_UNION, FF.C_LIT, FF.C_NR)
    if tier == 'thorough':
        yield from cross(typed(), FF.C_UNION, FF.MODERN)
        yield from cross(typed(('field', 'optfield', 'param', 'alias', 'array', 'union', 'genarg'), FF.deep_types()),
                         FF.BASE, FF.C_UNION, FF.MODERN)
    yield from mixed(tier, FF.BASE, FF.C_UNION)
    yield from contents(tier, FF.C_LIT, FF.LIT_UNION)


@transpiler('C15', ('syntax',))
def c15(tier):
    yield from general(tier)
    yield from wider(tier)
    yield from contents(tier, FF.BASE, FF.C_LIT, FF.LIT_FUN, FF.LIT_TOP, FF.LIT_UNION)


@transpiler('C16', ('value', 'kind', 'type'))
def c16(tier):
    docs = [d for d in list(FF.declaration_docs()) + list(FF.order_docs())
            if any(s in d.label for s in ('enum', 'ns', 'const'))]
    docs += list(FF.value_docs()) + list(FF.sequence_docs()) + list(FF.homonym_docs())
    yield from cross(docs, FF.BASE, FF.MODERN, FF.C_NOENUM, FF.C_PYD)
    yield from cross((d for d in FF.content_docs(()) if '@' not in d.label), FF.BASE, FF.C_NOENUM)
    if tier == 'thorough':
        yield from cross(docs, FF.C_KEEP, FF.C_TOP, FF.C_FUN)
    yield from mixed(tier, FF.BASE, FF.C_NOENUM)


@transpiler('C17', ('bases', 'generic', 'kind', 'decorator'))
def c17(tier):
    yield from cross(FF.declaration_docs(), *FF.CONFIGS.values())
    yield from cross(FF.header_docs(), *(FF.CONFIGS.values() if tier == 'thorough' else (FF.BASE, FF.C_NR, FF.C_PYD)))
    yield from cross(FF.member_docs(), FF.BASE)
    yield from cross(FF.constraint_docs(), FF.BASE, FF.C_PYD, FF.C_NR)
    yield from mixed(tier, FF.BASE, FF.C_PYD)


@transpiler('C18', ('method', 'overload', 'missing', 'syntax'))
def c18(tier):
    yield from cross(typed(('param', 'optparam', 'return', 'func', 'funcret')), FF.BASE)
    docs = [d for d in list(FF.declaration_docs()) + list(FF.member_docs())
            if any(s in d.label for s in ('method', 'overload', 'func', 'ns', 'call', 'class'))]
    yield from cross(docs, FF.BASE)
    yield from cross(FF.function_docs(), FF.BASE, FF.MODERN)
    yield from cross(FF.overload_docs(), FF.BASE, FF.MODERN)
    if tier == 'thorough':
        yield from cross(docs, FF.MODERN, FF.C_TOP, FF.C_FUN, FF.C_KEEP)
        yield from cross(FF.function_docs(), FF.C_TOP, FF.C_FUN, FF.C_KEEP)
    yield from mixed(tier, FF.BASE, FF.C_TOP)


@transpiler('C23', ('evaluate',))
def c23(tier):
    yield from general(tier)
    yield from wider(tier)
    yield from cross(FF.string_alias_docs(), FF.BASE, FF.C_UNION, *(() if tier == 'quick' else (FF.MODERN, FF.C_FUN, FF.C_NR)))
    yield from cross(FF.header_docs(), FF.BASE, FF.MODERN, FF.C_PYD)
    yield from cross(FF.typeparam_docs(), FF.BASE)


@transpiler('C29', ('announce',))
def c29(tier):
    yield from cross(FF.approximation_docs(), FF.BASE, FF.MODERN)


@transpiler('C30', ('feature', 'type*', 'bases', 'kind', 'decorator', 'generic', 'total', 'required'))
def c30(tier):
    yield from cross(FF.declaration_docs(), *FF.CONFIGS.values())
    ts = FF.light_types()
    yield from cross(typed(('field', 'optfield', 'param', 'alias') if tier == 'quick' else None, ts),
                     FF.C_LIT, FF.C_UNION, FF.C_NR, FF.C_PYD)
    yield from mixed(tier, *FF.CONFIGS.values(), quick=30, thorough=500)
    yield from contents(tier, FF.C_LIT, FF.LIT_UNION)


@transpiler('C31', ALL)
def c31(tier):
    yield from cross(FF.torn_docs(), FF.BASE)
    yield from cross(FF.torn_everywhere(1 if tier == 'thorough' else 15), FF.BASE)
    if tier == 'thorough':
        yield from cross(FF.torn_docs(('_', '1')), FF.BASE)
        yield from cross(FF.torn_docs(), FF.MODERN, FF.C_KEEP)


@transpiler('C32', ALL)
def c32(tier):
    yield from cross(FF.layout_docs(), FF.BASE)
    step = 1 if tier == 'thorough' else 2
    yield from cross(FF.comment_docs(step=step), FF.BASE, FF.C_KEEP)
    yield from cross(FF.tricky_comment_docs(1 if tier == 'thorough' else 23), FF.BASE, FF.C_KEEP)
    recs = [d for d in (FF.declaration_docs() if tier == 'quick' else itertools.chain(FF.declaration_docs(), FF.member_docs()))
            if 'record' in d.label]
    yield from cross(FF.comment_docs(('line',), recs, step), FF.KEEP_FUN, FF.KEEP_TOP)
    if tier == 'thorough':
        yield from cross(FF.layout_docs(), FF.C_KEEP, FF.MODERN)
        yield from cross(FF.comment_docs(('inline', 'doc')), FF.BASE, FF.C_KEEP)


@transpiler('C33', ('type.record', 'type.helper', 'missing', 'extra', 'dup'))
def c33(tier):
    recs = records()
    few = {k: t for k, t in recs.items() if k.startswith(('record', 'union', 'map', 'paren', 'array')) and (
        not k.endswith(')') or '(string' in k)}
    yield from cross(typed(ANON, recs if tier == 'thorough' else few), FF.BASE, FF.C_TOP, FF.C_FUN)
    yield from cross((d for d in FF.member_docs() if 'record' in d.label), FF.BASE, FF.C_TOP, FF.C_FUN, FF.C_NOBASE)
    yield from mixed(tier, FF.BASE, FF.C_TOP, FF.C_FUN, FF.C_NOBASE)
    helpers = list(FF.helper_name_docs())
    if tier == 'quick':
        helpers = [d for i, d in enumerate(helpers) if 'declared' in d.label or i % 23 == 0]
    yield from cross(helpers, FF.BASE, FF.C_TOP, FF.C_FUN, FF.C_NOBASE)


# ------------------------------------------------------------ runtime library

def run_cases(job, cases, prepare):
    """Runs job(case) for all cases in parallel; prepare() loads the sources once."""
    cases = list(cases)
    prepare()
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        return pool.map(functools.partial(_guarded, job), cases, chunksize=2)


def _guarded(job, case):
    try:
        return job(case)
    except Exception as e:        # a defect of the analysis, never an alarm
        return {'label': case.label, 'cfg': getattr(case, 'style', ''), 'findings': [], 'paths': 0, 'functions': set(),
                'undecided': [f'internal: {type(e).__name__}: {e} {traceback.format_exc()[-400:]}'], 'source': ''}


def conclude_cases(res, method, assumptions):
    findings, undecided = [], []
    functions, fail, ok = set(), {}, {}
    for r in res:
        functions |= r['functions']
        undecided += [f"{r['label']} [{r['cfg']}]: {u}" for u in r['undecided']][:1]
        for fn in r['functions']:
            d = fail if r['findings'] else ok
            d[fn] = d.get(fn, 0) + 1
        for asp, where, msg in r['findings']:
            f = Finding(r['label'], r['cfg'], asp, where, msg, where, r.get('source', ''))
            f.functions = r['functions']
            findings.append(f)
    for f in findings:
        if not f.construct:
            f.construct = ', '.join(sorted(f.functions, key=lambda x: (
                -fail.get(x, 0) / (fail.get(x, 0) + 3 * ok.get(x, 0)), x))[:3])
    cov = {'explanation': method, 'obligations': len(res), 'abstract_paths': sum(r['paths'] for r in res),
           'functions_analysed': len(functions), 'functions': sorted(functions),
           'samples': [{'case': f"{r['label']} [{r['cfg']}]", 'analysed for': r.get('source', ''), 'paths': r['paths']}
                       for r in res[:3]]}
    return Result(findings, cov, undecided, assumptions, len(res))


LIB = ['the models of the standard library in sa/ (typing, functools, inspect are used as they are, as models of themselves)',
       'nesting of types and sizes of containers beyond the enumerated bounds behave alike']
VAL = ('abstract interpretation of json_validation.py (and typeddict_shim.py) with unknown JSON values that are refined '
       'by the questions the code asks; on every path the set of values that take it is compared with the type')


def cases(pid, job, family, method, assumptions, prepare):
    def check(tier):
        return conclude_cases(run_cases(job, family(tier), prepare), method, assumptions)
    REGISTRY[pid] = check


cases('C19', validation.job_validate, validation.type_cases, VAL, LIB, validation.val)
cases('C20', validation.job_function, validation.function_cases, VAL, LIB, validation.val)
cases('C21', validation.job_history, validation.history_cases, VAL, LIB, validation.val)

SHIM = ('abstract interpretation of typeddict_shim.py on class declarations with unknown field and type names; the keys of the '
        'resulting class are compared with the declared annotations')
cases('C22', shims.job, shims.partition_cases, SHIM, LIB, validation.val)
cases('C24', shims.job, shims.spelling_cases, SHIM, LIB, validation.val)

DISP = ('abstract interpretation of singledispatch_shim.py through histories of registrations, declarations and calls with an '
        'unknown class hierarchy; each call is compared with the implementation of the most specific class')
cases('C25', dispatch.job, dispatch.history_cases, DISP, LIB, dispatch.disp)
cases('C26', dispatch.job, dispatch.method_cases, DISP, LIB, dispatch.disp)

HIST = ('abstract interpretation of the transpiler on sequences of documents with unknown names in one process; the inferred '
        'output and messages for the last document are compared with those of a fresh process')
cases('C04', history.job, history.sequence_cases, HIST, ASSUMPTIONS, pipeline.site)

PAR = ('abstract interpretation of two operations at the same time (calls and registrations of generic functions, validations, '
       'transpilations), interleaved before each statement; locks and thread-local objects are modelled; the results are compared '
       'with those of the operations one after the other')
cases('C36', threads.job, threads.cases, PAR, ASSUMPTIONS + LIB + [
    'a single statement is not interrupted; at most one (thorough: two) preemptions besides waiting for locks'], threads.prepare)

CLI = ('abstract interpretation of the driver functions (main program, batch processing, reading of the configuration, writing of '
       'results and messages) over a model of files, processes, arguments and the configuration; unknown file names and contents')
WORLD = ['the models of DHParser (configuration, full_pipeline, batch processing pools), argparse, os and files in sa/cli.py match '
         'the installed versions', 'nobody else writes the files while the program runs']
cases('C09', cli.job_options, cli.option_cases, CLI, WORLD, cli.site)
cases('C10', cli.job_files, cli.file_cases, CLI, WORLD, cli.site)
cases('C11', cli.job_history, cli.uptodate_cases, CLI, WORLD, cli.site)

DAM = ('abstract recognition: the grammar class is evaluated to parsing expressions, whose meaning is applied to documents with unknown '
       'names that have been damaged at each token in ways that leave no valid reading')
cases('C34', damage.job, damage.damage_cases, DAM, ASSUMPTIONS[:1], pipeline.site)
REGISTRY['C12'] = agreement.check

VER = ('abstract evaluation of the module bodies (runtime library, inferred output of the transpiler with its header) for one Python '
       'version at a time: version guards decided, failing imports routed to their handlers; every name and construct checked '
       'against what the version offers')
cases('C35', versions.job, versions.version_cases, VER,
      ASSUMPTIONS[:1] + ['the table of names and constructs with the Python version that introduced them (sa/versions.py) is right'],
      pipeline.site)

LSP = ('abstract interpretation of the script, run as a program, on specifications put together of all kinds of lines with unknown names and '
       'texts; the lines written are compared with the declarations contained in the specification and its included parts')
cases('C27', extractor.job, extractor.cases, LSP,
      ['the models of urlopen and files in sa/extractor.py and sa/cli.py match the real ones'], extractor.site)
