"""engine.py - runs document families through the abstract transpiler."""

import multiprocessing
import os
import time

from . import core, pipeline, peg, spec, families
from .core import explore
from .tsast import Printer

MAX_PATHS = 64


def diagnostics(ctx):
    return [(e[3] if len(e) > 3 else None, e[2]) for e in ctx.events if e[0] == 'diagnostic']


def analyse(doc, cfg, comment=None, want_code=False):
    """-> dict(label, cfg, status, findings, functions, paths)"""
    site = pipeline.site()
    res = {'label': doc.label, 'cfg': families.cfg_label(cfg), 'findings': [], 'undecided': [], 'paths': 0,
           'functions': set(), 'code': None, 'ts': None, 'nodes': 0}
    n = 0

    def run(c):
        site.restore()
        c.config.update(pipeline.full_config(cfg))
        pr = Printer(c)
        text = doc.ts(pr)
        c.pr = pr
        res['ts'] = c.decode(text)
        tree = site.tree(text)
        c.tree = tree
        comp = site.compiler()
        code = site.run(comp, tree)
        c.comp = comp
        return code

    gen = explore(run, MAX_PATHS)
    while True:
        try:
            c, kind, v = next(gen)
        except StopIteration:
            break
        except peg.Reject as e:
            c = core.CTX
            res['findings'].append(('reject', '<document>',
                                    'syntax error at: ' + c.decode(e.text[e.pos:e.pos + 40]).replace('\n', ' ')))
            break
        n += 1
        res['functions'] |= c.visited
        if kind == 'undecided':
            res['undecided'].append(v)
            continue
        if kind == 'raise':
            tr = v.trace[-1] if v.trace else ''
            res['findings'].append(('crash', str(tr), c.decode(f'{type(v.exc).__name__}: {v.exc}')))
            continue
        if not isinstance(v, str):
            res['findings'].append(('crash', '', f'result of type {type(v).__name__}'))
            continue
        res['nodes'] += sum(1 for e in c.events if e[0] == 'compiled')
        if want_code or res['code'] is None:
            res['code'] = c.decode(pipeline.body_of(v)).strip()
        try:
            fs = spec.compare(doc, cfg, c.pr, v, diagnostics(c))
        except core.Unsupported as e:
            res['undecided'].append(f'spec: {e}')
            continue
        res['findings'] += [f for f in fs if f not in res['findings']]
    res['paths'] = n
    return res


def _job(args):
    doc, cfg = args
    try:
        return analyse(doc, cfg)
    except Exception as e:        # a defect of the analysis, never an alarm
        import traceback
        return {'label': doc.label, 'cfg': families.cfg_label(cfg), 'findings': [],
                'undecided': [f'internal: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}'], 'paths': 0,
                'functions': set(), 'code': None, 'ts': None, 'nodes': 0}


def run_jobs(jobs, procs=None):
    procs = procs or min(8, os.cpu_count() or 1)
    jobs = list(jobs)
    pipeline.site()          # load once, share by fork
    if len(jobs) < 12 or procs == 1:
        return [_job(j) for j in jobs]
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        return pool.map(_job, jobs, chunksize=max(1, min(16, len(jobs) // (procs * 4))))
