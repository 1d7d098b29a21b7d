"""report.py - known findings, evidence, verdict."""

import fnmatch
import json
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')
MAX_SHOWN = 12


class Finding:
    """where it was decided (case, configuration), what is wrong (aspect, place, message), which construct."""

    def __init__(self, case, cfg, aspect, place, msg, construct='', detail=''):
        self.case, self.cfg, self.aspect, self.place, self.msg = case, cfg, aspect, place, msg
        self.construct, self.detail = construct, detail

    def __str__(self):
        return f'{self.case} [{self.cfg}] {self.aspect}: {self.place}: {self.msg}'


class Known:
    def __init__(self, line):
        m = re.match(r'known: property=(\S+) case=(\S+) cfg=(\S+) aspect=(\S+) msg="([^"]*)" (.*)$', line)
        if not m:
            raise SystemExit(f'malformed line in {KNOWN}: {line}')
        self.props = m.group(1).split(',')
        self.case, self.cfg, self.aspect, self.msg, self.text = m.group(2, 3, 4, 5, 6)
        self.hits = 0

    def matches(self, prop, f):
        def g(value, pats):
            return any(fnmatch.fnmatchcase(value, p.replace('[', '[[]')) for p in pats.split(';'))
        return (prop in self.props and g(f.case, self.case) and g(f.cfg, self.cfg) and
                g(f.aspect, self.aspect) and g(f.msg, self.msg))


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('known:'):
                    k = Known(line)
                    if prop in k.props:
                        out.append(k)
    return out


class Result:
    def __init__(self, findings, coverage, undecided=(), assumptions=(), total=1, level='other'):
        self.findings, self.coverage, self.undecided = findings, coverage, list(undecided)
        self.assumptions, self.total, self.level = list(assumptions), total, level


def conclude(prop, tier, result, t0, verbose=False):
    known = load_known(prop)
    new = []
    for f in result.findings:
        for k in known:
            if k.matches(prop, f):
                k.hits += 1
                break
        else:
            new.append(f)
    cov = dict(result.coverage)
    cov.setdefault('undecided', len(result.undecided))
    cov['undecided_samples'] = [str(u)[:300] for u in result.undecided[:5]]
    cov['findings_matching_known_findings'] = len(result.findings) - len(new)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': result.level,
          'coverage': cov, 'assumptions': result.assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as fp:
        json.dump(ev, fp, indent=1, ensure_ascii=False)
    for k in known:
        if k.hits:
            print(f'KNOWN-FINDING: property={prop} {k.text}')
    nums = ', '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, (int, float)))
    print(f'{prop} ({tier}): {nums}')
    if new:
        path = os.path.join(VERIF, 'evidence', f'{prop}.violations.txt')
        with open(path, 'w', encoding='utf-8') as fp:
            for f in new:
                fp.write(f'{f}\n    construct: {f.construct}\n{f.detail}\n\n')
        for f in new[:MAX_SHOWN]:
            print(f'  {f}')
            if f.construct:
                print(f'      in {f.construct}')
        if len(new) > MAX_SHOWN:
            print(f'  ... and {len(new) - MAX_SHOWN} more, see {path}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if len(result.undecided) * 2 > max(1, result.total):
        print(f'{prop}: no verdict, {len(result.undecided)} of {result.total} cases undecided; first: '
              f'{str(result.undecided[0])[:400]}')
        return 2
    return 0
