"""damage.py - documents that cannot be TypeScript must be rejected (C34).

Every document of the families is damaged at each of its tokens in ways that
leave no valid reading; the recogniser of the grammar must find none either."""

from . import core, families as FF, pipeline, peg
from .tsast import Printer

STRAY = '#§`\\%^~!$'
BRACKETS = ('(', ')', '[', ']', '{', '}', '<', '>', '[]')
KEYWORDS = {'interface', 'class', 'enum', 'namespace', 'module', 'type', 'const', 'function', 'extends', 'implements', 'in',
            'keyof', 'as', 'import', 'from', 'declare', 'export', 'new'}
NEEDED = {'interface', 'class', 'enum', 'namespace', 'module', 'type', 'extends', 'implements', 'import', 'from'}
PAIRS = {')': '(', ']': '[', '}': '{', '>': '<'}


def kind_of(tok):
    if tok in KEYWORDS or tok in ('readonly', 'static'):
        return 'keyword'
    if tok[0] in '"\'':
        return 'string'
    if tok[0].isdigit():
        return 'number'
    if tok in FF.BASICS:
        return 'basic'
    if tok[0].isalnum() or tok[0] == '_' or ord(tok[0]) > 127:
        return 'name'
    return 'mark'


def complete(toks, i):
    """May the document end before token i?"""
    depth = 0
    for _, t in toks[:i]:
        if t in '([{<':
            depth += 1
        elif t in ')]}>':
            depth -= 1
    return depth == 0 and (i == 0 or toks[i - 1][1] in (';', '}', ']'))


def damages(text):
    """(what has been done, the damaged text, position)"""
    toks = [(m.start(), m.group()) for m in FF.TOKEN.finditer(text)]
    stack, statement = [], []
    for i, (p, t) in enumerate(toks):
        if t in '([{<':
            stack.append('enum' if t == '{' and 'enum' in statement[-2:-1] + statement[-1:] else t)
        elif t in ')]}>' and stack:
            stack.pop()
        statement = [] if t in ';{}' else statement + [t]
        end = p + len(t)
        kind = kind_of(t)
        prev = toks[i - 1][1] if i else ''
        follow = toks[i + 1][1] if i + 1 < len(toks) else ''
        put = lambda s: text[:p] + s + ' ' + text[p:]
        without = text[:p] + ' ' + text[end:]
        for ch in STRAY:
            yield f'stray {ch}', put(ch), p
        for b in BRACKETS:
            if b != '[]':
                yield f'additional {b}', put(b), p
        for m in ('.', ':', '=', '=>'):
            yield f'additional {m}', put(m), p
        if prev in ('(', '<', ':', '=', '=>', '|', ',', '...'):
            yield 'additional ;', put(';'), p
            yield 'additional ,', put(','), p
        if t in BRACKETS:
            if t != '[]':
                yield f'missing {t}', without, p
                yield f'{t} replaced by a comma', text[:p] + ',' + text[end:], p
            for other in BRACKETS:
                if t != '[]' and other != t and other != '[]':
                    yield f'{other} for {t}', text[:p] + other + text[end:], p
        if t == ',' and stack and stack[-1] != '{' and follow not in ')]}>':
            yield 'missing ,', without, p
        if t in ('=', '=>'):
            yield f'missing {t}', without, p
        if t in ('=>', '...') :
            yield f'{t} replaced by a comma', text[:p] + ',' + text[end:], p
        if kind == 'mark' and t not in (';',) + BRACKETS or kind == 'keyword' and t in KEYWORDS - {'export'} or kind == 'number':
            yield f'doubled {t}', put(t), p
        if kind == 'keyword' and t in KEYWORDS and follow not in (':', '?', ';', '(', ',', '.', '=', '|', '>', ')', '}', '['):
            yield f'misspelt {t}', text[:p] + t[::-1] + text[end:], p
            yield f'{t} replaced by a comma', text[:p] + ',' + text[end:], p
        if t in NEEDED and kind_of(follow or ';') == 'name':
            yield f'missing {t}', without, p
        if prev in ('interface', 'class', 'enum', 'namespace', 'type', 'const', 'extends', 'implements') and kind == 'name':
            yield f'no name after {prev}', without, p
        if kind in ('basic', 'name') and prev in (':', '=') and follow in (';', '}', ')', ','):
            yield f'nothing after {prev}', without, p
        if i and not complete(toks, i):
            yield 'end of the document', text[:p], p


def deletions(text):
    for m in FF.TOKEN.finditer(text):
        yield f'"{m.group()}" left out', text[:m.start()] + ' ' + text[m.end():], m.start()


def culprit(rec, pos):
    """The smallest named parts that contain the position."""
    spans = []
    for (pid, start), (node, end) in rec.memo.items():
        if node is not None and start <= pos < end and not node.name.startswith(':'):
            spans.append((end - start, node.name))
    names = []
    for _, n in sorted(spans):
        if n not in names:
            names.append(n)
    return names[:3]


def job(case):
    site = pipeline.site()
    doc, part, parts = case.doc, case.part, case.parts
    res = {'label': case.label, 'cfg': '', 'findings': [], 'undecided': [], 'paths': 0, 'functions': set(), 'source': ''}
    core.set_ctx(core.Ctx())
    c = core.ctx()
    text = doc.ts(Printer(c))
    res['source'] = c.decode(text)
    try:
        site.rec.parse(text)
    except peg.Reject:
        return res                      # not supported at all: C01
    res['functions'] = {f'grammar symbol {nd.name}' for nd, _ in site.rec.memo.values()
                        if nd is not None and not nd.name.startswith(':')}
    for n, (what, bad, pos) in enumerate(damages(text)):
        if n % parts != part:
            continue
        res['paths'] += 1
        try:
            site.rec.parse(bad)
        except peg.Reject:
            continue
        except core.Unsupported as e:
            res['undecided'].append(str(e))
            continue
        names = culprit(site.rec, pos)
        if len(res['findings']) < 8:
            s = c.decode(bad[max(0, pos - 30):pos + 30]).replace('\n', ' ')
            res['findings'].append(('accepted', f'grammar symbol {names[0]}' if names else '', f'{what}: accepted: ... {s} ...'))
    return res


class Case:
    style = ''

    def __init__(self, doc, part=0, parts=1):
        self.doc, self.part, self.parts = doc, part, parts
        self.label = doc.label


def documents(tier):
    """documents and the share of the damages that is tried on each"""
    q = tier == 'quick'
    for d in list(FF.declaration_docs()) + list(FF.order_docs()):
        yield d, 1
    for d in FF.member_docs():
        yield d, 8 if q else 1
    for d in FF.function_docs():
        yield d, 5 if q else 1
    for d in list(FF.header_docs()) + list(FF.value_docs()):
        yield d, 3 if q else 1
    for k, t in (FF.light_types() if q else FF.all_types()).items():
        for d in FF.in_positions(k, t, ('field', 'funcret') if q else None):
            yield d, 2 if q else 1


def damage_cases(tier):
    for i, (d, parts) in enumerate(documents(tier)):
        yield Case(d, i % parts, parts)
