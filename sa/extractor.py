"""extractor.py - decides what demo/extract_ts_from_lsp_specs.py takes from a specification.

The script is interpreted abstractly, as a program, on specifications that are put
together of all kinds of lines with unknown contents; a model of the web and of the
files takes the place of the real ones.  The specification may be spread over several
documents by include-directives."""

import itertools
import os
import posixpath

from . import cli, core, stubs, validation as V
from .core import PyRaise

SCRIPT = 'demo/extract_ts_from_lsp_specs.py'
HOST = 'https://raw.example.org/ls/gh-pages/_specifications/lsp/3.18/'
INCLUDES = 'https://raw.example.org/ls/gh-pages/_includes/'

# kinds of lines: name -> text; @x are unknown names, # is unknown text
OUTSIDE = {
    'prose': 'Some # text.', 'heading': '#### @a.@b(#)', 'blank': '', 'quoted': 'See the ```typescript code # here.',
    'decl-like': 'export interface @n { # }', 'brace': '{', 'indented-fence': '    ```typescript # not a fence', 'comment': '// #',
}
OTHER_BLOCK = ['```json', '{', '  "@k": "#"', '}', '```']
# declarations
DECLS = {
    'interface': ['export interface @i {', '\t@f: string;', '', '\t// #', '\t@g?: @t[];', '}'],
    'alias': ['export type @n = @a | @b;'],
    'documented': ['/**', ' * # text', ' * [@a](#) { # }', ' */', 'export interface @d extends @b {', '\t/**', '\t * #', '\t */',
                   '\t@f: { @g: string };', '}'],
    'namespace': ['export namespace @m {', "\texport const @c: '@v' = '@v';", '}', 'export type @m = @n;'],
    'plain-interface': ['interface @p {', '\t[@k: string]: @t;', '\t@call(@x: number): void;', '}'],
    'function': ['export function @h(@x: string): void;'],
    'blank': [''],
    'const': ['export const @c: @e[] = [\'@v\', "@w"];'],
    'slashes': ['export interface @s {', '\t@f: string; // #', "\t@g: 'https://@h';", '\t/* see https://# */', '}'],
    'type-multi': ['export type @u = (@a |', '\t@b | @c)[];'],
}
COMMENTS = {'comment': ['// # text'], 'comment-decl': ['//export interface @x {']}
EXAMPLES = {'object': ['{', '\t"@k": #', '}'], 'array': ['[', '\t{ "@k": 1 }', ']'], 'call': ['@f(#);'],
            'method-call': ['@a.@b.@c(#);', 'more # of it', 'interface @z {'], 'object-inline': ['{ "@k": # }'],
            'array-inline': ['[1, 2]']}


class Text:
    """Fills in unknown names and texts."""
    def __init__(self, c):
        self.c, self.n, self.names = c, 0, {}

    def __call__(self, line, key):
        out, i = '', 0
        while i < len(line):
            ch = line[i]
            if ch == '@' and line[i + 1:i + 2].isalpha():
                j = i + 1
                while j < len(line) and line[j].isalnum():
                    j += 1
                k = (key, line[i + 1:j])
                if k not in self.names:
                    self.names[k] = self.c.hole('ident', f'{line[i + 1:j]}{key}')
                out += self.names[k]
                i = j
                continue
            if ch == '#' and line[i + 1:i + 2] != '#' and line[i - 1:i] != '#':
                self.n += 1
                out += self.c.hole('text', f'text{self.n}')
            else:
                out += ch
            i += 1
        return out


class Doc:
    """parts: ('out', kind) | ('block', [kinds]) | ('other',) | ('include', how, path, spelling)"""
    def __init__(self, *parts, newline='\n', fence='```typescript', end='```'):
        self.parts, self.newline, self.fence, self.end = parts, newline, fence, end

    def lines(self, t, key=''):
        """-> lines of the document; the lines that are to be extracted"""
        lines, want = [], []
        for n, p in enumerate(self.parts):
            k = f'{key}.{n}'
            if p[0] == 'out':
                lines.append(t(OUTSIDE[p[1]], k))
            elif p[0] == 'other':
                lines += [t(x, k) for x in OTHER_BLOCK]
            elif p[0] == 'block':
                lines.append(self.fence)
                copy = True
                for m, kind in enumerate(p[1]):
                    ls = [t(x, f'{k}.{m}') for x in {**DECLS, **COMMENTS, **EXAMPLES}[kind]]
                    lines += ls
                    if kind in EXAMPLES:
                        copy = False
                    elif kind in DECLS and copy:
                        want += [x for x in ls if x.strip() and not x.lstrip().startswith('//')]
                lines.append(self.end)
            elif p[0] == 'include':
                want.append(('include', p[1], p[2]))
                lines.append(p[3].replace('FILE', p[2]))
        return lines, want


def significant(text):
    """The lines that matter: without blank lines and line comments."""
    return [l.rstrip() for l in text.split('\n') if l.strip() and not l.lstrip().startswith('//')]


class Case(cli.Case):
    pass


def load(e, docs, t):
    """Publishes the documents; -> what is to be extracted from the first one"""
    wants = {}
    for url, doc in docs.items():
        if isinstance(doc, str):
            e.web[url] = doc
            continue
        lines, want = doc.lines(t, posixpath.basename(url).split('.')[0])
        e.web[url] = doc.newline.join(lines) + (doc.newline if e.pad is not None else '')
        if e.pad:
            e.web[url] += 'closing remarks ' * 20 + doc.newline
        wants[url] = want

    def expand(url):
        out = []
        doc = docs[url]
        if isinstance(doc, str):
            return expand(posixpath.dirname(url) + '/' + doc.strip())
        for x in wants[url]:
            if isinstance(x, tuple):
                u = (url[:url.rfind('/') + 1] if x[1] == 'relative' else INCLUDES) + x[2]
                out.append(('source', x[2]))
                out += expand(u)
            else:
                out.append(x)
        return out
    return expand


class Response:
    def __init__(self, data):
        self.data = data
        self.status = 200

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self, *a):
        d, self.data = self.data, b''
        return d

    def close(self):
        pass


def urlopen(url, *a, **k):
    e = cli.env()
    e.fetched.append(url)
    if url not in e.web:
        import urllib.error
        cli.raise_(urllib.error.URLError(f'not found: {url}'))
    return Response(e.web[url].encode('utf-8'))


class File(cli.File):
    def read(self, *a):
        t = super().read(*a)
        return t.encode('utf-8') if 'b' in self.mode and isinstance(t, str) else t


class Site:
    """The script, to be run as program."""
    def __init__(self):
        self.path = os.path.join(stubs.REPO, SCRIPT)
        with open(self.path, encoding='utf-8') as f:
            self.source = f.read()

    def run(self, argv):
        w = stubs.World()
        request = stubs.Stub('urllib.request', {'urlopen': urlopen})
        w.stubs['urllib.request'] = request
        import urllib.error
        import urllib.parse
        w.stubs['urllib.error'], w.stubs['urllib.parse'] = stubs.real(urllib.error), stubs.real(urllib.parse)
        w.stubs['urllib'] = stubs.Stub('urllib', {'request': request, 'error': urllib.error, 'parse': urllib.parse})
        w.stubs['sys']._ns['argv'] = [SCRIPT] + argv
        w.interp.run_module(self.source, '__main__', self.path)


_SITE = None


def site():
    global _SITE
    if _SITE is None:
        _SITE = Site()
    return _SITE


def job(case):
    def run(c):
        e = c.env = cli.Env()
        e.web, e.fetched, e.pad = {}, [], case.pad
        c.open_model = lambda name, mode='r', buffering=-1, encoding=None, *a, **k: File(name, mode, encoding)
        c.fs_model, c.os_model, c.abspath_model = cli.fs_query, cli.os_call, cli.absolute
        t = Text(c)
        expand = load(e, case.docs, t)
        for u, d in e.web.items():
            if not u.startswith('http'):
                e.files[cli.absolute(u)] = d
        main = next(iter(case.docs))
        c.source = c.decode('\n'.join(e.web.values()))[:900]
        before = set(e.files)
        try:
            site().run([case.arg] if case.arg else [])
        except PyRaise as x:
            if case.missing and not isinstance(x.exc, SystemExit):
                if set(e.files) - before:
                    return 'result', 'a result is written, although a part of the specification is missing'
                return None
            return 'crash', f'{type(x.exc).__name__}: {c.decode(str(x.exc))}'
        if case.missing:
            return 'missing', 'a part of the specification is missing, but this is not reported'
        dest = cli.absolute(case.dest)
        if dest not in e.files or set(e.files) - before != {dest}:
            return 'result', f'the files {sorted(c.decode(f) for f in set(e.files) - before)} are written instead of {case.dest}'
        if e.encodings.get(dest) not in ('utf-8', 'utf8', 'UTF-8'):
            return 'encoding', f'{case.dest} is not written as utf-8, but with the encoding {e.encodings.get(dest)}'
        want = expand(main)
        got = significant(e.files[dest])
        i = 0
        for x in want:
            if isinstance(x, tuple):
                if i >= len(got) or not (got[i].startswith('/*') and got[i].endswith('*/') and x[1] in got[i]):
                    return 'source', f'the name of the included document {x[1]} is not noted ahead of its contents' + \
                        (f', but there is: {c.decode(got[i])}' if i < len(got) else '')
            elif i >= len(got) or got[i] != x.rstrip():
                return 'lines', f'the line "{c.decode(x)}" is ' + (f'replaced by "{c.decode(got[i])}"' if i < len(got) else 'missing')
            i += 1
        if i < len(got):
            return 'lines', f'the line "{c.decode(got[i])}" is added'
        return None
    return V.outcome(case, run, cli.conclude(), 32)


def C_(label, docs, arg=None, dest='specification.ts', missing=False, pad=True):
    main = next(iter(docs))
    return Case(label, docs=docs, arg=main if arg is None else arg, dest=dest, missing=missing, pad=pad)


REL, ABS = '{% include_relative FILE %}', '{% include FILE %}'


def cases(tier):
    main = HOST + 'specification.md'
    out = [('out', k) for k in OUTSIDE] + [('other',)]
    one = {**DECLS, **COMMENTS}
    # blocks: all sequences of up to two (three) parts
    seqs = [(a,) for a in list(one) + list(EXAMPLES)] + list(itertools.product(list(one) + list(EXAMPLES), repeat=2))
    if tier == 'thorough':
        seqs += list(itertools.product(list(one) + list(EXAMPLES), repeat=3))
    for s in seqs:
        yield C_('block ' + '+'.join(s), {main: Doc(('out', 'prose'), ('block', s), ('out', 'prose'))})
    # what surrounds the blocks
    for a, b, c in itertools.product(out, out, (('block', ('interface',)), ('block', ('alias', 'call')))):
        yield C_(f'{a[-1]}, block, {b[-1]}, block', {main: Doc(a, ('block', ('documented',)), b, c, a)})
    for a, b in itertools.product(out, repeat=2):
        yield C_(f'{a[-1]}, {b[-1]}, block', {main: Doc(a, b, ('block', ('namespace',)))})
    yield C_('adjacent blocks', {main: Doc(('block', ('alias',)), ('block', ('interface',)), ('block', ('call', 'alias')),
                                           ('block', ('function',)))})
    yield C_('nothing', {main: Doc(('out', 'prose'), ('other',))})
    body = (('out', 'prose'), ('block', ('interface', 'comment', 'alias')), ('other',), ('block', ('documented', 'object')),
            ('out', 'prose'), ('block', ('function',)))
    for fence, end in (('```typescript ', '```'), ('  ```typescript', '  ```'), ('```typescript', '``` '), ('\t```typescript\t', '```')):
        yield C_(f'fences {fence!r} {end!r}', {main: Doc(*body, fence=fence, end=end)})
    yield C_('line ends CRLF', {main: Doc(*body, newline='\r\n')})
    # names of the source and the result
    for arg, url, dest in (('', 'https://raw.githubusercontent.com/microsoft/language-server-protocol/gh-pages/_specifications/lsp/3.18/'
                                'specification.md', 'specification.ts'),
                           ('www.example.org/a/b.md', 'https://www.example.org/a/b.md', 'b.ts'),
                           ('http://example.org/a/b.c.md', 'http://example.org/a/b.c.md', 'b.c.ts'),
                           ('https://example.org/a.b/spec', 'https://example.org/a.b/spec', 'spec.ts'),
                           ('spec.md', 'spec.md', 'spec.ts'), ('dir.d/spec.md', 'dir.d/spec.md', 'spec.ts'),
                           ('/abs/dir/spec', '/abs/dir/spec', 'spec.ts')):
        yield C_(f'source {arg or "default"}', {url: Doc(*body)}, arg, dest)
    # includes
    blk = ('block', ('interface',))
    for sp in (REL, '{%include_relative FILE%}', '{%  include_relative  FILE  %}', 'text {% include_relative FILE %}'):
        for name in ('types/uri.md', 'a.md', 'm.n/b.c.md', '../x.md', 'A9/b.md'):
            url = HOST + name
            yield C_(f'include {sp} {name}', {main: Doc(blk, ('include', 'relative', name, sp), blk), url: Doc(*body)})
    for sp in (ABS, '{%include FILE%}', '{%  include  FILE  %}', '# {% include FILE %} text'):
        for name in ('types/uri.md', 'a.md', 'm.n/b.c.md'):
            yield C_(f'include {sp} {name}', {main: Doc(blk, ('include', 'absolute', name, sp), blk), INCLUDES + name: Doc(*body)})
    kinds = [('relative', REL, HOST), ('absolute', ABS, INCLUDES)]
    for (h1, s1, b1), (h2, s2, b2) in itertools.product(kinds, repeat=2):
        for pre, mid, post in itertools.product((True, False), repeat=3):
            parts = ([blk] if pre else []) + [('include', h1, 'p/one.md', s1)] + ([('block', ('alias',))] if mid else []) + \
                [('include', h2, 'q/two.md', s2)] + ([blk] if post else [])
            yield C_(f'includes {h1}, {h2}' + ' pre' * pre + ' mid' * mid + ' post' * post,
                     {main: Doc(*parts), b1 + 'p/one.md': Doc(*body), b2 + 'q/two.md': Doc(('block', ('namespace',)))})
        b = b1 + 'p/' if h2 == 'relative' else INCLUDES
        yield C_(f'nested includes {h1}, {h2}',
                 {main: Doc(blk, ('include', h1, 'p/one.md', s1), blk),
                  b1 + 'p/one.md': Doc(('block', ('alias',)), ('include', h2, 'q/two.md', s2), ('block', ('function',))),
                  b + 'q/two.md': Doc(*body)})
    yield C_('the same document twice', {main: Doc(('include', 'relative', 'o.md', REL), blk, ('include', 'relative', 'o.md', REL)),
                                         HOST + 'o.md': Doc(('block', ('alias',)))})
    yield C_('document with includes only', {main: Doc(('include', 'relative', 'o.md', REL)), HOST + 'o.md': Doc(*body)})
    yield C_('local specification with includes', {'d/spec.md': Doc(blk, ('include', 'relative', 't/o.md', REL), blk),
                                                   'd/t/o.md': Doc(*body)}, dest='spec.ts')
    # links
    yield C_('link to the document', {HOST + 'link.md': 'specification.md', main: Doc(*body)}, dest='link.ts')
    yield C_('link with blanks', {HOST + 'link.md': ' specification.md ', main: Doc(*body)}, dest='link.ts')
    yield C_('include of a link', {main: Doc(blk, ('include', 'relative', 'o.md', REL), blk), HOST + 'o.md': 'real/p.md',
                                   HOST + 'real/p.md': Doc(*body)})
    yield C_('short document', {main: Doc(('block', ('alias',)))}, pad=False)
    yield C_('short included document', {main: Doc(blk, ('include', 'relative', 'o.md', REL), blk),
                                         HOST + 'o.md': Doc(('block', ('alias',)))}, pad=False)
    for h, s, b in kinds:
        for post in ((), (blk,), (('out', 'prose'), blk)):
            yield C_(f'no line break at the end, {h} include, {len(post)} parts behind',
                     {main: Doc(('out', 'prose'), ('block', ('alias',) * 9), ('include', h, 'o.md', s), *post),
                      b + 'o.md': Doc(*body)}, pad=None)
    # something is missing
    yield C_('missing document', {main + '.not': Doc(*body)}, main, missing=True)
    yield C_('missing local document', {'x.md': Doc(*body)}, 'y.md', missing=True)
    for h, s, b in kinds:
        yield C_(f'missing {h} document', {main: Doc(blk, ('include', h, 'o.md', s), blk)}, missing=True)
