"""pipeline.py - abstract transpilation of a (template) document."""

import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

from . import core, interp, stubs, grammar, peg
from .core import PyRaise, Unsupported
from .nodes import ANode

sys.setrecursionlimit(30000)

PARSER_MODULE = 'ts2pythonParser'
BEGIN = '##### BEGIN OF ts2python generated code'
END = '##### END OF ts2python generated code'


class Anchor(Exception):
    """A construct the analysis is anchored at is gone."""


DH_PYTHON = os.environ.get('VERIF_DHPARSER_PYTHON', '/opt/venv/bin/python')
REGENERATE = """
import sys
from DHParser import dsl
ok = dsl.recompile_grammar(sys.argv[1], sys.argv[2], force=True)
sys.exit(0 if ok else 3)
"""
DH_VERSION = "import DHParser; print(DHParser.__version__)"


def regenerated(repo=stubs.REPO):
    """Text of the parser module after regenerating its parser section from
    ts2python.ebnf (the build step of the project); None if the grammar is broken."""
    with tempfile.TemporaryDirectory(prefix='verif-sa-') as d:
        for n in ('ts2python.ebnf', PARSER_MODULE + '.py'):
            shutil.copy(os.path.join(repo, n), os.path.join(d, n))
        r = subprocess.run([DH_PYTHON, '-W', 'ignore', '-c', REGENERATE, os.path.join(d, 'ts2python.ebnf'),
                            os.path.join(d, PARSER_MODULE + '.py')], capture_output=True, text=True, cwd=d, timeout=300)
        if r.returncode == 3:
            return None
        if r.returncode:
            raise Anchor(f'the parser generator failed: {r.stderr[-400:]}')
        with open(os.path.join(d, PARSER_MODULE + '.py'), encoding='utf-8') as f:
            return f.read()


def outdated(repo=stubs.REPO):
    """Has ts2python.ebnf changed since the parser was generated?"""
    with open(os.path.join(repo, PARSER_MODULE + '.py'), encoding='utf-8') as f:
        src = f.read()
    with open(os.path.join(repo, 'ts2python.ebnf'), encoding='utf-8') as f:
        ebnf = f.read()
    m = re.search(r'class \w*\(Grammar\).*?source_hash__ *= *"([a-z0-9]*)"', src, re.S)
    if not m:
        return False
    for v in _versions():
        if hashlib.md5((ebnf + v).encode('utf-8')).hexdigest() == m.group(1):
            return False
    return True


def _versions():
    yield '1.8.0'
    r = subprocess.run([DH_PYTHON, '-W', 'ignore', '-c', DH_VERSION], capture_output=True, text=True, timeout=60)
    yield r.stdout.strip()


class Stateful:
    """The modules of a world and their state after import."""

    # -- module state: every abstract path starts from the state after import
    def _containers(self):
        seen = set()
        for m in self.world.modules.values():
            stack = [(m.ns, k, v) for k, v in list(m.ns.items())]
            while stack:
                owner, k, v = stack.pop()
                if id(v) in seen:
                    continue
                if isinstance(v, (list, dict, set)) :
                    seen.add(id(v))
                    yield v
                    vs = v.values() if isinstance(v, dict) else v
                    stack += [(v, None, x) for x in vs if isinstance(x, (list, dict, set))]
                elif isinstance(v, type) and v.__module__ in self.world.modules:
                    seen.add(id(v))
                    for kk, vv in list(vars(v).items()):
                        if isinstance(vv, (list, dict, set)):
                            stack.append((v, kk, vv))
                elif getattr(v, '_is_func', False):
                    for d in (list(getattr(v, '__defaults__', None) or ()) +
                              list((getattr(v, '__kwdefaults__', None) or {}).values())):
                        if isinstance(d, (list, dict, set)):
                            stack.append((v, None, d))

    def snapshot(self):
        self.world.interp.undo.clear()
        self._globals = {n: dict(m.ns) for n, m in self.world.modules.items()}
        self._classes = []
        for m in self.world.modules.values():
            for v in m.ns.values():
                if isinstance(v, type) and v.__module__ == m.__name__:
                    self._classes.append((v, dict(vars(v))))
        self._state = [(v, v.copy()) for v in self._containers()]

    def restore(self):
        interp.undo(self.world.interp.undo)
        for v, c in self._state:
            if v != c if not isinstance(v, dict) else (v.keys() != c.keys() or
                                                       any(v[k] is not c[k] for k in c)):
                v.clear()
                v.extend(c) if isinstance(v, list) else v.update(c)
        for n, g in self._globals.items():
            ns = self.world.modules[n].ns
            if ns.keys() != g.keys() or any(ns[k] is not g[k] for k in g):
                ns.clear()
                ns.update(g)
        for cls, d in self._classes:
            cur = vars(cls)
            for k in list(cur.keys()):
                if k not in d:
                    try:
                        delattr(cls, k)
                    except (AttributeError, TypeError):
                        pass
                elif cur[k] is not d[k]:
                    try:
                        setattr(cls, k, d[k])
                    except (AttributeError, TypeError):
                        pass


class Site(Stateful):
    def __init__(self):
        overrides = {}
        if outdated():
            # what every build, test and run of the program does first
            text = regenerated()
            if text is not None:
                overrides[os.path.join(stubs.REPO, PARSER_MODULE + '.py')] = text
        self.world = stubs.World(source_overrides=overrides)
        self.prepare_world()
        self.mod = self.world.load(PARSER_MODULE)
        ns = self.mod.ns
        for n in ('ts2pythonGrammar', 'ts2pythonCompiler', 'ts2python_AST_transformation_table'):
            if n not in ns:
                raise Anchor(f'{n} not found in {PARSER_MODULE}.py')
        self.grammar = grammar.GrammarModel(ns['ts2pythonGrammar'])
        self.rec = peg.Recogniser(self.grammar)
        self.compiler_class = ns['ts2pythonCompiler']
        self.table = ns['ts2python_AST_transformation_table']

        self.snapshot()

    def prepare_world(self):
        pass

    def tree(self, text, symbol='root'):
        t = self.rec.parse(text, symbol)
        peg.Transformer(self.world, self.table).run(t)
        return t

    def compiler(self):
        return self.world.interp.call(self.compiler_class, (), {})

    def run(self, compiler, tree):
        return self.world.interp.call(compiler, (tree,), {})


_SITE = None


def site():
    global _SITE
    if _SITE is None:
        _SITE = Site()
    return _SITE


DEFAULTS = {'BaseClassName': 'TypedDict', 'RenderAnonymous': 'local', 'ClassDecorator': '', 'UseEnum': True,
            'UseTypeUnion': False, 'UseTypeParameters': False, 'UseLiteralType': False,
            'UseVariadicGenerics': False, 'UseNotRequired': False, 'KeepMultilineComments': False}


def full_config(cfg):
    return {'ts2python.' + k: cfg.get(k, v) for k, v in DEFAULTS.items()}


def body_of(code):
    """The part of the output behind the header."""
    if BEGIN in code:
        return code.split(BEGIN, 1)[1].rsplit(END, 1)[0]
    return code
