"""cli.py - decides what the command line, process_file() and batch_process() do.

main(), process_file() and batch_process() are interpreted abstractly on a model
of the file system, of the processes of batch processing and of DHParser's
configuration (presets, thread-local values, access discipline).  File names
and texts are unknown; how a transpilation ends, whether the grammar has
changed and at which point the process is killed are enumerated."""

import argparse
import ast
import configparser
import os
import posixpath

from . import core, families as FF, history, pipeline, stubs, validation as V
from .core import PyRaise
from .tsast import Printer

DIR = object()
CWD = '/work'
PRESETS = set('''syncfile_path max_parser_dropouts reentry_search_window history_tracking resume_notices left_recursion
infinite_loop_warning CST_serialization AST_serialization default_serialization flatten_sxpr_threshold compact_sxpr_threshold
xml_attribute_error_handling log_syntax_trees static_analysis reorder_definitions add_grammar_source_to_parser_docstring
default_disposable_regexp default_literalws syntax_variant delimiter_set optimizations batch_processing_parallelization
batch_processing_max_chunk_size max_rpc_size jsonrpc_header server_default_host server_default_port debug_compiler
compiled_EBNF_log debug_parallel_execution log_dir log_server echo_server_log log_size_threshold test_parallelization
test_suppress_lookahead_failures deprecation_policy'''.split())


class Killed(BaseException):
    """The process is killed at this point: nothing of it runs any more."""


class NoDefault:
    pass


# ------------------------------------------------------------------ the world

class Process:
    def __init__(self):
        self.cache = {}
        self.compiler = None


class Env:
    """Everything outside of the program on one abstract path."""

    def __init__(self):
        self.presets = {k: 'debug' if k == 'x' else None for k in PRESETS}
        self.presets['batch_processing_parallelization'] = True
        self.accessing = False
        self.process = Process()
        self.files = {CWD: DIR}
        self.argv = []
        self.outcome = {}          # text of a source -> severities of the messages
        self.compiled = []         # sources handed to the transpiler
        self.printed = []
        self.kill = None           # (number of the write, how much of it is written)
        self.writes = 0
        self.dead = False
        self.update = 'none'       # the grammar: none, changed, broken
        self.encodings = {}
        self.gone = set()          # files of the repository that are not there
        self.version = 0           # of the files of ts2python


def env():
    return getattr(core.CTX, 'env', None)


def absolute(p):
    return posixpath.normpath(posixpath.join(CWD, p))


def raise_(exc):
    raise PyRaise(exc)


def lookup(path):
    e = env()
    p = absolute(path)
    if p in e.files:
        return e.files[p]
    if p in e.gone:
        return None
    if p.startswith(stubs.REPO + '/') and os.path.exists(p):
        if os.path.isdir(p):
            return DIR
        if p.endswith('.py'):
            return text_hole(f'content of {posixpath.basename(p)}, version {e.version}')
        with open(p, encoding='utf-8') as f:
            return f.read()
    return None


def text_hole(label):
    m = core.CTX.oracle.memo
    if ('text', label) not in m:
        m['text', label] = core.CTX.hole('text', label)
    return m['text', label]


class File:
    def __init__(self, name, mode, encoding=None):
        self.e, self.path, self.mode, self.encoding = env(), absolute(name), mode, encoding
        old = lookup(name)
        if 'r' in mode and '+' not in mode:
            if old is None:
                raise_(FileNotFoundError(2, 'No such file or directory', name))
        if old is DIR:
            raise_(IsADirectoryError(21, 'Is a directory', name))
        parent = posixpath.dirname(self.path)
        if any(m in mode for m in 'wax'):
            if self.e.files.get(parent) is not DIR and parent != '/':
                raise_(FileNotFoundError(2, 'No such file or directory', name))
            if 'x' in mode and old is not None:
                raise_(FileExistsError(17, 'File exists', name))
            if not self.e.dead:
                self.e.files[self.path] = old if 'a' in mode and old else ''
                self.e.encodings[self.path] = encoding
        elif not self.path.startswith(stubs.REPO):
            core.CTX.event('reads', self.path, encoding)
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def read(self, *a):
        t = self.e.files.get(self.path)
        return t if t is not None else lookup(self.path)

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, data):
        if not isinstance(data, str):
            raise_(TypeError(f"write() argument must be str, not {type(data).__name__}"))
        if self.e.dead:
            return 0
        self.e.writes += 1
        if self.e.kill and self.e.kill[0] == self.e.writes:
            n = int(len(data) * self.e.kill[1])
            self.e.files[self.path] += data[:n]
            self.e.dead = True
            raise Killed()
        self.e.files[self.path] += data
        return len(data)

    def writelines(self, seq):
        for x in seq:
            self.write(x)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        return 3


def open_(name, mode='r', buffering=-1, encoding=None, *a, **k):
    return File(name, mode, encoding)


def fs_query(pred, p):
    x = lookup(p)
    if pred in ('exists', 'lexists'):
        return x is not None
    if pred == 'isdir':
        return x is DIR
    if pred == 'isfile':
        return x is not None and x is not DIR
    return False


def os_call(n, *a, **k):
    e = env()
    if n == 'getcwd':
        return CWD
    p = absolute(a[0]) if a else CWD
    if n == 'listdir':
        if lookup(p) is not DIR:
            raise_(FileNotFoundError(2, 'No such file or directory', a[0]))
        return sorted(f[len(p) + 1:] for f in e.files if f.startswith(p + '/') and '/' not in f[len(p) + 1:])
    if e.dead:
        return None
    if n in ('mkdir', 'makedirs'):
        if lookup(p) is not None:
            if n == 'makedirs' and (k.get('exist_ok') or (len(a) > 2 and a[2])) and lookup(p) is DIR:
                return None
            raise_(FileExistsError(17, 'File exists', a[0]))
        while p not in e.files and p != '/':
            e.files[p] = DIR
            if n == 'mkdir':
                break
            p = posixpath.dirname(p)
        return None
    if n in ('remove', 'unlink'):
        if e.files.get(p) in (None, DIR):
            raise_(FileNotFoundError(2, 'No such file or directory', a[0]))
        del e.files[p]
        return None
    if n in ('rename', 'replace'):
        q = absolute(a[1])
        if e.files.get(p) is None:
            raise_(FileNotFoundError(2, 'No such file or directory', a[0]))
        e.files[q] = e.files.pop(p)
        e.encodings[q] = e.encodings.get(p)
        return None
    raise core.Unsupported(f'os.{n}')


# -------------------------------------------------- DHParser's configuration

def access_presets():
    e = env()
    if e.accessing:
        raise_(AssertionError('Presets are already being accessed!'))
    e.accessing = True


def finalize_presets(fail_on_error=False):
    e = env()
    if not e.accessing:
        raise_(AssertionError('Presets are not being accessed and therefore cannot be finalized!'))
    e.accessing = False


def set_preset_value(key, value, allow_new_key=False):
    e = env()
    if not e.accessing:
        raise_(AssertionError('Presets must be made accessible with access_presets() first!'))
    if not allow_new_key and key not in e.presets:
        raise_(ValueError(f'"{key}" is not a valid config variable.'))
    e.presets[key] = value


def get_preset_value(key, default=NoDefault):
    e = env()
    if not e.accessing:
        raise_(AssertionError('Presets must be made accessible with access_presets() first!'))
    if key not in e.presets and default is NoDefault:
        raise_(KeyError(key))
    return e.presets.get(key, default)


def get_config_value(key, default=NoDefault):
    e = env()
    if e is None:
        return None if default is NoDefault else default
    cache = e.process.cache
    if key not in cache:
        access_presets()
        v = get_preset_value(key, default)
        finalize_presets()
        cache[key] = v
    return cache[key]


def get_config_values(pattern='*'):
    import fnmatch
    access_presets()
    e = env()
    vals = {k: v for k, v in e.presets.items() if fnmatch.fnmatchcase(k, pattern)}
    finalize_presets()
    vals.update({k: v for k, v in e.process.cache.items() if fnmatch.fnmatchcase(k, pattern)})
    e.process.cache.update(vals)
    return vals


def set_config_value(key, value, allow_new_key=False):
    e = env()
    if not allow_new_key and key not in e.presets:
        raise_(ValueError(f'"{key}" is not a valid config variable.'))
    e.process.cache[key] = value


def read_local_config(name):
    base = posixpath.basename(name)
    text = lookup(name)
    if text is None:
        name, text = base, lookup(base)
    if text is None or text is DIR:
        return ''
    config = configparser.RawConfigParser()
    config.optionxform = lambda s: s
    try:
        config.read_string(text)
        access_presets()
        for section in config.sections():
            for key, value in config[section].items():
                v = ast.literal_eval(value.strip())
                if section.lower() == 'dhparser':
                    set_preset_value(key, v)
                else:
                    set_preset_value(f'{section}.{key}', v, True)
        finalize_presets()
    except (configparser.Error, ValueError, SyntaxError) as e:
        raise_(e)
    return name


# ------------------------------------------------------- pipeline, processes

def is_filename(s):
    return '\n' not in s and s[:1] != ' ' and s[-1:] != ' ' and all(ch not in s for ch in '*?"<>|')


def load_if_file(s):
    if is_filename(s):
        t = lookup(s)
        if t is None or t is DIR:
            return None
        return t
    return s


LEVELS = {'notice': 1, 'warning': 100, 'error': 1000, 'fatal': 10000}


def message(severity, i=0):
    e = stubs.Error(text_hole(f'{severity} {i}'), 0, LEVELS[severity])
    return e


def full_pipeline(source, preprocessor, parser, junctions, targets):
    """Model of DHParser's pipeline around the interpreted compiler."""
    e = env()
    text = load_if_file(source)
    if text is None:
        return {t: (None, [message('fatal', 'file not found')]) for t in targets}
    e.compiled.append(text)
    severities = e.outcome.get(text, ())
    msgs = [message(s, i) for i, s in enumerate(severities)]
    if 'fatal' in severities:
        return {t: (None, msgs) for t in targets}
    st = site()
    cls = None
    for j in junctions:
        if j.dst in targets:
            cls = j.factory
    if cls is None:
        raise_(KeyError(sorted(targets)[0]))
    if e.process.compiler is None:
        e.process.compiler = st.world.interp.call(cls, (), {})
    tree = st.tree(text)
    tree.source = text
    code = st.world.interp.call(e.process.compiler, (tree,), {})
    return {t: (code, msgs) for t in targets}


def recompile_grammar(grammar, script='', force=False, notify=lambda: None):
    e = env()
    if e.update == 'none':
        return True
    site().world.interp.call(notify, (), {})
    if e.update == 'broken':
        e.files[absolute(posixpath.splitext(grammar)[0] + '_ebnf_MESSAGES.txt')] = text_hole('errors of the grammar')
        return False
    return True


class Future:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    def result(self, timeout=None):
        if self.exc is not None:
            raise PyRaise(self.exc)
        return self.value


class Pool:
    def __init__(self, parallel):
        self.parallel = parallel

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, f, *args, **kw):
        e = env()
        own = e.process
        if self.parallel:
            e.process = Process()          # another process: inherits the presets, but not the thread-local values
            accessing, e.accessing = e.accessing, False
        try:
            return Future(site().world.interp.call(f, args, kw))
        except PyRaise as x:
            return Future(exc=x.exc)
        finally:
            if self.parallel:
                e.process, e.accessing = own, accessing

    def map(self, f, *its):
        return [self.submit(f, *a).result() for a in zip(*its)]

    def shutdown(self, *a, **k):
        pass


def instantiate_executor(parallel, preferred=None, *a, **k):
    return Pool(bool(parallel))


class AParser(argparse.ArgumentParser):
    def parse_args(self, args=None, namespace=None):
        try:
            return super().parse_args(env().argv[1:] if args is None else args, namespace)
        except SystemExit as e:
            raise PyRaise(e)

    def _print_message(self, message, file=None):
        pass


class CliSite(pipeline.Site):
    def prepare_world(self):
        w = self.world
        w.dhparser.update(
            access_presets=access_presets, finalize_presets=finalize_presets, set_preset_value=set_preset_value,
            get_preset_value=get_preset_value, get_config_value=get_config_value, get_config_values=get_config_values,
            set_config_value=set_config_value, read_local_config=read_local_config, is_filename=is_filename,
            load_if_file=lambda s: load_if_file(s) if load_if_file(s) is not None else s,
            full_pipeline=full_pipeline, recompile_grammar=recompile_grammar, instantiate_executor=instantiate_executor,
            canonical_error_strings=lambda errors: [e.message for e in errors],
            end_points=lambda junctions: {j.dst for j in junctions} - {j.src for j in junctions})
        w.stubs['argparse'] = stubs.Stub('argparse', {'ArgumentParser': AParser, 'Namespace': argparse.Namespace})
        futures = stubs.Stub('concurrent.futures', {
            'ProcessPoolExecutor': lambda *a, **k: Pool(True), 'ThreadPoolExecutor': lambda *a, **k: Pool(True)})
        w.stubs['concurrent.futures'] = futures
        w.stubs['concurrent'] = stubs.Stub('concurrent', {'futures': futures})

    def call(self, name, *args, **kw):
        return self.world.interp.call(self.mod.ns[name], args, kw)


_SITE = None


def site():
    global _SITE
    if _SITE is None:
        _SITE = CliSite()
    return _SITE


def prepare(c):
    site().restore()
    c.env = Env()
    c.open_model, c.fs_model, c.os_model, c.abspath_model = open_, fs_query, os_call, absolute


def run_main(argv):
    e = env()
    e.argv = ['ts2python'] + argv
    site().world.stubs['sys']._ns['argv'] = e.argv
    try:
        site().call('main')
    except PyRaise as x:
        if isinstance(x.exc, SystemExit):
            code = x.exc.code
            return 0 if code is None else code if isinstance(code, int) else 1
        return f'{type(x.exc).__name__}: {core.CTX.decode(str(x.exc))}'
    return 0


# ------------------------------------------------------------------ the cases

class Case(V.Case):
    def __init__(self, label, **kw):
        super().__init__(label, None)
        self.style = kw.pop('style', '')
        self.__dict__.update(kw)


def probe(i=''):
    """A document in whose translation every option shows."""
    n = lambda s: f'@{s}{i}'
    return FF.Doc('probe', [
        FF.Iface(n('G'), (FF.Fld(n('g'), FF.R(n('T'))),), (n('T'),)),
        FF.Iface(n('I'), (FF.Fld(n('a'), FF.S, True), FF.Fld(n('b'), FF.U((FF.S, FF.NUM))),
                          FF.Fld(n('l'), FF.U((FF.L('string', '"x"'), FF.L('string', '"y"')))),
                          FF.Fld(n('d'), FF.O((FF.Fld(n('e'), FF.S),))))),
        FF.Enum(n('E'), ((n('x'), FF.I_(1)), (n('y'), FF.I_(2))))])


def probe_text(pr, i=''):
    t = probe(i).ts(pr)
    k = t.find('interface', t.find('interface') + 1)
    return '/** first\n * line */\n' + t[:k] + '/** some\n * comment */\n' + t[k:]


def body(code):
    """What is compared: everything but the date and the hash."""
    return [l for l in code.split('\n') if not l.startswith('# Generated') and 'source_hash__' not in l]


def direct(text, cfg):
    """The module that belongs to a document and a configuration."""
    saved = core.CTX.env
    core.CTX.env = e = Env()
    try:
        e.presets.update(pipeline.full_config(cfg))
        site().restore()
        r = full_pipeline(text + '\n', None, None, site().mod.ns['junctions'], {'py'})
        return body(r['py'][0])
    finally:
        core.CTX.env = saved


def first_difference(want, got):
    for x, y in zip(want + [''] * len(got), got + [''] * len(want)):
        if x != y:
            return f'"{core.CTX.decode(y).strip()}" instead of "{core.CTX.decode(x).strip()}"'
    return 'equal'


def conclude():
    def judge(c, kind, r):
        if kind == 'raise':
            raise core.Unsupported(f'{type(r.exc).__name__}: {c.decode(str(r.exc))}')
        return r
    return judge


# ------------------------------------------- command line options (C09)

def job_options(case):
    """case: argv, files (their arguments), expected configuration or None (to be rejected)"""
    def run(c):
        prepare(c)
        pr = Printer(c)
        e = c.env
        name = c.hole('ident', 'name')
        src = f'{name}.ts'
        text = probe_text(pr) + '\n'
        c.source = f'ts2python {" ".join(case.argv)}'
        e.files[absolute(src)] = text
        inis = set()
        for where, values in getattr(case, 'inis', {}).items():
            p = absolute(INI[where])
            e.files[p] = '[ts2python]\n' + ''.join(f'{k} = {v!r}    # comment\n' for k, v in values.items())
            inis.add(p)
        if hasattr(case, 'inis') and 'package' not in case.inis:
            e.gone.add(absolute(INI['package']))
        argv = [src if a == 'FILE' else a for a in case.argv]
        code = run_main(argv)
        dest = absolute(case.dest.replace('NAME', name))
        got = e.files.get(dest)
        c.source = c.decode(' '.join(e.argv))
        new = sorted(p for p, t in e.files.items() if t is not DIR and p != absolute(src) and p not in inis)
        if case.expect is None:
            if code == 0:
                return 'accepted', f'"{c.source}" is accepted'
            if new:
                return 'accepted', f'"{c.source}" is rejected, but writes {c.decode(new[0])}'
            return None
        if code != 0:
            return 'failed', f'"{c.source}" ends with {code}'
        if got is None:
            return 'result', f'"{c.source}" does not write {c.decode(dest)}, but {[c.decode(p) for p in new]}'
        want = direct(text, case.expect)
        if body(got) != want:
            return 'option', f'"{c.source}" yields {first_difference(want, body(got))}'
        return None
    return V.outcome(case, run, conclude(), 32)


VERSIONS = {'3.7': {}, '3.8': {'UseLiteralType': True}, '3.9': {'UseLiteralType': True},
            '3.10': {'UseLiteralType': True, 'UseTypeUnion': True}}
for _v in ('3.11', '3.12', '3.13', '3.14', '3.11.4', '4.0'):
    VERSIONS[_v] = {'UseLiteralType': True, 'UseTypeUnion': True, 'UseNotRequired': True, 'UseVariadicGenerics': True}
PEPS = {'435': 'UseEnum', '586': 'UseLiteralType', '584': 'UseLiteralType', '604': 'UseTypeUnion',
        '646': 'UseVariadicGenerics', '655': 'UseNotRequired'}
ANONYMOUS = ('local', 'toplevel', 'functional')
BASES = ('TypedDict', 'BaseModel', 'pydantic.BaseModel', 'a.b.C')
DECORATORS = ('@dataclass', 'dataclass', 'dataclass(frozen=True)')


def options():
    """(arguments, effect): every option with every value; None: to be rejected"""
    yield [], {}
    for v, cfg in VERSIONS.items():
        yield ['-c', v], cfg
        yield ['--compatibility', v], cfg
    for p, key in PEPS.items():
        yield ['-p', p], {key: True}
        yield ['-p', '~' + p], {key: False}
        yield ['--peps', p], {key: True}
    for a in ANONYMOUS:
        yield ['-a', a], {'RenderAnonymous': a}
        yield ['--anonymous', a], {'RenderAnonymous': a}
    for b in BASES:
        yield ['-b', b], {'BaseClassName': b}
        yield ['--base', b], {'BaseClassName': b}
    for d in DECORATORS:
        yield ['-d', d], {'ClassDecorator': d}
        yield ['--decorator', d], {'ClassDecorator': d}
    for k in ('-k', '--comments'):
        yield [k], {'KeepMultilineComments': True}
    for k in ('-D', '--debug', '-v', '--verbose', '--singlethread'):
        yield [k], {}


REJECTED = (['-c', '3.6'], ['-c', '2.7'], ['-c', '3'], ['-p', '999'], ['-p', '~999'], ['-p', '655', '65'], ['-p', 'x'],
            ['-a', 'nonsense'], ['-a', ''], ['--nonsense'], ['-c', 'x'])

INI = {'package': stubs.REPO + '/ts2python/ts2pythonParser.ini', 'cwd': 'ts2pythonParser.ini'}
SETTINGS = (('UseEnum', False), ('UseTypeUnion', True), ('UseLiteralType', True), ('UseVariadicGenerics', True),
            ('UseNotRequired', True), ('KeepMultilineComments', True), ('BaseClassName', 'pydantic.BaseModel'),
            ('RenderAnonymous', 'toplevel'), ('RenderAnonymous', 'functional'), ('ClassDecorator', '@dataclass'))
SINGLE = ([], 'NAME.py')
OUTPUTS = {'single': SINGLE, 'out': (['-o', 'dest'], 'dest/NAME.py'),
           'out1': (['-o', 'dest', '--singlethread'], 'dest/NAME.py')}


def option_cases(tier):
    opts = list(options())
    for args, cfg in opts:
        for k, (o, dest) in OUTPUTS.items():
            yield Case(f'{" ".join(args + o)}', argv=['FILE'] + args + o, dest=dest, expect=cfg)
        if not args or args[0] not in ('-p', '--peps'):
            yield Case(f'{" ".join(args)} before the file', argv=args + ['FILE'], dest=SINGLE[1], expect=cfg)
    for args in REJECTED:
        for k, (o, dest) in OUTPUTS.items():
            yield Case(f'{" ".join(args + o)}', argv=['FILE'] + args + o, dest=dest, expect=None)
    short = [x for x in opts if x[0] and not x[0][0].startswith('--')]
    if tier == 'quick':
        short = [x for x in short if x[0][-1] in ('3.10', '3.12', '655', '~655', '~586', '646', 'toplevel', 'functional',
                                                  'pydantic.BaseModel', 'dataclass', '-k', '-D', '604', '~435')]
    for a1, c1 in short:
        for a2, c2 in short:
            if a1[0] == a2[0] and a1[0] != '-p' or a1 == a2:
                continue
            if a1[0] == a2[0] and set(c1) == set(c2):
                continue            # contradictory
            first, then = (c2, c1) if a1[0] == '-p' and a2[0] == '-c' else (c1, c2)     # -p specialises -c
            for k in ('single', 'out') if tier == 'thorough' else ('single',):
                o, dest = OUTPUTS[k]
                yield Case(f'{" ".join(a1 + a2 + o)}', argv=['FILE'] + a1 + a2 + o, dest=dest, expect={**first, **then})
    for ps, cfg in ((['655', '604'], {'UseNotRequired': True, 'UseTypeUnion': True}),
                    (['~435', '586', '646'], {'UseEnum': False, 'UseLiteralType': True, 'UseVariadicGenerics': True})):
        yield Case('-p ' + ' '.join(ps), argv=['FILE', '-p'] + ps, dest=SINGLE[1], expect=cfg)
    # configuration files, alone and together with options, which take precedence
    for where in INI:
        for k, v in SETTINGS:
            for m, (o, dest) in OUTPUTS.items():
                yield Case(f'{where}: {k}={v} {" ".join(o)}', argv=['FILE'] + o, dest=dest, expect={k: v}, inis={where: {k: v}})
            for args, cfg in opts if tier == 'thorough' else short:
                yield Case(f'{where}: {k}={v} {" ".join(args)}', argv=['FILE'] + args, dest=SINGLE[1], expect={k: v, **cfg},
                           inis={where: {k: v}})
        allof = dict(SETTINGS)
        yield Case(f'{where}: everything', argv=['FILE'], dest=SINGLE[1], expect=allof, inis={where: allof})
        yield Case(f'{where}: nothing', argv=['FILE'], dest=SINGLE[1], expect={}, inis={where: {}})


# ------------------------------------------------- files and messages (C10)

OUTCOMES = ((), ('notice',), ('warning',), ('error',), ('fatal',), ('warning', 'error'), ('notice', 'warning'),
            ('error', 'warning', 'error'), ('warning', 'fatal'), ('error', 'fatal', 'notice'))


def error_extension(severities):
    return '_ERRORS.txt' if {'error', 'fatal'} & set(severities) else '_WARNINGS.txt'


def check_result(e, before, src, dest, text, severities, returned=None):
    """What must have become of one source file."""
    c = core.CTX
    d = c.decode
    if e.files.get(src) != text and src:
        return 'source', f'the source {d(src)} is overwritten'
    got = e.files.get(dest)
    if 'fatal' in severities:
        if got != before.get(dest):
            return 'fatal', f'{d(dest)} is written in spite of a fatal error'
    elif not isinstance(got, str):
        return 'result', f'{d(dest)} is not written'
    else:
        want = direct(text, {})
        if body(got) != want:
            return 'result', f'{d(dest)} contains {first_difference(want, body(got))}'
        enc = e.encodings.get(dest)
        if not isinstance(enc, str) or enc.lower().replace('-', '').replace('_', '') not in ('utf8', 'utf8sig'):
            return 'encoding', f'{d(dest)} is written with encoding {enc}'
    base = posixpath.splitext(dest)[0]
    if severities:
        ename = base + error_extension(severities)
        t = e.files.get(ename)
        if not isinstance(t, str) or t == before.get(ename):
            return 'messages', f'the messages are not written to {d(ename)}'
        if ename in before and before[ename] in t:
            return 'messages', f'{d(ename)} still contains the messages of an earlier run'
        for i, s in enumerate(severities):
            if message(s, i).message not in t:
                return 'messages', f'the {s} is missing in {d(ename)}'
        enc = e.encodings.get(ename)
        if not isinstance(enc, str) or enc.lower().replace('-', '').replace('_', '') not in ('utf8', 'utf8sig'):
            return 'encoding', f'{d(ename)} is written with encoding {enc}'
        if returned is not None and absolute(returned or '?') != ename:
            return 'return', f'"{d(str(returned))}" is returned instead of "{d(ename)}"'
    elif returned:
        return 'return', f'"{d(str(returned))}" is returned, though there are no messages'
    return None


def unexpected(e, before, allowed):
    d = core.CTX.decode
    for p, t in e.files.items():
        if t is not DIR and before.get(p) != t and p not in allowed:
            return 'files', f'{d(p)} is written'
    for p, t in before.items():
        if t is not DIR and p not in e.files:
            return 'files', f'{d(p)} is deleted'
    return None


def sources(before):
    for p in before:
        d = posixpath.dirname(p)
        while d not in before and d != '/':
            before[d] = DIR
            d = posixpath.dirname(d)


def add(e, path, text):
    p = absolute(path)
    e.files[p] = text
    d = posixpath.dirname(p)
    while d not in e.files and d != '/':
        e.files[d] = DIR
        d = posixpath.dirname(d)
    return p


def job_process(case):
    """case: src, dest (with NAME), expected dest, state of the result, outcome"""
    def run(c):
        prepare(c)
        pr = Printer(c)
        e = c.env
        name = c.hole('ident', 'name')
        src, dest, edest = (x.replace('NAME', name) for x in (case.src, case.dest, case.edest))
        text = probe_text(pr) + '\n'
        inline = case.src == ''
        e.outcome[text] = case.outcome
        if not inline:
            psrc = add(e, src, text)
        else:
            psrc = ''
        c.source = c.decode(f"process_file({src or 'TEXT'!r}, {dest!r}), result: {case.state}, messages: {case.outcome}")
        same = psrc == absolute(edest)
        if case.state != 'absent' and not same:
            add(e, edest, {'foreign': text_hole('something else') + '\n', 'empty': '',
                           'other': 'source_hash__ = "0123"\n' + text_hole('an older result')}.get(case.state, ''))
            if case.outcome:
                add(e, posixpath.splitext(edest)[0] + error_extension(case.outcome), text_hole('messages of an earlier run'))
        elif posixpath.dirname(edest):
            e.files[absolute(posixpath.dirname(edest))] = DIR
        before = dict(e.files)
        try:
            if dest:
                r = site().call('process_file', text if inline else src, dest)
            else:
                r = site().call('process_file', text if inline else src)
        except PyRaise as x:
            return 'crash', f'{type(x.exc).__name__}: {c.decode(str(x.exc))}'
        pdest = absolute(edest)
        if same:
            # never overwrite the source
            if e.files.get(psrc) != text:
                return 'source', f'the source {c.decode(src)} is overwritten with the result'
            if not (isinstance(r, str) and r.endswith('_ERRORS.txt') and e.files.get(absolute(r))):
                return 'messages', 'source and result are the same file, but no error is reported'
            return None
        f = check_result(e, before, psrc, pdest, text, case.outcome, r)
        if f:
            return f
        base = posixpath.splitext(pdest)[0]
        return unexpected(e, before, {pdest, base + error_extension(case.outcome)})
    return V.outcome(case, run, conclude(), 32)


NAMES = (('NAME.ts', 'NAME.py', 'NAME.py'), ('NAME.ts', '', 'NAME.py'), ('dir/NAME.ts', '', 'dir/NAME.py'),
         ('NAME.d.ts', '', 'NAME.d.py'), ('d.x/NAME', '', 'd.x/NAME.py'), ('./NAME.ts', '', './NAME.py'),
         ('/abs/NAME.ts', '', '/abs/NAME.py'), ('../up/NAME.ts', '', '../up/NAME.py'), ('NAME.TS', '', 'NAME.py'),
         ('NAME.d.ts', 'x/y.z.py', 'x/y.z.py'), ('NAME.ts', 'out/NAME', 'out/NAME'), ('NAME.py', '', 'NAME.py'),
         ('NAME.ts', './NAME.ts', './NAME.ts'), ('d/NAME.ts', 'd/../d/NAME.ts', 'd/NAME.ts'), ('', '', 'out.py'),
         ('', 'NAME.py', 'NAME.py'), ('', 'dir/NAME.py', 'dir/NAME.py'))


def process_cases(tier):
    for src, dest, edest in NAMES:
        for state in ('absent', 'foreign', 'empty', 'other'):
            for out in OUTCOMES:
                yield Case(f'{src or "TEXT"}>{dest or "?"}:{state}:{"+".join(out) or "ok"}', src=src, dest=dest, edest=edest,
                           state=state, outcome=out)


def job_mode(case):
    """case: files (of the world), argv, expected: result -> source; outcomes: source -> severities; exit: expected code"""
    def run(c):
        prepare(c)
        pr = Printer(c)
        e = c.env
        name = c.hole('ident', 'name')
        n = lambda s: s.replace('NAME', name)
        texts = {}
        for i, f in enumerate(case.files):
            if f.endswith('/'):
                e.files[absolute(f)] = DIR
                continue
            texts[f] = probe_text(pr, str(i)) + '\n'
            add(e, n(f), texts[f])
            e.outcome[texts[f]] = case.outcomes.get(f, ())
        if case.update != 'none':
            e.update = case.update
        before = dict(e.files)
        argv = [n(a) for a in case.argv]
        c.source = c.decode('ts2python ' + ' '.join(argv))
        printed = len(c.events)
        code = run_main(argv)
        shown = ' '.join(str(x) for ev in c.events[printed:] if ev[0] == 'print' for x in ev[1])
        if case.update == 'broken':
            if code == 0:
                return 'grammar', 'the program continues though the grammar contains errors'
            if text_hole('errors of the grammar') not in shown:
                return 'grammar', f'the errors of the grammar are not shown, the program ends with {code}'
            return unexpected(e, before, {p for p in e.files if p.startswith(stubs.REPO)})
        if case.update == 'changed':
            return unexpected(e, before, ())
        if isinstance(code, str) or (code == 0) != (case.exit == 0):
            return 'exit', f'the program ends with {code} instead of {case.exit}'
        allowed = set()
        for dest, f in case.results.items():
            sev = case.outcomes.get(f, ())
            d = absolute(n(dest))
            if dest.startswith('*'):
                # anywhere
                want = direct(texts[f], {})
                if not any(isinstance(t, str) and body(t) == want for t in e.files.values()):
                    return 'lost', f'the result for {c.decode(n(f))} is overwritten by that for another file'
                continue
            r = check_result(e, before, absolute(n(f)), d, texts[f], sev)
            if r:
                return r
            allowed |= {d, posixpath.splitext(d)[0] + error_extension(sev)}
            if sev:
                en = posixpath.splitext(d)[0] + error_extension(sev)
                if e.files[en] not in shown and posixpath.relpath(en, CWD) not in shown:
                    return 'shown', f'neither the messages for {c.decode(n(f))} nor the name of their file are shown'
        if '*1' in case.results:
            return None
        return unexpected(e, before, allowed)
    return V.outcome(case, run, conclude(), 32)


def mode_cases(tier):
    def M(label, files, argv, results, outcomes=None, exit=0, update='none'):
        return Case(label, files=files, argv=argv, results=results, outcomes=outcomes or {}, exit=exit, update=update)
    for out in OUTCOMES:
        o = '+'.join(out) or 'ok'
        bad = int(bool({'error', 'fatal'} & set(out)))
        for f, d in (('NAME.ts', 'NAME.py'), ('dir/NAME.ts', 'dir/NAME.py'), ('NAME.d.ts', 'NAME.d.py'),
                     ('/abs/NAME.ts', '/abs/NAME.py'), ('NAME.TS', 'NAME.py')):
            yield M(f'single {f}:{o}', [f], [f], {d: f}, {f: out})
        for opt in (['-o', 'dest'], ['--out', 'dest'], ['--out=dest'], ['-odest']):
            for extra in ([], ['--singlethread'], ['-v'], ['-D']):
                for f in ('NAME.ts', 'dir/NAME.ts', 'NAME.d.ts'):
                    d = 'dest/' + posixpath.splitext(posixpath.basename(f))[0] + '.py'
                    yield M(f'{" ".join(opt + extra)} {f}:{o}', [f], [f] + opt + extra, {d: f}, {f: out}, bad)
                    if o == 'ok':
                        yield M(f'{" ".join(opt + extra)} first {f}:{o}', [f], opt + extra + [f], {d: f}, {f: out}, bad)
                        yield M(f'{" ".join(opt + extra)} {f}:{o}, existing directory', [f, 'dest/'], [f] + opt + extra,
                                {d: f}, {f: out}, bad)
        two, res = ['a.ts', 'NAME.ts'], {'out/a.py': 'a.ts', 'out/NAME.py': 'NAME.ts'}
        for extra in ([], ['--singlethread'], ['-v']):
            for which in ('a.ts', 'NAME.ts'):
                yield M(f'two {" ".join(extra)}:{which}:{o}', two, two + extra, res, {which: out}, bad)
            yield M(f'two in dest {" ".join(extra)}:{o}', two, two + extra + ['-o', 'dest'],
                    {'dest/a.py': 'a.ts', 'dest/NAME.py': 'NAME.ts'}, {'NAME.ts': out}, bad)
            yield M(f'directory {" ".join(extra)}:{o}', ['d/a.ts', 'd/NAME.ts', 'd/sub/x.ts'], ['d'] + extra,
                    {'out/a.py': 'd/a.ts', 'out/NAME.py': 'd/NAME.ts'}, {'d/a.ts': out}, bad)
            yield M(f'directory in dest {" ".join(extra)}:{o}', ['d/a.ts', 'd/NAME.ts'], ['d', '-o', 'dest'] + extra,
                    {'dest/a.py': 'd/a.ts', 'dest/NAME.py': 'd/NAME.ts'}, {'d/a.ts': out}, bad)
    yield M('three', ['a.ts', 'b/NAME.ts', 'c.ts'], ['a.ts', 'b/NAME.ts', 'c.ts'],
            {'out/a.py': 'a.ts', 'out/NAME.py': 'b/NAME.ts', 'out/c.py': 'c.ts'}, {'a.ts': ('warning',), 'c.ts': ('notice',)})
    yield M('three with errors', ['a.ts', 'b/NAME.ts', 'c.ts'], ['a.ts', 'b/NAME.ts', 'c.ts'],
            {'out/a.py': 'a.ts', 'out/NAME.py': 'b/NAME.ts', 'out/c.py': 'c.ts'}, {'a.ts': ('warning',), 'c.ts': ('fatal',)}, 1)
    yield M('same name in two directories', ['a/NAME.ts', 'b/NAME.ts'], ['a/NAME.ts', 'b/NAME.ts'],
            {'*1': 'a/NAME.ts', '*2': 'b/NAME.ts'})
    yield M('output is a file', ['NAME.ts', 'dest'], ['NAME.ts', '-o', 'dest'], {}, {}, 1)
    yield M('no files', [], [], {}, {}, 2)
    yield M('unknown option', ['NAME.ts'], ['NAME.ts', '--unknown'], {}, {}, 2)
    for u in ('changed', 'broken'):
        yield M(f'grammar {u}', ['NAME.ts'], ['NAME.ts'], {}, {}, 0, u)
        yield M(f'grammar {u}, batch', ['NAME.ts'], ['NAME.ts', '-o', 'dest'], {}, {}, 0, u)


# ------------------------------------------------- results that are up to date (C11)

def job_history(case):
    """case: steps: ('run', configuration, severities) | ('edit',) | ('upgrade',) | ('kill', n, part, configuration) |
    ('remove',); inline: the source is passed as text"""
    def run(c):
        prepare(c)
        pr = Printer(c)
        e = c.env
        name = c.hole('ident', 'name')
        src, dest = f'{name}.ts', f'{name}.py'
        text = [probe_text(pr) + '\n']
        add(e, src, text[0])
        c.source = f'process_file() after {case.label}'
        made = None                # what the result has been made from
        for i, st in enumerate(case.steps):
            if st[0] == 'edit':
                t = probe_text(pr, str(i)) if st[1] == 'other' else text[0][:-1] + ' ' if st[1] == 'blank' else text[0] + \
                    f'interface {c.hole("ident", "Z")} {{ x: string }}'
                text[0] = t + '\n'
                add(e, src, text[0])
            elif st[0] == 'upgrade':
                e.version += 1
            elif st[0] == 'remove':
                e.files.pop(absolute(dest), None)
                made = None
            else:
                e.process = Process()
                e.presets.update(pipeline.full_config(st[1]))
                e.outcome = {text[0]: st[2]}
                e.writes, e.dead = 0, False
                e.kill = st[3] if st[0] == 'kill' else None
                before = len(e.compiled)
                now = (text[0], tuple(sorted(st[1].items())), e.version)
                try:
                    r = site().call('process_file', text[0] if case.inline else src, dest)
                except Killed:
                    made = None
                    continue
                except PyRaise as x:
                    return 'crash', f'{type(x.exc).__name__}: {c.decode(str(x.exc))}'
                again = len(e.compiled) > before
                got = e.files.get(absolute(dest))
                if made != now and not again:
                    return 'stale', 'the result of a different document, configuration or version is taken to be up to date'
                if not again and made is None:
                    return 'stale', 'an incomplete or missing result is taken to be up to date'
                if made == now and again and not st[2]:
                    return 'again', 'an up to date result is made again'
                if 'fatal' not in st[2]:
                    if not isinstance(got, str) or body(got) != direct(text[0], st[1]):
                        return 'result', f'the result contains {first_difference(direct(text[0], st[1]), body(got or ""))}'
                    made = now
                if bool(r) != bool(st[2]):
                    return 'messages', f'"{c.decode(str(r))}" is returned though the messages are {st[2]}'
        return None
    return V.outcome(case, run, conclude(), 32)


def uptodate_cases(tier):
    changes = {'none': [], 'other': [('edit', 'other')], 'blank': [('edit', 'blank')], 'more': [('edit', 'more')],
               'upgrade': [('upgrade',)], 'remove': [('remove',)]}
    cfgs = [{}] + [{k: v} for k, v in (('UseEnum', False), ('UseTypeUnion', True), ('UseLiteralType', True),
                                       ('UseVariadicGenerics', True), ('UseNotRequired', True),
                                       ('KeepMultilineComments', True), ('BaseClassName', 'pydantic.BaseModel'),
                                       ('RenderAnonymous', 'toplevel'), ('RenderAnonymous', 'functional'),
                                       ('ClassDecorator', '@dataclass'))]
    names = lambda cfg: ','.join(f'{k}={v}' for k, v in cfg.items()) or 'default'
    for inline in (False, True):
        tag = 'text ' if inline else ''
        for n1, c1 in changes.items():
            yield Case(f'{tag}run, {n1}, run', steps=[('run', {}, ())] + c1 + [('run', {}, ())], inline=inline)
            for n2, c2 in changes.items():
                yield Case(f'{tag}run, {n1}, run, {n2}, run',
                           steps=[('run', {}, ())] + c1 + [('run', {}, ())] + c2 + [('run', {}, ())], inline=inline)
        for g1 in cfgs:
            for g2 in cfgs:
                yield Case(f'{tag}run {names(g1)}, run {names(g2)}', steps=[('run', g1, ()), ('run', g2, ())], inline=inline)
                yield Case(f'{tag}run {names(g1)}, run {names(g2)}, run {names(g1)}',
                           steps=[('run', g1, ()), ('run', g2, ()), ('run', g1, ())], inline=inline)
        for k in (1, 2):
            for part in (0, .1, .3, .5, .6, .7, .75, .8, .83, .86, .88, .9, .92, .94, .96, .98, .99):
                kill = ('kill', {}, (), (k, part))
                yield Case(f'{tag}killed at {part} of write {k}, run', steps=[kill, ('run', {}, ())], inline=inline)
                yield Case(f'{tag}killed at {part} of write {k} twice, run', steps=[kill, kill, ('run', {}, ())], inline=inline)
                yield Case(f'{tag}run, edit, killed at {part} of write {k}, run',
                           steps=[('run', {}, ()), ('edit', 'more'), kill, ('run', {}, ())], inline=inline)
        for out in OUTCOMES[1:]:
            o = '+'.join(out)
            yield Case(f'{tag}run with {o}, run', steps=[('run', {}, out), ('run', {}, out)], inline=inline)
            yield Case(f'{tag}run, edit, run with {o}, edit, run',
                       steps=[('run', {}, ()), ('edit', 'more'), ('run', {}, out), ('edit', 'more'), ('run', {}, ())],
                       inline=inline)


def job_files(case):
    return job_mode(case) if hasattr(case, 'argv') else job_process(case)


def file_cases(tier):
    yield from process_cases(tier)
    yield from mode_cases(tier)
