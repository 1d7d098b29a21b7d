"""sched.py - interleaves two operations of the interpreted program."""

import ast
import functools
import threading
import types

from . import core, interp, stubs
from .core import PyRaise

STACK = 512 * 1024 * 1024


class Kill(BaseException):
    pass


class Deadlock(Exception):
    pass


def current():
    """Number of the abstract thread that is running."""
    s = getattr(core.CTX, 'sched', None)
    return s.me if s is not None else 0


HEADS = {ast.If: ('test',), ast.While: ('test',), ast.For: None, ast.With: None, ast.Try: (), ast.FunctionDef: (),
         ast.Pass: (), ast.Global: (), ast.Nonlocal: (), ast.Break: (), ast.Continue: (), ast.Import: (),
         ast.ImportFrom: (), ast.Return: ('value',), ast.Assign: ('targets', 'value'), ast.Expr: ('value',),
         ast.Raise: ('exc', 'cause')}
PURE = (ast.Name, ast.Constant, ast.BoolOp, ast.UnaryOp, ast.IfExp, ast.Tuple, ast.List, ast.Set, ast.JoinedStr,
        ast.FormattedValue, ast.expr_context, ast.boolop, ast.unaryop, ast.cmpop)
FIXED = (interp.Func, type, types.ModuleType, interp.Module, stubs.Stub, types.BuiltinFunctionType)
INSPECT = (isinstance, issubclass, callable, type, id)


@functools.lru_cache(None)
def cells(node):
    """Variables of a function that functions within it may assign."""
    return {x for n in ast.walk(node) if isinstance(n, ast.Nonlocal) for x in n.names}


def private(s, env, world_interp):
    """The statement deals with nothing but the variables of its function and things that do not
    change: whether another thread goes on before or after it makes no difference. (Where it calls
    an interpreted function, the other thread may still go on within that function.)"""
    heads = HEADS.get(type(s))
    if heads is None:
        return False

    def value(name):
        try:
            return world_interp.load_name(name, env)
        except PyRaise:
            return None

    def local(name):
        return name in env.vars or (env.locals_ is not None and name in env.locals_)

    def shared_cell(name):
        return env.func is None or name in cells(env.func.node)

    def ok(e):
        if isinstance(e, ast.Name):
            if not local(e.id):
                return isinstance(e.ctx, ast.Load) and isinstance(value(e.id), FIXED)
            return not shared_cell(e.id) and (isinstance(e.ctx, ast.Store) or
                                              not isinstance(env.vars.get(e.id), (list, dict, set)))
        if isinstance(e, ast.Attribute):
            return isinstance(e.value, ast.Name) and isinstance(value(e.value.id), (types.ModuleType, stubs.Stub)) \
                and isinstance(e.ctx, ast.Load)
        if isinstance(e, ast.Call):
            if not isinstance(e.func, ast.Name):
                return False
            f = value(e.func.id)
            if not (isinstance(f, interp.Func) or any(f is x for x in INSPECT) or isinstance(f, type) and issubclass(f, BaseException)):
                return False
            return all(ok(x) for x in e.args) and all(ok(k.value) for k in e.keywords)
        if isinstance(e, ast.Compare):
            return all(not isinstance(o, (ast.In, ast.NotIn)) or isinstance(c, (ast.Tuple, ast.List, ast.Set))
                       for o, c in zip(e.ops, e.comparators)) and all(ok(x) for x in [e.left] + e.comparators)
        return isinstance(e, PURE) and all(ok(x) for x in ast.iter_child_nodes(e))

    for h in heads:
        v = getattr(s, h)
        for e in v if isinstance(v, list) else [v] if v is not None else []:
            if not ok(e):
                return False
    return True


class Sched:
    """Interleaves two operations; `bound` preemptions."""

    def __init__(self, world, bound, configs=None, coarse=False):
        self.interp, self.bound, self.coarse = world.interp, bound, coarse
        self.me = 0
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.state = ['running', 'new']
        self.error = None
        self.result = [None, None]
        self.saved = [None, None]
        self.configs = configs
        self.where = []

    # -- what belongs to a thread
    def leave(self):
        c = core.CTX
        self.saved[self.me] = (self.interp.depth, list(c.calls), dict(c.config), getattr(c, 'compile_hook', None))

    def enter(self, me):
        c = core.CTX
        self.me = me
        if self.saved[me] is not None:
            self.interp.depth, c.calls[:], cfg, c.compile_hook = self.saved[me]
        else:
            self.interp.depth, c.calls[:], cfg = 0, [], dict(self.configs[me] if self.configs else c.config)
        c.config.clear()
        c.config.update(cfg)

    def switch(self):
        me, other = self.me, 1 - self.me
        self.leave()
        self.enter(other)
        if self.state[other] == 'new':
            self.state[other] = 'running'
            threading.stack_size(STACK)
            self.thread = threading.Thread(target=self.second, daemon=True)
            self.thread.start()
        else:
            self.sem[other].release()
        self.sem[me].acquire()
        if self.error is not None:
            raise Kill()

    def finish(self, me):
        """Thread me is done: the other one goes on."""
        self.state[me] = 'done'

    # -- hooks
    def step(self, s, env):
        if self.bound <= 0 or self.state[1 - self.me] == 'done' or self.state[1 - self.me] == 'blocked':
            return
        f = env.func.__qualname__ if env.func else '<module>'
        if self.coarse and not self.entered(s, env, f):
            return
        if private(s, env, self.interp):
            return
        if core.CTX.oracle.choose(2, f'the other thread goes on before line {s.lineno} of {f}'):
            self.bound -= 1
            self.where.append(f'{f} line {s.lineno}')
            self.switch()

    def entered(self, s, env, f):
        """coarse: the methods of a class are only interrupted where they begin"""
        if not f.startswith(self.coarse):
            return True
        return env.func.node.body[0] is s and (f.startswith(self.coarse + 'on_') or f.count('.') == 1)

    def block(self):
        """The running thread waits for a lock that the other one holds."""
        if self.state[1 - self.me] in ('blocked', 'done'):
            raise PyRaise(Deadlock('the threads wait for each other'))
        self.state[self.me] = 'blocked'
        self.switch()

    def released(self):
        other = 1 - self.me
        if self.state[other] == 'blocked':
            self.state[other] = 'running'
            if core.CTX.oracle.choose(2, 'the waiting thread goes on at once'):
                self.switch()

    # -- run
    def attempt(self, i, f):
        try:
            self.result[i] = ('ok', f())
        except PyRaise as e:
            self.result[i] = ('raise', e)

    def second(self):
        try:
            self.attempt(1, self.fs[1])
        except Kill:
            return
        except BaseException as e:
            self.error = e
        self.state[1] = 'done'
        self.leave()
        self.enter(0)
        self.sem[0].release()

    def run(self, f, g):
        c = core.CTX
        self.fs = (f, g)
        c.sched = self
        if self.configs:
            c.config.clear()
            c.config.update(self.configs[0])
        self.interp.step = self.step
        try:
            self.attempt(0, f)
            if self.state[1] != 'done':
                if self.state[1] == 'blocked':
                    raise core.Unsupported('a lock is still held when the operation is finished')
                self.state[0] = 'done'
                self.switch()
        except Kill:
            pass
        except BaseException as e:
            if self.error is None:
                self.error = e
                if self.state[1] in ('running', 'blocked'):
                    self.sem[1].release()
        finally:
            self.interp.step = None
            c.sched = None
            if self.state[1] != 'new':
                self.thread.join()
            self.enter(0) if self.me != 0 else None
        if self.error is not None:
            raise self.error
        return self.result


def together(world, f, g, bound, configs=None, coarse=False):
    s = Sched(world, bound, configs, coarse)
    r = s.run(f, g)
    return r, s.where


# ------------------------------------------------------- model of `threading`

class Lock:
    reentrant = False

    def __init__(self):
        self.key = object()

    @property
    def held(self):
        return core.CTX.__dict__.setdefault('locks', {}).setdefault(id(self), [None, 0])

    def acquire(self, blocking=True, timeout=-1):
        h = self.held
        me = current()
        if h[0] == me and h[1] and self.reentrant:
            h[1] += 1
            return True
        while h[1]:
            if h[0] == me:
                raise PyRaise(Deadlock('the thread waits for a lock that it holds itself'))
            if not blocking:
                return False
            s = getattr(core.CTX, 'sched', None)
            if s is None:
                raise PyRaise(Deadlock('a lock is never released'))
            s.block()
        h[0], h[1] = me, 1
        return True

    def release(self):
        h = self.held
        if not h[1] or (self.reentrant and h[0] != current()):
            raise PyRaise(RuntimeError('release of a lock that is not held'))
        h[1] -= 1
        s = getattr(core.CTX, 'sched', None)
        if not h[1] and s is not None:
            s.released()

    def locked(self):
        return bool(self.held[1])

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()
        return None


class RLock(Lock):
    reentrant = True


class Local:
    def __init__(self):
        self.__dict__['_key'] = object()

    def _ns(self):
        return core.CTX.__dict__.setdefault('locals', {}).setdefault((id(self), current()), {})

    def __getattribute__(self, name):
        if name in ('_ns', '_key', '__class__'):
            return object.__getattribute__(self, name)
        ns = object.__getattribute__(self, '_ns')()
        if name == '__dict__':
            return ns
        if name in ns:
            return ns[name]
        raise AttributeError(f'local has no attribute {name}')

    def __setattr__(self, name, v):
        object.__getattribute__(self, '_ns')()[name] = v

    def __delattr__(self, name):
        try:
            del object.__getattribute__(self, '_ns')()[name]
        except KeyError:
            raise AttributeError(name)


class Thread_:
    def __init__(self, n):
        self.ident, self.name, self.daemon = n + 1, f'Thread-{n}', False


def threading_module():
    return stubs.Stub('threading', {
        'Lock': Lock, 'RLock': RLock, 'local': Local, 'get_ident': lambda: current() + 1,
        'get_native_id': lambda: current() + 1, 'current_thread': lambda: Thread_(current()),
        'main_thread': lambda: Thread_(0), '_thread': None}, strict=True)
