"""nodes.py - abstract syntax-tree nodes (model of DHParser.nodetree.Node)."""

from . import core


def matcher(sel):
    if callable(sel) and not isinstance(sel, ANode):
        return lambda nd: core.CTX is not None and bool(sel(nd))
    if isinstance(sel, str):
        return lambda nd: nd.name == sel
    if isinstance(sel, ANode):
        return lambda nd: nd is sel
    if isinstance(sel, (set, frozenset, tuple, list)):
        s = set(sel)
        return lambda nd: nd.name in s
    if hasattr(sel, 'fullmatch'):
        return lambda nd: bool(sel.fullmatch(nd.content))
    raise core.Unsupported('node selector')


class ANode:
    """A node of the abstract syntax tree.

    kind       name of the node (a symbol of the grammar)
    children   tuple of ANodes
    text       content template (leaves)
    summary    None or list of templates: what compiling this node yields
               (assumed; guaranteed by the analysis of the node's own kind)
    """

    def __init__(self, kind, children=(), text='', summary=None, tag=''):
        self.name = kind
        self._children = tuple(children)
        self._text = text
        self._attr = {}
        self.summary = summary
        self.tag = tag or kind
        self.pos = 0
        self.compiled = 0
        self.chosen = None

    # -- DHParser.Node interface -------------------------------------------
    @property
    def children(self):
        return self._children

    @property
    def result(self):
        return self._children if self._children else self._text

    @result.setter
    def result(self, r):
        if isinstance(r, ANode):
            r = (r,)
        if isinstance(r, (tuple, list)):
            self._children = tuple(r)
            self._text = ''
        else:
            self._children = ()
            self._text = r

    @property
    def content(self):
        if self._children:
            return ''.join(c.content for c in self._children)
        return self._text

    @property
    def anonymous(self):
        return not self.name or self.name[:1] == ':'

    @property
    def attr(self):
        return self._attr

    @attr.setter
    def attr(self, d):
        self._attr = d

    def has_attr(self, a=''):
        return a in self._attr if a else bool(self._attr)

    def get_attr(self, a, default):
        return self._attr.get(a, default)

    def with_attr(self, *d, **kw):
        for x in d:
            self._attr.update(x)
        self._attr.update(kw)
        return self

    def with_pos(self, p):
        return self

    def strlen(self):
        return len(self.content)

    def __len__(self):
        raise AssertionError('len() on Node-objects would be too ambiguous!')

    def __bool__(self):
        return True

    def __getitem__(self, key):
        if not self._children and self._text:
            raise ValueError('Item access is not possible on a leaf-node!')
        if isinstance(key, (int, slice)):
            return self._children[key]
        m = matcher(key)
        items = tuple(c for c in self._children if m(c))
        if items:
            return items if len(items) >= 2 else items[0]
        raise KeyError(str(key))

    def __contains__(self, sel):
        m = matcher(sel)
        return any(m(c) for c in self._children)

    def get(self, key, surrogate):
        try:
            items = self[key]
            if isinstance(surrogate, (tuple, list)):
                return items if isinstance(items, tuple) else (items,)
            return items[0] if isinstance(items, tuple) else items
        except (KeyError, ValueError, IndexError):
            return surrogate

    def index(self, sel, start=0, stop=2 ** 30):
        m = matcher(sel)
        for i, c in enumerate(self._children[start:stop]):
            if m(c):
                return i + start
        raise ValueError('not among child-nodes')

    def indices(self, sel):
        m = matcher(sel)
        return tuple(i for i, c in enumerate(self._children) if m(c))

    def select_children(self, sel, reverse=False):
        m = matcher(sel)
        ch = reversed(self._children) if reverse else self._children
        return iter([c for c in ch if m(c)])

    def pick_child(self, sel, reverse=False):
        return next(self.select_children(sel, reverse), None)

    def _walk(self, include_root=False, reverse=False, skip=None):
        if include_root:
            yield self
        for c in (reversed(self._children) if reverse else self._children):
            yield c
            if skip is None or not skip(c):
                yield from c._walk(False, reverse, skip)

    def walk_tree(self, include_root=False, reverse=False):
        return self._walk(include_root, reverse)

    def select_if(self, f, include_root=False, reverse=False, skip_func=None):
        return (n for n in self._walk(include_root, reverse, skip_func) if f(n))

    def select(self, criteria, include_root=False, reverse=False, skip_subtree=None):
        m = matcher(criteria)
        skip = matcher(skip_subtree) if skip_subtree is not None else None
        return (n for n in self._walk(include_root, reverse, skip) if m(n))

    def pick(self, criteria, include_root=False, reverse=False, skip_subtree=None):
        return next(self.select(criteria, include_root, reverse, skip_subtree), None)

    def pick_if(self, f, include_root=False, reverse=False, skip_subtree=None):
        return next(self.select_if(f, include_root, reverse), None)

    def as_sxpr(self, *a, **k):
        return core.CTX.hole('text', f'sxpr({self.name})')

    def serialize(self, *a, **k):
        return self.as_sxpr()

    def as_tree(self):
        return self.as_sxpr()

    # -- tree services used by compilers (RootNode) --------------------------
    stage = 'ast'
    source = ''

    @property
    def errors(self):
        return self.__dict__.setdefault('_errors', [])

    @property
    def errors_sorted(self):
        return list(self.errors)

    @property
    def error_flag(self):
        return max([int(e.code) for e in self.errors], default=0)

    def node_errors(self, node):
        return [e for e in self.errors if e.node is node]

    def new_error(self, node, message, code=1000):
        from .stubs import Error
        e = Error(message, getattr(node, 'pos', 0), code)
        e.node = node
        self.errors.append(e)
        core.CTX.event('diagnostic', node, message, code)
        return self

    def add_error(self, node, error):
        if node is not None:
            error.node = node
        self.errors.append(error)
        core.CTX.event('diagnostic', node, getattr(error, 'message', error), getattr(error, 'code', None))
        return self

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise core.Unsupported(f'Node.{name} is not modelled')

    def equals(self, other, *a):
        return self.as_tuple() == other.as_tuple()

    def as_tuple(self):
        return (self.name, tuple(c.as_tuple() for c in self._children) or self._text)

    def leaves(self):
        return (n for n in self._walk(True) if not n._children)

    def descendants(self, include_root=False):
        return self._walk(include_root)

    def is_anonymous(self):
        return self.anonymous

    def __repr__(self):
        return self.show()

    def show(self, depth=4):
        """Compact description of the skeleton."""
        if self.summary is not None or not self._children or depth == 0:
            return self.name
        return f'{self.name}({" ".join(c.show(depth - 1) for c in self._children)})'
