"""families.py - the document families the properties are decided on.

Each family is an enumeration of document skeletons, derived from the kinds and
the positions of the grammar; names are holes, hence each document stands for
all documents that differ from it by names, spacing and comments only."""

import itertools

from .tsast import *

S, NUM, INTG, BOOL, NULL, ANY, VOID, OBJ, ARR = (B('string'), B('number'), B('integer'), B('boolean'), B('null'),
                                               B('any'), B('void'), B('object'), B('array'))
BASICS = ['object', 'array', 'string', 'number', 'boolean', 'null', 'integer', 'uinteger', 'decimal', 'unknown',
          'any', 'void']


def leafs():
    return {
        'string': S, 'number': NUM, 'boolean': BOOL, 'null': NULL, 'any': ANY, 'object': OBJ,
        'pre': R('@Pre'), 'post': R('@Post'), 'ext': R('@Ext'), 'self': R('@Self'),
        'litstr': L('string', '"@lit"'), 'litint': L('integer', '42'), 'litbool': L('boolean', 'true'),
    }


def forms(x, y):
    """Type forms over two component types."""
    return {
        'array': A(x), 'Array<>': R('Array', (x,)), 'union': U((x, y)), 'lead-union': U((x, y), True),
        'paren': P(x), 'paren-union-array': A(P(U((x, y)))), 'tuple': T((x, y)), 'tuple1': T((x,)),
        'record': O((Fld('@p', x), Fld('@q', y, True))), 'record1': O((Fld('@p', x),)),
        'mapped': M(S, x), 'map-in': M(x, y, ' in ') if isinstance(x, (R,)) else M(S, y, ' in '),
        'generic': R('@Gen', (x,)), 'generic2': R('@Gen', (x, y)),
        'callable': F((Par('@u', x),), y), 'callable0': F((), x), 'callable2': F((Par('@u', x), Par('@v', y)), VOID),
        'readonly': RO(x), 'union3': U((x, y, NULL)),
    }


def nested():
    """Second-level type forms."""
    rec = O((Fld('@p', S), Fld('@q', NUM, True)))
    return {
        'array-of-record': A(O((Fld('@p', S),))),
        'union-record-string': U((O((Fld('@p', S),)), S)),
        'union-two-records': U((O((Fld('@p', S),)), O((Fld('@q', NUM),)))),
        'union-three-records': U((O((Fld('@p', S),)), O((Fld('@q', NUM),)), O((Fld('@r', BOOL),)))),
        'record-in-record': O((Fld('@o', rec), Fld('@z', S))),
        'record-in-record-2': O((Fld('@o', O((Fld('@i', O((Fld('@k', S),))),))), Fld('@z', S))),
        'records-side-by-side': O((Fld('@o', O((Fld('@k', S),))), Fld('@m', O((Fld('@k2', NUM),))))),
        'union-array-record': U((A(O((Fld('@p', S),))), NULL)),
        'paren-record-array': A(P(U((O((Fld('@p', S),)), O((Fld('@q', NUM),)))))),
        'labelled-tuple': LT((Fld('@p', S), Fld('@q', R('@Post')))),
        'labelled-tuple-opt-record': LT((Fld('@p', S), Fld('@q', NUM, True))),
        'union-labelled-record': U((LT((Fld('@p', S), Fld('@q', R('@Post')))), NULL, O((Fld('@r', BOOL),)))),
        'array-of-labelled-record': A(P(LT((Fld('@p', S), Fld('@q', O((Fld('@r', BOOL),))))))),
        'Array<labelled-record>': R('Array', (LT((Fld('@p', S),)),)),
        'generic-of-labelled-record': R('@Gen', (LT((Fld('@p', S), Fld('@q', R('@Pre')))), S)),
        'map-opt': M(R('@Post'), A(S), ' in ', '', '?'), 'map-opt-str': M(S, R('@Post'), ': ', '', '?'),
        'map-readonly': M(S, R('@Post'), ': ', '', '', 'readonly '),
        'tuple-of-arrays': T((A(S), A(NUM))),
        'array-of-tuple': A(T((NUM, S))),
        'map-of-arrays': M(S, A(R('@Post'))),
        'map-of-records': M(S, O((Fld('@p', S),))),
        'map-of-maps': M(S, M(S, NUM)),
        'array-of-generic': A(R('@Gen', (S,))),
        'generic-of-array': R('@Gen', (A(S),)),
        'generic-of-generic': R('@Gen', (R('@Gen', (S,)),)),
        'generic-of-union': R('@Gen', (U((S, NUM)),)),
        'generic-of-null': R('@Gen', (NULL,)),
        'generic-of-null2': R('@Gen', (NULL, S)),
        'array-of-array': R('Array', (R('Array', (S,)),)),
        'callable-array': F((Par('@u', A(S)),), A(NUM)),
        'callable-opt': F((Par('@u', S), Par('@v', NUM, True)), VOID),
        'callable-rest': F((Par('@u', S), Par('@v', A(NUM), False, True)), VOID),
        'callable-in-union': U((P(F((Par('@u', S),), NUM)), NULL)),
        'callable-of-callable': F((Par('@cb', F((Par('@u', S),), NUM)),), VOID),
        'callable-untyped': F((Par('@u'),), S),
        'union-in-callable': F((Par('@u', U((S, R('@Post')))),), U((NUM, R('@Post')))),
        'union-of-arrays': U((A(S), A(NUM))),
        'union-nested-none': U((A(P(U((S, NULL)))), S)),
        'union-nested-none2': U((A(P(U((A(S), NULL)))), NUM)), 'union-nested-none3': U((M(S, P(U((R('@Gen', (S,)), NULL)))), R('@Post'))),
        'union-nested-none4': U((T((A(P(U((A(S), NULL)))), S)), A(P(U((M(S, S), NULL)))))),
        'union-callable-none': U((P(F((Par('@u', U((A(S), NULL))),), NUM)), S)),
        'union-callable-ret-none': U((S, P(F((Par('@u', A(S)),), U((A(S), NULL)))))),
        'union-record-none': U((O((Fld('@p', U((A(S), NULL))),)), S)),
        'record-method': O((Fn('@m', (Par('@x', S),), S), Fld('@p', NUM))), 'record-overload': O((Fn('@m', (Par('@x', S),), S), Fn('@m', (Par('@x', NUM),), S))),
        'record-constructor': O((Fn('constructor', (Par('@x', S),), None), Fld('@p', NUM))), 'record-call': O((Fn('', (Par('@x', S),), S),)),
        'record-method-nested': O((Fld('@q', O((Fn('@m', (Par('@x', S),), O((Fn('@n', (), S),))),))),)),
        'record-method-generic': O((Fn('@m', (Par('@x', R('@T')),), R('@T'), '', ('@T',)), Fld('@p', NUM))),
        'union-record-methods': U((O((Fn('@m', (), S),)), O((Fn('@m', (), NUM),)))),
        'callable-record-method': F((Par('@u', O((Fn('@m', (Par('@x', S), Par('@y', NUM)), VOID), Fn('@n', (Par('@z', A(S)),), S)))),), VOID),
        'callable-ret-record-method': F((Par('@u', S),), O((Fn('@m', (Par('@x', S), Par('@y', R('@Post'))), VOID), Fld('@p', NUM)))),
        'union-dup': U((S, L('string', '"@lit"'))),
        'union-lits': U((L('string', '"@l1"'), L('string', '"@l2"'))),
        'union-lits-mixed': U((L('string', '"@l1"'), NUM, L('integer', '7'))),
        'union-lits-ints': U((L('integer', '1'), L('integer', '2'), L('integer', '3'))),
        'union-lits-bool': U((L('boolean', 'true'), L('boolean', 'false'))),
        'union-refs': U((R('@Pre'), R('@Post'), R('@Ext'))),
        'array-of-post': A(R('@Post')),
        'array-union-refs': A(P(U((R('@Pre'), R('@Post'))))),
        'union-array-post': U((A(R('@Post')), R('@Post'))),
        'readonly-array': RO(A(S)),
        'ReadonlyArray': R('ReadonlyArray', (S,)),
        'Thenable': R('Thenable', (S,)),
        'Error': R('Error'), 'RegExp': R('RegExp'), 'undefined': R('undefined'), 'Uint32Array': R('Uint32Array'),
        'qualified': R('@NsX.@Member'), 'qualified3': R('@NsX.@Sub.@Member'), 'qualified-generic': R('@NsX.@Gen', (S, R('@Post'))),
        'qualified-known': R('@NsX.Error'), 'qualified-known-generic': R('@NsX.Array', (S,)), 'qualified-basic': R('@NsX.string'),
        'qualified-pre': U((R('@Pre'), R('@NsX.@Pre'))), 'qualified-post': U((R('@Post'), R('@NsX.@Post'))),
        'qualified-post2': U((R('@NsX.@Post'), A(R('@Post')), R('@Post.@Member'))),
        'qualified-of-post': T((R('@Post'), R('@Post.@Member'), R('@NsX.@Post'))),
        'tuple-repeat': T((S, NUM, S)), 'tuple-repeat-refs': T((R('@Post'), R('@Post'), R('@Pre'), R('@Post'))),
        'tuple-repeat2': T((S, S)), 'generic-repeat': R('@Gen', (S, S)), 'generic-repeat-refs': R('@Gen', (R('@Post'), R('@Post'))),
        'callable-repeat': F((Par('@u', S), Par('@v', S)), S), 'map-repeat': M(S, S), 'Array-in-Array': A(P(A(S))),
        'records-alike': T((O((Fld('@p', S),)), O((Fld('@p', S),)))), 'tuple-of-unions': T((U((S, NULL)), NUM, U((S, NULL)))),
        'record-names-of-types': O((Fld('@Post', S), Fld('@Pre', NUM), Fld('@x', R('@Post')))),
        'record-fields-like-types': O((Fld('@Post', R('@Post')), Fld('@Pre', A(R('@Pre')), True))),
        'opt-undefined': U((S, R('undefined'))),
        'union-null-undefined-lit': U((L('string', '"@l1"'), NULL, R('undefined'))),
        'union-lit-null-undefined': U((NULL, R('undefined'), L('string', '"@l1"'))),
        'union-same-lits': U((L('string', '"@l1"'), NUM, L('string', '"@l1"'), L('string', '"@l2"'))),
        'union-same-types-lit': U((S, R('RegExp'), L('string', '"@l1"'))),
        'union-lit-post': U((L('string', '"@l1"'), R('@Post'))),
        'union-post-lits-array': U((R('@Post'), L('string', "'@l1'"), L('string', '"@l2"'), A(R('@Post')), NULL)),
        'array-union-lit-post': A(P(U((L('string', '"@l1"'), R('@Post'), L('integer', '3'))))),
        'union-array-union-lit-post': U((A(P(U((L('string', '"@l1"'), R('@Post'))))), R('@Post'))),
        'union-record-lit-post': U((O((Fld('@p', S),)), L('string', '"@l1"'), R('@Post'))),
        'union-lit-named-like-type': U((L('string', '"@Post"'), R('@Post'))),
        'record-lit-named-like-type': O((Fld('@kind', L('string', "'@Post'")), Fld('@body', R('@Post')))),
        'records-lits-tagged': U((O((Fld('@kind', L('string', '"@Post"')), Fld('@body', R('@Post')))),
                                  O((Fld('@kind', L('string', '"@Pre"')), Fld('@body', R('@Pre')))))),
        'lit-quoted': L('string', "'say \"@l1\"'"), 'lit-quote': L('string', '"it\'s @l1"'),
        'union-lit-quote-post': U((L('string', '"it\'s @l1"'), R('@Post'))),
        'union-lit-null1': U((L('string', '"@l1"'), NULL)),
        'union-lits-null': U((L('string', '"@l1"'), L('string', '"@l2"'), NULL)),
        'union-lits-apart': U((L('string', '"@l1"'), NUM, L('integer', '7'), BOOL, L('string', '"@l2"'))),
    }


def deep_types():
    """Every form with every form as one of its components."""
    lf = leafs()
    inner = forms(lf['post'], lf['string'])
    out = {}
    for k, v in inner.items():
        w = v if array_ok(v) else P(v)
        for side, (a, b) in (('l', (w, lf['number'])), ('r', (lf['number'], w))):
            if k.startswith('readonly') and side == 'l':
                a = v
            for k2, v2 in forms(a, b).items():
                if k2.startswith('generic') and isinstance(w, P):
                    continue        # the arguments of generics are not put in parentheses
                if k2 == 'Array<>' and isinstance(w, P):
                    continue
                if k2 == 'readonly' and k == 'readonly':
                    continue
                if k2 == 'map-in' and side == 'l':
                    continue
                out[f'{k2}<{k}:{side}>'] = v2
    return out


def all_types():
    out = {f'basic:{b}': B(b) for b in BASICS}
    lf = leafs()
    out.update({f'leaf:{k}': v for k, v in lf.items()})
    for a, b in (('string', 'number'), ('pre', 'post'), ('post', 'string'), ('ext', 'pre'), ('boolean', 'null')):
        for k, v in forms(lf[a], lf[b]).items():
            out[f'{k}({a},{b})'] = v
    out.update(nested())
    return out


def light_types():
    lf = leafs()
    out = {f'leaf:{k}': v for k, v in lf.items() if k in ('string', 'pre', 'post', 'null', 'litstr')}
    for k, v in forms(lf['post'], lf['string']).items():
        out[f'{k}(post,string)'] = v
    for k in ('array-of-record', 'union-two-records', 'record-in-record', 'map-of-records', 'union-lits',
              'union-nested-none', 'generic-of-null', 'callable-rest', 'array-union-refs', 'union-array-post',
              'callable-in-union', 'records-side-by-side', 'record-method'):
        out[k] = nested()[k]
    return out


def has_null(t):
    if isinstance(t, B):
        return t.name in ('null', 'void')
    if isinstance(t, U):
        return any(has_null(a) for a in t.alts)
    if isinstance(t, (P, RO)):
        return has_null(t.inner)
    return isinstance(t, R) and t.name == 'undefined'


def around(*decls):
    """Declarations before and after the ones under scrutiny."""
    return [Iface('@Pre', (Fld('@pa', S),))] + list(decls) + [Iface('@Post', (Fld('@pb', S),))]


def array_ok(t):
    """T[] can only be written for these forms (without parentheses)."""
    return isinstance(t, (B, P, T, O, R)) and not isinstance(t, LT)


def in_positions(label, t, positions=None):
    """Documents that contain type t in every position the grammar has for types."""
    pos = {
        'field': lambda: [Iface('@Self', (Fld('@a', S), Fld('@f', t), Fld('@b', NUM)))],
        'optfield': lambda: [Iface('@Self', (Fld('@a', S), Fld('@f', t, True), Fld('@b', NUM)))],
        'param': lambda: [Iface('@Self', (Fn('@m', (Par('@x', t),), VOID),))],
        'optparam': lambda: [Iface('@Self', (Fn('@m', (Par('@w', S), Par('@x', t, True)), VOID),))],
        'return': lambda: [Iface('@Self', (Fn('@m', (), t), Fld('@b', S)))],
        'func': lambda: [Fn('@fn', (Par('@x', t),), S, 'export function ')],
        'funcret': lambda: [Fn('@fn', (Par('@x', S),), t, 'export function ')],
        'alias': lambda: [Alias('@Self', t)],
        'const': lambda: [Const('@c', t)],
        'rec': lambda: [Iface('@Self', (Fld('@f', O((Fld('@g', t), Fld('@h', S, True)))),))],
        'union': lambda: [Iface('@Self', (Fld('@f', U((S, t)) if not isinstance(t, (U, F)) else U((S, P(t)))),))],
        'genarg': lambda: [Iface('@Self', (Fld('@f', R('@Gen', (t,))),))],
        'array': lambda: [Iface('@Self', (Fld('@f', A(t if array_ok(t) else P(t))),))],
        'mapval': lambda: [Iface('@Self', (Fld('@f', M(S, t)),))],
        'tuple': lambda: [Iface('@Self', (Fld('@f', T((S, t))),))],
        'ctype': lambda: [Iface('@Self', (Fld('@f', F((Par('@u', t),), S)),))],
        'callret': lambda: [Iface('@Self', (Fld('@f', F((Par('@u', S),), t)),))],
        'nsfield': lambda: [NS('@Nsp', (Iface('@Self', (Fld('@f', t),)), Fn('@fn', (Par('@x', S),), S, 'export function ')))],
    }
    for k in (positions or pos):
        if k == 'genarg' and not isinstance(t, (B, R, A, T, O)):
            continue
        if k == 'union' and isinstance(t, I):
            continue
        yield Doc(f'{label}@{k}', around(*pos[k]()))


# ------------------------------------------------------------------- configs

BASE = {}
LEGACY = {}
MODERN = dict(UseNotRequired=True, UseLiteralType=True, UseTypeUnion=True, UseVariadicGenerics=True)
C_LIT = dict(UseLiteralType=True)
C_UNION = dict(UseTypeUnion=True)
C_NR = dict(UseNotRequired=True)
C_VG = dict(UseVariadicGenerics=True)
C_TOP = dict(RenderAnonymous='toplevel')
C_FUN = dict(RenderAnonymous='functional')
C_TYPE = dict(RenderAnonymous='type')
C_PYD = dict(BaseClassName='pydantic.BaseModel', ClassDecorator='@dataclass')
LIT_FUN = dict(UseLiteralType=True, RenderAnonymous='functional')
LIT_TOP = dict(UseLiteralType=True, RenderAnonymous='toplevel')
LIT_UNION = dict(UseLiteralType=True, UseTypeUnion=True)
C_KEEP = dict(KeepMultilineComments=True)
KEEP_FUN = dict(KeepMultilineComments=True, RenderAnonymous='functional')
KEEP_TOP = dict(KeepMultilineComments=True, RenderAnonymous='toplevel')
C_NOBASE = dict(BaseClassName='')
C_NOENUM = dict(UseEnum=False)


def cfg_label(c):
    return ','.join(f'{k}={v}' for k, v in sorted(c.items())) or 'default'


# ------------------------------------------------------------- declarations

def I_(n):
    return ('integer', str(n))


def member_kinds(i=''):
    """Members of an interface."""
    n = lambda s: f'@{s}{i}'
    return {
        'plain': [Fld(n('f'), S)], 'opt': [Fld(n('f'), S, True)], 'untyped': [Fld(n('f'))],
        'untyped-opt': [Fld(n('f'), None, True)],
        'readonly': [Fld(n('f'), NUM, False, 'readonly ')], 'static': [Fld(n('f'), NUM, False, 'static ')],
        'readonly-static': [Fld(n('f'), NUM, False, 'readonly static ')],
        'record': [Fld(n('f'), O((Fld(n('p'), S),)))],
        'opt-record': [Fld(n('f'), O((Fld(n('p'), S, True),)), True)],
        'two-records': [Fld(n('f'), O((Fld(n('p'), S),))), Fld(n('g'), O((Fld(n('q'), NUM),)))],
        'union-records': [Fld(n('f'), U((O((Fld(n('p'), S),)), O((Fld(n('q'), NUM),)))))],
        'method': [Fn(n('m'), (Par(n('x'), S),), VOID)], 'method0': [Fn(n('m'))],
        'method-opt': [Fn(n('m'), (Par(n('x'), S), Par(n('y'), NUM, True)), S)],
        'method-rest': [Fn(n('m'), (Par(n('x'), S), Par(n('y'), A(NUM), False, True)), S)],
        'method-rest-only': [Fn(n('m'), (Par(n('y'), A(S), False, True),), S)],
        'method-untyped': [Fn(n('m'), (Par(n('x')), Par(n('y'), None, True)), S)],
        'method-record': [Fn(n('m'), (Par(n('x'), O((Fld(n('p'), S),))),), VOID)],
        'method-ret-record': [Fn(n('m'), (Par(n('x'), S),), O((Fld(n('p'), S),)))],
        'method-generic': [Fn(n('m'), (Par(n('x'), R(n('TT'))),), R(n('TT')), '', (n('TT'),))],
        'method-optmark': [Fn(n('m'), (Par(n('x'), S),), VOID, '', (), True)],
        'method-static': [Fn(n('m'), (Par(n('x'), S),), VOID, 'static ')],
        'overloads': [Fn(n('m'), (Par(n('x'), S),), VOID), Fn(n('m'), (Par(n('x'), NUM),), VOID)],
        'iter': [Special('Symbol.iterator', (), R('IterableIterator', (S,)))],
        'call': [Fn('', (Par(n('x'), S),), NUM)],
        'ctor': [Fn('constructor', (Par(n('x'), S),))],
        'map': [Fld(n('f'), M(S, NUM))], 'func-type': [Fld(n('f'), F((Par(n('x'), S),), NUM))],
        'opt-func': [Fld(n('f'), F((Par(n('x'), S),), NUM), True)],
        'lits': [Fld(n('f'), U((L('string', f'"@s{i}"'), L('integer', '3'))))],
    }


def decl_kinds(i=''):
    """Top-level declarations, with names that end in i."""
    n = lambda s: f'@{s}{i}'
    d = {}
    for k, v in member_kinds(i).items():
        d['iface:' + k] = [Iface(n('I'), v)]
    d['iface:empty'] = [Iface(n('I'))]
    d['iface:generic'] = [Iface(n('I'), (Fld(n('f'), R(n('T'))),), (n('T'),))]
    d['iface:generic2'] = [Iface(n('I'), (Fld(n('f'), R(n('T'))), Fld(n('g'), R(n('V')), True)), (n('T'), n('V')))]
    d['iface:extends'] = [Iface(n('B'), (Fld(n('a'), S),)), Iface(n('I'), (Fld(n('f'), S, True),), (), (R(n('B')),))]
    d['iface:extends2'] = [Iface(n('B'), (Fld(n('a'), S),)), Iface(n('C'), (Fld(n('b'), S),)),
                           Iface(n('I'), (Fld(n('f'), S),), (), (R(n('B')), R(n('C'))))]
    d['iface:extends-gen'] = [Iface(n('B'), (Fld(n('a'), R(n('T'))),), (n('T'),)),
                              Iface(n('I'), (Fld(n('f'), S),), (), (R(n('B'), (S,)),))]
    d['iface:extends-ext'] = [Iface(n('I'), (Fld(n('f'), S),), (), (R('Error'),))]
    d['iface:gen-extends'] = [Iface(n('B'), (Fld(n('a'), S),)),
                              Iface(n('I'), (Fld(n('f'), R(n('T'))),), (n('T'),), (R(n('B')),))]
    d['iface:extends-methods'] = [Iface(n('B'), (Fn(n('m'), (), S),)),
                                  Iface(n('I'), (Fld(n('f'), S),), (), (R(n('B')),))]
    d['iface:gen-method'] = [Iface(n('I'), (Fn(n('m'), (Par(n('x'), R(n('T'))),), R(n('T'))),), (n('T'),))]
    d['class'] = [Iface(n('I'), (Fld(n('f'), S), Fn(n('m'), (), S)), (), (), 'class', 'export declare ')]
    d['class-implements'] = [Iface(n('B'), (Fld(n('a'), S),)),
                             Iface(n('I'), (Fld(n('f'), S),), (), (R(n('B')),), 'class', '', ';\n ', ';', 'implements')]
    d['iface:commas'] = [Iface(n('I'), (Fld(n('f'), S), Fld(n('g'), NUM, True)), (), (), 'interface', '', ',\n ')]
    d['iface:nosep'] = [Iface(n('I'), (Fld(n('f'), S), Fld(n('g'), NUM, True)), (), (), 'interface', '', '\n ')]
    d['alias'] = [Alias(n('A'), U((S, NUM)))]
    d['alias:basic'] = [Alias(n('A'), S)]
    d['alias:record'] = [Alias(n('A'), O((Fld(n('p'), S), Fld(n('q'), S, True))))]
    d['alias:records'] = [Alias(n('A'), U((O((Fld(n('p'), S),)), O((Fld(n('q'), NUM),)))))]
    d['alias:nested'] = [Alias(n('A'), O((Fld(n('p'), O((Fld(n('q'), S),))), Fld(n('r'), S))))]
    d['alias:lits'] = [Alias(n('A'), U((L('string', f'"@x{i}"'), L('string', f'"@y{i}"')), True))]
    d['alias:array'] = [Alias(n('A'), A(R(n('Later'))))]
    d['alias:func'] = [Alias(n('A'), F((Par(n('x'), S),), NUM))]
    d['alias:generic'] = [Alias(n('A'), A(R(n('T'))), (n('T'),))]
    d['enum:auto'] = [Enum(n('E'), ((n('x'), None), (n('y'), None)))]
    d['enum:int'] = [Enum(n('E'), ((n('x'), I_(1)), (n('y'), I_(2))))]
    d['enum:str'] = [Enum(n('E'), ((n('x'), ('string', f'"@vx{i}"')), (n('y'), ('string', f"'@vy{i}'"))))]
    d['enum:mixed'] = [Enum(n('E'), ((n('x'), I_(1)), (n('y'), ('string', f'"@vy{i}"'))))]
    d['ns:consts'] = [NS(n('N'), (Const(n('x'), NUM, I_(1)), Const(n('y'), NUM, I_(2))))]
    d['ns:strs'] = [NS(n('N'), (Const(n('x'), S, ('string', f'"@vx{i}"')), Const(n('y'), None, ('string', f'"@vy{i}"'))))]
    d['ns:func'] = [NS(n('N'), (Fn(n('fn'), (Par(n('x'), S),), NUM, 'export function '),
                                Fn(n('gn'), (Par(n('x'), S),), NUM, 'export function ')))]
    d['ns:iface-func'] = [NS(n('N'), (Iface(n('IN'), (Fld(n('f'), S),)),
                                      Fn(n('fn'), (Par(n('x'), S),), NUM, 'export function ')))]
    d['ns:overload'] = [NS(n('N'), (Fn(n('fn'), (Par(n('x'), S),), NUM, 'export function '),
                                    Fn(n('fn'), (Par(n('x'), NUM),), NUM, 'export function ')))]
    d['const'] = [Const(n('c'), NUM, I_(5))]
    d['const:str'] = [Const(n('c'), None, ('string', f'"@cs{i}"'))]
    d['const:typed'] = [Const(n('c'), S, ('string', f'"@ct{i}"'))]
    d['const:bare'] = [Const(n('c'), S)]
    d['const:record'] = [Const(n('c'), O((Fld(n('p'), S),)))]
    d['const:ident'] = [Const(n('c0'), NUM, I_(5)), Const(n('c'), NUM, ('ident', n('c0')))]
    d['func'] = [Fn(n('fn'), (Par(n('x'), S), Par(n('y'), NUM, True)), S, 'export function ')]
    d['func:record'] = [Fn(n('fn'), (Par(n('x'), O((Fld(n('p'), S),))),), S, 'export function ')]
    d['func:overload'] = [Fn(n('fn'), (Par(n('x'), S),), S, 'export function '),
                          Fn(n('fn'), (Par(n('x'), NUM),), S, 'export function ')]
    d['func:overload3'] = [Fn(n('fn'), (Par(n('x'), S),), S, 'export function '),
                           Fn(n('fn'), (Par(n('x'), NUM),), S, 'export function '),
                           Fn(n('gn'), (Par(n('x'), NUM),), S, 'export function '),
                           Fn(n('fn'), (Par(n('x'), BOOL),), S, 'export function ')]
    d['module'] = [Module(n('mod'), (Iface(n('I'), (Fld(n('f'), S),)), Alias(n('A'), S)))]
    d['import'] = [Raw(f'import {{ @imp{i} }} from "@lib{i}";'), Iface(n('I'), (Fld(n('f'), S),))]
    return d


def declaration_docs():
    for k, v in decl_kinds().items():
        yield Doc(f'decl:{k}', v)
    yield from empty_docs()


def empty_docs():
    """Declarations and types without members, alone and between others."""
    e = O(())
    xs = {'ns': [NS('@N', ())], 'iface': [Iface('@Self', ())], 'class': [Iface('@Self', (), (), (), 'class')],
          'iface:generic': [Iface('@Self', (), ('@T',))], 'ext': [Iface('@Self', (), (), (R('@Pre'),))],
          'field': [Iface('@Self', (Fld('@f', e),))], 'optfield': [Iface('@Self', (Fld('@f', e, True), Fld('@g', S)))],
          'param': [Iface('@Self', (Fn('@m', (Par('@x', e),), VOID),))], 'return': [Iface('@Self', (Fn('@m', (), e),))],
          'alias': [Alias('@A', e)], 'union': [Alias('@A', U((e, O((Fld('@p', S),)))))], 'array': [Alias('@A', A(e))],
          'const': [Const('@c', e)], 'func': [Fn('@fn', (Par('@x', e),), e, 'export function ')],
          'nested': [Iface('@Self', (Fld('@f', O((Fld('@p', e), Fld('@q', S)))),))],
          'twice': [Iface('@Self', (Fld('@f', e), Fld('@g', e)))],
          'ns-iface': [NS('@N', (Iface('@I', ()),))], 'ns-alias': [NS('@N', (Alias('@A', e), Alias('@B', S)))],
          'ns-ns': [NS('@N', ()), NS('@N2', ())]}
    for k, v in xs.items():
        yield Doc(f'empty:{k}', around(*v))
        yield Doc(f'empty:{k}:alone', [Iface('@Pre', ())] + v if k == 'ext' else v)


def pair_docs(kinds=None):
    a, b = decl_kinds('1'), decl_kinds('2')
    for k1 in (kinds or a):
        for k2 in (kinds or b):
            if 'module' in (k1, k2):
                continue
            yield k1, k2, Doc(f'{k1}+{k2}', a[k1] + b[k2])


def member_docs():
    a, b = member_kinds('1'), member_kinds('2')
    for k1, k2 in itertools.product(a, b):
        if k1 == k2 and k1 in ('iter', 'call', 'ctor'):
            continue
        yield Doc(f'members:{k1}+{k2}', [Iface('@Self', a[k1] + b[k2])])


def order_docs():
    D = decl_kinds('0')
    fn1 = decl_kinds('1')
    yield Doc('order:all', [x for k, v in decl_kinds('3').items() if k in (
        'iface:plain',) for x in v] + D['alias'] + fn1['enum:int'] + fn1['ns:consts'] + fn1['func'] + fn1['const'] +
        fn1['iface:opt'] + decl_kinds('2')['alias:record'])
    yield Doc('members:many', [Iface('@Self', [Fld(f'@m{i}', (S, NUM, BOOL)[i % 3], i % 2 == 1) for i in range(9)])])
    yield Doc('members:mixed', [Iface('@Self', [Fld('@a', S), Fn('@m', (), S), Fld('@b', NUM), Fn('@n', (), S),
                                                Fld('@c', S)])])
    yield Doc('enum:many', [Enum('@E', [(f'@m{i}', I_(i)) for i in range(7)])])
    yield Doc('enum:trailing-comma', [Enum('@E', [(f'@m{i}', I_(i)) for i in range(3)], 'export ', ',')])
    yield Doc('enum:quoted', [Enum('@E', [('"@m1', I_(1)), ("'@m2", I_(2))])])
    yield Doc('params:many', [Iface('@Self', [Fn('@m', [Par(f'@p{i}', (S, NUM, BOOL)[i % 3]) for i in range(6)], VOID)])])
    yield Doc('tuple:many', [Iface('@Self', [Fld('@a', T([S, NUM, BOOL, S, NUM]))])])
    yield Doc('union:many', [Iface('@Self', [Fld('@a', U([S, NUM, BOOL, R('@X1'), R('@X2'), A(S)]))])])
    yield Doc('record:many', [Iface('@Self', [Fld('@a', O([Fld(f'@m{i}', S, i == 2) for i in range(5)], ', '))])])
    yield Doc('module:two-decls', [Module('@mod', (Iface('@I', (Fld('@f', S),)), Enum('@E', (('@x', I_(1)),)),
                                                   Iface('@J', (Fld('@g', S),))))])
    yield Doc('module:single-quoted', [Module('@mod', (Iface('@I', (Fld('@f', S),)),), "'")])
    yield Doc('consts:two-records', [Const('@c1', O((Fld('@p', S),))), Const('@c2', O((Fld('@q', S),)))])
    yield Doc('ns:mixed', [NS('@N', (Const('@x', NUM, I_(1)), Fn('@fn', (Par('@y', S),), NUM, 'export function '),
                                     Iface('@I', (Fld('@f', S),)), Alias('@A', S)))])
    yield Doc('ns:virtual-iface', [NS('@N', (Const('@x', NUM, I_(1)), Iface('@I', (Fld('@f', S), Fld('@g', S)))))])
    yield Doc('ns:virtual-alias', [NS('@N', (Const('@x', NUM, I_(1)), Alias('@A', S)))])
    yield Doc('ns:only-iface', [NS('@N', (Iface('@I', (Fld('@f', S), Fld('@g', S))),))])
    yield Doc('ns:enum', [NS('@N', (Enum('@E', (('@x', I_(1)), ('@y', I_(2)))), Fn('@fn', (), S, 'export function ')))])
    yield Doc('alias+ns', [Alias('@N', U((L('integer', '1'), L('integer', '2')))),
                           NS('@N', (Const('@x', NUM, I_(1)), Const('@y', NUM, I_(2))))])
    yield Doc('ns+alias', [NS('@N', (Const('@x', NUM, I_(1)), Const('@y', NUM, I_(2)))),
                           Alias('@N', U((L('integer', '1'), L('integer', '2'))))])
    yield Doc('index-signature+members', [Iface('@I', (Fld('@f', S), Ix(S, ANY)))])


# ----------------------------------------------------- layout and comments

import re as _re

TOKEN = _re.compile(r'"[^"\n]*"|\'[^\'\n]*\'|\.\.\.|=>|\[\]|[^\W]+(?:\.[^\W]+)*|[^\s\w]')


def tokens(text):
    return TOKEN.findall(text)


def _tight(a, b):
    """May the tokens a and b stand side by side?"""
    return not ((a[-1].isalnum() or a[-1] == '_') and (b[0].isalnum() or b[0] == '_'))


class Layout:
    """The same document with another layout."""

    def __init__(self, doc, mode, at=0, comment=''):
        self.doc, self.mode, self.at, self.comment = doc, mode, at, comment
        self.decls = doc.decls
        self.label = f'{doc.label}~{mode}' + (f'{at}' if comment else '')
        self.tags = doc.tags

    def ts(self, p):
        text = self.doc.ts(p)
        if self.mode == 'crlf':
            return text.replace('\n', '\r\n')
        toks = tokens(text)
        if self.mode == 'spread':
            return '\n\t'.join(toks) + '\n\n'
        if self.mode == 'compact':
            out = ''
            for i, t in enumerate(toks):
                # members without separator need white space
                out += (' ' if i and not _tight(toks[i - 1], t) else '') + t
            return out
        # comment
        k = self.at % (len(toks) + 1)
        parts = []
        pos = 0
        for i, m in enumerate(TOKEN.finditer(text)):
            if i == k:
                return text[:m.start()] + self.comment + text[m.start():]
        return text + self.comment


COMMENTS = {'block': '/* cmt%d\n * cmt%db */\n', 'line': '// cmt%d\n', 'inline': '/* cmt%d */ ', 'doc': '/**\n * cmt%d\n */\n'}
TRICKY = ('"', "'", '\\n\\t\\r\\b\\f\\v\\0', '\\\\d', '\\\\', '\\x41\\u0042',
            '\\u{41}', '\\u{1F600}', '\\/', '\\d+\\.', 'C:\\Users', '\\N', '\\a', '\\$', '\\\\u{41}', '\\-\\', "it's", '\"\"\"', "'''", '`', '{', '}', '{}', 'interface X {', 'class X:', ';', ',', '(', ')', '[', ']', '|', '// x', '/* x', '*', '**', '# x',
          '\\\\', '\\n', 'type X = string;', 'export const x = 1;', '-->', '<a>', '?:', '...', '=>', '= None', 'import x from "y"', '@deprecated',
          'TypedDict(', 'List[', '\t', '\u00e4 \u4e01', '%s %d', '{x}', 'see https://x.org/y?z#w', '```ts\n * let a;\n * ```', ' * \n *\n', '\n\n')
for _i, _c in enumerate(TRICKY):
    COMMENTS[f'tricky{_i}'] = f'/* {_c} */\n'
    COMMENTS[f'trickydoc{_i}'] = f'/**\n * {_c}\n */\n'
    if '\n' not in _c:
        COMMENTS[f'trickyline{_i}'] = f'// {_c}\n'


def n_tokens(doc):
    from . import core
    from .tsast import Printer
    c = core.Ctx()
    return len(tokens(doc.ts(Printer(c))))


def layout_docs(docs=None):
    for d in (docs or list(declaration_docs()) + list(order_docs())):
        for m in ('crlf', 'spread', 'compact'):
            yield Layout(d, m)


def comment_docs(kinds=('block', 'line'), docs=None, step=1):
    for d in docs or declaration_docs():
        n = n_tokens(d)
        for kind in kinds:
            for k in range(0, n + 1, step):
                yield Layout(d, 'comment-' + kind, k, COMMENTS[kind].replace('%d', str(k)))


def tricky_comment_docs(every=1):
    """Comments with all kinds of contents at all places."""
    docs = [Doc('tricky', decl_kinds()[k]) for k in ('iface:method-opt', 'iface:union-records', 'alias:lits', 'enum:str', 'ns:consts', 'ns:iface-func',
                                                 'func:record', 'const:record', 'iface:extends2', 'iface:map', 'class')]
    i = 0
    for kind in COMMENTS:
        if kind.startswith('tricky'):
            for j, d in enumerate(docs):
                for k in range(n_tokens(d) + 1):
                    i += 1
                    if i % every == 0:
                        yield Layout(d, 'comment-' + kind, k, COMMENTS[kind])


# ------------------------------------------------------------ names of helper classes

def helper_name_docs():
    """Anonymous interfaces at places the names of which differ only in underscores, numbers and case."""
    r = lambda k: O((Fld(f'@p{k}', S), Fld(f'@o{k}', NUM, k % 2 == 0)))
    u = lambda k: U((r(k), r(k + 10)))
    names = ('ab', 'ab_', 'ab_0', 'ab_1', 'ab__', 'Ab', 'AB', 'a_b', 'a_c', '_ab', 'b', 'ab0', 'ab_x', 'ab_0_1', '_0')
    for a, b in itertools.permutations(names, 2):
        yield Doc(f'helper:fields:{a}+{b}', [Iface('@Self', (Fld(a, r(1)), Fld(b, u(2))))])
        yield Doc(f'helper:params:{a}+{b}', [Iface('@Self', (Fn('@m', (Par(a, r(1)), Par(b, u(2))), VOID), Fld('@f', r(3))))])
        yield Doc(f'helper:methods:{a}+{b}', [Iface('@Self', (Fn(a, (Par('@x', r(1)),), r(2)), Fn(b, (Par('@x', r(3)),), u(4))))])
        yield Doc(f'helper:nested:{a}+{b}', [Iface('@Self', (Fld(a, O((Fld(b, r(1)), Fld(a, r(2))))), Fld(b, r(3))))])
        yield Doc(f'helper:method+field:{a}+{b}', [Iface('@Self', (Fn(a, (Par(b, r(1)),), r(2)), Fld(b, r(3))))])
        yield Doc(f'helper:ifaces:{a}+{b}', [Iface('@Self', (Fld(a, r(1)),)), Iface('@Oth', (Fld(b, u(2)),))])
        yield Doc(f'helper:iface-names:{a}+{b}', [Iface(a, (Fld('@f', r(1)), Fn('@m', (), r(3)))), Iface(b, (Fld('@f', u(2)), Fn('@m', (), r(4))))])
        yield Doc(f'helper:alias:{a}+{b}', [Alias(a, r(1)), Alias(b, u(2))])
        yield Doc(f'helper:func:{a}+{b}', [Fn(a, (Par('@x', r(1)),), r(2), 'export function '), Fn(b, (Par('@x', r(3)),), u(4), 'export function ')])
        yield Doc(f'helper:alias+iface:{a}+{b}', [Alias(a, r(1)), Iface(b, (Fld('@f', r(2)),)), Const('@c', r(3))])
    # declared names that are formed like those of helper classes
    for x, cls in (('ab', 'Ab_0'), ('Ab', 'Ab_0'), ('ab', 'Ab_1'), ('ab_', 'Ab__0'), ('a_b', 'A_b_0')):
        own = x + '_' + cls.split('_')[-1]
        last = Iface('@Last', (Fld('@y', R(own)), Fld('@z', A(R(own)))))
        for k, d in {'iface': Iface(own, (Fld('@f', r(5)),)), 'alias': Alias(own, S), 'enum': Enum(own, (('@v', I_(1)),)),
                     'generic': Iface(own, (Fld('@f', S),))}.items():
            yield Doc(f'helper:declared:{k}:{own}', [d, Alias(x, u(1)), last])
            yield Doc(f'helper:declared:{k}:{own}:const', [d, Const(x, u(1)), last])
            yield Doc(f'helper:declared:{k}:{own}:ns', [NS('@N', (d, Alias(x, u(1)), Fn('@fn', (), S, 'export function '))), Alias('@T', S)])
        own2 = Iface(cls, (Fld('@f', S), Fld('@g', NUM)))
        yield Doc(f'helper:declared:field:{cls}', [own2, Iface('@Self', (Fld('@h', R(cls)), Fld(x, u(1)), Fld('@k', R(cls))))])
        yield Doc(f'helper:declared:field-later:{cls}', [Iface('@Self', (Fld('@h', R(cls)), Fld(x, u(1)), Fld('@k', R(cls)))), own2])
        yield Doc(f'helper:declared:method:{cls}', [own2, Iface('@Self', (Fn('@m', (Par(x, u(1)),), R(cls)), Fn('@n', (Par('@q', R(cls)),), R(cls))))])
        yield Doc(f'helper:declared:param:{cls}', [own2, Fn('@fn', (Par(x, u(1)),), R(cls), 'export function ')])
        yield Doc(f'helper:declared:own-method:{cls}', [Iface('@Self', (Fn(cls, (), S), Fld(x, u(1)), Fn('@n', (), VOID)))])
        yield Doc(f'helper:declared:own-method-last:{cls}', [Iface('@Self', (Fld(x, u(1)), Fn(cls, (), S), Fn('@n', (Par(x, u(3)),), VOID)))])
        yield Doc(f'helper:declared:own-field:{cls}', [Iface('@Self', (Fld(cls, S), Fld(x, u(1)), Fld('@n', R('@Post')))), Iface('@Post', ())])


# ------------------------------------------------------------ reserved words

import keyword as _kw

KEYWORDS = list(_kw.kwlist)
TS_TORN = ['object', 'array', 'string', 'number', 'boolean', 'null', 'integer', 'uinteger', 'decimal', 'unknown', 'any',
           'void', 'true', 'false', 'let', 'var', 'readonly', 'static', 'export', 'function', 'keyof', 'in', 'new',
           'extends', 'type', 'interface', 'class', 'enum', 'const', 'namespace', 'import', 'declare', 'module', 'as',
           'from', 'implements']


def name_positions(k):
    """Documents with the (concrete) name k in every position for names."""
    yield 'field', [Iface('@I', (Fld('@a', S), Fld(k, S), Fld('@b', S)))]
    yield 'optfield', [Iface('@I', (Fld('@a', S), Fld(k, S, True)))]
    yield 'readonlyfield', [Iface('@I', (Fld(k, S, False, 'readonly '), Fld('@b', S)))]
    yield 'untypedfield', [Iface('@I', (Fld('@a', S), Fld(k)))]
    yield 'recfield', [Iface('@I', (Fld('@f', O((Fld(k, S), Fld('@b', S)))),))]
    yield 'recname', [Iface('@I', (Fld(k, O((Fld('@p', S),))), Fld('@b', S)))]
    yield 'unionrecname', [Iface('@I', (Fld(k, U((O((Fld('@p', S),)), O((Fld('@q', S),))))), Fld('@b', S)))]
    yield 'iface', [Iface(k, (Fld('@a', S),)), Iface('@J', (Fld('@b', R(k)), Fld('@c', A(R(k)))))]
    yield 'iface-later', [Iface('@J', (Fld('@b', R(k)), Fld('@c', U((S, R(k)))), Fld('@d', A(R(k))))),
                          Iface(k, (Fld('@a', S),))]
    yield 'iface-base', [Iface(k, (Fld('@a', S),)), Iface('@J', (Fld('@b', S),), (), (R(k),))]
    yield 'iface-record', [Iface(k, (Fld('@a', O((Fld('@p', S),))),))]
    yield 'alias', [Alias(k, U((S, NUM))), Iface('@J', (Fld('@b', R(k)),))]
    yield 'alias-later', [Iface('@J', (Fld('@b', R(k)), Fld('@c', M(S, R(k))))), Alias(k, U((S, NUM)))]
    yield 'enum', [Enum(k, (('@x', I_(1)),)), Iface('@J', (Fld('@b', R(k)),))]
    yield 'item', [Enum('@E', (('@x', I_(1)), (k, I_(2))))]
    yield 'autoitem', [Enum('@E', (('@x', None), (k, None)))]
    yield 'ns', [NS(k, (Const('@x', NUM, I_(1)),))]
    yield 'nsfn', [NS(k, (Fn('@fn', (Par('@x', S),), S, 'export function '),))]
    yield 'nsconst', [NS('@N', (Const('@x', NUM, I_(1)), Const(k, NUM, I_(2))))]
    yield 'const', [Const(k, NUM, I_(1))]
    yield 'function', [Fn(k, (Par('@x', S),), S, 'export function ')]
    yield 'function-overload', [Fn(k, (Par('@x', S),), S, 'export function '),
                                Fn(k, (Par('@x', NUM),), S, 'export function ')]
    yield 'param', [Fn('@fn', (Par('@x', S), Par(k, NUM)), S, 'export function ')]
    yield 'optparam', [Fn('@fn', (Par('@x', S), Par(k, NUM, True)), S, 'export function ')]
    yield 'untypedparam', [Fn('@fn', (Par('@x', S), Par(k)), S, 'export function ')]
    yield 'rest', [Fn('@fn', (Par('@x', S), Par(k, A(NUM), False, True)), S, 'export function ')]
    yield 'method', [Iface('@I', (Fn(k, (Par('@x', S),), S),))]
    yield 'method-overload', [Iface('@I', (Fn(k, (Par('@x', S),), S), Fn(k, (Par('@x', NUM),), S)))]
    yield 'methodparam', [Iface('@I', (Fn('@m', (Par(k, S), Par('@x', S)), S),))]
    yield 'paramrecord', [Iface('@I', (Fn('@m', (Par(k, O((Fld('@p', S),))),), VOID),))]
    yield 'ctypeparam', [Iface('@I', (Fld('@f', F((Par(k, S), Par('@x', NUM)), S)),))]
    yield 'typeparam', [Iface('@I', (Fld('@f', R(k)),), (k,))]
    yield 'in-opt-union', [Iface(k, (Fld('@a', S),)), Iface('@J', (
        Fld('@b', U((S, R(k))), True), Fld('@c', U((A(R(k)), R(k))), True), Fld('@d', U((R(k), NULL)), True), Fld('@e', R(k), True))),
                           Fn('@fn', (Par('@x', U((R(k), S)), True), Par('@y', U((R(k), NULL)), True)), U((R(k), S)), 'export function ')]
    yield 'member-of', [Iface('@J', (Fld('@b', R('@Q.' + k)), Fld('@c', U((S, R('@Q.' + k))))))]


# names that mean something else in TypeScript itself where a type or a declaration is expected
UNUSABLE = {}


def keyword_docs(words=KEYWORDS, positions=None):
    for k in words:
        for pos, decls in name_positions(k):
            if positions and pos not in positions:
                continue
            yield Doc(f'name:{k}@{pos}', decls)


# names the generated code consists of
PY_TORN = ['NoneX', 'XNone', 'UnionX', 'OptionalX', 'ListX', 'LiteralX', 'TypedDictX', 'GenericX', 'NotRequiredX', 'selfX', 'passX', 'AnyX',
           'classX', 'defX', 'Xclass', 'Enum_', 'registerX', 'ConstructorX', 'TOPLEVELX']


def torn_docs(suffixes=('X',), positions=None):
    for k in [k + s for k in TS_TORN for s in suffixes] + PY_TORN:
        for pos, decls in name_positions(k):
            if positions and pos not in positions:
                continue
            yield Doc(f'name:{k}@{pos}', decls)


def _renamed(x, f):
    """The tree with f applied to all names."""
    if isinstance(x, TP):
        return TP(_renamed(str(x), f), _renamed(x.suffix, f))
    if isinstance(x, str):
        return f(x)
    if isinstance(x, N):
        y = type(x).__new__(type(x))
        for k in x.fields:
            v = getattr(x, k)
            if k == 'items':
                v = [(_renamed(n, f), lit) for n, lit in v]
            elif k == 'lit' and v and v[0] == 'ident' or k not in ('text', 'lit', 'comment'):
                v = _renamed(v, f)
            setattr(y, k, v)
        return y
    if isinstance(x, (list, tuple)):
        return type(x)(_renamed(y, f) for y in x)
    return x


def renamed_docs(docs, words, every=1):
    """Each of the documents with one of its names replaced by a word."""
    i = 0
    for d in docs:
        names = set()
        _renamed(d.decls, lambda s: names.update(_re.findall(r'@\w+', s)) or s)
        for n in sorted(names):
            i += 1
            if i % every:
                continue
            w = words[i // every % len(words)]
            rx = _re.compile(n + r'\b')
            yield Doc(f'{d.label}/{n[1:]}={w}', _renamed(d.decls, lambda s: rx.sub(lambda m: w, s)), d.sep)


CONFIGS = {'BASE': BASE, 'MODERN': MODERN, 'LIT': C_LIT, 'UNION': C_UNION, 'NR': C_NR, 'VG': C_VG, 'TOP': C_TOP,
           'FUN': C_FUN, 'PYD': C_PYD, 'KEEP': C_KEEP, 'NOENUM': C_NOENUM}


# ---------------------------------------------------- families for one subject

def value_docs():
    """Values of enumeration members and constants."""
    lits = {
        'zero': I_(0), 'neg': I_(-7), 'big': I_(32700), 'float': ('number', '2.5'), 'negfloat': ('number', '-0.5'),
        'exp': ('number', '1e3'), 'exp-': ('number', '2.5E-3'), 'true': ('boolean', 'true'),
        'false': ('boolean', 'false'), 'dq': ('string', '"@v"'), 'sq': ('string', "'@v'"), 'empty': ('string', '""'),
        'blank': ('string', '"a b/c:@v"'), 'dq-in-sq': ('string', "'say \"@v\"'"), 'sq-in-dq': ('string', '"it\'s @v"'),
        'escape': ('string', r'"a\tb\n@v"'), 'hash': ('string', '"# // @v"'),
        'array': ('array', '[1, 2, "@v"]'), 'array0': ('array', '[]'), 'object': ('object', '{@k1: 1, @k2: "@v"}'),
        'object-nested': ('object', '{@k1: {@k2: true}, @k3: [1, false]}'),
    }
    for k, l in lits.items():
        yield Doc(f'value:{k}@const', [Const('@c', None, l)])
        if l[0] not in ('array', 'object'):
            ty = {'integer': NUM, 'number': NUM, 'boolean': BOOL, 'string': S}[l[0]]
            yield Doc(f'value:{k}@typed-const', [Const('@c', ty, l)])
            yield Doc(f'value:{k}@enum', [Enum('@E', (('@x', l), ('@y', I_(1))))])
            yield Doc(f'value:{k}@enum2', [Enum('@E', (('@x', ('string', '"@w"')), ('@y', l)))])
            yield Doc(f'value:{k}@nsconst', [NS('@N', (Const('@x', ty, l), Const('@y', ty, l)))])
            yield Doc(f'value:{k}@nsfunc', [NS('@N', (Const('@x', ty, l),
                                                      Fn('@fn', (Par('@y', S),), NUM, 'export function ')))])
    kinds = {'i': (NUM, I_(3)), 's': (S, ('string', '"@v"')), 'f': (NUM, ('number', '2.5')), 'b': (BOOL, ('boolean', 'true')),
             '-': (NUM, None)}
    for ks in ('is', 'si', 'if', 'fi', 'ib', 'bi', 'iis', 'sii', 'isi', 'iif', 'fs', 'sf', 'i', 's', 'b', 'f', 'iii'):
        yield Doc(f'value:mix-{ks}@ns', [NS('@N', [Const(f'@c{i}', *kinds[k]) for i, k in enumerate(ks)])])
        yield Doc(f'value:mix-{ks}@ns-untyped', [NS('@N', [Const(f'@c{i}', None, kinds[k][1]) for i, k in enumerate(ks)])])
        yield Doc(f'value:mix-{ks}@enum', [Enum('@E', [(f'@c{i}', kinds[k][1]) for i, k in enumerate(ks)])])
    for ks in ('i-', '-i', 's-', '-s', '-', '--', 'i-s', '-si'):
        yield Doc(f'value:mix-{ks}@enum', [Enum('@E', [(f'@c{i}', kinds[k][1]) for i, k in enumerate(ks)])])
    for n in (1, 2, 3, 5):
        for mask in range(2 ** min(n, 3)):
            items = [(f'@m{i}', I_(i + 3) if mask >> (i % 3) & 1 else None) for i in range(n)]
            yield Doc(f'value:enum{n}-{mask}', [Enum('@E', items)])


def header_docs():
    """Bases, type parameters and members."""
    memb = {'fields': (Fld('@f', S), Fld('@g', NUM, True)), 'req': (Fld('@f', S),), 'none': (),
            'method': (Fld('@f', S), Fn('@m', (), S)), 'record': (Fld('@f', O((Fld('@p', S),))),)}
    bases = {
        'none': ((), ()),
        'td': ([Iface('@B', (Fld('@a', S),))], (R('@B'),)),
        'class': ([Iface('@B', (Fn('@m0', (), S),))], (R('@B'),)),
        'td-of-td': ([Iface('@A', (Fld('@z', S),)), Iface('@B', (Fld('@a', S),), (), (R('@A'),))], (R('@B'),)),
        'td-of-class': ([Iface('@A', (Fn('@m0', (), S),)), Iface('@B', (Fld('@a', S),), (), (R('@A'),))], (R('@B'),)),
        'td+td': ([Iface('@B', (Fld('@a', S),)), Iface('@C', (Fld('@c', S, True),))], (R('@B'), R('@C'))),
        'td+class': ([Iface('@B', (Fld('@a', S),)), Iface('@C', (Fn('@m0', (), S),))], (R('@B'), R('@C'))),
        'gen': ([Iface('@B', (Fld('@a', R('@T')),), ('@T',))], (R('@B', (S,)),)),
        'Error': ([], (R('Error'),)),
    }
    for kb, (pre, ext) in bases.items():
        for km, ms in memb.items():
            for kt, tps in (('', ()), ('gen', ('@P',)), ('gen2', ('@P', '@Q'))):
                for kw, ek in (('interface', 'extends'), ('class', 'extends'), ('class', 'implements')):
                    if kw == 'class' and (kt or km in ('none', 'record')):
                        continue
                    m = list(ms) + [Fld(f'@t{i}', R(t)) for i, t in enumerate(tps)]
                    yield Doc(f'header:{kb}:{km}:{kt}:{kw}-{ek}', list(pre) + [
                        Iface('@I', m, tps, ext, kw, 'export ', ';\n  ', '', ek)])


def function_docs():
    """Parameter lists and overloads in classes, namespaces and modules."""
    pars = {
        '0': (), 'a': (Par('@a', S),), 'ab': (Par('@a', S), Par('@b', NUM)), 'aB': (Par('@a', S), Par('@b', NUM, True)),
        'AB': (Par('@a', S, True), Par('@b', NUM, True)), 'untyped': (Par('@a'), Par('@b')),
        'untyped-opt': (Par('@a'), Par('@b', None, True)), 'untyped-opts': (Par('@a', None, True), Par('@b', S, True)),
        'labelled': (Par('@a', LT((Fld('@p', S),)), True),),
        'a-rest': (Par('@a', S), Par('@r', A(NUM), False, True)), 'rest': (Par('@r', A(S), False, True),),
        'rest-untyped': (Par('@a', S), Par('@r', None, False, True)),
        'A-rest': (Par('@a', S, True), Par('@r', A(NUM), False, True)),
        'abC': (Par('@a', S), Par('@b', R('@Post')), Par('@c', A(R('@Post')), True)),
        'rec': (Par('@a', S), Par('@o', O((Fld('@p', S),)), True)),
        'fun': (Par('@a', F((Par('@u', S),), VOID)), Par('@b', S, True)),
        'gen-rest': (Par('@r', R('Array', (S,)), False, True),),
        'nested-rest': (Par('@a', S), Par('@r', A(P(A(S))), False, True)), 'union-rest': (Par('@r', A(P(U((S, R('@Post'))))), False, True),),
        'gen-nested-rest': (Par('@r', R('Array', (R('Array', (S,)),)), False, True),), 'post-rest': (Par('@r', A(R('@Post')), False, True),),
        'tuple-rest': (Par('@r', A(T((S, NUM))), False, True),), 'ro-rest': (Par('@r', R('ReadonlyArray', (S,)), False, True),),
        'map-rest': (Par('@r', A(P(M(S, A(S)))), False, True),), 'record-rest': (Par('@r', A(O((Fld('@p', A(S)),))), False, True),),
    }
    rets = {'none': None, 'void': VOID, 'str': S, 'post': R('@Post'), 'union': U((S, NULL)), 'arr': A(R('@Post')),
            'thenable': R('Thenable', (S,))}

    def places(fs):
        yield 'method', [Iface('@I', fs)]
        yield 'class', [Iface('@I', [Fld('@z', S)] + fs, (), (), 'class')]
        g = [Fn(f.name, f.params, f.ret, 'export function ', f.tps, f.opt) for f in fs]
        yield 'func', g
        yield 'ns', [NS('@N', g)]

    for kp, p in pars.items():
        for kr, r in rets.items():
            for place, ds in places([Fn('@m', p, r)]):
                yield Doc(f'function:{kp}:{kr}@{place}', around(*ds))
    few = ('a', 'ab', 'AB', 'a-rest', 'rec')
    for k1 in few:
        for k2 in few:
            if k1 == k2:
                continue
            other = Fn('@k', (Par('@x', S),), S)
            for place, ds in places([Fn('@m', pars[k1], S), Fn('@m', pars[k2], NUM)]):
                yield Doc(f'function:{k1}|{k2}@{place}', around(*ds))
            for place, ds in places([Fn('@m', pars[k1], S), other, Fn('@m', pars[k2], NUM)]):
                yield Doc(f'function:{k1}|other|{k2}@{place}', around(*ds))


def overload_docs():
    """Overloads whose renderings coincide."""
    la, lb = L('string', '"@la"'), L('string', '"@lb"')
    sigs = {
        'lits': ((Par('@x', la),), (Par('@x', lb),)), 'names': ((Par('@x', S),), (Par('@y', S),)),
        'same': ((Par('@x', S),), (Par('@x', S),)), 'record': ((Par('@x', O((Fld('@p', S),))),), (Par('@x', NUM),)),
        'records': ((Par('@x', O((Fld('@p', S),))),), (Par('@y', O((Fld('@q', S),))),)),
        'opt': ((Par('@x', S),), (Par('@x', S), Par('@y', S, True))), 'none': ((), (Par('@x', S),)),
        'rest': ((Par('@x', A(S), False, True),), (Par('@x', S),)),
    }
    lc = L('string', '"@lc"')
    for k, ps in {'lits': [((Par('@x', x),)) for x in (la, lb, lc)], 'same': [(Par('@x', S),)] * 3,
                  'lits+num': [(Par('@x', x), Par('@n', NUM)) for x in (la, lb, lc)]}.items():
        for n, ms in ('3', [Fn('@m', p_, VOID) for p_ in ps]), ('4', [Fn('@m', p_, VOID) for p_ in ps + ps[:1]]):
            yield Doc(f'overloads:{k}:{n}', [Iface('@I', ms)])
            g = [Fn(f.name, f.params, f.ret, 'export function ') for f in ms]
            yield Doc(f'overloads:{k}:{n}@func', g)
            yield Doc(f'overloads:{k}:{n}@ns', [NS('@N', g)])
    for k, (p1, p2) in sigs.items():
        for r1, r2 in ((VOID, VOID), (S, NUM)):
            fs = [Fn('@m', p1, r1), Fn('@m', p2, r2)]
            third = Fn('@m', (Par('@z', BOOL),), VOID)
            for n, ms in (('2', fs), ('3', fs + [third]), ('2+f', [Fld('@f', S, True)] + fs),
                          ('2+call', [Fn('', (Par('@c', S),), S)] + fs)):
                yield Doc(f'overload:{k}:{n}', [Iface('@I', ms)])
                if n in ('2', '3'):
                    g = [Fn(f.name, f.params, f.ret, 'export function ') for f in ms]
                    yield Doc(f'overload:{k}:{n}@func', g)
                    yield Doc(f'overload:{k}:{n}@ns', [NS('@N', g)])
                    yield Doc(f'overload:{k}:{n}@class+func', [Iface('@I', ms)] + g)


def shadow_docs():
    """The same name inside of and outside of a scope."""
    inner = {
        'iface': Iface('@X', (Fld('@f', S),)), 'alias': Alias('@X', U((S, NUM))), 'enum': Enum('@X', (('@a', I_(1)),)),
    }
    fn = Fn('@fn', (Par('@y', S),), NUM, 'export function ')
    for k, d in inner.items():
        for k2, d2 in inner.items():
            use = Iface('@J', (Fld('@g', R('@X')), Fld('@h', A(R('@X'))), Fld('@i', U((S, R('@X'))))))
            yield Doc(f'shadow:{k}/{k2}:before', [NS('@N', (d, fn)), use, d2])
            yield Doc(f'shadow:{k}/{k2}:after', [NS('@N', (d, fn)), d2, use])
            yield Doc(f'shadow:{k}/{k2}:first', [d2, NS('@N', (d, fn)), use])
            yield Doc(f'shadow:{k}/{k2}:virtual', [NS('@N', (d, Const('@c', NUM, I_(1)))), use, d2])
    yield Doc('shadow:record-name', [Iface('@I', (Fld('@x', O((Fld('@p', S),))), Fld('@y', R('@X')))),
                                     Iface('@X', (Fld('@f', S),))])


def parameter_docs():
    """Several declarations with type parameters of the same name, inside and outside of scopes."""
    T = R('@T')
    users = {
        'iface': lambda n: Iface(f'@I{n}', (Fld('@f', T),), ('@T',)),
        'record': lambda n: Iface(f'@I{n}', (Fld('@f', O((Fld('@k', T),))),), ('@T',)),
        'method': lambda n: Iface(f'@J{n}', (Fn('@m', (Par('@x', T),), T, tps=('@T',)),)),
        'alias': lambda n: Alias(f'@L{n}', U((T, A(T))), ('@T',)),
        'func': lambda n: Fn(f'@f{n}', (Par('@x', T),), A(T), 'export function ', ('@T',)),
    }
    fn = Fn('@fn', (Par('@y', S),), NUM, 'export function ')
    for k1, u1 in users.items():
        for k2, u2 in users.items():
            a, b = u1('1'), u2('2')
            yield Doc(f'parameters:{k1}:{k2}', [a, b])
            yield Doc(f'parameters:{k1}:{k2}:ns', [NS('@N', (a, b, fn))])
            yield Doc(f'parameters:{k1}:{k2}:outer', [a, NS('@N', (b, fn))])
            yield Doc(f'parameters:{k1}:{k2}:inner', [NS('@N', (a, fn)), b])
            yield Doc(f'parameters:{k1}:{k2}:two', [NS('@N', (a, fn)), NS('@O', (b, fn))])
            if 'func' not in (k1, k2):
                yield Doc(f'parameters:{k1}:{k2}:virtual', [NS('@N', (a, b, Const('@c', NUM, I_(1))))])


def string_alias_docs():
    """Aliases of types that are declared later, used between the alias and the declaration, and behind it."""
    later = Iface('@Late', (Fld('@l', S),))
    aliases = {'ref': R('@Late'), 'union': U((R('@Late'), S)), 'union2': U((NUM, R('@Late'), NULL)), 'array': A(R('@Late')),
               'generic': R('@Gen', (R('@Late'),)), 'callable': F((Par('@u', R('@Late')),), VOID), 'map': M(S, R('@Late')), 'alias': R('@Al2'),
               'known': U((S, NUM))}
    t = R('@Al')
    uses = {'plain': t, 'union': U((t, S)), 'union2': U((NUM, t)), 'union-ref': U((t, R('@Known'))), 'union-null': U((t, NULL)),
            'array': A(t), 'union-array': U((A(t), t)), 'array-union': A(P(U((t, S)))), 'map': M(S, U((t, NULL))), 'tuple': T((t, U((S, t)))),
            'callable': F((Par('@u', U((t, S))),), U((t, NUM))), 'generic': R('@Gen', (t, U((t, S)))), 'record': O((Fld('@p', U((t, S))), Fld('@o', t, True)))}
    for ka, a in aliases.items():
        for ku, u in uses.items():
            head = [Iface('@Known', (Fld('@k', S),)), Alias('@Al', a)] + ([Alias('@Al2', R('@Late'))] if ka == 'alias' else [])
            use = [Iface('@Use', (Fld('@f', u), Fld('@g', u, True), Fn('@m', (Par('@x', u), Par('@y', u, True)), u)))]
            yield Doc(f'stralias:{ka}:{ku}', head + use + [later])
            yield Doc(f'stralias:{ka}:{ku}:fields', head + [Iface('@Use', (Fld('@f', u), Fld('@g', u, True))), later])
            yield Doc(f'stralias:{ka}:{ku}:alias', head + [Alias('@B', u), later, Alias('@C', u)])
            yield Doc(f'stralias:{ka}:{ku}:behind', head + [later] + use)
            yield Doc(f'stralias:{ka}:{ku}:func', head + [Fn('@fn', (Par('@x', u), Par('@y', u, True)), u, 'export function '), Const('@c', u), later])


def scope_docs():
    """Names that are declared inside of a scope and used in scopes inside of it: the body of a class does not see
    the names of the classes around it."""
    fn = Fn('@fn', (Par('@y', S),), NUM, 'export function ')
    uses = {
        'field': lambda t: Iface('@J', (Fld('@g', t), Fld('@h', A(t)), Fld('@i', U((S, t)), True))),
        'record': lambda t: Iface('@J', (Fld('@g', O((Fld('@p', t),))), Fld('@h', A(O((Fld('@q', t),)))))),
        'union-record': lambda t: Iface('@J', (Fld('@g', U((S, O((Fld('@p', t),))))),)),
        'method': lambda t: Iface('@J', (Fn('@m', (Par('@x', t), Par('@w', O((Fld('@p', t),)))), A(t)),)),
        'base': lambda t: Iface('@J', (Fld('@g', t),), (), (R('@X'),)),
        'func': lambda t: Fn('@f2', (Par('@x', t), Par('@w', O((Fld('@p', t),)))), t, 'export function '),
        'alias': lambda t: Alias('@J', U((t, A(t), O((Fld('@p', t),))))),
        'const': lambda t: Const('@c2', A(t)),
    }
    decls = {
        'iface': Iface('@X', (Fld('@f', S),)), 'alias': Alias('@X', U((S, NUM))), 'enum': Enum('@X', (('@a', I_(1)),)),
        'self': Iface('@X', (Fld('@f', S), Fld('@n', R('@X')), Fld('@k', A(R('@X'))))),
        'gen': Iface('@X', (Fld('@f', R('@T')),), ('@T',)),
        'gen-rec': Iface('@X', (Fld('@f', O((Fld('@k', R('@T')),))),), ('@T',)),
    }
    for k, d in decls.items():
        for ku, use in uses.items():
            u = use(R('@X', (S,)) if k.startswith('gen') else R('@X'))
            if ku == 'base' and k in ('alias', 'enum'):
                continue
            if ku == 'base' and k.startswith('gen'):
                u = Iface('@J', (Fld('@g', S),), (), (R('@X', (S,)),))
            yield Doc(f'scope:{k}:{ku}:ns', [NS('@N', (d, u, fn))])
            if ku != 'base':
                yield Doc(f'scope:{k}:{ku}:ns-later', [NS('@N', (u, d, fn))])
            if ku != 'func':
                yield Doc(f'scope:{k}:{ku}:virtual', [NS('@N', (d, u, Const('@c', NUM, I_(1))))])
            yield Doc(f'scope:{k}:{ku}:toplevel', [d, NS('@N', (u, fn))])
            yield Doc(f'scope:{k}:{ku}:ns+toplevel', [NS('@N', (d, fn)), d, NS('@M', (u, fn))])
            yield Doc(f'scope:{k}:{ku}:ns-used', [NS('@N', (d, u, fn)), Iface('@Z', (Fld('@z', R('@N.@X')),))])
    t = R('@T')
    for k, p in (('param', (Par('@x', O((Fld('@p', t),))),)), ('deep', (Par('@x', O((Fld('@p', O((Fld('@q', t),))),))),)),
                 ('union', (Par('@x', U((t, O((Fld('@p', A(t)),))))),)), ('two', (Par('@w', t), Par('@x', O((Fld('@p', t),))))),
                 ('array', (Par('@x', A(O((Fld('@p', t),)))),)), ('cb', (Par('@x', F((Par('@u', t),), t)),))):
        for kr, r in (('void', VOID), ('ret', O((Fld('@r', t),)))):
            m = Fn('@m', p, r, '', ('@T',))
            f = Fn('@m', p, r, 'export function ', ('@T',))
            yield Doc(f'scope:typeparam:{k}:{kr}@method', around(Iface('@I', (m,))))
            yield Doc(f'scope:typeparam:{k}:{kr}@second', around(Iface('@I', (Fn('@k', (Par('@y', t),), VOID, '', ('@T',)), m))))
            yield Doc(f'scope:typeparam:{k}:{kr}@func', around(f))
            yield Doc(f'scope:typeparam:{k}:{kr}@nsfunc', around(NS('@N', (f,))))
            yield Doc(f'scope:typeparam:{k}:{kr}@generic', around(Iface('@I', (Fld('@g', t), m), ('@T',))))
            yield Doc(f'scope:typeparam:{k}:{kr}@nsmethod', around(NS('@N', (Iface('@I', (m,)), f))))
    for n in ('interface', 'class'):
        i = Iface('@I', (Fld('@g', t), Fld('@o', O((Fld('@p', t),)))), ('@T',), (), n)
        yield Doc(f'scope:{n}:ns', [NS('@N', (i, fn))])
        yield Doc(f'scope:{n}:ns+toplevel', [NS('@N', (i, fn)), Iface('@I2', (Fld('@g', t),), ('@T',), (), n)])
        yield Doc(f'scope:{n}:toplevel+ns', [Iface('@I2', (Fld('@g', t),), ('@T',), (), n), NS('@N', (i, fn))])
        yield Doc(f'scope:{n}:ns+ns', [NS('@N', (i, fn)), NS('@M', (i, fn))])


def coincidence_docs():
    """Names that contain other names, and members that are named like types."""
    fn = Fn('@fn', (Par('@y', S),), NUM, 'export function ')
    names = ('Foo', 'FooBar', 'MyFoo', 'Foo1', 'Foo_', 'foo', 'ns.Foo', 'Foo.Bar')
    shapes = {
        'union': lambda a, b: U((R(a), R(b))), 'array-union': lambda a, b: A(P(U((R(a), R(b))))),
        'tuple': lambda a, b: T((R(a), A(R(b)))), 'generic': lambda a, b: R(a, (R(b),)), 'map': lambda a, b: M(R(a), R(b)),
        'record': lambda a, b: O((Fld(a.replace('.', '_'), R(b)), Fld('@z', U((R(a), NULL))))),
        'callable': lambda a, b: F((Par(b.replace('.', '_'), R(a)),), R(b)),
        'lit': lambda a, b: U((R(a), L('string', f'"{b}"'), L('string', f"'{a} {b}'"))),
    }
    decls = {n: Iface(n, (Fld('@f', S),)) for n in names if '.' not in n}
    for a, b in itertools.permutations(names, 2):
        for k, sh in shapes.items():
            t = sh(a, b)
            if k == 'generic' and '.' not in a:
                continue
            j = Iface('@J', (Fld('@g', t), Fld('@h', t, True)))
            da, db = [decls[a]] if a in decls else [], [decls[b]] if b in decls else []
            yield Doc(f'names:{k}:{a}+{b}:later', [j] + da + db)
            if k in ('union', 'record', 'lit'):
                yield Doc(f'names:{k}:{a}+{b}:between', da + [j] + db)
                yield Doc(f'names:{k}:{a}+{b}:param', [Iface('@J', (Fn('@m', (Par('@x', t),), t),))] + da + db)
                yield Doc(f'names:{k}:{a}+{b}:alias', [Alias('@J', t)] + da + db)
    types = {
        'iface': lambda n: Iface(n, (Fld('@f', S),)), 'alias': lambda n: Alias(n, U((S, NUM))),
        'enum': lambda n: Enum(n, (('@a', I_(1)), ('@b', I_(2)))), 'consts': lambda n: NS(n, (Const('@a', NUM, I_(1)),)),
    }
    x = R('@X')
    users = {
        'field': lambda: Iface('@J', (Fld('@X', x), Fld('@g', S))), 'optfield': lambda: Iface('@J', (Fld('@X', x, True), Fld('@g', S))),
        'field-other': lambda: Iface('@J', (Fld('@X', S), Fld('@g', S))),
        'field-array': lambda: Iface('@J', (Fld('@X', A(x)), Fld('@g', S))),
        'field-union': lambda: Iface('@J', (Fld('@X', U((x, NULL))), Fld('@g', S))),
        'field-record': lambda: Iface('@J', (Fld('@X', O((Fld('@p', x),))), Fld('@g', S))),
        'record-field': lambda: Iface('@J', (Fld('@g', O((Fld('@X', x), Fld('@h', S)))),)),
        'record-field-union': lambda: Iface('@J', (Fld('@g', U((O((Fld('@X', A(x)),)), S))),)),
        'param': lambda: Iface('@J', (Fn('@m', (Par('@X', x), Par('@y', x, True)), x),)),
        'param-opt': lambda: Iface('@J', (Fn('@m', (Par('@X', x, True),), x),)),
        'param-func': lambda: Fn('@f2', (Par('@X', x), Par('@y', A(x))), x, 'export function '),
        'callable': lambda: Iface('@J', (Fld('@g', F((Par('@X', x),), x)),)),
        'alias-record': lambda: Alias('@J', O((Fld('@X', x), Fld('@g', S)))),
        'enum-item': lambda: Enum('@E2', (('@X', I_(1)), ('@y', I_(2)))),
        'const-item': lambda: NS('@E2', (Const('@X', NUM, I_(1)), Const('@y', NUM, I_(2)))),
        'lit': lambda: Iface('@J', (Fld('@g', U((x, L('string', '"@X"')))), Fld('@h', L('string', "'@X'")))),
    }
    for kt, d in types.items():
        for ku, u in users.items():
            yield Doc(f'member-like-type:{ku}:{kt}:before', [d('@X'), u()])
            yield Doc(f'member-like-type:{ku}:{kt}:later', [u(), d('@X')])
            if ku not in ('enum-item', 'const-item') and kt != 'consts':
                yield Doc(f'member-like-type:{ku}:{kt}:ns', [NS('@N', (u(), d('@X'), fn))])
        yield Doc(f'member-like-type:own:{kt}', [Iface('@X', (Fld('@X', S), Fld('@g', R('@Y')))), d('@Y')])
        yield Doc(f'member-like-type:own-ref:{kt}', [Iface('@X', (Fld('@X', x), Fld('@Y', A(R('@Y'))))), d('@Y')])


def constraint_docs():
    """Type parameters with constraints and default values."""
    sufs = {'ext': ' extends @Pre', 'ext-later': ' extends @Post', 'ext-basic': ' extends string', 'def': ' = @Pre', 'def-basic': ' = string',
            'def-later': ' = @Post', 'ext-def': ' extends @Pre = @Pre', 'keyof': ' extends keyof @Pre', 'ext-object': ' extends object'}
    t = R('@T')
    for k, suf in sufs.items():
        for n, tps in (('1', (TP('@T', suf),)), ('first', (TP('@T', suf), '@V')), ('second', ('@V', TP('@T', suf))),
                       ('both', (TP('@T', suf), TP('@V', suf)))):
            v = () if n == '1' else (Fld('@v', R('@V')),)
            yield Doc(f'constraint:{k}:{n}@iface', around(Iface('@I', (Fld('@f', t),) + v, tps)))
            yield Doc(f'constraint:{k}:{n}@class', around(Iface('@I', (Fn('@m', (Par('@x', t),), A(t)),) + v, tps, (), 'class')))
            yield Doc(f'constraint:{k}:{n}@record', around(Iface('@I', (Fld('@f', O((Fld('@p', t),))),) + v, tps)))
            ty = t if n == '1' else U([R(str(x)) for x in tps])
            yield Doc(f'constraint:{k}:{n}@alias', around(Alias('@A', U((A(ty if isinstance(ty, R) else P(ty)), S)), tps)))
            ps = (Par('@x', t),) if n == '1' else (Par('@x', t), Par('@y', R('@V'), True))
            yield Doc(f'constraint:{k}:{n}@method', around(Iface('@I', (Fn('@m', ps, A(t), '', tps),))))
            yield Doc(f'constraint:{k}:{n}@func', around(Fn('@m', ps, t, 'export function ', tps)))
            yield Doc(f'constraint:{k}:{n}@nsfunc', around(NS('@N', (Fn('@m', ps, t, 'export function ', tps),))))
            yield Doc(f'constraint:{k}:{n}@extends', around(
                Iface('@B', (Fld('@f', t),) + v, tps), Iface('@I', (Fld('@g', S),), (), (R('@B', (S,) * len(tps)),))))


def homonym_docs():
    """Aliases, enumerations and namespaces of constants with the same name, at the same level or not."""
    lits = Alias('@K', U((L('integer', '1'), L('integer', '2'))))
    strs = Alias('@K', S)
    use = Iface('@J', (Fld('@g', R('@K')), Fld('@h', A(R('@K')), True)))
    fn = Fn('@fn', (Par('@x', R('@K')),), R('@K'), 'export function ')
    for ka, al in (('lits', lits), ('str', strs), ('array', Alias('@K', A(S)))):
        spaces = {
            'consts': NS('@K', (Const('@x', NUM, I_(1)), Const('@y', NUM, I_(2)))),
            'strs': NS('@K', (Const('@x', S, ('string', '"@v"')),)),
            'funcs': NS('@K', (Fn('@gn', (Par('@x', S),), S, 'export function '),)),
        }
        for ks, sp in spaces.items():
            yield Doc(f'homonym:{ka}:{ks}:first', [al, sp, use])
            yield Doc(f'homonym:{ka}:{ks}:second', [sp, al, use])
            yield Doc(f'homonym:{ka}:{ks}:used-before', [use, al, sp])
            yield Doc(f'homonym:{ka}:{ks}:used-between', [sp, use, al])
            yield Doc(f'homonym:{ka}:{ks}:alias-inside', [sp, NS('@N', (al, fn)), use])
            yield Doc(f'homonym:{ka}:{ks}:alias-inside2', [NS('@N', (al, fn)), sp, use])


CONTENTS = ('a|b', 'a | b', 'a, b', 'Union[', 'Optional[x]', '[x]', ']', '[', 'None', ', None]', 'List[int]', '# x', 'class A:', '*', '= None',
            '...', ': x', ' ', '', 'a: b', '{a: 1}', '{', '}', '(', ')', ');', ';', '//x', '/* x */', 'TypedDict', 'Any', '@Post', '@Post | @Pre',
            'a\\n', '%s', '%', 'NotRequired[', '\u00e4\u4e01', 'import x', 'None | None', '->', '=>', '<T>', '`', '$x', '_1', '0', 'true',
            'class @Post(TypedDict, total=True):', 'def f():', 'interface X {', 'export', '"', "'", '] | None [', '], None, List[', '\\n\\t\\r\\b\\f\\v\\0', '\\\\d', '\\\\', '\\x41\\u0042', '\\u{41}', '\\u{1F600}', '\\/', '\\d+\\.',
            'C:\\Users', '\\N', '\\a', '\\$', '\\\\u{41}', '\\-\\\\', '\\u{4e01}|', "it's", 'say "x"', '\'x\'', '\'@Post\'')


def content_docs(positions=None):
    """String literals with all kinds of contents, as types and as values."""
    for i, c in enumerate(CONTENTS):
        q = '"' if '"' not in c else "'"
        if q in c:
            continue
        lit, other = L('string', q + c + q), L('string', '"@o"')
        ts = {
            'plain': lit, 'union-null': U((lit, NULL)), 'union': U((lit, other, R('@Post'))), 'union-num': U((NUM, lit, S)), 'tuple': T((lit, R('@Post'))),
            'array': A(P(U((lit, R('@Post'))))), 'callable': F((Par('@u', lit), Par('@v', R('@Post'))), lit), 'map': M(S, lit),
            'record': O((Fld('@p', lit), Fld('@q', R('@Post'), True), Fld('@r', U((lit, R('@Post'))), True))),
            'records': U((O((Fld('@p', lit), Fld('@z', S))), O((Fld('@p', other), Fld('@q', R('@Post')))), NULL)),
        }
        for k, t in ts.items():
            for d in in_positions(f'content:{i}:{c}:{k}', t, positions or ('field', 'optfield', 'param', 'optparam', 'alias', 'rec', 'ctype')):
                yield d
        yield Doc(f'content:{i}:{c}:const', [Const('@c', None, ('string', lit.text)), Const('@d', S, ('string', lit.text))])
        yield Doc(f'content:{i}:{c}:enum', [Enum('@E', (('@x', ('string', lit.text)), ('@y', I_(1))))])
        yield Doc(f'content:{i}:{c}:nsconst', [NS('@N', (Const('@x', S, ('string', lit.text)), Const('@y', S, ('string', '"@w"'))))])
        yield Doc(f'content:{i}:{c}:object', [Const('@c', None, ('object', '{@k1: ' + lit.text + ', @k2: [' + lit.text + ', 1]}'))])


def typeparam_docs():
    """Type parameters that are named like a type or like another type parameter."""
    t = R('@T')
    decls = {'iface': Iface('@T', (Fld('@a', S),)), 'alias': Alias('@T', S), 'enum': Enum('@T', (('@a', I_(1)),))}
    gens = {'iface': Iface('@G', (Fld('@x', t),), ('@T',)), 'alias': Alias('@G', A(t), ('@T',)),
            'func': Fn('@f', (Par('@x', t),), t, 'export function ', ('@T',)),
            'method': Iface('@G', (Fn('@m', (Par('@x', t),), t, '', ('@T',)),))}
    use = Iface('@U', (Fld('@y', t),))
    for k, d in decls.items():
        for kg, g in gens.items():
            yield Doc(f'typeparam:{k}:{kg}:before', [d, g, use])
            yield Doc(f'typeparam:{k}:{kg}:between', [g, d, use])
            yield Doc(f'typeparam:{k}:{kg}:after', [g, use, d])


def sequence_docs():
    """Constants before and after namespaces and enumerations."""
    K = {
        'typed': lambda i: [Const(f'@c{i}', S, ('string', f'"@v{i}"'))], 'untyped': lambda i: [Const(f'@c{i}', None, I_(4))],
        'bare': lambda i: [Const(f'@c{i}', U((S, NUM)))], 'ref': lambda i: [Const(f'@c{i}', A(R('@Ext')), ('array', '[]'))],
        'consts': lambda i: [NS(f'@N{i}', (Const('@x', NUM, I_(1)), Const('@y', NUM, I_(2))))],
        'strs': lambda i: [NS(f'@N{i}', (Const('@x', S, ('string', '"@v"')), Const('@y', S, ('string', '"@w"'))))],
        'mixed': lambda i: [NS(f'@N{i}', (Const('@x', NUM, I_(1)), Fn(f'@fn{i}', (Par('@y', S),), NUM, 'export function ')))],
        'enum': lambda i: [Enum(f'@E{i}', (('@x', I_(1)), ('@y', None)))],
        'strenum': lambda i: [Enum(f'@E{i}', (('@x', ('string', '"@v"')),))],
        'nsenum': lambda i: [NS(f'@N{i}', (Enum('@E', (('@x', None), ('@y', None))), Fn(f'@fn{i}', (), S, 'export function ')))],
        'module': lambda i: [Module(f'@mod{i}', (Const(f'@c{i}', S, ('string', f'"@v{i}"')), Iface(f'@I{i}', (Fld('@f', S),))))],
    }
    for a, b in itertools.product(K, K):
        if 'module' in (a, b):
            continue
        yield Doc(f'sequence:{a}+{b}', K[a]('1') + K[b]('2'))
        yield Doc(f'sequence:{a}+{b}+const', K[a]('1') + K[b]('2') + K['typed']('3') + K['consts']('4'))
    for a in K:
        yield Doc(f'sequence:{a}+module', K[a]('1') + K['module']('2'))


def keyword_everywhere(every=1):
    docs = itertools.chain(declaration_docs(), order_docs(), header_docs(), function_docs(), shadow_docs(), scope_docs(), overload_docs(),
                           coincidence_docs(), constraint_docs(), homonym_docs(), sequence_docs(), parameter_docs(), mixed_docs(300, 50000))
    return renamed_docs(docs, KEYWORDS, every)


def torn_everywhere(every=1):
    docs = itertools.chain(declaration_docs(), order_docs(), header_docs(), function_docs(), shadow_docs(), scope_docs(), overload_docs(),
                           coincidence_docs(), constraint_docs(), homonym_docs(), sequence_docs(), parameter_docs(), mixed_docs(300, 51000))
    return renamed_docs(docs, [t + 'X' for t in TS_TORN] + PY_TORN, every)


def approximation_docs():
    """Types that cannot be expressed in Python and are therefore approximated."""
    xs = {
        'intersection': I((R('@Pre'), R('@Ext'))), 'intersection3': I((R('@Pre'), R('@Ext'), R('@Ext2'))),
        'intersection-record': I((R('@Pre'), O((Fld('@p', S),)))),
        'union-of-intersection': U((I((R('@Pre'), R('@Ext'))), S)),
        'indexed': X('@Pre', "'@pa'"), 'indexed-name': X('@Pre', '@pa'),
        'keyof': M(R('@Pre'), S, ' in keyof '),
        'keyof2': M(R('@Pre'), A(R('@Post')), ' in keyof '),
        'keyof-opt': M(R('@Pre'), S, ' in keyof ', '', '?'), 'keyof-readonly': M(R('@Pre'), S, ' in keyof ', '', '', 'readonly '),
        'keyof-readonly-opt': M(R('@Post'), S, ' in keyof ', '', '?', 'readonly '),
    }
    pos = ('field', 'optfield', 'param', 'optparam', 'return', 'func', 'funcret', 'alias', 'const', 'rec', 'union',
           'array', 'tuple', 'mapval', 'ctype', 'nsfield')
    for k, t in xs.items():
        for p in pos:
            if p == 'array' and not k.startswith('keyof'):
                t2 = t
            yield from in_positions(f'approx:{k}', t, (p,))
    for k1, t1 in xs.items():
        for k2, t2 in xs.items():
            yield Doc(f'approx:{k1}+{k2}', around(Iface('@Self', (Fld('@f', t1), Fld('@g', t2))), Alias('@T', t1)))
    # the approximation stands beside, before and behind other declarations
    for k, t in xs.items():
        yield Doc(f'approx:{k}:last', [Iface('@A', (Fld('@a', S),)), Enum('@E', (('@x', I_(1)),)), Alias('@T', t)])
        yield Doc(f'approx:{k}:in-class', [Iface('@A', (Fn('@m', (Par('@x', t),), VOID), Fn('@n', (), S)), (), (), 'class')])


# ------------------------------------------------------------ mixed documents

class Mix:
    """Composes documents at random (reproducibly) from all kinds of declarations, members and types.  The names
    are distinct holes, types refer to any of the declarations before, behind, and around them, in scope."""

    def __init__(self, seed):
        import random
        self.r = random.Random(seed)
        self.n = 0

    def fresh(self, s='x'):
        self.n += 1
        return f'@{s}{self.n}'

    def pick(self, **w):
        ks = list(w)
        return self.r.choices(ks, [w[k] for k in ks])[0]

    def type(self, d, refs, tps=(), arg=False):
        """A type of nesting depth up to d; arg: argument of a generic type."""
        if d <= 0:
            k = self.pick(basic=5, ref=4, tp=2 if tps else 0, lit=0 if arg else 1, lib=1)
        elif arg:
            k = self.pick(basic=4, ref=4, tp=2 if tps else 0, array=2, generic=2, tuple=1, union=2)
        else:
            k = self.pick(basic=4, ref=4, tp=2 if tps else 0, lit=1, lib=1, array=3, union=4, record=4, tuple=1,
                          map=2, func=2, generic=2, paren=1, arrgen=1, readonly=1)
        sub = lambda **kw: self.type(d - 1, refs, tps, **kw)
        if k == 'basic':
            return self.r.choice((S, NUM, BOOL, ANY, INTG, NULL, OBJ))
        if k == 'tp':
            return R(self.r.choice(tps))
        if k == 'lit':
            return self.r.choice((L('string', '"@lit"'), L('integer', '42'), L('boolean', 'true')))
        if k == 'lib':
            return self.r.choice((R('RegExp'), R('Error'), R('undefined'), R('@Ext')))
        if k == 'ref':
            c = self.r.choice(refs) if refs else ('@Ext', 0)
            return R(c[0], tuple(self.r.choice((S, NUM)) for _ in range(c[1])))
        if k == 'array':
            t = sub()
            return A(t if array_ok(t) and not isinstance(t, O) else P(t))
        if k == 'arrgen':
            return R(self.r.choice(('Array', 'ReadonlyArray', 'Thenable')), (sub(arg=True),))
        if k == 'generic':
            gs = [c for c in refs if c[1]] or [('@Gen', 1)]
            c = self.r.choice(gs)
            return R(c[0], tuple(sub(arg=True) for _ in range(c[1])))
        if k == 'union':
            alts = []
            for _ in range(self.r.choice((2, 2, 3))):
                if arg:     # the alternatives in the argument of a generic type
                    t = self.type(0, refs, tps, True) if self.r.random() < 0.6 else A(R('@Ext'))
                else:
                    t = sub()
                alts.append(P(t) if isinstance(t, (U, F, RO)) else t)
            return U(tuple(alts))
        if k == 'tuple':
            ts = [sub() for _ in range(self.r.choice((1, 2, 3)))]
            return T(tuple(P(t) if isinstance(t, (F, RO)) else t for t in ts))
        if k == 'record':
            return O(tuple(self.field(d - 1, refs, tps) for _ in range(self.r.choice((1, 2)))))
        if k == 'map':
            return M(self.r.choice((S, NUM)), sub())
        if k == 'func':
            return F(self.params(d - 1, refs, tps), sub())
        if k == 'readonly':
            return RO(A(self.r.choice((S, R('@Ext')))))
        t = sub()
        return P(t)

    def field(self, d, refs, tps):
        return Fld(self.fresh('f'), self.type(d, refs, tps), self.r.random() < 0.3,
                   self.pick(**{'n': 8, 'r': 1}) == 'r' and 'readonly ' or '')

    def params(self, d, refs, tps, n=None):
        out, opt = [], False
        for _ in range(self.r.choice((0, 1, 1, 2)) if n is None else n):
            opt = opt or self.r.random() < 0.2
            out.append(Par(self.fresh('a'), self.type(d, refs, tps), opt))
        if self.r.random() < 0.1:
            out.append(Par(self.fresh('r'), A(self.r.choice((S, R('@Ext')))), False, True))
        return tuple(out)

    def fn(self, d, refs, tps, mods='', name=None):
        own = (self.fresh('T'),) if self.r.random() < 0.15 else ()
        return Fn(name or self.fresh('m'), self.params(d, refs, tuple(tps) + own, 1 if name else None),
                  self.type(d, refs, tuple(tps) + own) if self.r.random() < 0.85 else None, mods, own)

    def fns(self, d, refs, tps, mods=''):
        if self.r.random() < 0.2:
            name = self.fresh('m')
            return [self.fn(d, refs, tps, mods, name) for _ in range(self.r.choice((2, 3)))]
        return [self.fn(d, refs, tps, mods)]

    def iface(self, c, d, refs, bases):
        tps = tuple(self.fresh('T') for _ in range(c[1]))
        ms = []
        behave = self.r.random() < 0.3
        for _ in range(self.r.choice((0, 1, 2, 3, 3))):
            if behave and self.r.random() < 0.5:
                ms += self.fns(d, refs, tps)
            else:
                ms.append(self.field(d, refs, tps))
        ext = ()
        if bases and self.r.random() < 0.35:
            ext = tuple(R(b[0], tuple(self.r.choice((S, NUM, R(tps[0]) if tps else S)) for _ in range(b[1])))
                        for b in self.r.sample(bases, min(len(bases), self.r.choice((1, 1, 2)))))
            if sum(1 for e in ext if e.args) and tps:
                ext = tuple(e for e in ext if not e.args)
        return Iface(c[0], tuple(ms), tps, ext, 'class' if behave and self.r.random() < 0.3 else 'interface')

    def decl(self, kind, c, d, refs, bases):
        if kind == 'iface':
            return [self.iface(c, d, refs, bases)]
        if kind == 'alias':
            t = self.type(d, refs, tps := tuple(self.fresh('T') for _ in range(c[1])))
            if tps and self.r.random() < 0.8:       # an alias that makes use of all of its parameters
                t = T(tuple(R(x) for x in tps) + (t if not isinstance(t, (F, RO)) else P(t),))
            return [Alias(c[0], t, tps)]
        if kind == 'enum':
            vals = self.r.choice((None, 'integer', 'string'))
            return [Enum(c[0], tuple((self.fresh('e'), None if vals is None else
                                      (vals, str(i) if vals == 'integer' else f'"v{i}"'))
                                     for i in range(self.r.choice((1, 2, 3)))))]
        if kind == 'const':
            if self.r.random() < 0.5:
                return [Const(c[0], self.type(d, refs))]
            return [Const(c[0], *self.r.choice(((NUM, I_(3)), (S, ('string', '"v"')), (None, I_(4)))))]
        if kind == 'fn':
            fs = self.fns(d, refs, (), 'export function ')
            return fs
        assert kind == 'ns'
        inner = []
        kinds = [self.pick(iface=4, alias=2, const=1, enum=1) for _ in range(self.r.choice((1, 2, 3)))]
        cs = [(self.fresh('N'), (1 if self.r.random() < .2 else 0) if k in ('iface', 'alias') else 0) for k in kinds]
        mine = [x for k, x in zip(kinds, cs) if k in ('iface', 'alias', 'enum')]
        done = []
        for k, x in zip(kinds, cs):
            inner += self.decl(k, x, d - 1, refs + mine, list(done))
            if k == 'iface':
                done.append(x)
        if self.r.random() < 0.6:
            inner += self.fns(d - 1, refs + mine, (), 'export function ')
        return [NS(c[0], tuple(inner))]

    def doc(self, label):
        kinds = [self.pick(iface=6, alias=3, enum=1, const=1, fn=2, ns=2) for _ in range(self.r.choice((1, 2, 3, 4)))]
        cs = [(self.fresh('D'), (self.r.choice((1, 2)) if self.r.random() < .2 else 0) if k in ('iface', 'alias') else 0)
              for k in kinds]
        refs = [c for k, c in zip(kinds, cs) if k in ('iface', 'alias', 'enum')]
        decls, done = [], []
        for k, c in zip(kinds, cs):
            decls += self.decl(k, c, 3, refs, list(done))
            if k == 'iface':
                done.append(c)
        return Doc(label, decls)


def mixed_docs(n, start=0):
    for i in range(start, start + n):
        yield Mix(i).doc(f'mixed:{i}')
