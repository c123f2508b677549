"""Analysing the methods of the syntax tree visitor on explicit abstract nodes."""
from vlib import *
import re

DV = 'visit::DiscoveryVisitor'
EXC = 'visit::attrs_excluded'
RTR = 'fnvalue::return_type_replacements'
FPA = 'visit::find_path_attribute'
PRETTY = 'to_pretty_string'
MET = re.compile(r"^<visit::DiscoveryVisitor<'_> as syn::visit::Visit<'\w+>>::(visit_\w+)$")


# types of syn that only appear when their fields are used
SYN = {'syn::MetaList': ['path', 'delimiter', 'tokens'], 'syn::MetaNameValue': ['path', 'eq_token', 'value'], 'syn::PathSegment': ['ident', 'arguments'], 'syn::Path': ['leading_colon', 'segments'],
       'syn::ExprPath': ['attrs', 'qself', 'path'], 'syn::meta::ParseNestedMeta': ['path', 'input'], 'syn::Block': ['brace_token', 'stmts'], 'syn::Arm': ['attrs', 'pat', 'guard', 'fat_arrow_token', 'body', 'comma']}


def prepare(p):
    for k, fs in SYN.items():
        if k not in p.adts:
            p.adts[k] = {'variants': [[k.split('::')[-1], 0, fs, [''] * len(fs)]], 'kind': 'struct'}


def methods(p):
    out = {}
    for i in p.raw_bodies:
        m = MET.match(p.path(i))
        if m:
            out[m.group(1)] = i
    return out


class Walks(Monitor):
    """records the walk into the children of a node, with the visitor's state at that moment"""

    def __init__(self, p):
        self.p = p

    def on_call(self, st, c):
        if c.path.startswith('syn::visit::visit_') or re.match(r'^<.* as syn::visit::Visit.*>::visit_', c.path) and not c.local:
            v = c.m(st, 0)
            if v[0] != 'adt' or v[1] != DV:
                return None
            p = self.p
            st.mon = (st.mon or ()) + (('walk', c.path.split('::')[-1], c.m(st, 1), field(p, v, 'namespace_stack'), field(p, v, 'fn_stack'), field(p, v, 'mod_namespace_stack')),)
            return [('ret', st, UNIT)]
        return None


def source_file(p):
    return mk(p, 'source::SourceFile', **{f: T('sf.' + f) for f in p.adts['source::SourceFile']['variants'][0][2]})


def pretty(q):
    def f(ip, st, c):
        v = c.m(st, 0)
        return [('ret', st, v if v[0] == 's' else T(q, v))]
    return f


def visitor(p, **kw):
    base = dict(mutants=seq(), namespace_stack=seq(('s', 'outer')), fn_stack=seq(T('f0')), mod_namespace_stack=seq(), external_mods=seq(), source_file=source_file(p), error_exprs=T('ee'))
    base.update(kw)
    fs = p.adts[DV]['variants'][0][2]
    return mk(p, DV, **{k: v for k, v in base.items() if k in fs})


def visit(ck, method, node, reps=None, opaque=(), models=None, **kw):
    """[(state, visitor afterwards, walks)] for every partition of visiting a node; None for each that panics is left out"""
    p = ck.p
    ms = methods(p)
    if method not in ms:
        raise Missing('visitor method %s' % method)
    inst = ms[method]
    V = visitor(p, **kw)
    mod = {p.path(i): pretty(p.path(i)) for i in p.raw_bodies if PRETTY in p.path(i)}
    if reps is not None:
        mod[RTR] = lambda ip, st, c: [('ret', st, seq(*reps))]
    mod.update(models or {})
    ip, outs = ck.run(inst, {0: V, 1: node}, opaque=lambda q: q in (EXC, RTR, FPA) or q in opaque or PRETTY in q, monitor=Walks(p), models=mod)
    res = []
    for k, s, v in outs:
        if k == 'ret':
            res.append((s, ip.mat(s, ('ref', ('A', 0), ())), list(s.mon or ())))
    return V, res


def path_(p, *names):
    return mk(p, 'syn::Path', segments=seq(*(mk(p, 'syn::PathSegment', ident=('s', n)) for n in names)))


def excluded(s, attrs=None):
    """what the path knows about the node's attributes: True, False or None when not looked at"""
    for f, c in s.facts.items():
        if f[0] == 't' and f[1] == EXC and (attrs is None or f[2] == attrs):
            return c == TRUE
    return None


def mutants_of(p, vis):
    return elems(field(p, vis, 'mutants'))


def toks(t):
    """text of an explicit token stream"""
    if t[0] == 'toks':
        return ' '.join(tok(x) for x in t[1])
    return None


OPEN = {'Brace': '{}', 'Parenthesis': '()', 'Bracket': '[]', 'None': '  '}


def tok(x):
    if x[0] == 'tok' and x[1][0] == 's':
        return x[1][1]
    if x[0] in ('p', 'id', 'lit'):
        return x[1] if isinstance(x[1], str) else '<%s>' % repr(x[1])
    if x[0] == 'g':
        o = OPEN.get(x[1], '()')
        return o[0] + ' ' + ' '.join(tok(y) for y in x[2]) + ' ' + o[1]
    return '<%s>' % (x[1][1] if x[0] == 'tok' and x[1][0] == 't' else repr(x))


def replacement(v):
    """token text of Mutant.replacement = pretty(tokens)"""
    if v[0] == 's':
        return v[1]
    if v[0] == 't' and PRETTY in v[1]:
        return toks(v[2])
    return None


def span_of(sp):
    """(what the start is of, what the end is of): the terms whose syntax span bounds this span"""
    out = []
    for e in ('start', 'end'):
        pt = None
        if sp[0] == 'adt':
            pt = sp[3][('start', 'end').index(e)]
        if pt is None or pt[0] != 'adt':
            return None
        found = set()
        for n, nm in enumerate(('line', 'column')):
            x = pt[3][n]
            off = 0
            if x[0] == 't' and x[1] == 'add':
                cs = [y for y in x[2:] if y[0] == 'i']
                os_ = [y for y in x[2:] if y[0] != 'i']
                if len(cs) != 1 or len(os_) != 1:
                    return None
                off, x = cs[0][1], os_[0]
            if x[0] != 't' or x[1] != 'fld' or x[3] != nm:
                return None
            x = x[2]
            if x[0] != 't' or x[1] not in ('Span::start', 'Span::end'):
                return None
            found.add((x[1].split('::')[1], x[2], ('off', nm, off)))
        kinds = {f[0] for f in found}
        subj = {f[1] for f in found}
        offs = {f[2] for f in found}
        if len(kinds) != 1 or len(subj) != 1:
            return None
        out.append((kinds.pop(), subj.pop(), offs == {('off', 'line', 0), ('off', 'column', 1)}))
    return out


def spans(sp, a, b=None):
    """does this span reach from the start of a to the end of b (1-based columns)? None when not understood"""
    b = a if b is None else b
    r = span_of(sp)
    if r is None:
        return None
    (k1, s1, o1), (k2, s2, o2) = r
    w1 = T('Spanned::span', a)
    w2 = T('Spanned::span', b)
    return k1 == 'start' and k2 == 'end' and o1 and o2 and same(s1, w1) and same(s2, w2)


def same(x, y):
    return x == y
