"""What is skipped, and that nothing else is."""
from vlib import *
from visx import *

EXPLANATION = ('Every method of the syntax tree visitor is analysed on explicit nodes: with an excluding attribute (or for the other documented reasons) no mutant is generated and no child is visited; in every other case the children '
               'are visited exactly once and the stacks of names are what they were. Which attributes exclude a node is extracted as a decision table over explicit attributes.')
ASSUMPTIONS = ['syn::visit visits all children of a node', 'syn parses attributes as documented']
MIN_OBLIGATIONS = 80
TR = 'Trait'


def check(ck):
    prepare(ck.p)
    parts(ck, attributes, nodes)


def attr(p, kind, path, args=None):
    # (the style is part of the program only if something looks at it)
    style = {'style': mkv(p, 'syn::AttrStyle', 'Outer')} if 'syn::AttrStyle' in p.adts else {}
    return mk(p, 'syn::Attribute', meta=meta(p, kind, path, args), **style)


def inner(p, a):
    """the same attribute written #![...] inside of the item"""
    if 'syn::AttrStyle' not in p.adts:
        return a
    vs = [v[0] for v in p.adts['syn::AttrStyle']['variants']]
    st = ('adt', 'syn::AttrStyle', vs.index('Inner'), (T('bang'),))
    return mk(p, 'syn::Attribute', style=st, meta=field(p, a, 'meta'))


def meta(p, kind, path, args=None):
    pa = path_(p, *path.split('::'))
    if kind == 'path':
        return mkv(p, 'syn::Meta', 'Path', pa)
    if kind == 'list':
        return mkv(p, 'syn::Meta', 'List', mk(p, 'syn::MetaList', path=pa, tokens=seq(*args) if args is not None else T('tokens')))
    return mkv(p, 'syn::Meta', 'NameValue', mk(p, 'syn::MetaNameValue', path=pa))


def mkv(p, ty, var, *vals):
    vi = [v[0] for v in p.adts[ty]['variants']].index(var)
    return ('adt', ty, vi, tuple(vals))


def attributes(ck):
    p = ck.p
    inst = ck.fn(EXC)
    where = ck.where(inst)
    M = lambda k, n, a=None: meta(p, k, n, a)
    A = lambda k, n, a=None: attr(p, k, n, a)
    P_ = lambda n: M('path', n)
    skip = P_('mutants::skip')
    table = [
        ('#[test]', A('path', 'test'), True),
        ('#[cfg(test)]', A('list', 'cfg', [P_('test')]), True),
        ('#[mutants::skip]', A('path', 'mutants::skip'), True),
        ('#[cfg_attr(test, mutants::skip)]', A('list', 'cfg_attr', [P_('test'), skip]), True),
        ('#[cfg_attr(unix, mutants::skip)]', A('list', 'cfg_attr', [P_('unix'), skip]), True),
        ('#[cfg_attr(any(test, unix), mutants::skip)]', A('list', 'cfg_attr', [M('list', 'any', [P_('test'), P_('unix')]), skip]), True),
        ('#[cfg_attr(feature = "x", mutants::skip)]', A('list', 'cfg_attr', [M('nv', 'feature'), skip]), True),
        ('#[cfg_attr(test, allow(x), mutants::skip)]', A('list', 'cfg_attr', [P_('test'), M('list', 'allow', [P_('x')]), skip]), True),
        ('#[cfg_attr(test, mutants::skip, allow(x))]', A('list', 'cfg_attr', [P_('test'), skip, M('list', 'allow', [P_('x')])]), True),
        ('#[cfg_attr(test, mutants::skip, inline)]', A('list', 'cfg_attr', [P_('test'), skip, P_('inline')]), True),
        ('#[inline]', A('path', 'inline'), False),
        ('#[skip]', A('path', 'skip'), False),
        ('#[mutants]', A('path', 'mutants'), False),
        ('#[rustfmt::skip]', A('path', 'rustfmt::skip'), False),
        ('#[tokio::test]', A('path', 'tokio::test'), False),
        ('#[mutants::exclude_re(..)]', A('list', 'mutants::exclude_re', []), False),
        ('#[cfg(any(unix, windows))]', A('list', 'cfg', [M('list', 'any', [P_('unix'), P_('windows')])]), False),
        ('#[cfg(tests)]', A('list', 'cfg', [P_('tests')]), False),
        ('#[tests]', A('path', 'tests'), False),
        ('#[must_use]', A('path', 'must_use'), False),
        ('#[doc = ".."]', A('nv', 'doc'), False),
        ('#[path = ".."]', A('nv', 'path'), False),
        ('#[cfg(unix)]', A('list', 'cfg', [P_('unix')]), False),
        ('#[cfg(feature = "x")]', A('list', 'cfg', [M('nv', 'feature')]), False),
        ('#[cfg(not(test))]', A('list', 'cfg', [M('list', 'not', [P_('test')])]), False),
        ('#[cfg_attr(test, inline)]', A('list', 'cfg_attr', [P_('test'), P_('inline')]), False),
        ('#[cfg_attr(test, allow(dead_code))]', A('list', 'cfg_attr', [P_('test'), M('list', 'allow', [P_('dead_code')])]), False),
        ('#[derive(Debug)]', A('list', 'derive', [P_('Debug')]), False),
        ('#[allow(test)]', A('list', 'allow', [P_('test')]), False),
        ('#[allow(dead_code)]', A('list', 'allow', [P_('dead_code')]), False),
    ]
    plain = A('path', 'inline')
    for name, a, want in table:
        for pos, lst in (('alone', [a]), ('as an inner attribute', [inner(p, a)]), ('as an inner attribute after another', [plain, inner(p, a)]), ('first', [a, plain]), ('last', [plain, a]), ('middle', [plain, a, A('list', 'allow', [P_('dead_code')])]), ('third', [plain, A('list', 'allow', [P_('dead_code')]), a]), ('after documentation', [A('nv', 'doc'), A('nv', 'doc'), a, plain]), ('fifth', [plain, A('nv', 'doc'), A('path', 'must_use'), A('list', 'derive', [P_('Debug')]), a])):
            ip, outs = ck.run(inst, {0: seq(*lst)})
            rs = {ip.mat(s, v) for k, s, v in outs if k == 'ret'}
            if rs == {TRUE} or rs == {FALSE}:
                got = rs == {TRUE}
                ck.expect(got == want, 'attr:' + name, '%s (%s) is %s' % (name, pos, 'skipped' if got else 'not skipped'), where, '%s %s' % (name, 'skipped' if got else 'not skipped') if pos == 'alone' else None)
            else:
                ck.unsure('%s: %s' % (name, [pp(r, p)[:80] for r in rs]))
    ip, outs = ck.run(inst, {0: seq()})
    rs = {ip.mat(s, v) for k, s, v in outs if k == 'ret'}
    ck.expect(rs == {FALSE}, 'attr:none', 'a node without attributes is skipped', where)


def judge(ck, name, method, V, res, reason, detail, inner_name=None, anchor=None):
    """reason: None if only attributes may exclude the node, else the documented reason for which it is left out"""
    p = ck.p
    where = anchor
    seen = {True: 0, False: 0}
    for s, vis, walks in res:
        ex = excluded(s, T('attrs'))
        mu = field(p, vis, 'mutants')
        none = mu == ('seq', ())
        w = [x for x in walks if x[2] == T('nodeid') or x[1] == method]
        for st_ in ('namespace_stack', 'fn_stack', 'mod_namespace_stack'):
            ck.expect(field(p, vis, st_) == field(p, V, st_), 'stack:%s:%s' % (method, st_), '%s leaves %s as %s' % (name, st_, pp(field(p, vis, st_), p)[:80]), where)
        if reason is not None:
            ck.expect(none and not walks, 'mutated:%s:%s' % (method, reason), '%s (%s) is mutated or looked into although it is to be skipped' % (name, reason), where, '%s, %s: skipped' % (name, reason))
        elif ex is True:
            seen[True] += 1
            ck.expect(none and not walks, 'attr-mutated:' + method, '%s with an excluding attribute is mutated or looked into' % name, where, '%s with excluding attribute: skipped' % name)
        elif ex is None and (walks or not none):
            ck.bad('attr-ignored:' + method, '%s is visited without looking at its attributes' % name, where)
        elif ex is None:
            ck.bad('lost:' + method, '%s is left out for no documented reason (%s)' % (name, detail), where)
        else:
            seen[False] += 1
            ck.expect(len(walks) == 1, 'lost:' + method, '%s is %s (%s)' % (name, 'not looked into' if not walks else 'looked into %d times' % len(walks), detail), where, '%s: looked into once' % name)
    if reason is None:
        if not seen[True]:
            ck.unsure('%s: no partition with excluding attribute' % name)


def nodes(ck):
    p = ck.p
    ms = methods(p)
    ck.count('visitor methods', len(ms))
    A = T('attrs')
    Z = ck.where(list(ms.values())[0]) if ms else None
    at = lambda m: ck.where(ms[m]) if m in ms else None
    REQ = ('visit_expr_call', 'visit_expr_method_call', 'visit_file', 'visit_item_fn', 'visit_impl_item_fn', 'visit_trait_item_fn', 'visit_item_impl', 'visit_item_trait', 'visit_item_mod', 'visit_expr_binary', 'visit_expr_unary', 'visit_expr_match')
    for m in REQ:
        if m in ('visit_expr_binary', 'visit_expr_unary', 'visit_expr_match'):
            continue
        ck.expect(m in ms, 'method:' + m, 'attributes are not looked at in %s' % m, Z)

    def go(method, name, node, reason=None, detail='', **kw):
        if method not in ms:
            return
        try:
            V, res = visit(ck, method, node, **kw)
        except Cap as e:
            ck.unsure('%s: %s' % (name, e))
            return
        judge(ck, name, method, V, res, reason, detail, anchor=at(method))
    stm = [seq(T('s1')), seq(T('s1'), T('s2'))]
    for ident in ('foo', 'new', 'newer'):
        for uns in (NONE, some(T('unsafe_token'))):
            sig = mk(p, 'syn::Signature', ident=('s', ident), unsafety=uns, output=T('ret'))
            for st_ in [seq()] + stm:
                block = mk(p, 'syn::Block', stmts=st_)
                n = len(st_[1])
                why = 'unsafe' if is_some(uns) else 'empty' if n == 0 else None
                d = '%sfn %s with %d statements' % ('unsafe ' if is_some(uns) else '', ident, n)
                go('visit_item_fn', 'a function', mk(p, 'syn::ItemFn', attrs=A, sig=sig, block=block), why, d, reps=[T('r1')])
                go('visit_impl_item_fn', 'a method', mk(p, 'syn::ImplItemFn', attrs=A, sig=sig, block=block), why or ('new' if ident == 'new' else None), d, reps=[T('r1')])
                go('visit_trait_item_fn', 'a default method', mk(p, 'syn::TraitItemFn', attrs=A, sig=sig, default=some(block)), why or ('new' if ident == 'new' else None), d, reps=[T('r1')])
            go('visit_trait_item_fn', 'a required method', mk(p, 'syn::TraitItemFn', attrs=A, sig=sig, default=NONE), 'no body', '', reps=[T('r1')])
    for tr, why in ((None, None), (('Clone',), None), (('Default',), 'Default'), (('std', 'default', 'Default'), 'Default'), (('DefaultX',), None), (('Default', 'X'), None)):
        t = NONE if tr is None else some(('tup', (NONE, path_(p, *tr), T('for'))))
        go('visit_item_impl', 'impl %s' % '::'.join(tr or ('Type',)), mk(p, 'syn::ItemImpl', attrs=A, trait_=t, self_ty=T('ty')), why)
    go('visit_item_trait', 'a trait', mk(p, 'syn::ItemTrait', attrs=A))
    go('visit_file', 'a file', mk(p, 'syn::File', attrs=A))
    # calls
    for skips in ((), ('with_capacity',), ('a', 'with_capacity')):
        O = mk(p, 'options::Options', skip_calls=seq(*(('s', x) for x in skips)))
        for fn in (('with_capacity',), ('Vec', 'with_capacity'), ('with_capacity', 'new'), ('foo',), ('a', 'foo'), ('xwith_capacity',), ('with_capacity_in',)):
            why = 'skip_calls' if fn[-1] in skips else None
            f = mkv(p, 'syn::Expr', 'Path', mk(p, 'syn::ExprPath', path=path_(p, *fn)))
            go('visit_expr_call', 'a call', mk(p, 'syn::ExprCall', attrs=A, func=f), why, 'call of %s with skip_calls %s' % ('::'.join(fn), list(skips)), options=O)
            go('visit_expr_method_call', 'a method call', mk(p, 'syn::ExprMethodCall', attrs=A, method=('s', fn[-1])), why, 'method %s with skip_calls %s' % (fn[-1], list(skips)), options=O)
        go('visit_expr_call', 'a call of an expression', mk(p, 'syn::ExprCall', attrs=A, func=mkv(p, 'syn::Expr', 'Paren', T('paren'))), None, '', options=O)
    # modules
    for content in (NONE, some(T('content'))):
        for pa, why in ((ok(NONE), None), (ok(some(T('pathattr'))), None), (err(T('abs')), 'absolute path')):
            go('visit_item_mod', 'a module', mk(p, 'syn::ItemMod', attrs=A, content=content, ident=('s', 'm')), why if why else None, '', models={FPA: lambda ip, st, c: [('ret', st, pa)]})
    # expressions
    for v in p.adts['syn::BinOp']['variants']:
        go('visit_expr_binary', 'a binary expression', mk(p, 'syn::ExprBinary', attrs=A, op=mkv(p, 'syn::BinOp', v[0], T('op'))), None, v[0])
    for v in p.adts['syn::UnOp']['variants']:
        go('visit_expr_unary', 'a unary expression', mk(p, 'syn::ExprUnary', attrs=A, op=mkv(p, 'syn::UnOp', v[0], T('op'))), None, v[0])
    for arms in ((), ('w',), ('p', 'w'), ('p', 'g', 'w'), ('p', 'g')):
        go('visit_expr_match', 'a match', mk(p, 'syn::ExprMatch', attrs=A, arms=seq(*(arm(p, k, i) for i, k in enumerate(arms)))), None, str(arms))
    # any further method must not lose nodes either
    for m, inst in sorted(ms.items()):
        if m in REQ:
            continue
        try:
            V, res = visit(ck, m, T('node'))
        except Cap as e:
            ck.unsure('%s: %s' % (m, e))
            continue
        for s, vis, walks in res:
            ex = excluded(s)
            if ex is True:
                ck.expect(not walks, 'attr-mutated:' + m, '%s looks into a node with an excluding attribute' % m, at(m))
            else:
                ck.expect(len(walks) == 1, 'lost:' + m, '%s %s' % (m, 'does not look into its node' if not walks else 'looks into its node %d times' % len(walks)), at(m))


def arm(p, kind, i):
    """w: wildcard, p: other pattern, g: other pattern with guard, v: wildcard with guard"""
    pat = mkv(p, 'syn::Pat', 'Wild' if kind in 'wv' else 'Ident', T('pat%d' % i))
    g = some(('tup', (T('if'), T('guard%d' % i)))) if kind in 'gv' else NONE
    return mk(p, 'syn::Arm', attrs=T('armattrs'), pat=pat, guard=g, body=T('body%d' % i))
