"""Which mutants each construct gives, and that each replaces exactly its construct."""
from vlib import *
from visx import *
from c17 import mkv, arm

EXPLANATION = ('Each visitor method that generates mutants is analysed on explicit syntax nodes (every binary and unary operator of syn, matches with every mix of plain, guarded and wildcard arms up to length three, functions with up to three '
               'statements and up to three replacement values): the list of mutants must be the documented one, each with the span of the construct it replaces, the right genre, the innermost function and the file being visited.')
ASSUMPTIONS = ['proc_macro2 and syn give the right span for a token or node']
MIN_OBLIGATIONS = 60

OPS = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%', 'And': '&&', 'Or': '||', 'BitXor': '^', 'BitAnd': '&', 'BitOr': '|', 'Shl': '<<', 'Shr': '>>', 'Eq': '==', 'Lt': '<', 'Le': '<=', 'Ne': '!=', 'Ge': '>=', 'Gt': '>'}
REPL = {'==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '<': ['==', '>', '<='], '>': ['==', '<', '>='], '<=': ['>'], '>=': ['<'], '+': ['-', '*'], '-': ['+', '/'], '*': ['+', '/'],
        '/': ['%', '*'], '%': ['/', '+'], '<<': ['>>'], '>>': ['<<'], '&': ['|', '^'], '|': ['&', '^'], '^': ['|', '&']}


def want_binary(v):
    if v.endswith('Assign'):
        o = OPS.get(v[:-6])
        return None if o is None else [r + '=' for r in REPL[o]]
    o = OPS.get(v)
    return None if o is None else REPL[o]


def describe(ck, m):
    """(replacement text, genre, span, function, source file)"""
    p = ck.p
    g = variant_(p, field(p, m, 'genre'))
    return norm(replacement(field(p, m, 'replacement'))), g, field(p, m, 'span'), field(p, m, 'function'), field(p, m, 'source_file')


def variant_(p, v):
    return p.adts[v[1]]['variants'][v[2]][0] if v[0] == 'adt' and v[1] in p.adts else None


def norm(t):
    return None if t is None else t.replace(' ', '')


def compare(ck, name, key, vis, want, where, fn=None):
    """want: [(replacement, genre, (start node, end node))] in any order"""
    p = ck.p
    ms = mutants_of(p, vis)
    if ms is None:
        ck.unsure('%s: mutants %s' % (name, pp(field(p, vis, 'mutants'), p)[:200]))
        return
    got = [describe(ck, m) for m in ms]
    if any(g[0] is None or g[1] is None for g in got):
        ck.unsure('%s: %s' % (name, [pp(m, p)[:300] for m in ms][:2]))
        return
    a = sorted((g[0], g[1]) for g in got)
    b = sorted((norm(w[0]), w[1]) for w in want)
    ck.expect(a == b, key, '%s gives %s, not %s' % (name, show(a), show(b)), where, '%s gives %s' % (name, show(b)))
    if a != b:
        return
    left = list(want)
    for r, g, sp, f, sf in got:
        cands = [w for w in left if norm(w[0]) == r and w[1] == g]
        verdicts = [spans(sp, *w[2]) for w in cands]
        if True in verdicts:
            left.remove(cands[verdicts.index(True)])
            ck.expect(True, key, '')
        elif None in verdicts:
            ck.unsure('%s: span %s' % (name, pp(sp, p)[:200]))
        else:
            ck.bad('span:' + key, '%s: the span of the mutant is %s' % (name, pp(sp, p)[:200]), where)
        if fn is not None:
            fn(f, where)
        ck.expect(sf == source_file(p), 'file:' + key, '%s: the mutant is attributed to %s' % (name, pp(sf, p)[:100]), where)


def show(xs):
    return '[' + ', '.join("'%s' (%s)" % x for x in xs) + ']'


def check(ck):
    prepare(ck.p)
    p = ck.p
    ms = methods(p)
    at = lambda m: ck.where(ms[m]) if m in ms else None
    A = T('attrs')
    FS = seq(T('f0'), T('f1'))
    notex = {EXC: lambda ip, st, c: [('ret', st, FALSE)]}

    def innermost(f, where, stack=T('f1')):
        ck.expect(f == some(stack), 'function', 'the mutant is attributed to %s' % pp(f, p)[:100], where)

    def go(method, node, **kw):
        if method not in ms:
            raise Missing('visitor method ' + method)
        kw.setdefault('models', {}).update(notex)
        V, res = visit(ck, method, node, **kw)
        return V, [r for r in res]
    W = 'visit_expr_binary'
    for v in p.adts['syn::BinOp']['variants']:
        want = want_binary(v[0])
        op = mkv(p, 'syn::BinOp', v[0], T('op'))
        V, res = go(W, mk(p, 'syn::ExprBinary', attrs=A, op=op, left=T('left'), right=T('right')), fn_stack=FS)
        for s, vis, walks in res:
            compare(ck, 'operator %s' % v[0], 'binary:' + v[0], vis, [(r, 'BinaryOperator', (op,)) for r in want or []], at(W), innermost)
    W = 'visit_expr_unary'
    for v in p.adts['syn::UnOp']['variants']:
        op = mkv(p, 'syn::UnOp', v[0], T('op'))
        V, res = go(W, mk(p, 'syn::ExprUnary', attrs=A, op=op, expr=T('inner')), fn_stack=FS)
        for s, vis, walks in res:
            compare(ck, 'operator %s' % v[0], 'unary:' + v[0], vis, [('', 'UnaryOperator', (op,))] if v[0] in ('Not', 'Neg') else [], at(W), innermost)
    W = 'visit_expr_match'
    kinds = 'pgwv'
    combos = [()] + [(a,) for a in kinds] + [(a, b) for a in kinds for b in kinds] + [(a, b, c) for a in kinds for b in kinds for c in kinds]
    for cmb in combos:
        arms = [arm(p, k, i) for i, k in enumerate(cmb)]
        wild = any(k in 'wv' for k in cmb)
        want = []
        for i, k in enumerate(cmb):
            if wild and k == 'p':
                want.append(('', 'MatchArm', (arms[i],)))
            if k in 'gv':
                want += [(r, 'MatchArmGuard', (T('guard%d' % i),)) for r in ('true', 'false')]
        V, res = go(W, mk(p, 'syn::ExprMatch', attrs=A, arms=seq(*arms)), fn_stack=FS)
        for s, vis, walks in res:
            compare(ck, 'match with arms %s' % ''.join(cmb), 'match:' + ('wild' if wild else 'nowild'), vis, want, at(W), innermost)
    functions(ck, go, at)
    nested(ck, go, at)


def functions(ck, go, at):
    """function bodies: one mutant per replacement unless it is the body itself"""
    p = ck.p
    A = T('attrs')
    for W, ty, wrap in (('visit_item_fn', 'syn::ItemFn', None), ('visit_impl_item_fn', 'syn::ImplItemFn', None), ('visit_trait_item_fn', 'syn::TraitItemFn', some)):
        sig = mk(p, 'syn::Signature', ident=('s', 'foo'), unsafety=NONE, output=T('ret'))
        for n in (1, 2, 3):
            stm = [T('st%d' % i) for i in range(n)]
            block = mk(p, 'syn::Block', stmts=seq(*stm))
            for k in (0, 1, 2, 3):
                reps = [T('r%d' % i) for i in range(k)]
                body = {'default': some(block)} if wrap else {'block': block}
                V, res = go(W, mk(p, ty, attrs=A, sig=sig, **body), reps=reps)
                full = False
                for s, vis, walks in res:
                    ms = mutants_of(p, vis)
                    if ms is None:
                        ck.unsure('%s: %s' % (W, pp(field(p, vis, 'mutants'), p)[:200]))
                        continue
                    same_ = sum(1 for f, c in s.facts.items() if c == TRUE and f[0] == 't' and f[1] == 'eq' and PRETTY in repr(f))
                    names = []
                    okk = True
                    for m in ms:
                        t = field(p, m, 'replacement')
                        hit = [i for i, r in enumerate(reps) if t[0] == 't' and PRETTY in t[1] and r in subterms(t)]
                        if len(hit) != 1:
                            ck.unsure('%s: replacement %s' % (W, pp(t, p)[:200]))
                            okk = False
                            break
                        names.append(hit[0])
                        g = variant_(p, field(p, m, 'genre'))
                        ck.expect(g == 'FnValue', 'genre:fn', 'the genre of a function value mutant is %s' % g, at(W))
                        sp = spans(field(p, m, 'span'), stm[0], stm[-1])
                        if sp is None:
                            ck.unsure('%s span %s' % (W, pp(field(p, m, 'span'), p)[:300]))
                        else:
                            ck.expect(sp, 'span:fn', 'a function value mutant of a body of %d statements replaces %s' % (n, pp(field(p, m, 'span'), p)[:200]), at(W), 'body of %d statements: from the first to the last' % n)
                        f = field(p, m, 'function')
                        inner(ck, f, sig, T('outer'), at(W))
                    if not okk:
                        continue
                    ck.expect(len(set(names)) == len(names), 'dup:fn', 'a replacement value is used twice', at(W))
                    ck.expect(len(names) + same_ >= k, 'lost:fn', '%d of %d replacement values of a function are used where only %d equal the body' % (len(names), k, same_), at(W), '%d replacements, %d equal to the body: %d mutants' % (k, same_, len(names)))
                    ck.expect(len(names) + same_ <= k, 'noop:fn', 'a replacement that equals the body gives a mutant', at(W))
                    full = full or len(names) == k
                ck.expect(full, 'lost:fn', '%s never gives all %d mutants' % (W, k), at(W))


def subterms(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        out.add(t)
        for x in t:
            subterms(x, out)
    return out


def inner(ck, f, sig, outer, where):
    """the function of a function mutant is the function itself"""
    p = ck.p
    v = f[3][0] if is_some(f) else None
    if v is None:
        ck.bad('function:fn', 'a function value mutant belongs to no function', where)
        return
    if v == T('f0'):
        ck.bad('function:fn', 'a function value mutant belongs to the enclosing function', where)
        return
    if v[0] in ('box', 'arc'):
        v = v[1]
    nm = None
    try:
        nm = field(p, v, 'function_name')
    except Exception:
        pass
    if nm is None or nm[0] != 's':
        ck.unsure('function name %s' % pp(v, p)[:200])
        return
    ck.expect(nm == ('s', 'outer::foo'), 'function:fn', 'a mutant of foo in outer is attributed to %s' % nm[1], where)


def nested(ck, go, at):
    """while the body is visited the function is the innermost; the names are those of the enclosing items"""
    p = ck.p
    A = T('attrs')
    for W, ty, wrap in (('visit_item_fn', 'syn::ItemFn', False), ('visit_impl_item_fn', 'syn::ImplItemFn', False), ('visit_trait_item_fn', 'syn::TraitItemFn', True)):
        sig = mk(p, 'syn::Signature', ident=('s', 'foo'), unsafety=NONE, output=T('ret'))
        block = mk(p, 'syn::Block', stmts=seq(T('st0')))
        body = {'default': some(block)} if wrap else {'block': block}
        V, res = go(W, mk(p, ty, attrs=A, sig=sig, **body), reps=[])
        for s, vis, walks in res:
            for w in walks:
                ns, fs = elems(w[3]), elems(w[4])
                if ns is None or fs is None:
                    ck.unsure('%s: stacks %s' % (W, pp(w[3], p)[:100]))
                    continue
                ck.expect(ns == [('s', 'outer'), ('s', 'foo')], 'names:fn', 'inside foo in outer the names are %s' % [pp(x, p) for x in ns], at(W), 'inside outer::foo')
                ck.expect(len(fs) == 2 and fs[0] == T('f0'), 'fnstack', 'inside a nested function the stack of functions is %s' % [pp(x, p)[:60] for x in fs], at(W))
                if len(fs) == 2:
                    inner(ck, some(fs[1]), sig, None, at(W))
    W = 'visit_item_mod'
    for content in (NONE, some(T('content'))):
        for pa in (NONE, some(T('pathattr'))):
            for outer in ([], [mk(p, 'visit::ModNamespace', name=('s', 'o'))]):
                V, res = go(W, mk(p, 'syn::ItemMod', attrs=A, content=content, ident=('s', 'm')), mod_namespace_stack=seq(*outer), models={FPA: lambda ip, st, c: [('ret', st, ok(pa))]})
                for s, vis, walks in res:
                    ext = elems(field(p, vis, 'external_mods'))
                    if ext is None:
                        ck.unsure('external mods %s' % pp(field(p, vis, 'external_mods'), p)[:200])
                        continue
                    if content == NONE:
                        ck.expect(len(ext) == 1, 'external', 'mod m; is remembered %d times' % len(ext), at(W), 'mod m; is remembered')
                        for e in ext:
                            parts = elems(field(p, e, 'parts'))
                            if parts is None:
                                ck.unsure('parts')
                                continue
                            good = len(parts) == len(outer) + 1 and parts[:len(outer)] == outer and field(p, parts[-1], 'name') == ('s', 'm') and field(p, parts[-1], 'path_attribute') == pa
                            ck.expect(good, 'external-parts', 'mod m; is remembered as %s' % [pp(x, p)[:120] for x in parts], at(W), 'mod m; is remembered with its enclosing modules and path attribute')
                    else:
                        ck.expect(not ext, 'external', 'a module with content is remembered as a file', at(W))
                    for w in walks:
                        mods = elems(w[5])
                        ns = elems(w[3])
                        if mods is None or ns is None:
                            ck.unsure('mod stack')
                            continue
                        ck.expect(ns == [('s', 'outer'), ('s', 'm')], 'names:mod', 'inside mod m in outer the names are %s' % [pp(x, p) for x in ns], at(W), 'inside outer::m')
                        ck.expect(len(mods) == len(outer) + 1 and mods[:len(outer)] == outer and field(p, mods[-1], 'name') == ('s', 'm') and field(p, mods[-1], 'path_attribute') == pa, 'mods', 'inside mod m the stack of modules is %s' % [pp(x, p)[:100] for x in mods], at(W))
    for W, node, want in (('visit_item_trait', mk(p, 'syn::ItemTrait', attrs=A, ident=('s', 'Tr')), 'Tr'),):
        V, res = go(W, node)
        for s, vis, walks in res:
            for w in walks:
                ns = elems(w[3])
                if ns is None or ns[-1][0] != 's':
                    ck.unsure('%s %s' % (W, pp(w[3], p)[:100]))
                    continue
                ck.expect(ns == [('s', 'outer'), ('s', want)], 'names:trait', 'inside trait Tr the names are %s' % [pp(x, p) for x in ns], at(W), 'inside outer::Tr')
    W = 'visit_item_impl'
    for tr in (None, ('Clone',)):
        t = NONE if tr is None else some(('tup', (NONE, path_(p, *tr), T('for'))))
        V, res = go(W, mk(p, 'syn::ItemImpl', attrs=A, trait_=t, self_ty=T('ty')))
        for s, vis, walks in res:
            for w in walks:
                ns = elems(w[3])
                if ns is None:
                    ck.unsure('%s names' % W)
                    continue
                ck.expect(len(ns) == 2 and ns[0] == ('s', 'outer'), 'names:impl', 'inside an impl the names are %s' % [pp(x, p)[:80] for x in ns], at(W), 'inside an impl: %s' % pp(ns[-1], p)[:100])
                ck.expect(T('ty') in subterms(ns[-1]), 'names:impl', 'the name of an impl does not tell its type', at(W))
                if tr:
                    ck.expect('Clone' in repr(ns[-1]), 'names:impl', 'the name of a trait impl does not tell its trait', at(W))
