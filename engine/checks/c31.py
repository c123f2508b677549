"""Replacement values for every return type."""
from vlib import *
from visx import *
from c17 import mkv
import itertools

EXPLANATION = ('The replacement values of a return type are extracted by value-flow over every type constructor of syn and every named type the documentation lists (and others), with the component types opaque: the replacements of a component are '
               'given as explicit lists of zero to three unknown token streams, so that the rule for the constructor holds for every nesting by induction on the type. The values must be the documented ones, no more and no less; configured error values '
               'are offered for every Result, at any depth. Some whole types are analysed as well.')
ASSUMPTIONS = ['quote! builds the token stream it spells']
MIN_OBLIGATIONS = 150
TR = 'fnvalue::type_replacements'


def inner(k, n):
    return T('inner', ('i', k), ('i', n))


def R(k, n):
    return ['R%d_%d' % (k, i) for i in range(n)]


class Rec(Monitor):
    def __init__(self, errs):
        self.errs = errs
        self.wrong = []

    def on_call(self, st, c):
        if c.path == TR and c.args:
            v = c.m(st, 0)
            if v[0] == 'adt' and len(v[3]) == 1 and v[3][0][0] == 't' and v[3][0][1] == 'inner':
                v = v[3][0]
            elif v[0] == 'adt' and "('s', 'INNER_" in repr(v):
                nm = repr(v).split("('s', 'INNER_")[1].split("'")[0].split('_')
                v = inner(int(nm[0]), int(nm[1]))
            if v[0] == 't' and v[1] == 'inner':
                if len(c.args) > 1 and c.m(st, 1) != self.errs:
                    self.wrong.append(c.m(st, 1))
                return [('ret', st, seq(*(('toks', (('id', r),)) for r in R(v[2][1], v[3][1]))))]
        return None


PEE = 'options::Options::parsed_error_exprs'


def check(ck):
    parts(ck, values, configured, handed_on)


def configured(ck):
    """every configured error value is parsed, in order; one that is no expression is an error"""
    p = ck.p
    inst = ck.fn(PEE)
    w = ck.where(inst)
    n = 0
    for vals in ([], ['a'], ['!'], ['a', 'b'], ['a', '!'], ['!', 'a'], ['a', '!', 'b'], ['b', 'a', 'a']):
        def parse(ip, st, c):
            x = ip.mat(st, c.args[0])
            if x[0] != 's':
                return None
            return [('ret', st, err(T('no_expr', x)) if x[1] == '!' else ok(T('expr', x)))]
        ip, outs = ck.run(inst, {0: mk(p, 'options::Options', error_values=seq(*[('s', x) for x in vals]))}, models={'parse_str': parse, 'syn::parse_str': parse})
        for k, s, v in outs:
            v = ip.mat(s, v) if k == 'ret' else T('panic')
            nm = 'error values %s' % vals
            if is_err(v):
                n += 1
                ck.expect('!' in vals, 'error-values-rejected', '%s are not accepted' % nm, w, nm + ': error')
                continue
            xs = elems(v[3][0]) if is_ok(v) else None
            if xs is None or any(x[0] != 't' or x[1] != 'expr' for x in xs):
                ck.unsure('%s: %s' % (nm, pp(v, p)[:80]))
                continue
            n += 1
            got = [x[2][1] for x in xs]
            if '!' in vals:
                ck.bad('error-values-ignored', '%s, of which one is not an expression, are taken to be %s, not an error' % (nm, got), w)
            else:
                ck.expect(sorted(set(got)) == sorted(set(vals)), 'error-values', '%s are taken to be %s' % (nm, got), w, nm)
    ck.floor('lists of error values decided', n, 4)


WT = 'visit::walk_tree'
WP = 'visit::walk_package'


def handed_on(ck):
    """discovery fails if the error values cannot be parsed, and otherwise has them at hand for every package"""
    p = ck.p
    inst = ck.fn(WT)
    w = ck.where(inst)
    vals = seq(T('expr', ('s', 'a')), T('expr', ('s', 'b')))
    if not any(p.path(i) == PEE for i in p.raw_bodies):
        raise Missing(PEE)
    for bad in (True, False):
        def parse(ip, st, c):
            st.mon = (st.mon or ()) + ('parsed',)
            return [('ret', st, err(T('no_expr')) if bad else ok(vals))]

        def walk(ip, st, c):
            vs = [ip.mat(st, a) for a in c.args]
            st.mon = (st.mon or ()) + ('given' if repr(vals) in repr(vs) else 'other' if any(v[0] == 'seq' and all(x in elems(vals) for x in elems(v) or ()) for v in vs) else 'unknown',)
            return [('ret', st, ok(('tup', (seq(), seq()))))]
        ip, outs = ck.run(inst, {'packages': seq(T('pkg', ('i', 0)), T('pkg', ('i', 1)))}, opaque=lambda q: q in (PEE, WP) or is_console(q), models={PEE: parse, WP: walk})
        for k, s, v in outs:
            v = ip.mat(s, v) if k == 'ret' else T('panic')
            ev = s.mon or ()
            if k != 'ret' or 'parsed' not in ev or 'unknown' in ev:
                ck.unsure('error values in discovery')
                continue
            if bad:
                ck.expect(is_err(v), 'error-values-swallowed', 'error values that cannot be parsed do not stop the search for mutants', w, 'bad error values: error')
            else:
                ck.expect('other' not in ev, 'error-values-lost', 'packages are searched with other error values than those configured', w, 'error values are handed on to %d packages' % ev.count('given'))


def values(ck):
    prepare(ck.p)
    p = ck.p
    inst = ck.fn(TR)
    where = ck.where(inst)
    errs0 = []
    errs2 = ['E0', 'E1']
    for errs in (errs0, errs2):
        for name, ty, want in shapes(p, errs):
            one(ck, inst, name, ty, want, errs, where)
    ret = ck.fn(RTR)
    wr = ck.where(ret)
    for errs in (errs0, errs2):
        es = exprs(errs)
        ip, outs = ck.run(ret, {0: mkv(p, 'syn::ReturnType', 'Default'), 1: es})
        verdict(ck, ip, outs, 'no return type', ['()'], errs, wr)
        m = Rec(es)
        ip, outs = ck.run(ret, {0: mkv(p, 'syn::ReturnType', 'Type', T('arrow'), inner(0, 2)), 1: es}, monitor=m)
        verdict(ck, ip, outs, 'a return type', R(0, 2), errs, wr, m)
        for name, ty, want in nested(p, errs):
            ip, outs = ck.run(ret, {0: mkv(p, 'syn::ReturnType', 'Type', T('arrow'), ty), 1: es})
            verdict(ck, ip, outs, name, want, errs, wr)


def exprs(errs):
    return seq(*(('toks', (('id', e),)) for e in errs))


def one(ck, inst, name, ty, want, errs, where):
    es = exprs(errs)
    m = Rec(es)
    try:
        ip, outs = ck.run(inst, {0: ty, 1: es}, monitor=m)
    except Cap as e:
        ck.unsure('%s: %s' % (name, e))
        return
    verdict(ck, ip, outs, name, want, errs, where, m)


def verdict(ck, ip, outs, name, want, errs, where, m=None):
    p = ck.p
    if m is not None and m.wrong:
        ck.bad('errors:' + head(name), '%s: the configured error values are not passed on' % name, where)
    for k, s, v in outs:
        if k != 'ret':
            ck.bad('panic:' + head(name), 'a function returning %s makes the program panic' % name, where)
            continue
        w = ip.mat(s, v)
        items = w[1] if w[0] in ('it', 'seq') else None
        if items is None or any(x[0] != 'e' or (len(x) > 2 and x[2]) for x in items):
            ck.unsure('%s: %s' % (name, pp(w, p)[:200]))
            continue
        got = [norm(toks(x[1])) for x in items]
        if None in got:
            ck.unsure('%s: %s' % (name, [pp(x[1], p)[:100] for x in items]))
            continue
        a, b = sorted(got), sorted(norm(x) for x in want)
        lost = [x for x in b if x not in a]
        more = [x for x in a if x not in b]
        msg = '%s%s: %s' % (name, ' with error values' if errs else '', ', '.join(['%s is not offered' % x for x in lost] + ['%s is offered' % x for x in more]) or 'a value is offered twice')
        ck.expect(a == b, 'values:' + head(name), msg, where, '%s%s: %s' % (name, ' with error values' if errs else '', ', '.join(want) or 'none'))


def norm(t):
    return None if t is None else t.replace(' ', '')


def head(name):
    return name.split(' (')[0]


# ---- types
def tpath(p, names, args=None, par=None):
    segs = []
    for i, n in enumerate(names):
        a = mkv(p, 'syn::PathArguments', 'None')
        if i == len(names) - 1 and args is not None:
            a = mkv(p, 'syn::PathArguments', 'AngleBracketed', mk(p, 'syn::AngleBracketedGenericArguments', colon2_token=NONE, args=seq(*args)))
        segs.append(mk(p, 'syn::PathSegment', ident=('s', n), arguments=a))
    return mkv(p, 'syn::Type', 'Path', mk(p, 'syn::TypePath', qself=NONE, path=mk(p, 'syn::Path', leading_colon=NONE, segments=seq(*segs))))


def ta(p, t):
    return mkv(p, 'syn::GenericArgument', 'Type', t)


def la(p):
    return mkv(p, 'syn::GenericArgument', 'Lifetime', T('lifetime'))


def ref(p, t, mut=False):
    return mkv(p, 'syn::Type', 'Reference', mk(p, 'syn::TypeReference', lifetime=NONE, mutability=some(T('mut')) if mut else NONE, elem=t))


def sl(p, t):
    return mkv(p, 'syn::Type', 'Slice', mk(p, 'syn::TypeSlice', elem=t))


def arr(p, t):
    return mkv(p, 'syn::Type', 'Array', mk(p, 'syn::TypeArray', elem=t, len=('toks', (('id', 'LEN'),))))


def tup(p, *ts):
    return mkv(p, 'syn::Type', 'Tuple', mk(p, 'syn::TypeTuple', elems=seq(*ts)))


def impl_(p, *bounds):
    return mkv(p, 'syn::Type', 'ImplTrait', mk(p, 'syn::TypeImplTrait', bounds=seq(*bounds)))


def bound(p, names, args=None):
    t = tpath(p, names, args)
    path = t[3][0]
    return mkv(p, 'syn::TypeParamBound', 'Trait', mk(p, 'syn::TraitBound', path=field(p, path, 'path')))


def item(p, name, t):
    return mkv(p, 'syn::GenericArgument', 'AssocType', mk(p, 'syn::AssocType', ident=('s', name), generics=NONE, ty=t))


PRIM = {'bool': ['true', 'false'], 'String': ['String::new()', '"xyzzy".into()'], 'str': ['""', '"xyzzy"']}
for _n in ('8', '16', '32', '64', '128', 'size'):
    PRIM['u' + _n] = ['0', '1']
    PRIM['i' + _n] = ['0', '1', '-1']
for _n in ('f32', 'f64'):
    PRIM[_n] = ['0.0', '1.0', '-1.0']
NZ = {}
for _n in ('8', '16', '32', '64', '128', 'size'):
    NZ['NonZeroU' + _n] = ['1']
    NZ['NonZeroI' + _n] = ['1', '-1']
DEF = ['Default::default()']


def shapes(p, errs):
    """(name, type, values)"""
    out = []
    E = ['Err(%s)' % e for e in errs]
    for n, w in PRIM.items():
        out.append((n, tpath(p, [n]), w))
    for n, w in NZ.items():
        out.append((n, tpath(p, [n]), w))
        out.append((n + ' (with path)', tpath(p, ['std', 'num', n]), w))
    out.append(('any other type', tpath(p, ['Foo']), DEF))
    out.append(('any other type (with path)', tpath(p, ['a', 'Foo']), DEF))
    out.append(('any other type (u31)', tpath(p, ['u31']), DEF))
    for n in ('BareFn', 'Group', 'Infer', 'Macro', 'Paren', 'Ptr', 'TraitObject', 'Verbatim'):
        out.append((n, mkv(p, 'syn::Type', n, T('type')), DEF))
    out.append(('Never', mkv(p, 'syn::Type', 'Never', T('type')), []))
    out.append(('HttpResponse', tpath(p, ['HttpResponse']), ['HttpResponse::Ok().finish()']))
    for pre in ([], ['std', 'result']):
        out.append(('Result%s' % (' (with path)' if pre else ''), tpath(p, pre + ['Result']), ['Ok(Default::default())'] + E))
    for k in (0, 1, 2, 3):
        r = R(0, k)
        t = inner(0, k)
        for pre in ([], ['a', 'b']):
            d = ' (of %d values%s)' % (k, ', with path' if pre else '')
            P_ = lambda n, *a: tpath(p, pre + [n], list(a))
            out.append(('Result<T>' + d, P_('Result', ta(p, t)), ['Ok(%s)' % x for x in r] + E))
            out.append(('Result<T, E>' + d, P_('Result', ta(p, t), ta(p, T('other'))), ['Ok(%s)' % x for x in r] + E))
            out.append(('Option<T>' + d, P_('Option', ta(p, t)), ['None'] + ['Some(%s)' % x for x in r]))
            out.append(('Vec<T>' + d, P_('Vec', ta(p, t)), ['vec![]'] + ['vec![%s]' % x for x in r]))
            cow = [y for x in r for y in ('Cow::Borrowed(%s)' % x, 'Cow::Owned(%s.to_owned())' % x)]
            out.append(("Cow<'_, T>" + d, P_('Cow', la(p), ta(p, t)), cow))
            for n in ('Box', 'Arc', 'Rc', 'Cell', 'RefCell', 'Mutex'):
                out.append((n + '<T>' + d, P_(n, ta(p, t)), ['%s::new(%s)' % (n, x) for x in r]))
            for n in ('BinaryHeap', 'BTreeSet', 'HashSet', 'LinkedList', 'VecDeque'):
                out.append((n + '<T>' + d, P_(n, ta(p, t)), [n + '::new()'] + ['%s::from_iter([%s])' % (n, x) for x in r]))
            for a in ([ta(p, t)], [la(p), ta(p, t)]):
                out.append(('Other<T>' + d, P_('Other', *a), ['Other::new()'] + [y for x in r for y in ('Other::from_iter([%s])' % x, 'Other::new(%s)' % x, 'Other::from(%s)' % x)]))
            for k2 in (0, 1, 2):
                for n in ('BTreeMap', 'HashMap'):
                    out.append((n + '<K, V>' + d, P_(n, ta(p, t), ta(p, inner(1, k2))), [n + '::new()'] + ['%s::from_iter([(%s, %s)])' % (n, x, y) for x in r for y in R(1, k2)]))
            out.append(('Other<A, B>' + d, P_('Other', ta(p, t), ta(p, t)), DEF))
        d = ' (of %d values)' % k
        out.append(('[T; N]' + d, arr(p, t), ['[%s; LEN]' % x for x in r]))
        leak = ['Vec::leak(Vec::new())'] + ['Vec::leak(vec![%s])' % x for x in r]
        out.append(('[T]' + d, sl(p, t), leak))
        out.append(('&[T]' + d, ref(p, sl(p, t)), leak))
        out.append(('&mut [T]' + d, ref(p, sl(p, t), True), leak))
        for v in ('Path', 'Array', 'Tuple', 'Reference', 'ImplTrait', 'Never', 'TraitObject', 'Paren'):
            tv = tpath(p, ['INNER_0_%d' % k]) if v == 'Path' else mkv(p, 'syn::Type', v, t)
            out.append(('&T' + d, ref(p, tv), ['&' + x for x in r]))
            out.append(('&mut T' + d, ref(p, tv, True), ['Box::leak(Box::new(%s))' % x for x in r]))
        it = bound(p, ['Iterator'], [item(p, 'Item', t)])
        its = ['::std::iter::empty()'] + ['::std::iter::once(%s)' % x for x in r]
        out.append(('impl Iterator' + d, impl_(p, it), its))
        out.append(('impl Iterator (with path)' + d, impl_(p, bound(p, ['std', 'iter', 'Iterator'], [item(p, 'Item', t)])), its))
        out.append(('impl Iterator + Send' + d, impl_(p, it, bound(p, ['Send'])), its))
        out.append(('impl Send + Iterator' + d, impl_(p, bound(p, ['Send']), it), its))
        out.append(("impl Iterator + '_" + d, impl_(p, mkv(p, 'syn::TypeParamBound', 'Lifetime', T('l')), it), its))
        for k2 in (0, 1, 2):
            out.append(('(A, B)' + d, tup(p, t, inner(1, k2)), ['(%s, %s)' % (x, y) for x in r for y in R(1, k2)]))
            out.append(('(A, B, C)' + d, tup(p, t, inner(1, k2), inner(2, 2)), ['(%s, %s, %s)' % (x, y, z) for x in r for y in R(1, k2) for z in R(2, 2)]))
    out.append(('&str', ref(p, tpath(p, ['str'])), ['""', '"xyzzy"']))
    out.append(('impl Send', impl_(p, bound(p, ['Send'])), []))
    return out


def nested(p, errs):
    E = ['Err(%s)' % e for e in errs]
    b = tpath(p, ['bool'])
    u = tpath(p, ['u8'])
    s = tpath(p, ['String'])
    G = lambda n, *a: tpath(p, [n], [ta(p, x) for x in a])
    rb = ['Ok(true)', 'Ok(false)'] + E
    return [
        ('Result<bool>', G('Result', b), rb),
        ('(bool, u8)', tup(p, b, u), ['(%s,%s)' % (x, y) for x in ('true', 'false') for y in '01']),
        ('HashMap<String, u8>', G('HashMap', s, u), ['HashMap::new()'] + ['HashMap::from_iter([(%s, %s)])' % (x, y) for x in PRIM['String'] for y in '01']),
        ('&mut bool', ref(p, b, True), ['Box::leak(Box::new(true))', 'Box::leak(Box::new(false))']),
        ('&bool', ref(p, b), ['&true', '&false']),
        ('[u8; N]', arr(p, u), ['[0; LEN]', '[1; LEN]']),
    ]
