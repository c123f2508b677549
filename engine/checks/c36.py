"""A mutant is described the same way everywhere, and fully."""
from vlib import *
import itertools
import serx

EXPLANATION = ('Mutant::name, to_styled_string, describe_change, the Display of a scenario and the JSON form analysed by value-flow over MIR on explicit mutants of every genre, with and without function, return type and replacement: the text must be the documented one, the same in all of them, with the location where asked for, and free of colour codes '
               'wherever it goes into files; Mutant::diff must compare the original with the mutated text under the file\'s name and that description.')
ASSUMPTIONS = ['console::StyledObject prints its text, with colour codes unless styling is forced off; similar::TextDiff makes correct diffs']
MIN_OBLIGATIONS = 40
M = 'mutant::Mutant'


def span(p, a, b, c, d):
    lc = lambda l, k: mk(p, 'span::LineColumn', line=('i', l), column=('i', k))
    return mk(p, 'span::Span', start=lc(a, b), end=lc(c, d))


def mutant(p, genre, fn, rt, rep, path='src/a/b.rs'):
    sf = mk(p, 'source::SourceFile', tree_relative_path=('s', path), package=mk(p, 'package::Package', name=('s', 'pk')), code=T('code'))
    f = some(mk(p, 'mutant::Function', function_name=('s', 'A::f'), return_type=('s', rt), span=span(p, 1, 2, 30, 4))) if fn else NONE
    return mk(p, M, source_file=sf, function=f, span=span(p, 5, 6, 7, 8), replacement=('s', rep), genre=mk(p, 'mutant::Genre', genre))


def want(genre, fn, rt, rep):
    if genre == 'FnValue':
        return 'replace A::f%s with %s' % (' ' + rt if rt else '', rep)
    if genre == 'MatchArmGuard':
        return 'replace match guard with %s' % rep
    if genre == 'MatchArm':
        return 'delete match arm'
    return ('replace ORIG with %s' % rep if rep else 'delete ORIG') + (' in A::f' if fn else '')


def cases(p):
    gs = [v[0] for v in p.adts['mutant::Genre']['variants']]
    for g in gs:
        for fn, rt, rep in itertools.product((True, False), ('', '-> u8'), ('', 'x')):
            if g not in ('FnValue', 'MatchArmGuard', 'MatchArm', 'BinaryOperator', 'UnaryOperator'):
                continue
            if g == 'FnValue' and (not fn or not rep) or g == 'MatchArmGuard' and not rep or g == 'MatchArm' and rep or g == 'BinaryOperator' and not rep or not fn and rt:
                continue
            yield g, fn, rt, rep


def models():
    def style(ip, st, c):
        return [('ret', st, T('styled', ip.mat(st, c.args[0])))]

    def keep(ip, st, c):
        v = ip.mat(st, c.args[0])
        return [('ret', st, v)] if v[0] == 't' and v[1] in ('styled', 'plain') else None

    def force(ip, st, c):
        v = ip.mat(st, c.args[0])
        if v[0] != 't' or v[1] not in ('styled', 'plain'):
            return None
        b = ip.mat(st, c.args[1])
        return [('ret', st, T('plain' if b == FALSE else 'styled', v[2]) if b in (TRUE, FALSE) else T('styled', v[2]))]

    def tos(ip, st, c):
        v = ip.mat(st, c.args[0])
        if v[0] == 't' and v[1] == 'plain':
            return [('ret', st, v[2])]
        if v[0] == 't' and v[1] == 'styled':
            return [('ret', st, T('coloured', v[2]))]
        return None
    m = {'console::style': style, 'utils::style': style, 'StyledObject::force_styling': force, 'ToString::to_string': tos}
    for k in ('bright', 'bold', 'dim', 'underlined', 'italic', 'reverse', 'for_stderr', 'for_stdout') + tuple(a + b for a in ('', 'on_') for b in ('black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white', 'bright')):
        m['StyledObject::' + k] = keep
    return m


def flat(v):
    """(text, has colours) of a string value, or None"""
    if v[0] == 's':
        return v[1], False
    if v[0] == 't' and v[1] == 'coloured':
        r = flat(v[2])
        return None if r is None else (r[0], True)
    if v[0] == 't' and v[1] == 'orig':
        return 'ORIG', False
    if v[0] == 'cat':
        out, col = '', False
        for x in v[1]:
            r = flat(x)
            if r is None:
                return None
            out += r[0]
            col = col or r[1]
        return out, col
    return None


EXTRACT = 'span::Span::extract'


def ext(ip, st, c):
    return [('ret', st, T('orig', ip.mat(st, c.args[0]), ip.mat(st, c.args[1])))]


def text(ck, fn, given, what, exp, colours, m):
    p = ck.p
    w = ck.where(ck.fn(fn))
    ms = models()
    ms[EXTRACT] = ext
    ip, outs = ck.run(fn, given, opaque=lambda q: q == EXTRACT, models=ms)
    for k, s, v in outs:
        if k != 'ret':
            ck.bad('panics', '%s: %s panics' % (what, fn), w)
            continue
        r = ip.mat(s, v)
        f = flat(r)
        if f is None or s.facts:
            ck.unsure('%s: %s' % (what, pp(r, p)[:100]))
            continue
        for t in subs(r):
            if t[0] == 't' and t[1] == 'orig' and (t[2] != field(p, m, 'span') or t[3] != T('code')):
                ck.bad('orig', '%s: the original text is taken from %s' % (what, pp(t, p)[:100]), w)
        ck.expect(f[0] == exp, 'text:' + fn, '%s: %s gives "%s", not "%s"' % (what, fn, f[0], exp), w, exp)
        if not colours:
            ck.expect(not f[1], 'colour:' + fn, '%s: %s can contain colour codes' % (what, fn), w)


def subs(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subs(x)


def names(ck):
    p = ck.p
    for g, fn, rt, rep in cases(p):
        m = mutant(p, g, fn, rt, rep)
        d = want(g, fn, rt, rep)
        what = '%s%s%s%s' % (g, ' in a function' if fn else '', ' ' + rt if rt else '', ' replacement %r' % rep)
        for lc in (True, False):
            full = 'src/a/b.rs' + (':5:6' if lc else '') + ': ' + d
            text(ck, M + '::name', {0: m, 1: TRUE if lc else FALSE}, what, full, False, m)
            text(ck, M + '::to_styled_string', {0: m, 1: TRUE if lc else FALSE}, what, full, True, m)
        text(ck, M + '::describe_change', {0: m}, what, d, False, m)


def json(ck):
    p = ck.p
    for g, fn, rt, rep in cases(p):
        m = mutant(p, g, fn, rt, rep)
        j = serx.json_of(ck, m)
        lc = lambda a, b, c, d: {'start': {'line': a, 'column': b}, 'end': {'line': c, 'column': d}}
        w = {'package': 'pk', 'file': 'src/a/b.rs', 'function': {'function_name': 'A::f', 'return_type': rt, 'span': lc(1, 2, 30, 4)} if fn else None, 'span': lc(5, 6, 7, 8), 'replacement': rep, 'genre': g}
        judge(ck, j, w, 'mutant', '%s %s' % (g, rep), M)
    SC = 'scenario::Scenario'
    judge(ck, serx.json_of(ck, mk(p, SC, 'Baseline')), 'Baseline', 'scenario', 'baseline', SC)
    m = mutant(p, 'FnValue', True, '', 'x')
    vs = [v[0] for v in p.adts[SC]['variants']]
    j = serx.json_of(ck, ('adt', SC, vs.index('Mutant'), (m,)))
    judge(ck, j, {'Mutant': serx.json_of(ck, m)}, 'scenario', 'mutant', SC)


def judge(ck, j, w, key, what, ty):
    im = serx.impls(ck.p)
    if ty not in im:
        ck.unsure('no serializer of %s' % ty)
        return
    where = ck.where(im[ty])
    if known(j):
        if isinstance(w, dict) and isinstance(j, dict):
            for k in w:
                ck.expect(k in j and j[k] == w[k], 'json:%s:%s' % (key, k), '%s: the JSON has %s=%s, not %s' % (what, k, j.get(k, 'nothing'), w[k]), where, '%s.%s' % (key, k))
        else:
            ck.expect(j == w, 'json:' + key, '%s: the JSON is %s, not %s' % (what, j, w), where)
    else:
        ck.unsure('%s: json %s' % (what, str(j)[:100]))


def known(j):
    if isinstance(j, dict):
        return all(known(x) for x in j.values())
    if isinstance(j, list):
        return all(known(x) for x in j)
    return not isinstance(j, tuple)


def diff(ck):
    p = ck.p
    fn = M + '::diff'
    inst = ck.fn(fn)
    w = ck.where(inst)
    DC = M + '::describe_change'

    class Mon(Monitor):
        def on_call(self, st, c):
            if c.short in ('TextDiff::from_lines', 'UnifiedDiff::header'):
                st.mon = (st.mon or ()) + ((c.short, tuple(ck_ip[0].mat(st, a) for a in c.args)),)
    ck_ip = [None]
    for d in ('replace A::f with x', 'replace a\nb with x'):
        ip = ck.interp(monitor=Mon(), opaque=lambda q: q == DC, models={DC: lambda ip, st, c: [('ret', st, ('s', d))]})
        ck_ip[0] = ip
        m = mutant(p, 'FnValue', True, '', 'x')
        ip, outs = ck.run(fn, {0: m, 1: T('mutated')}, ip=ip)
        for k, s, v in outs:
            if k != 'ret':
                continue
            ev = s.mon or ()
            fl = [e for e in ev if e[0] == 'TextDiff::from_lines']
            if len(fl) != 1:
                ck.unsure('diff: %d comparisons' % len(fl))
                continue
            ck.expect(fl[0][1][:2] == (T('code'), T('mutated')), 'diff:sides', 'the diff is from %s to %s' % (pp(fl[0][1][0], p)[:60], pp(fl[0][1][1], p)[:60]), w, 'diff original -> mutated')
            h = [e for e in ev if e[0] == 'UnifiedDiff::header']
            if len(h) != 1 or h[0][1][1][0] != 's' or h[0][1][2][0] != 's':
                ck.unsure('diff: header %s' % (h and pp(h[0][1][2], p)[:60]))
                continue
            ck.expect(h[0][1][1] == ('s', 'src/a/b.rs'), 'diff:file', 'the diff is headed %s instead of the path of the file' % pp(h[0][1][1], p), w)
            ck.expect(h[0][1][2] == ('s', d.replace('\n', ' ')), 'diff:title', 'the diff is titled %s instead of the description of the mutant on one line' % pp(h[0][1][2], p), w)


def slashes(ck):
    """the path shown is the path, component by component"""
    p = ck.p
    m = [i for i in p.raw_bodies if p.path(i).endswith('::to_slash_path')]
    if not m:
        raise Missing('to_slash_path')
    for path in ('src/lib.rs', 'lib.rs', 'a/b/c/d.rs', 'a b/c.rs', '../x.rs'):
        ip, outs = ck.run(m[0], {0: ('s', path)})
        for k, s, v in outs:
            r = ip.mat(s, v)
            if k != 'ret' or r[0] != 's':
                ck.unsure('to_slash_path(%s): %s' % (path, pp(r, p)[:60]))
                continue
            ck.expect(r == ('s', path), 'slashes', 'the path %s is shown as %s' % (path, r[1]), ck.where(m[0]))


def display(ck):
    p = ck.p
    SC = 'scenario::Scenario'
    vs = [v[0] for v in p.adts[SC]['variants']]
    q = [i for i in p.raw_bodies if p.path(i) == '<scenario::Scenario as std::fmt::Display>::fmt']
    if not q:
        raise Missing('Display of Scenario')

    class Mon(Monitor):
        def on_call(self, st, c):
            if c.short in ('Formatter::write_str', 'Formatter::pad', 'Write::write_str', 'Formatter::write_fmt', 'Display::fmt'):
                st.mon = (st.mon or ()) + (I[0].mat(st, c.args[1] if c.short != 'Display::fmt' else c.args[0]),)
    I = [None]
    for v, e in ((('adt', SC, vs.index('Mutant'), (T('m'),)), T(M + '::name', T('m'), TRUE)), (mk(p, SC, 'Baseline'), ('s', 'baseline'))):
        ip = ck.interp(monitor=Mon(), opaque=lambda q: q == M + '::name')
        I[0] = ip
        ip, outs = ck.run(q[0], {0: v}, ip=ip)
        for k, s, r in outs:
            ev = s.mon or ()
            if k != 'ret' or len(ev) != 1:
                ck.unsure('Display of Scenario: %s' % len(ev))
                continue
            if ev[0] == e:
                ck.good('scenario shown as %s' % pp(e, p))
            elif ev[0][0] == 's' or ev[0][0] == 't' and ev[0][1] == M + '::name':
                ck.bad('display', 'a scenario is shown as %s, not %s' % (pp(ev[0], p), pp(e, p)), ck.where(q[0]))
            else:
                ck.unsure('Display of Scenario: %s' % pp(ev[0], p)[:60])


def check(ck):
    for f in (names, json, diff, slashes, display):
        try:
            f(ck)
        except Missing as e:
            ck.unsure('not found: %s' % e)
