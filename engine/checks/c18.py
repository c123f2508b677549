"""Filters by file and by name keep exactly what they say."""
from vlib import *
import itertools
import re
import c34

EXPLANATION = ('Decision tables by value-flow over MIR: whether a file is allowed, for every combination of given and matching globs; whether a mutant is allowed, for every combination of given and matching regular expressions, matched against the complete name; '
               'and the patterns made of explicit lists of globs: with a slash as it is, otherwise matching the file or directory of that name anywhere, star not matching a slash.')
ASSUMPTIONS = ['globset and regex match as documented']
MIN_OBLIGATIONS = 30
AM = 'options::Options::allows_mutant'
AF = 'options::Options::allows_source_file_path'
BG = 'glob::build_glob_set'
NAME = 'mutant::Mutant::name'


def options(p, **kw):
    return mk(p, 'options::Options', **kw)


def files(ck):
    p = ck.p
    inst = ck.fn(AF)
    where = ck.where(inst)
    for ge, gx in itertools.product((False, True), repeat=2):
        E, X, PATH = T('E'), T('X'), T('path')
        ip, outs = ck.run(AF, {0: options(p, examine_globset=some(E) if ge else NONE, exclude_globset=some(X) if gx else NONE), 1: PATH})
        table(ck, p, ip, outs, 'file', where, lambda e, x: (not ge or e) and not (gx and x), (E, X), PATH, ge, gx, 'GlobSet::is_match')


def truth(t, c):
    return c == TRUE if c in (TRUE, FALSE) else None


def match_of(t):
    """(set, subject) of a matching term"""
    if t[0] == 't' and t[1].endswith('::is_match') and len(t) >= 4:
        return t[2], t[3]
    return None


def table(ck, p, ip, outs, what, where, want, sets, subject, ge, gx, fn):
    for e, x in itertools.product((False, True), repeat=2):
        if not ge and e or not gx and x:
            continue      # an empty set matches nothing
        n = 0
        for k, s, v in outs:
            if k != 'ret':
                ck.bad(what + '-panic', 'whether a %s is allowed cannot be decided' % what, where)
                continue
            env = {}
            wrong = None

            def val(t):
                if t in (TRUE, FALSE):
                    return t == TRUE
                if t[0] == 't' and t[1] in ('not', 'un:not'):
                    a = val(t[2])
                    return None if a is None else not a
                m = match_of(t)
                if m:
                    if m[0] == sets[0]:
                        r = e
                    elif m[0] == sets[1]:
                        r = x
                    else:
                        return None
                    return r if subject is None or m[1] == subject else 'subject:%s' % pp(m[1], p)[:80]
                if t[0] == 't' and t[1].endswith('is_empty') and t[2] in sets:
                    return not (ge, gx)[sets.index(t[2])]
                if t[0] == 't' and (t[1].endswith('::len') or t[1] == 'len') and t[2] in sets:
                    return None
                return None
            skip = unk = False
            for f, c in s.facts.items():
                a = val(f)
                if isinstance(a, str):
                    wrong = a
                    a = None
                    continue
                if a is None:
                    if f[0] == 't' and any(q in c34.words(f, set()) for q in ('E', 'X')):
                        unk = True
                    continue
                if truth(f, c) is not None and truth(f, c) != a:
                    skip = True
            if skip:
                continue
            r = val(ip.mat(s, v))
            n += 1
            nm = '%s; examine %s, exclude %s' % (what, 'none' if not ge else 'matching' if e else 'not matching', 'none' if not gx else 'matching' if x else 'not matching')
            if wrong or isinstance(r, str):
                ck.bad(what + '-subject', '%s: matched against %s' % (nm, (wrong or r)[8:]), where)
                continue
            if unk or r is None:
                ck.unsure('%s: %s' % (nm, pp(ip.mat(s, v), p)[:150]))
                continue
            ck.expect(r == want(e, x), what, '%s: it is %s' % (nm, 'allowed' if r else 'not allowed'), where, '%s: %s' % (nm, 'allowed' if r else 'not allowed'))
        if not n:
            ck.unsure('%s: no path for a case' % what)


def names(ck):
    p = ck.p
    inst = ck.fn(AM)
    where = ck.where(inst)
    ck.fn(NAME)
    M = mk(p, 'mutant::Mutant')
    for ge, gx in itertools.product((False, True), repeat=2):
        E, X = T('E'), T('X')
        models = {'RegexSet::is_empty': lambda ip, st, c: (lambda v: [('ret', st, (FALSE if ge else TRUE) if v == E else FALSE if gx else TRUE)] if v in (E, X) else None)(ip.mat(st, c.args[0])),
                  'RegexSet::len': lambda ip, st, c: (lambda v: [('ret', st, ('i', int(ge) if v == E else int(gx)))] if v in (E, X) else None)(ip.mat(st, c.args[0])),
                  NAME: lambda ip, st, c: [('ret', st, T('name', *[ip.mat(st, a) for a in c.args[1:]]))]}
        ip, outs = ck.run(AM, {0: options(p, examine_names=E, exclude_names=X), 1: M}, opaque=lambda q: q == NAME, models=models)
        table(ck, p, ip, outs, 'mutant', where, lambda e, x: (not ge or e) and not (gx and x), (E, X), T('name', TRUE), ge, gx, 'RegexSet::is_match')


class Globs(Monitor):
    def on_call(self, st, c):
        if c.short.startswith('GlobBuilder::') or c.short in ('GlobSetBuilder::add', 'Glob::new'):
            name = c.short.split('::')[-1]
            a = [c.m(st, i) for i in range(len(c.args))]
            a = [x[3][0] if x[0] == 'adt' and x[1].endswith('Cow') and x[3] else x for x in a]
            if c.short == 'Glob::new':
                q = st.copy()
                q.mon = (q.mon or ()) + (T('bad'),)
                return [('ret', st, ok(T('glob', a[0], frozen({})))), ('ret', q, err(T('badglob')))]
            if name == 'new':
                return [('ret', st, T('gb', a[0], frozen({})))]
            if name == 'build':
                b = a[0]
                if b[0] != 't' or b[1] != 'gb':
                    return None
                q = st.copy()
                q.mon = (q.mon or ()) + (T('bad'),)
                return [('ret', st, ok(T('glob', *b[2:]))), ('ret', q, err(T('badglob')))]
            if name == 'add':
                st.mon = (st.mon or ()) + (a[1],)
                return [('ret', st, c.args[0])]
            b = a[0]
            if b[0] == 't' and b[1] == 'gb' and len(a) == 2:
                nv = T('gb', b[2], frozen(dict(thaw(b[3]), **{name: a[1]})))
                if c.args[0][0] == 'ref':
                    c.ip.write(st, c.args[0][1], c.args[0][2], nv)
                    return [('ret', st, c.args[0])]
                return [('ret', st, nv)]
        return None


def frozen(d):
    return ('tup', tuple(('tup', (('s', k), v)) for k, v in sorted(d.items())))


def thaw(t):
    return {x[1][0][1]: x[1][1] for x in t[1]}


def globs(ck):
    p = ck.p
    insts = ck.p.find(BG)
    if not insts:
        raise Missing('function %s' % BG)
    for inst in insts[:1]:
        where = ck.where(inst)
        lib = ['foo.rs', 'src/*.rs', '*', 'a/b', '**/x', '/abs', 'dir', '']
        for n in (0, 1, 2):
            for gs in itertools.product(lib, repeat=n):
                ip, outs = ck.run(inst, {0: seq(*(('s', g) for g in gs))}, monitor=Globs())
                good = 0
                for k, s, v in outs:
                    r = ip.mat(s, v) if k == 'ret' else T('panic')
                    added = list(s.mon or ())
                    if is_err(r):
                        continue
                    if T('bad') in added:
                        ck.bad('glob-error', 'an invalid glob is ignored', where)
                        continue
                    if not is_ok(r):
                        ck.unsure('globs %s: %s' % (gs, pp(r, p)[:100]))
                        continue
                    good += 1
                    if not gs:
                        ck.expect(r[3][0] == NONE and not added, 'glob-none', 'without globs there is a set of patterns', where, 'no globs: no set')
                        continue
                    want = [w for g in gs for w in ([g] if '/' in g else ['**/' + g, '**/%s/**' % g])]
                    if any(a[0] != 't' or a[1] != 'glob' or a[2][0] != 's' for a in added):
                        ck.unsure('globs %s: %s' % (gs, [pp(a, p)[:60] for a in added]))
                        continue
                    got = [a[2][1] for a in added]
                    ck.expect(sorted(set(got)) == sorted(set(want)), 'glob', 'the globs %s become the patterns %s' % (list(gs), got), where, 'globs %s -> %s' % (list(gs), got))
                    for a in added:
                        o = thaw(a[3])
                        ck.expect(o.pop('literal_separator', FALSE) == TRUE, 'glob-star', 'in the glob %s a star matches a slash' % a[2][1], where)
                        o = {q: w for q, w in o.items() if not (q == 'case_insensitive' and w == FALSE or q == 'backslash_escape' and w == TRUE or q == 'empty_alternates' and w == FALSE)}
                        ck.expect(not o, 'glob-options', 'the glob %s is built with %s' % (a[2][1], sorted(o)), where)
                    ck.expect(is_some(r[3][0]) and 'GlobSetBuilder::build' in c34.words(r, set()), 'glob-set', 'the globs %s do not give the set built of them: %s' % (list(gs), pp(r, p)[:100]), where)
                if not good:
                    ck.unsure('globs %s: no result' % (gs,))


def applied(ck):
    """where the filters are applied: to every file and mutant of every package"""
    where = ck.where(ck.fn(c34.WP))
    for need in (c34.FMS, c34.WF, c34.LOAD, c34.AM, c34.AF):
        ck.fn(need)
    for name, tops, mods, outside, excluded in c34.GRAPHS:
        if excluded or name == c34.GRAPHS[0][0]:
            c34._walk(ck, where, name, tops, mods, outside, excluded, None, False, filters_only=True)


class Regexes(Monitor):
    def on_call(self, st, c):
        if c.short.startswith('RegexSetBuilder::'):
            name = c.short.split('::')[-1]
            a = [c.m(st, i) for i in range(len(c.args))]
            if name == 'new':
                return [('ret', st, T('rb', a[0], frozen({})))]
            b = a[0]
            if b[0] != 't' or b[1] != 'rb':
                return None
            if name == 'build':
                return [('ret', st, ok(T('regexset', *b[2:])))]
            if len(a) == 2:
                nv = T('rb', b[2], frozen(dict(thaw(b[3]), **{name: a[1]})))
                if c.args[0][0] == 'ref':
                    c.ip.write(st, c.args[0][1], c.args[0][2], nv)
                    return [('ret', st, c.args[0])]
                return [('ret', st, nv)]
        return None


def regexes(ck):
    """the regular expressions are compiled as given"""
    import c23
    p = ck.p
    where = ck.where(ck.fn(c23.ON))
    A, C = c23.base(p, 'Args', 'arg', True, {}), c23.base(p, 'config::Config', 'cfg', True, {})
    DEFAULT = {'unicode': TRUE, 'case_insensitive': FALSE, 'multi_line': FALSE, 'dot_matches_new_line': FALSE, 'crlf': FALSE, 'swap_greed': FALSE, 'ignore_whitespace': FALSE, 'octal': FALSE}
    ip, outs = ck.run(c23.ON, {0: A, 1: C}, opaque=lambda q: q == BG, monitor=Regexes(), max_seconds=60,
                      models={BG: lambda ip, st, c: [('ret', st, ok(T('globset', ip.mat(st, c.args[0]))))],
                              'RegexSet::new': lambda ip, st, c: [('ret', st, ok(T('regexset', ip.mat(st, c.args[0]), frozen({}))))]})
    n = 0
    for k, s, v in outs:
        v = ip.mat(s, v)
        if k != 'ret' or not is_ok(v):
            continue
        for fl in ('examine_names', 'exclude_names'):
            x = field(p, v[3][0], fl)
            if x is None or x[0] != 't' or x[1] != 'regexset':
                ck.unsure('%s: %s' % (fl, x and pp(x, p)[:80]))
                continue
            n += 1
            o = {q: w for q, w in thaw(x[3]).items() if DEFAULT.get(q) != w and not q.endswith(('size_limit', 'nest_limit'))}
            ck.expect(not o, 'regex-options', 'the regular expressions of %s are compiled with %s' % (fl, sorted(o)), where, '%s as given' % fl)
    if not n:
        ck.unsure('no regular expressions')


def check(ck):
    parts(ck, files, names, globs, applied, regexes)
