"""--in-diff keeps exactly the mutants that overlap a changed region."""
from vlib import *
import itertools

EXPLANATION = ('The filter is analysed on explicit lists of parsed patches: every arrangement of added, removed and context lines up to the bound, at several places, in one or two hunks, with and without context; and explicit lists of mutants, one on every line or '
               'spanning several lines. Which mutants remain must be those whose lines meet an added line or a line next to removed ones, in the same order; other files are not matched; text that differs from the source is an error.')
ASSUMPTIONS = ['the patch crate parses diffs as documented: ranges as in unified diffs']
MIN_OBLIGATIONS = 100
DF = 'in_diff::diff_filter'


def line(p, kind, text):
    return ('adt', 'patch::Line', [v[0] for v in p.adts['patch::Line']['variants']].index({'A': 'Add', 'R': 'Remove', 'C': 'Context'}[kind]), (text,))


def hunk(p, start, kinds, texts=None):
    new = sum(1 for k in kinds if k != 'R')
    old = sum(1 for k in kinds if k != 'A')
    n = 0
    ls = []
    for i, k in enumerate(kinds):
        t = ('s', 'removed') if k == 'R' else ('s', 'line %d' % (start + n)) if texts is None else texts[n]
        if k != 'R':
            n += 1
        ls.append(line(p, k, t))
    # a range of no lines starts at the line before it
    st = start if new else start - 1
    return mk(p, 'patch::Hunk', new_range=mk(p, 'patch::Range', start=('i', st), count=('i', new)), old_range=mk(p, 'patch::Range', start=('i', start), count=('i', old)), range_hint=('s', ''), lines=seq(*ls))


def patch(p, path, *hunks):
    return mk(p, 'patch::Patch', old=mk(p, 'patch::File', path=('s', 'a/x'), meta=NONE), new=mk(p, 'patch::File', path=('s', path), meta=NONE), hunks=seq(*hunks), end_newline=TRUE)


def mutant(p, path, a, b, n, code):
    lc = lambda x: mk(p, 'span::LineColumn', line=('i', x), column=('i', 1))
    return mk(p, 'mutant::Mutant', source_file=mk(p, 'source::SourceFile', tree_relative_path=('s', path), code=('s', code)), span=mk(p, 'span::Span', start=lc(a), end=lc(b)), replacement=('s', 'rep %d' % n), genre=T('genre'), function=NONE)


def spec(hunks):
    """(lines that must match, lines that may match)"""
    must, may = set(), set()
    for start, kinds in hunks:
        n = start
        prev = False
        for k in kinds:
            if k == 'R':
                if n > 1:
                    must.add(n - 1)
                prev = True
                continue
            if prev:
                must.add(n)
            prev = False
            if k == 'A':
                must.add(n)
            n += 1
        if prev:
            # nothing of the new file follows in this hunk: without context lines the next line is there, at the end of the file it is not
            (may if any(k != 'R' for k in kinds) else must).add(n)
    return must, may


def code_lines(n):
    return ''.join('line %d\n' % i for i in range(1, n + 1))


def run(ck, patches, mutants, diff=None):
    p = ck.p
    fn = ck.fn(DF)
    PA = seq(*patches)
    models = {'Patch::from_multiple': lambda ip, st, c: [('ret', st, ok(PA))]}
    ip, outs = ck.run(fn, {0: seq(*mutants), 1: ('s', 'diff --git a b\n') if diff is None else diff}, models=models, opaque=lambda q: q == 'mutant::Mutant::name' or 'to_slash_path' in q)
    return ip, outs


def lines_matched(ck, name, key, hunks, N=12):
    p = ck.p
    where = ck.where(ck.fn(DF))
    code = code_lines(N)
    ms = [mutant(p, 'src/a.rs', i, i, i, code) for i in range(1, N + 1)]
    ip, outs = run(ck, [patch(p, 'b/src/a.rs', *(hunk(p, s, k) for s, k in hunks))], ms)
    must, may = spec(hunks)
    for k, s, v in outs:
        r = ip.mat(s, v)
        if k != 'ret':
            ck.unsure('%s: panics' % name)
            continue
        if not is_ok(r):
            ck.unsure('%s: %s' % (name, pp(r, p)[:100])) if not is_err(r) else ck.bad('error:' + key, '%s: the filter fails' % name, where)
            continue
        got = elems(r[3][0])
        if got is None:
            ck.unsure('%s: %s' % (name, pp(r, p)[:200]))
            continue
        nums = [field(p, field(p, field(p, m, 'span'), 'start'), 'line')[1] for m in got]
        ck.expect(nums == sorted(nums), 'order', '%s: the order of the mutants changes' % name, where)
        g = set(nums)
        ck.expect(must <= g, 'lost:' + key, '%s: mutants on line %s are left out' % (name, sorted(must - g)), where, '%s: lines %s' % (name, sorted(g)))
        ck.expect(g <= must | may, 'extra:' + key, '%s: mutants on line %s are kept' % (name, sorted(g - must - may)), where)


def check(ck):
    p = ck.p
    N = 5 if ck.tier == 'thorough' else 4
    for k in range(1, N + 1):
        for ks in itertools.product('ARC', repeat=k):
            ks = ''.join(ks)
            if 'A' not in ks and 'R' not in ks:
                continue
            for start in ((1, 4) if len(ks) < 4 else (4,)):
                lines_matched(ck, 'hunk %s at line %d' % (ks, start), 'hunk', [(start, ks)])
    for a in ('A', 'R', 'RR', 'RA', 'CAC', 'CRC', 'AC', 'CR'):
        for b in ('A', 'R', 'RA', 'CAC', 'CRC', 'CR'):
            n = sum(1 for x in a if x != 'R')
            lines_matched(ck, 'hunks %s at 2 and %s at %d' % (a, b, 2 + n + 1), 'hunks', [(2, a), (2 + n + 1, b)])
    ranges(ck)
    files(ck)
    mismatch(ck)
    emptyd(ck)


def ranges(ck):
    """a mutant of several lines matches if any of its lines does"""
    p = ck.p
    where = ck.where(ck.fn(DF))
    code = code_lines(12)
    for ks, start in (('A', 5), ('CAC', 4), ('RC', 5), ('AAA', 5)):
        must, may = spec([(start, ks)])
        sp = [(a, b) for a in range(1, 11) for b in range(a, 11) if b - a in (0, 1, 2, 5, 9)]
        ms = [mutant(p, 'src/a.rs', a, b, i, code) for i, (a, b) in enumerate(sp)]
        ip, outs = run(ck, [patch(p, 'b/src/a.rs', hunk(p, start, ks))], ms)
        want = [i for i, (a, b) in enumerate(sp) if any(a <= x <= b for x in must)]
        for k, s, v in outs:
            r = ip.mat(s, v)
            got = elems(r[3][0]) if k == 'ret' and is_ok(r) else None
            if got is None:
                ck.unsure('ranges %s' % ks)
                continue
            ids = [int(field(p, m, 'replacement')[1].split()[1]) for m in got]
            lost = [sp[i] for i in want if i not in ids]
            more = [sp[i] for i in ids if i not in want]
            ck.expect(not lost, 'lost:range', 'hunk %s at %d: mutants on lines %s are left out' % (ks, start, lost[:3]), where, 'mutants of several lines, hunk %s' % ks)
            ck.expect(not more, 'extra:range', 'hunk %s at %d: mutants on lines %s are kept' % (ks, start, more[:3]), where)
            ck.expect(len(set(ids)) == len(ids), 'dup', 'a mutant is kept twice', where)


def files(ck):
    p = ck.p
    where = ck.where(ck.fn(DF))
    code = code_lines(6)
    ms = [mutant(p, f, i, i, n * 10 + i, code) for n, f in enumerate(('src/a.rs', 'src/b.rs', 'b/src/c.rs', 'a.rs')) for i in (1, 2)]
    paths = [field(p, field(p, m, 'source_file'), 'tree_relative_path')[1] for m in ms]
    for target, hit in (('b/src/a.rs', 'src/a.rs'), ('src/a.rs', 'src/a.rs'), ('b/src/b.rs', 'src/b.rs'), ('/dev/null', None), ('b/src/zzz.rs', None), ('b/b/src/c.rs', 'b/src/c.rs'), ('b/a.rs', 'a.rs'), ('b/README.md', None)):
        ip, outs = run(ck, [patch(p, target, hunk(p, 2, 'A'))], ms)
        for k, s, v in outs:
            r = ip.mat(s, v)
            got = elems(r[3][0]) if k == 'ret' and is_ok(r) else None
            if got is None:
                ck.unsure('file %s' % target)
                continue
            want = [m for m, q in zip(ms, paths) if q == hit and field(p, field(p, field(p, m, 'span'), 'start'), 'line') == ('i', 2)]
            ck.expect(got == want, 'file', 'a change of %s matches mutants in %s' % (target, sorted({field(p, field(p, m, 'source_file'), 'tree_relative_path')[1] for m in got})), where, 'change of %s' % target)
    # several files
    ip, outs = run(ck, [patch(p, 'b/src/a.rs', hunk(p, 1, 'A')), patch(p, '/dev/null', hunk(p, 1, 'R')), patch(p, 'b/src/b.rs', hunk(p, 2, 'A'))], ms)
    for k, s, v in outs:
        r = ip.mat(s, v)
        got = elems(r[3][0]) if k == 'ret' and is_ok(r) else None
        if got is None:
            ck.unsure('several files: %s' % pp(r, p)[:100])
            continue
        ck.expect(got == [ms[0], ms[3]], 'files', 'a diff of several files matches the wrong mutants', where, 'several files')


    # the same file twice, the later lines first: an error, or both changes count
    code = code_lines(8)
    ms = [mutant(p, 'src/a.rs', i, i, i, code) for i in range(1, 9)]
    for a, b in ((6, 2), (2, 6), (7, 1), (4, 4)):
        ip, outs = run(ck, [patch(p, 'b/src/a.rs', hunk(p, a, 'AA')), patch(p, 'b/src/a.rs', hunk(p, b, 'A'))], ms)
        for k, s, v in outs:
            r = ip.mat(s, v)
            got = elems(r[3][0]) if k == 'ret' and is_ok(r) else None
            if k == 'ret' and is_err(r):
                ck.good('a file named twice is an error')
            elif got is None:
                ck.unsure('file twice: %s' % pp(r, p)[:100])
            else:
                nums = {field(p, field(p, field(p, m, 'span'), 'start'), 'line')[1] for m in got}
                ck.expect(nums == {a, a + 1, b}, 'twice', 'lines %s of a file are changed by two parts of the diff: mutants on lines %s are kept' % (sorted({a, a + 1, b}), sorted(nums)), where, 'file named twice')


def mismatch(ck):
    """text that is not that of the source is an error, whichever line differs"""
    p = ck.p
    where = ck.where(ck.fn(DF))
    code = code_lines(8)
    ms = [mutant(p, 'src/a.rs', i, i, i, code) for i in range(1, 9)]
    for ks in ('A', 'CAC', 'CRC', 'AA'):
        n = sum(1 for x in ks if x != 'R')
        for bad in range(-1, n):
            texts = [('s', 'line %d' % (3 + i) if i != bad else 'other') for i in range(n)]
            for target, inside in (('b/src/a.rs', True), ('b/src/other.rs', False)):
                ip, outs = run(ck, [patch(p, target, hunk(p, 3, ks, texts))], ms)
                for k, s, v in outs:
                    r = ip.mat(s, v)
                    if k != 'ret' or not (is_ok(r) or is_err(r)):
                        ck.unsure('text %s' % ks)
                        continue
                    want = bad >= 0 and inside
                    ck.expect(is_err(r) == want, 'text', 'a diff whose line %d %s is %s' % (3 + bad, 'differs from the source' if want else 'is in a file without mutants' if bad >= 0 else 'agrees', 'accepted' if want else 'rejected'), where, 'text of the diff %s the source: %s' % ('differs from' if want else 'agrees with', 'error' if want else 'accepted'))


def emptyd(ck):
    p = ck.p
    where = ck.where(ck.fn(DF))
    for d in ('', '\n', '  \n'):
        ip, outs = run(ck, [patch(p, 'b/src/a.rs', hunk(p, 1, 'A'))], [mutant(p, 'src/a.rs', 1, 1, 1, code_lines(3))], ('s', d))
        for k, s, v in outs:
            r = ip.mat(s, v)
            if k != 'ret' or not is_ok(r) or elems(r[3][0]) is None:
                ck.unsure('empty diff')
                continue
            ck.expect(elems(r[3][0]) == [], 'empty', 'an empty diff matches mutants', where, 'empty diff: no mutants')
