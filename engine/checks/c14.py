"""--iterate."""
from vlib import *
import mainx
from mainx import *

EXPLANATION = ('Reading, filtering and carrying over of earlier results computed symbolically over an explicit set of result files (every subset present), explicit mutant names and lists; '
               'every partition of main: the earlier results are read before the directory is rotated, removed from the mutants to test, and written to the new directory before any testing.')
MIN_OBLIGATIONS = 60
WR = 'output::OutputDir::write_previously_caught'
NEW = 'output::OutputDir::new'
NAME = 'mutant::Mutant::name'


def check(ck):
    parts(ck, loading, removing, writing, wiring)


def pathkey(v, root):
    """'a/b' for join(root, a, b), else None"""
    if v[0] == 't' and v[1] == 'join' and v[2] == root and all(x[0] == 's' for x in v[3:]):
        return '/'.join(x[1] for x in v[3:])
    return None


def loading(ck):
    p = ck.p
    inst = ck.fn(LOAD)
    where = ck.where(inst)
    text = {'caught': 'src/a b.rs:1:2: replace f -> () with ()\nc2: x in <impl A for B>::b\nc2\n', 'unviable': 'u1 with ""\n# u2\n', 'previously_caught': 'p1\np2 -> Vec<u8> with vec![]\nc2\n', 'missed': 'm1\n', 'timeout': 't1\n'}
    use = ('caught', 'unviable', 'previously_caught')
    names = list(text)
    for bits in range(1 << 5):
        fs = {'mutants.out/%s.txt' % n: text[n] for i, n in enumerate(names) if bits >> i & 1}
        # earlier still: those results do not count any more
        fs |= {'mutants.out.old/%s.txt' % n: 'OLD %s\n' % n for n in names}
        for broken in [None] + ([f for f in fs if f.startswith('mutants.out/') and f.split('/')[1][:-4] in use] if bits in (31, 7) else []):
            unknown = []

            def look(ip, st, c):
                k = pathkey(ip.mat(st, c.args[0]), T('dir'))
                if k is None:
                    return None
                return [('ret', st, TRUE if k in fs or k in ('mutants.out', 'mutants.out.old') and c.short.endswith('exists') else FALSE)]

            def read(ip, st, c):
                k = pathkey(ip.mat(st, c.args[0]), T('dir'))
                if k is None:
                    return None
                if k in fs and k != broken:
                    return [('ret', st, ok(('s', fs[k])))]
                return [('ret', st, err(T('io_error', ('s', k))))]
            m = {n: look for n in ('Utf8Path::is_file', 'Utf8Path::exists', 'Path::is_file', 'Path::exists')}
            m['fs::read_to_string'] = read
            ip, outs = ck.run(inst, {0: T('dir')}, models=m)
            want = {l for n in use if 'mutants.out/%s.txt' % n in fs for l in text[n].splitlines()}
            for k, s, v in outs:
                v = ip.mat(s, v)
                tag = 'with %s present%s' % (', '.join(sorted(f for f in fs if f.startswith('mutants.out/'))) or 'no files', ' and %s unreadable' % broken if broken else '')
                if k != 'ret':
                    ck.unsure(tag + ': ' + k)
                    continue
                if is_err(v):
                    if broken is None:
                        if mentions_call(v, 'io_error'):
                            ck.bad('load-error', '%s: an error is reported' % tag, where)
                        elif not s.facts:
                            ck.bad('load-error', '%s: an error is reported' % tag, where)
                        else:
                            ck.unsure(tag)
                    else:
                        ck.good()
                    continue
                es = elems(v[3][0]) if is_ok(v) else None
                if es is None or any(x[0] != 's' for x in es):
                    ck.unsure('%s: %s' % (tag, pp(v, p)[:120]))
                    continue
                got = {x[1] for x in es}
                if broken:
                    ck.bad('load-unreadable', '%s: the failure to read is ignored' % tag, where)
                    continue
                ck.expect(not (got - want), 'load-extra', '%s: mutants are taken to be caught that are not: %s' % (tag, sorted(got - want)), where)
                ck.expect(not (want - got), 'load-missing', '%s: earlier results are forgotten: %s' % (tag, sorted(want - got)), where, '%s -> %s' % (tag, sorted(got)))


def mentions_call(t, name):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 't' and len(t) > 1 and t[1] == name:
        return True
    return any(mentions_call(x, name) for x in t if isinstance(x, tuple))


def removing(ck):
    p = ck.p
    inst = ck.fn(REM)
    where = ck.where(inst)
    D = 'visit::Discovered'

    def name(ip, st, c):
        m = ip.mat(st, c.args[0])
        full = ip.mat(st, c.args[1])
        if m[0] == 't' and m[1] == 'm' and full in (TRUE, FALSE):
            return [('ret', st, ('s', ('full' if full == TRUE else 'short') + str(m[2][1])))]
        return None

    for n in (0, 1, 3):
        ms = [T('m', ('i', i)) for i in range(n)]
        for prev in ([], ['full0'], ['full2', 'full0'], ['full1', 'other'], ['short0', 'full'], ['full0', 'full1', 'full2'], ['full10', 'xfull1', 'ull0']):
            ip, outs = ck.run(inst, {0: mk(p, D, mutants=seq(*ms)), 1: seq(*[('s', x) for x in prev])}, opaque=lambda q: q == NAME, models={NAME: name})
            want = [m for m in ms if 'full%d' % m[2][1] not in prev]
            for k, s, v in outs:
                d = ip.mat(s, ('ref', ('A', 0), ()))
                while d[0] == 'ref':
                    d = ip.mat(s, ip.read(s, d[1], d[2]))
                es = elems(field(p, d, 'mutants'))
                tag = '%d mutants, previously caught %s' % (n, prev)
                if k == 'ret' and es is not None and not s.facts:
                    ck.expect(es == want, 'remove', '%s: kept %s' % (tag, ['full%d' % x[2][1] for x in es]), where, '%s -> %d kept' % (tag, len(want)))
                else:
                    ck.unsure('%s: %s' % (tag, pp(d, p)[:120]))


def writing(ck):
    p = ck.p
    inst = ck.fn(WR)
    where = ck.where(inst)
    P = T('outdir')
    names = ('Write::write_all', 'fs::write', 'Write::write_fmt')
    for n, const in ((0, 0), (1, 0), (3, 0), (1, 1), (3, 1)):
        ns = [('s', 'src/a.rs:%d:1: replace f -> u8 with %d' % (i, i)) if const else T('n', ('i', i)) for i in range(n)]
        ip, outs = ck.run(inst, {0: mk(p, 'output::OutputDir', path=P), 1: seq(*ns)}, monitor=Tracer(lambda q, s: s in names or s in ('OpenOptions::open', 'File::create', 'File::create_new')))
        target = T('join', P, ('s', 'previously_caught.txt'))
        for k, s, v in outs:
            v = ip.mat(s, v)
            evs = s.mon or ()
            texts = []
            for e in evs:
                if e[0] in ('OpenOptions::open', 'File::create', 'File::create_new'):
                    ck.expect(e[1][-1] == target, 'carry-path', 'earlier results are written to %s' % pp(e[1][-1], p)[:100], where)
                elif e[0] == 'fs::write':
                    ck.expect(e[1][0] == target, 'carry-path', 'earlier results are written to %s' % pp(e[1][0], p)[:100], where)
                    texts.append(e[1][1])
                else:
                    texts.append(e[1][1])
            if k != 'ret' or is_err(v) or any(mentions_call(t, 'open_error') for t in ()):
                continue
            # an unsuccessful open returns an error and writes nothing
            txt = cat(*texts) if texts else ('s', '')
            if n == 0 and not texts:
                continue
            want = cat(*[x for m in ns for x in (m, ('s', '\n'))]) if n else ('s', '')
            if txt != want and any(x not in ns and x[0] != 's' for x in (txt[1] if txt[0] == 'cat' else [txt])):
                ck.unsure('carried text %s' % pp(txt, p)[:120])
                continue
            ck.expect(txt == want, 'carry-text', 'of %d earlier results, %s is written' % (n, pp(txt, p)[:120]), where, '%d lines carried over' % n)


def wiring(ck):
    p = ck.p
    ip, outs = partitions(ck)
    n = 0
    for k, s, v in outs:
        evs = list(s.mon or ())
        names = [e[0] for e in evs]
        it = arg_fact(p, s, 'iterate')
        if it is False or it is None:
            for e in evs:
                if e[0] in (LOAD, REM, WR):
                    ck.bad('unasked', '%s is called without --iterate' % e[0], p.span_text(e[2]))
            ck.good()
            continue
        if NEW in names and LOAD in names:
            w = p.span_text(evs[names.index(NEW)][2])
            ck.expect(names.index(LOAD) < names.index(NEW), 'after-rotate', 'the earlier results are read after the output directory was rotated away', w)
            ck.expect(evs[names.index(LOAD)][1][0] == evs[names.index(NEW)][1][0], 'other-dir', 'the earlier results are read from %s but the run writes to %s' % (
                pp(evs[names.index(LOAD)][1][0], p)[:80], pp(evs[names.index(NEW)][1][0], p)[:80]), w)
        if 'lab::test_mutants' in names:
            n += 1
            i = names.index('lab::test_mutants')
            w = p.span_text(evs[i][2])
            ck.expect(LOAD in names[:i], 'not-loaded', 'with --iterate, mutants are tested without reading the earlier results', w)
            ck.expect(REM in names[:i], 'not-removed', 'with --iterate, mutants are tested without removing those caught earlier', w)
            ck.expect(WR in names[:i], 'not-carried', 'with --iterate, testing starts before the earlier results are carried over', w)
            lay, _ = layers(evs[i][1][0])
            ck.expect(REM in [x[0] for x in lay], 'not-used', 'with --iterate, the mutants tested are not the reduced list', w)
            if LOAD in names and REM in names and WR in names:
                lt = evs[names.index(LOAD)][1]
                loaded = T('fld', T('as', T(LOAD, *lt), 'Ok'), '0')
                ck.expect(evs[names.index(REM)][1][1] == loaded, 'remove-list', 'the mutants removed are %s' % pp(evs[names.index(REM)][1][1], p)[:100], w)
                ck.expect(evs[names.index(WR)][1][1] == loaded, 'carry-list', 'what is carried over is %s' % pp(evs[names.index(WR)][1][1], p)[:100], w, 'all earlier results are carried over')
                ck.expect(mentions_call(evs[names.index(WR)][1][0], NEW), 'carry-dir', 'the earlier results are carried to another directory', w)
    ck.floor('test runs with --iterate', n, 1)
    explicit(ck)


def explicit(ck):
    """the same with explicit earlier results and discovered mutants, some of which belong together"""
    p = ck.p
    D = 'visit::Discovered'

    def name(ip, st, c):
        m = ip.mat(st, c.args[0])
        full = ip.mat(st, c.args[1])
        if m[0] == 't' and m[1] == 'm' and full in (TRUE, FALSE):
            return [('ret', st, ('s', ('full' if full == TRUE else 'short') + str(m[2][1])))]
        return None
    n = 0
    for prev in (['full0', 'gone'], ['gone'], []):
        ms = [T('m', ('i', i)) for i in range(2)]
        loaded = seq(*[('s', x) for x in prev])
        models = {NAME: name, LOAD: lambda ip, st, c: [('ret', st, ok(loaded))],
                  DISC: lambda ip, st, c: [('ret', st, ok(mk(p, D, mutants=seq(*ms), files=seq())))]}
        ip, outs = analyse_main(ck, models=models, opaque=lambda q: q == NAME, skip=(REM,))
        want = [m for m in ms if 'full%d' % m[2][1] not in prev]
        for k, s, v in outs:
            evs = list(s.mon or ())
            names = [e[0] for e in evs]
            it = arg_fact(p, s, 'iterate')
            if 'lab::test_mutants' not in names:
                continue
            i = names.index('lab::test_mutants')
            w = p.span_text(evs[i][2])
            lay, base = layers(evs[i][1][0])
            es = elems(base)
            tag = '%s, earlier results %s' % ('--iterate' if it else 'no --iterate', prev)
            if es is None:
                ck.unsure('%s: mutants tested are %s' % (tag, pp(base, p)[:100]))
            else:
                n += 1
                ck.expect(es == (want if it else ms), 'selected', '%s: the mutants tested are made from %s' % (tag, pp(base, p)[:100]), w, '%s -> %d' % (tag, len(es)))
            if it and WR in names:
                got = elems(evs[names.index(WR)][1][1])
                if got is None:
                    ck.unsure('%s: carried over is %s' % (tag, pp(evs[names.index(WR)][1][1], p)[:100]))
                else:
                    ck.expect(set(got) == {('s', x) for x in prev}, 'carry-names', '%s: %s is carried over' % (tag, pp(evs[names.index(WR)][1][1], p)[:100]), w, 'all carried')
    ck.floor('explicit test runs', n, 1)
