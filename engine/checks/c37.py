"""The tests run on a mutant are those asked for."""
from vlib import *
import labx
from labx import *

EXPLANATION = ('All partitions of the lab with explicit mutants in explicit packages, for the three ways of choosing tests and several job counts: the packages given to every scenario run are compared with '
               'the choice (everything; the package of that very mutant; the packages named), and the lookup of named packages is followed for explicit workspaces and name lists.')
MIN_OBLIGATIONS = 30
PS = 'workspace::PackageSelection'
WS = 'workspace::Workspace'
ALL = ['ab', 'a', 'b', 'ba']


def names_of(p, sel):
    xs = elems(sel[3][0]) if variant(p, sel) == 'Explicit' else None
    if xs is None or any(x[0] != 'adt' for x in xs):
        return None
    ns = [field(p, x, 'name') for x in xs]
    return [n[1] for n in ns] if all(n[0] == 's' for n in ns) else None


def by_name(ck):
    """what packages_by_name gives for explicit packages and names, as {(names)}: packages}; None if undecided"""
    p = ck.p
    inst = ck.fn(PBN)
    b = p.body(inst)
    table = {}
    for names in ([], ['a'], ['ab', 'a'], ['a', 'a'], ['zz'], ['b', 'zz', 'a'], ['a', 'b', 'ab'], ['A'], ['b']):
        given = {}
        for i in range(b.argc):
            ty = p.types[b.locals[i + 1]]
            while ty['k'] == 'ref':
                ty = p.types[ty['t']]
            given[i] = mk(p, WS, packages=seq(*[package(p, n) for n in ALL])) if ty['s'].endswith('Workspace') else seq(*[('s', n) for n in names])
        ip, outs = ck.run(inst, given, opaque=is_console)
        for k, s, v in outs:
            if k != 'ret':
                continue
            xs = elems(ip.mat(s, v))
            got = None if xs is None or any(x[0] != 'adt' for x in xs) else [field(p, x, 'name') for x in xs]
            if got is None or any(x[0] != 's' for x in got):
                ck.unsure('packages named %s: %s' % (names, pp(ip.mat(s, v), p)[:100]))
                continue
            want = sorted({n for n in names if n in ALL})
            ck.expect(sorted(x[1] for x in got) == want, 'by-name', 'of the packages %s, those named %s are taken to be %s' % (ALL, names, [x[1] for x in got]), ck.where(inst),
                      'names %s: packages %s' % (names, want))


def check(ck):
    p = ck.p
    where = ck.where(ck.fn(TM))
    seen = 0
    for tests in ('Workspace', 'Mutated', 'Named'):
        for jobs, names, base in ((1, ['b', 'a', 'b'], 'Skip'), (2, ['b', 'a'], 'Skip'), (2, ['a', 'b', 'c'], 'Skip'), (1, ['a'], 'Skip'), (1, ['b', 'a', 'b'], 'Run')):
            ms = in_packages(p, names)
            ip, paths = lab(ck, jobs, len(ms), baseline=base, tests=tests, mutants=ms, faults=False)
            for k, s, v, evs in paths:
                for e in evs:
                    if e[0] != 'run':
                        continue
                    sel, sc = e[4], variant(p, e[2])
                    if sc is None or variant(p, sel) is None:
                        ck.unsure('packages of a run: %s' % pp(sel, p)[:100])
                        continue
                    if sc == 'Mutant':
                        own = field(p, field(p, field(p, e[2][3][0], 'source_file'), 'package'), 'name')
                        who = 'a mutant in package %s' % own[1]
                        need = [own[1]]
                    else:
                        who = 'the baseline'
                        need = sorted(set(names))
                    seen += 1
                    tag = '%s:%s' % (tests, sc)
                    if tests == 'Workspace':
                        ck.expect(variant(p, sel) == 'All', tag, '%s is tested with %s although the whole workspace was to be tested' % (who, pp(sel, p)[:100]), where, '%s: all packages' % who)
                    elif tests == 'Named':
                        ck.expect(variant(p, sel) == 'Explicit' and sel[3][0] == T(PBN, T('workspace'), T('names')), tag,
                                  '%s is tested with %s instead of the packages named' % (who, pp(sel, p)[:100]), where, '%s: the named packages' % who)
                    else:
                        got = names_of(p, sel) if variant(p, sel) == 'Explicit' else ['(all)']
                        if got is None:
                            ck.unsure('packages of a run: %s' % pp(sel, p)[:100])
                            continue
                        ck.expect(sorted(got) == need, tag, '%s is tested with the tests of %s instead of %s' % (who, got, need), where, '%s: tests of %s' % (who, need))
    ck.floor('scenario runs', seen, 30)
    by_name(ck)
