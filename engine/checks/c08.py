"""The baseline gate."""
from vlib import *
import labx
from labx import *

EXPLANATION = ('All partitions of the lab with the baseline enabled and disabled, for every outcome a baseline run can have (each exit kind, and an internal error): whether any mutant '
               'is tested, the order, the packages the baseline covers, the build directory, and where the time limits of the mutants come from.')
MIN_OBLIGATIONS = 40


def check(ck):
    p = ck.p
    where = ck.where(ck.fn(TM))
    seen = {}
    for jobs, n, inp in ((1, 2, None), (2, 2, None), (1, 1, TRUE), (1, 1, FALSE), (1, 3, TRUE)):
        for tests in ('Workspace', 'Mutated', 'Named') if n == 2 else ('Workspace',):
            ip, paths = lab(ck, jobs, n, baseline='Run', tests=tests, in_place=inp)
            for k, s, v, evs in paths:
                runs = [e for e in evs if e[0] == 'run']
                base = [e for e in runs if variant(p, e[2]) == 'Baseline']
                mut = [e for e in runs if variant(p, e[2]) == 'Mutant']
                if any(variant(p, e[2]) is None for e in runs):
                    ck.unsure('scenario not decided')
                    continue
                if not runs:
                    ck.expect(is_err(v), 'nothing-run', 'the lab succeeds without running anything', where)
                    continue
                ck.expect(len(base) == 1, 'once', 'the baseline is run %d times' % len(base), where)
                if len(base) != 1:
                    continue
                b = base[0]
                ck.expect(runs[0] is b, 'first', 'a mutant is tested before the baseline', where)
                res = b[8]
                seen[res] = seen.get(res, 0) + 1
                ck.expect(b[3] == T('dir0'), 'dir', 'the baseline is run in %s' % pp(b[3], p)[:80], where)
                ck.expect(b[5] == T(TFOR, b[7]), 'limits', 'the baseline runs with time limits %s' % pp(b[5], p)[:80], where)
                sel = b[4]
                if tests != 'Mutated':
                    ck.expect(variant(p, sel) == 'All' or tests == 'Named' and mentions(sel, T('names')), 'packages:' + tests,
                              'the baseline does not run the tests that are run on mutants (%s): %s' % (tests, pp(sel, p)[:120]), where)
                need = [T('fld', T('fld', m, 'source_file'), 'package') for m in muts(n)]
                ck.expect(tests != 'Mutated' or variant(p, sel) == 'All' or all(mentions(sel, x) for x in need), 'packages', 'the baseline does not cover the package of every mutant: %s' % pp(sel, p)[:120], where)
                if res == 'Success':
                    if is_ok(v):
                        ck.expect(bool(mut), 'none-tested', 'no mutant is tested although the baseline succeeded', where)
                    for e in mut:
                        ck.expect(e[5][0] == 't' and e[5][1] == TFROM, 'from-baseline', 'mutants run with time limits %s although there is a baseline' % pp(e[5], p)[:80], where)
                else:
                    ck.expect(not mut, 'gate:' + res, 'mutants are tested although the baseline ended with %s' % res, where, 'baseline %s: no mutant tested' % res)
                    spawned = any(e[0] == 'spawn' for e in evs)
                    ck.expect(not spawned, 'gate-spawn:' + res, 'workers are started although the baseline ended with %s' % res, where)
                    if res == 'Err':
                        ck.expect(is_err(v), 'internal-error', 'an internal error in the baseline is not reported', where)
                    else:
                        ck.expect(is_ok(v) and v[3][0] == T('fld', T('output_dir'), 'lab_outcome'), 'result:' + res, 'after a failed baseline the result is %s' % pp(v, p)[:80], where)
            ip, paths = lab(ck, jobs, n, baseline='Skip', tests=tests, in_place=inp)
            for k, s, v, evs in paths:
                runs = [e for e in evs if e[0] == 'run']
                ck.expect(all(variant(p, e[2]) == 'Mutant' for e in runs), 'skip', 'a baseline is run although it is disabled', where)
                for e in runs:
                    ck.expect(e[5][0] == 't' and e[5][1] == TWITH, 'skip-limits', 'without a baseline mutants run with time limits %s' % pp(e[5], p)[:80], where)
                if is_ok(v):
                    ck.expect(bool(runs), 'skip-none', 'no mutant is tested', where)
    # the packages covered, for explicit packages
    for names in (['b'], ['b', 'a'], ['b', 'a', 'b'], ['c', 'b', 'a']):
        ms = in_packages(p, names)
        ip, paths = lab(ck, 1, len(ms), baseline='Run', tests='Mutated', mutants=ms, faults=False)
        for k, s, v, evs in paths:
            for e in evs:
                if e[0] != 'run' or variant(p, e[2]) != 'Baseline':
                    continue
                xs = elems(e[4][3][0]) if variant(p, e[4]) == 'Explicit' else None
                got = {field(p, x, 'name') for x in xs} if xs is not None and all(x[0] == 'adt' for x in xs) else None
                if variant(p, e[4]) == 'All':
                    continue
                if got is None:
                    ck.unsure('packages of the baseline: %s' % pp(e[4], p)[:100])
                    continue
                ck.expect(got >= {('s', n) for n in names}, 'covers', 'with mutants in %s the baseline covers only %s' % (names, sorted(x[1] for x in got)), where, 'baseline covers %s' % names)
    ck.floor('baseline outcomes', len(seen), len(p.adts['process::Exit']['variants']))
