"""Every selected mutant is tested exactly once, whatever the number of jobs."""
from vlib import *
import labx
from labx import *

EXPLANATION = ('All partitions of the lab are enumerated for explicit mutant lists (0..4 mutants) and job counts (absent, 0..4), with every scenario run succeeding or '
               'failing, and with a second worker interposed at every lock acquisition of the first: on each the runs made are compared with the list, and the final '
               'result with the errors that occurred. The list handed over is the list written out.')
ASSUMPTIONS = ['interference between workers is explored at lock acquisitions (one interposed worker)', 'std Mutex and scoped threads behave as documented']
MIN_OBLIGATIONS = 100


def cases(tier):
    out = []
    for jobs in (None, 0, 1, 2, 3):
        for n in (0, 1, 2, 3):
            out.append(dict(jobs=jobs, n=n, faults=n < 3))
    out.append(dict(jobs=4, n=4, faults=False))
    out.append(dict(jobs=2, n=4, faults=False))
    out.append(dict(jobs=3, n=3, faults=True))
    out.append(dict(jobs=2, n=2, faults=False, preempt=True))
    out.append(dict(jobs=2, n=3, faults=False, preempt=True))
    out.append(dict(jobs=2, n=3, faults=False, shuffle=TRUE))
    out.append(dict(jobs=2, n=2, faults=True, baseline='Run'))
    out.append(dict(jobs=2, n=2, faults=False, panics=True))
    out.append(dict(jobs=1, n=1, faults=False, panics=True))
    if tier == 'thorough':
        out.append(dict(jobs=3, n=4, faults=True))
        out.append(dict(jobs=3, n=5, faults=False, preempt=True))
    return out


def check(ck):
    p = ck.p
    where = ck.where(ck.fn(TM))
    for kw in cases(ck.tier):
        n = kw['n']
        jobs = kw['jobs']
        ip, paths = lab(ck, **kw)
        tag = 'jobs=%s mutants=%d' % (jobs, n)
        completed = 0
        for k, s, v, evs in paths:
            faults = [e[1] for e in evs if e[0] == 'fault']
            runs = [e for e in evs if e[0] == 'run']
            mruns = [e for e in runs if variant(p, e[2]) == 'Mutant']
            baseline_failed = any(variant(p, e[2]) == 'Baseline' and e[8] not in ('Success',) for e in runs)
            tested = [e[2][3][0] for e in mruns]
            known = [t for t in tested if t in muts(n)]
            if len(known) != len(tested):
                ck.unsure('a tested mutant is not an element of the list: %s' % [pp(t, p) for t in tested])
                continue
            ck.expect(len(set(tested)) == len(tested), 'twice', '%s: a mutant is tested more than once' % tag, where)
            if is_err(v):
                ck.expect(bool(faults), 'spurious-error', '%s: the run fails although nothing went wrong' % tag, where)
                continue
            if not is_ok(v):
                ck.unsure('result of the lab not decided: %s' % pp(v, p)[:100])
                continue
            ck.expect(not faults, 'error-swallowed', '%s: the run succeeds although %s' % (tag, [pp(f, p) for f in faults]), where)
            if faults:
                continue
            if n and not baseline_failed:
                completed += 1
                cut = [e[1] for e in evs if e[0] == 'lossy']
                ck.expect(not cut, 'cut', '%s: the list of mutants goes through %s, which drops some of them for other lists' % (tag, ', '.join(cut)), where)
                ck.expect(sorted(tested) == sorted(muts(n)), 'all', '%s: tested %s of %d mutants' % (tag, len(tested), n), where,
                          '%s: every mutant tested once' % tag)
                spawns = sum(1 for e in evs if e[0] == 'spawn')
                lim = max(1, min(jobs or 1, n))
                ck.expect(spawns <= max(1, jobs or 1), 'too-many-workers', '%s: %d workers started' % (tag, spawns), where)
                if jobs:
                    ck.expect(spawns == lim, 'workers', '%s: %d workers started, %d expected' % (tag, spawns, lim), where)
            if n == 0:
                ck.expect(not runs, 'empty', 'cargo is run although there are no mutants', where)
        if n and not completed:
            ck.bad('never', '%s: no path tests the mutants and succeeds' % tag, where)
        ck.count('cases')
