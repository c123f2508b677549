"""Phases: which cargo commands run for a scenario, in what order, when they stop, with which time limit."""
from vlib import *
import scen
from scen import *

EXPLANATION = ('All partitions of running one scenario are enumerated with the cargo run left symbolic: the sequence of phases, the time limit, package selection and '
               'build directory handed to each run, the stop after the first unsuccessful phase, and the results recorded are compared with the specification on each path.')
MIN_OBLIGATIONS = 100


def payload(e):
    """the PhaseResult a run produced, and the result term"""
    return e


def result_terms(s, evs):
    """pair every run with the term of its result, using the facts of the path"""
    out = []
    for e in evs:
        if e[0] != RC:
            continue
        r = T(RC, *e[1])
        out.append((e, r))
    return out


def by_type(ck, inst, suffixes):
    """{suffix: argument index} by the type of the parameter"""
    p = ck.p
    b = p.body(inst)
    res = {}
    for i in range(b.argc):
        ty = p.types[b.locals[i + 1]]
        while ty['k'] == 'ref':
            ty = p.types[ty['t']]
        for x in suffixes:
            if x in ty['s']:
                res.setdefault(x, i)
    for x in suffixes:
        if x not in res:
            raise Missing('parameter of type %s of %s' % (x, p.path(inst)))
    return res


def check(ck):
    p = ck.p
    where = ck.where(ck.fn(ROS))
    ix = by_type(ck, ck.fn(RC), ['BuildDir', 'PackageSelection', 'Phase', 'Duration', 'ScenarioOutput', 'Options'])
    opts = T('fld', T('worker'), 'options')
    check_only = T('fld', opts, 'check_only')
    npaths = nruns = 0
    for kind in ('B', 'M'):
        ip, paths = scenario(ck, kind)
        for k, s, v, evs in paths:
            if k != 'ret':
                continue
            runs = result_terms(s, evs)
            if not runs:
                ck.expect(is_err(v), 'no-run', 'a scenario finishes successfully without running cargo', where)
                continue
            npaths += 1
            co = s.facts.get(check_only)
            want = {TRUE: ['Check'], FALSE: ['Build', 'Test']}.get(co)
            names = [variant(p, e[1][ix['Phase']]) for e, _ in runs]
            if want is None or None in names:
                ck.unsure('phase list not decided on a path')
                continue
            nruns += len(runs)
            ck.expect(names == want[:len(names)], 'order:%s' % ('check' if co == TRUE else 'test'), 'phases run: %s, expected %s' % (names, want), where,
                      '%s: %s' % (kind, names))
            for (e, r), nm in zip(runs, names):
                tl = e[1][ix['Duration']]
                wt = T('fld', T('timeouts'), 'test' if nm == 'Test' else 'build')
                ck.expect(tl == wt, 'limit:' + nm, 'the %s phase runs with time limit %s, not %s' % (nm, pp(tl, p)[:80], pp(wt, p)), where)
                ck.expect(e[1][ix['PackageSelection']] == T('packages'), 'packages:' + nm, 'the %s phase runs on packages %s' % (nm, pp(e[1][ix['PackageSelection']], p)[:80]), where)
                ck.expect(e[1][ix['BuildDir']] == BD, 'dir:' + nm, 'the %s phase runs in %s' % (nm, pp(e[1][ix['BuildDir']], p)[:80]), where)
                ck.expect(e[1][ix['Options']] == opts, 'opts:' + nm, 'the %s phase gets other options' % nm, where)
            # stop rule
            last = len(runs) - 1
            pays = []
            decided = True
            for i, (e, r) in enumerate(runs):
                # result terms may carry renamed impure arguments: find the discriminant fact by prefix
                rv = dvariant(p, s, r)
                pay = T('fld', T('as', r, 'Ok'), '0')
                pays.append(pay)
                stt = dvariant(p, s, T('fld', pay, 'process_status'))
                stne = s.facts.get(('ne', T('discr', T('fld', pay, 'process_status'), 'process::Exit')))
                if rv is None:
                    decided = False
                    break
                succ = None if stt is None else stt == 'Success'
                if stt is None and stne:
                    vi = [x[1] for x in p.adts['process::Exit']['variants'] if x[0] == 'Success'][0]
                    if ('i', vi) in stne:
                        succ = False
                if i < last:
                    ck.expect(rv == 'Ok' and succ is True, 'continue:%s' % names[i], 'the %s phase runs although the %s phase %s' % (
                        names[i + 1], names[i], 'hit an error' if rv == 'Err' else 'is not known to have succeeded'), where)
                else:
                    if rv == 'Err':
                        ck.expect(is_err(v), 'err', 'an internal error in the %s phase does not stop the program' % names[i], where)
                    elif i + 1 < len(want):
                        # stopped early: must be because it did not succeed, or because of an error elsewhere
                        if is_ok(v) or any(x[0] == ADD for x in evs):
                            ck.expect(succ is False, 'stop:%s' % names[i], 'no further phase runs although the %s phase %s' % (
                                names[i], 'succeeded' if succ else 'may have succeeded'), where)
            if not decided:
                ck.unsure('result of a run is not examined')
                continue
            # results recorded
            for e in evs:
                if e[0] == ADD:
                    oc = [a for a in e[1] if a[0] == 'adt' and a[1] == 'outcome::ScenarioOutcome']
                    if not oc:
                        ck.unsure('recorded outcome')
                        continue
                    pr = elems(field(p, oc[0], 'phase_results'))
                    ck.expect(pr == pays, 'recorded', 'the phase results recorded are not those of the phases run, in order', where)
                    sc = field(p, oc[0], 'scenario')
                    ck.expect(variant(p, sc) == ('Baseline' if kind == 'B' else 'Mutant'), 'recorded-scenario', 'the outcome is recorded for %s' % pp(sc, p)[:80], where)
            if is_ok(v):
                ck.expect(v[3][0][0] == 'adt' and elems(field(p, v[3][0], 'phase_results')) == pays, 'returned', 'the outcome returned does not hold the phase results', where)
    ck.floor('paths with cargo runs', npaths, 20)
    ck.floor('cargo runs', nruns, 30)
