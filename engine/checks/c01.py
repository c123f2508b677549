"""Exit status table."""
import itertools
from vlib import *

EXPLANATION = ('Decision-table extraction by path-partitioned value-flow analysis of the exit-status function (every shape of baseline result, counters left '
               'symbolic and their branch guards evaluated on representative valuations) and of the program entry point (every exit and every return).')
ASSUMPTIONS = ['a Rust main returning Err exits with status 1', 'clap::Error::exit_code is 2 for usage errors and 0 for help/version']
MIN_OBLIGATIONS = 60
LO = 'outcome::LabOutcome'
SO = 'outcome::ScenarioOutcome'
PR = 'outcome::PhaseResult'
SC = 'scenario::Scenario'
EX = 'process::Exit'
PH = 'outcome::Phase'


def exits(p):
    return [mk(p, EX, 'Success'), mk(p, EX, 'Failure', **{'0': ('i', 1)}), mk(p, EX, 'Failure', **{'0': ('i', 101)}), mk(p, EX, 'Timeout'),
            mk(p, EX, 'Signalled', **{'0': ('i', 9)}), mk(p, EX, 'Other')]


def so(p, scen, results):
    prs = [mk(p, PR, phase=mk(p, PH, ph), process_status=ex) for ph, ex in results]
    sc = mk(p, SC, 'Baseline') if scen == 'B' else ('adt', SC, [v[0] for v in p.adts[SC]['variants']].index('Mutant'), (T('mutant'),))
    return mk(p, SO, scenario=sc, phase_results=seq(*prs))


def check(ck):
    p = ck.p
    SUCC = mk(p, EX, 'Success')
    shapes = []
    for n in range(0, 3):
        pass
    ex = exits(p)
    base = [('none', [], False)]
    for phs in (('Check',), ('Build', 'Test')):
        for e in ex:
            for k in range(len(phs)):
                res = [(phs[i], SUCC) for i in range(k)] + [(phs[k], e)]
                base.append(('baseline %s=%s' % (phs[k], pp(e, p)), [so(p, 'B', res)], e != SUCC))
    muts = [[], [so(p, 'M', [('Build', SUCC), ('Test', ex[1])])], [so(p, 'M', [('Build', ex[1])]), so(p, 'M', [('Build', SUCC), ('Test', ex[3])])]]
    fn = LO + '::exit_code'
    where = ck.where(ck.fn(fn))
    T_, M_ = T('c', 'timeout'), T('c', 'missed')
    for bname, bl, failed in base:
        for mi, ml in enumerate(muts):
            for order in (0, 1):
                lst = bl + ml if order == 0 else ml + bl
                if order == 1 and not (bl and ml):
                    continue
                given = {0: mk(p, LO, outcomes=seq(*lst), timeout=T_, missed=M_, caught=T('c', 'caught'), unviable=T('c', 'unviable'),
                               success=T('c', 'success'), total_mutants=T('c', 'total'))}
                ip, outs = ck.run(fn, given)
                for t, m, o in itertools.product((0, 1, 2, 5), (0, 1, 2, 5), (0, 1, 6)):
                    env = {T_: t, M_: m, T('c', 'caught'): o, T('c', 'unviable'): 6 - o, T('c', 'success'): 0, T('c', 'total'): t + m + 6}
                    want = 4 if failed else 3 if t else 2 if m else 0
                    got = set()
                    for k, s, v in outs:
                        if k == 'ret' and facts_hold(s.facts, env) is not False:
                            v = ip.mat(s, v)
                            got.add(v[1] if v[0] == 'i' else fact_eval(v, env))
                    if len(got) == 1 and None not in got:
                        g = got.pop()
                        ck.expect(g == want, 'exit:%s:timeout=%s:missed=%s' % ('baseline-failed' if failed else 'baseline-ok', bool(t), bool(m)),
                                  'exit status %s instead of %s when %s, %d timeouts, %d missed' % (g, want, bname, t, m), where,
                                  '%s t=%d m=%d -> %s' % (bname, t, m, g))
                    else:
                        ck.unsure('%s t=%d m=%d: %s' % (bname, t, m, got))
    # the entry point
    ip, outs = analyse_main(ck)
    mw = ck.where(ck.fn('main'))
    n_exit = n_lab = n_usage = 0
    for k, s, v in outs:
        v = ip.mat(s, v)
        tm = called(s, 'lab::test_mutants')
        parse = [t for t in s.facts if t[0] == 't' and t[1] == 'discr' and t[2][0] == 't' and t[2][1] == 'Parser::try_parse']
        perr = parse and dvariant(p, s, parse[0][2]) == 'Err'
        if perr:
            n_usage += 1
            eterm = [t for t in list(s.facts) + [x[1] for x in s.facts if x[0] == 'ne'] if t[0] == 't' and t[1] == 'Error::exit_code']
            if k == 'exit':
                # evaluate the guard for the three clap codes
                for code, want in ((2, 1), (0, 0), (64, 70), (101, 70)):
                    if eterm:
                        env = {eterm[0]: code}
                        fs = {t: c for t, c in s.facts.items() if mentions(t, eterm[0]) and not (t[0] == 't' and t[1] == 'discr')}
                        if facts_hold(fs, env) is False:
                            continue
                        g = v[1] if v[0] == 'i' else fact_eval(v, env)
                        ck.expect(g == want, 'usage:%d' % code, 'a command line rejected by clap with code %d exits %s, not %d' % (code, g, want), mw)
                    elif v[0] == 'i':
                        ck.expect(v[1] == want, 'usage:%d' % code, 'a command line rejected by clap with code %d exits %s, not %d' % (code, v[1], want), mw)
            elif k == 'ret':
                ck.expect(is_err(v), 'usage:return', 'main returns successfully although the command line was rejected', mw)
            continue
        if tm:
            n_lab += 1
            res = T('lab::test_mutants', *tm[0][1])
            st_ = dvariant(p, s, res)
            if st_ == 'Ok':
                want = T('outcome::LabOutcome::exit_code', T('fld', T('as', res, 'Ok'), '0'))
                if k == 'exit' and v[0] in ('i', 't'):
                    ck.expect(v == want, 'main:exit', 'after testing mutants main exits with %s, not with the exit status of the lab outcome' % pp(v, p)[:200], mw)
                elif k == 'ret':
                    ck.bad('main:ret', 'main returns %s after testing mutants instead of exiting with the status of the lab outcome' % pp(v, p)[:100], mw)
            elif st_ == 'Err':
                ck.expect(k == 'ret' and is_err(v) or k == 'exit' and v[0] == 'i' and v[1] not in (0, 2, 3, 4), 'main:err',
                          'an error while testing mutants does not make main fail', mw)
            else:
                ck.bad('main:ignored', 'the result of testing mutants is not examined', mw)
        elif k == 'exit':
            n_exit += 1
            ck.bad('main:early-exit', 'main exits with %s without having tested mutants' % pp(v, p)[:100], mw)
    ck.floor('main partitions after a lab run', n_lab, 4)
    ck.floor('main partitions with a rejected command line', n_usage, 2)
