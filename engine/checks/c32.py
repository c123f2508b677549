"""Time limits."""
import itertools
from vlib import *
from cmdx import typed_args, overlay

EXPLANATION = ('Decision-table extraction: the time limits computed for the baseline, after a baseline and without one are extracted as terms for every combination of present and absent options and every '
               'history of baseline phases, and compared with the specified formula under a grid of valuations of the durations and multipliers (both sides of every maximum and of rounding).')
MIN_OBLIGATIONS = 100
TM = 'timeouts::Timeouts::'
PR = 'outcome::PhaseResult'
O = 'options::Options'


def opt(t):
    return NONE if t is None else some(t)


def shape(v):
    if v[0] == 'adt' and v[1] == OPT:
        return v[3][0] if v[2] == 1 else None
    return 'opaque'


def check(ck):
    import math
    p = ck.p
    pr = lambda ph, d: mk(p, PR, phase=mk(p, 'outcome::Phase', ph), duration=T(d), process_status=mk(p, 'process::Exit', 'Success'))
    hist = {'build+test': [('Build', 'bd'), ('Test', 'td')], 'check': [('Check', 'cd')], 'build': [('Build', 'bd')], 'none': [], 'build+test+check': [('Check', 'cd'), ('Build', 'bd'), ('Test', 'td')]}
    n = 0
    for fn, hs in (('for_baseline', ['none']), ('without_baseline', ['none']), ('from_baseline', list(hist))):
        inst = ck.fn(TM + fn)
        where = ck.where(inst)
        for h in hs:
            for tt, tm, bt, bm, chk in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (FALSE, TRUE)):
                if tt and tm or bt and bm:
                    continue  # refused on the command line... but a multiplier may still come from the configuration
                one(ck, p, inst, where, fn, h, hist[h], tt, tm, bt, bm, chk)
                n += 1
            for chk in (FALSE, TRUE):
                one(ck, p, inst, where, fn, h, hist[h], 1, 1, 1, 1, chk)
    ck.floor('option combinations', n, 40)


def one(ck, p, inst, where, fn, hname, phases, tt, tm, bt, bm, chk):
    import math
    TT, TMU, BT, BM, MIN = T('TT'), T('TM'), T('BT'), T('BM'), T('MIN')
    pr = lambda ph, d: mk(p, PR, phase=mk(p, 'outcome::Phase', ph), duration=T(d), process_status=mk(p, 'process::Exit', 'Success'))
    o = overlay(p, 'options', O, test_timeout=some(TT) if tt else NONE, test_timeout_multiplier=some(TMU) if tm else NONE, build_timeout=some(BT) if bt else NONE,
                build_timeout_multiplier=some(BM) if bm else NONE, minimum_test_timeout=MIN, check_only=chk)
    base = mk(p, 'outcome::ScenarioOutcome', phase_results=seq(*[pr(a, b) for a, b in phases]), scenario=mk(p, 'scenario::Scenario', 'Baseline'))
    ip, outs = ck.run(inst, typed_args(ck, inst, [('ScenarioOutcome', base), ('Options', o)]))
    has = dict(phases)
    tag = '%s(%s) timeout=%s multiplier=%s build_timeout=%s build_multiplier=%s check=%s' % (fn, hname, *('given' if x else 'none' for x in (tt, tm, bt, bm)), chk == TRUE)
    for (td, m, mn, bd, b), (xt, xb) in zip(((0.0, 1.5, 20.0, 0.0, 2.0), (0.3, 0.5, 0.0, 7.25, 1.5), (4.0, 5.0, 20.0, 7.0, 0.25), (100.7, 3.3, 20.0, 10.5, 3.0), (10.1, 1.0, 30.5, 1.0, 1.0), (7.2, 2.0, 14.5, 2.0, 3.0), (50.0, 2.0, 200.5, 2.0, 3.0), (5000.0, 2.0, 1.0, 4000.0, 3.0)),
                                          ((77.5, 33.25), (0.5, 0.25), (1.0, 1.0), (1000.0, 5000.0), (12.0, 0.75), (14.0, 40.0), (200.0, 5.0), (3.0, 12000.5))):
        env = {TT: xt, TMU: m, BT: xb, BM: b, MIN: mn, T('td'): td, T('bd'): bd, T('cd'): 55.5}
        if tt:
            wt = xt
        elif fn == 'for_baseline':
            wt = None
        elif fn == 'from_baseline' and 'Test' in has:
            wt = max(mn, math.ceil(td * (m if tm else 5.0) - 1e-9))
        elif chk == TRUE:
            wt = 'any'   # no tests are run
        else:
            wt = 300
        if fn == 'for_baseline':
            wb = None
        elif bt:
            wb = xb
        elif fn == 'from_baseline' and 'Build' in has and bm:
            wb = bd * b
        else:
            wb = None
        for k, s, v in outs:
            f = num_facts(p, s.facts, env)
            if f is False:
                continue
            if k != 'ret':
                ck.unsure(tag + ': ' + k)
                continue
            v = ip.mat(s, v)
            for name, want in (('test', wt), ('build', wb)):
                if want == 'any':
                    continue
                g = shape(field(p, v, name))
                key = '%s:%s:%s' % (fn, name, 'explicit' if (tt if name == 'test' else bt) else 'auto')
                at = '%s with baseline build %ss test %ss multipliers %s/%s minimum %s' % (tag, bd, td, m, b, mn)
                if g == 'opaque':
                    ck.unsure('%s: %s limit %s' % (at, name, pp(field(p, v, name), p)[:100]))
                elif g is None or want is None:
                    ck.expect(g is None and want is None, key, '%s: the %s limit is %s, it should be %s' % (at, name, 'none' if g is None else pp(g, p)[:120], 'none' if want is None else '%ss' % want), where)
                else:
                    x = num(p, g, env)
                    if x is None:
                        ck.unsure('%s: %s limit %s' % (at, name, pp(g, p)[:100]))
                    else:
                        ck.expect(abs(x - want) < 1e-6, key, '%s: the %s limit is %s = %ss, it should be %ss' % (at, name, pp(g, p)[:120], x, want), where, '%s -> %s %s' % (tag, name, pp(g, p)))
