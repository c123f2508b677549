"""Classification of a scenario from its phase results."""
from vlib import *
from c01 import so, exits, EX

EXPLANATION = ('Decision table of the outcome classification, extracted by path-partitioned value-flow analysis over every scenario kind and every phase '
               'history of up to three phases (all exit kinds, exit codes and signal numbers symbolic), plus the exit-status conversion from the operating system, and all partitions of waiting for a child process: one that was stopped at its limit is a timeout and nothing else is.')
ASSUMPTIONS = ['std::process::ExitStatus::code is None exactly when the process was killed by a signal']
MIN_OBLIGATIONS = 60


def spec(scen, hist):
    kinds = [(ph, k) for ph, k in hist]
    lastp, last = kinds[-1]
    if scen == 'B':
        if any(k == 'Timeout' for _, k in kinds):
            return 'Timeout'
        return 'Success' if last == 'Success' else 'Failure'
    if any(ph != 'Test' and k == 'Failure' for ph, k in kinds):
        return 'Unviable'
    if any(k == 'Timeout' for _, k in kinds):
        return 'Timeout'
    if lastp == 'Test' and last == 'Failure':
        return 'CaughtMutant'
    if lastp == 'Test' and last == 'Success':
        return 'MissedMutant'
    return 'Success' if last == 'Success' else 'Failure'


def histories():
    ks = ['Success', 'Failure', 'Timeout', 'Signalled', 'Other']
    out = []
    for phs in (('Check',), ('Build',), ('Build', 'Test'), ('Check', 'Build', 'Test'), ('Check', 'Build')):
        for k in ks:
            out.append([(ph, 'Success') for ph in phs[:-1]] + [(phs[-1], k)])
    return out


def value(p, k):
    if k in ('Failure', 'Signalled'):
        return mk(p, EX, k, **{'0': T('code')})
    return mk(p, EX, k)


def check(ck):
    parts(ck, classes, stopped)


def stopped(ck):
    """a command that was stopped at its limit is a timeout and nothing else is"""
    import c10
    c10.check(Only(ck, r'killed-as:|timeout-kill|timeout-cause|kind:|ended:'))


def classes(ck):
    p = ck.p
    fn = 'outcome::ScenarioOutcome::summary'
    where = ck.where(ck.fn(fn))
    for scen in ('B', 'M'):
        for h in histories():
            o = so(p, scen, [(ph, value(p, k)) for ph, k in h])
            ip, outs = ck.run(fn, {0: o})
            want = spec(scen, h)
            nm = '%s %s' % ('baseline' if scen == 'B' else 'mutant', ' '.join('%s=%s' % x for x in h))
            for k, s, v in outs:
                g = variant(p, ip.mat(s, v))
                if k != 'ret' or g is None:
                    ck.unsure(nm)
                    continue
                ck.expect(g == want, 'class:%s' % nm, '%s is classified %s, not %s' % (nm, g, want), where, '%s -> %s' % (nm, g))
    # success of a phase and of a scenario
    for k in ('Success', 'Failure', 'Timeout', 'Signalled', 'Other'):
        for f, want in (('is_success', k == 'Success'), ('is_timeout', k == 'Timeout'), ('is_failure', k == 'Failure')):
            path = 'process::Exit::' + f
            if not p.find(path):
                continue
            ip, outs = ck.run(path, {0: value(p, k)})
            for kk, s, v in outs:
                v = ip.mat(s, v)
                if v[0] == 'b':
                    ck.expect(v[1] == want, 'exit-pred:%s:%s' % (f, k), 'Exit::%s is %s for %s' % (f, v[1], k), ck.where(ck.fn(path)))
                else:
                    ck.unsure('Exit::%s(%s)' % (f, k))
    # operating system status -> Exit
    cands = [i for i in p.local_bodies() if p.path(i).startswith('process::unix::<impl') and p.path(i).endswith('::from')]
    if not cands:
        cands = [i for i in p.local_bodies() if 'From<std::process::ExitStatus> for process::Exit' in p.path(i) or
                 ('process::Exit as std::convert::From<std::process::ExitStatus>>::from' in p.path(i))]
    if not cands:
        raise Missing('conversion from ExitStatus to Exit')
    inst = cands[0]
    ip, outs = ck.run(inst, {0: T('status')})
    w = ck.where(inst)
    CODE, SIG = T('ExitStatus::code', T('status')), T('ExitStatusExt::signal', T('status'))
    n = 0
    for k, s, v in outs:
        v = ip.mat(s, v)
        cv, sv = dvariant(p, s, CODE), dvariant(p, s, SIG)
        g = variant(p, v)
        code = T('fld', T('as', CODE, 'Some'), '0')
        sig = T('fld', T('as', SIG, 'Some'), '0')
        okb = dvariant(p, s, T('ExitStatus::success', T('status')))
        succ = s.facts.get(T('ExitStatus::success', T('status')))
        if g is None:
            ck.unsure('exit status conversion %s' % pp(v, p))
            continue
        n += 1
        zero = s.facts.get(code) == ('i', 0) or succ == TRUE
        nonzero = ('i', 0) in (s.facts.get(('ne', code)) or ()) or succ == FALSE or (s.facts.get(code, ('i', 0))[1] != 0)
        if g == 'Success':
            ck.expect(zero, 'from:success', 'a child whose exit code is not known to be 0 is recorded as success', w)
        elif g == 'Failure':
            ck.expect((cv == 'Some' or succ is not None) and not zero, 'from:failure', 'a child that did not exit with a non-zero code is recorded as failed', w)
            ck.expect(nonzero, 'from:failure-zero', 'a child may be recorded as failed without a non-zero exit code', w)
            ck.expect(v[3][0] == code or v[3][0] == s.facts.get(code), 'from:code', 'the recorded exit code is %s, not the code of the child' % pp(v[3][0], p), w)
        elif g == 'Timeout':
            ck.bad('from:timeout', 'an exit status is recorded as a timeout', w)
        elif g == 'Signalled':
            ck.expect(v[3][0] == sig and cv != 'Some', 'from:signal', 'the recorded signal is %s' % pp(v[3][0], p), w)
        elif g == 'Other':
            ck.expect(cv != 'Some' and sv != 'Some', 'from:other', 'a child with an exit code or signal is recorded as unknown', w)
    ck.floor('exit status conversions', n, 3)
