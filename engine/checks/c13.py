"""Results reach the disk as they are produced."""
from vlib import *
import scen
from scen import *

EXPLANATION = ('Must-pass-through analysis over all partitions of running one scenario, of recording an outcome and of the lab: no scenario finishes successfully '
               'without its outcome having been recorded, recording is complete (outcomes.json rewritten and closed, list line written) before it returns, '
               'and mutants.json is written before any scenario starts.')
MIN_OBLIGATIONS = 20
ASSUMPTIONS = ['dropping a BufWriter flushes it (std)']


def check(ck):
    p = ck.p
    where = ck.where(ck.fn(ROS))
    n = 0
    for kind in ('B', 'M'):
        ip, paths = scenario(ck, kind)
        for k, s, v, evs in paths:
            if k != 'ret':
                continue
            adds = [e for e in evs if e[0] == ADD]
            starts = [e for e in evs if e[0] == START]
            if is_ok(v):
                n += 1
                ck.expect(len(adds) == 1, 'record:%s:%d' % (kind, len(adds)), 'a %s scenario completes with its outcome recorded %d times' % (
                    'baseline' if kind == 'B' else 'mutant', len(adds)), where, '%s recorded once' % kind)
                ck.expect(len(starts) == 1, 'start:%s' % kind, 'scenario output is started %d times' % len(starts), where)
                if adds:
                    # and the failure of recording is not swallowed
                    r = T(ADD, *adds[0][1])
                    ck.expect(dvariant(p, s, r) == 'Ok', 'record-err', 'an outcome counts as recorded although writing it may have failed', where)
    ck.floor('completing paths', n, 4)
    # mutants.json first
    import labx
    labx.check_mutants_json(ck)
    buffered(ck)
    complete(ck)


def complete(ck):
    """every successful way of recording rewrites outcomes.json with the outcome in it, and adds a mutant to its list"""
    import c03
    p = ck.p
    where = ck.where(ck.fn(ADD))
    lf, _, _ = c03.list_fields(ck)
    pred = lambda path, sh: sh.startswith('serde_json::to_')
    for scen_ in ('B', 'M'):
        for h in c03.histories():
            o = c03.so(p, scen_, [(ph, c03.value(p, k)) for ph, k in h])
            lab0 = mk(p, c03.LO, outcomes=T('old', 'outcomes'), **{c: T('old', c) for c in ('total_mutants', 'missed', 'caught', 'timeout', 'unviable', 'success')})
            od0 = mk(p, c03.OD, lab_outcome=lab0, path=T('outdir'))
            ip, outs = ck.run(ADD, {0: od0, 1: o}, opaque=lambda q: q == c03.NAME, monitor=Tracer(pred))
            nm = '%s %s' % ('baseline' if scen_ == 'B' else 'mutant', ' '.join('%s=%s' % x for x in h))
            for k, s, v in outs:
                v = ip.mat(s, v)
                if k != 'ret' or not is_ok(v):
                    continue
                od = ip.mat(s, ('ref', ('A', 0), ()))
                ser = [x for e in s.mon or () for x in e[1] if x[0] == 'adt' and x[1] == c03.LO and mentions(x, o)]
                ck.expect(bool(ser), 'json:' + scen_, '%s: recording returns without outcomes.json having been rewritten with it' % nm, where, '%s: outcomes.json rewritten' % nm)
                want = c03.LISTS[c03.spec(scen_, h)] if scen_ == 'M' else None
                if want:
                    fs = [f for f in lf if lf[f][0] == want + '.txt']
                    ck.expect(any(field(p, od, f) != field(p, od0, f) for f in fs), 'list', '%s: recording returns without a line in %s.txt' % (nm, want), where, '%s: line in %s.txt' % (nm, want))


def buffered(ck):
    """the recorded results are not left in a buffer of the process"""
    p = ck.p
    OD = 'output::OutputDir'
    a = p.adts.get(OD)
    if a is None:
        raise Missing('type ' + OD)
    where = ck.where(ck.fn(ADD))
    held = []
    for name, s in zip(a["variants"][0][2], a["variants"][0][3]):
        if 'BufWriter' in s or 'LineWriter' in s:
            held.append(name)
    flushed = {}
    if held:
        ip, outs = ck.run(ADD, {0: T('od'), 1: T('outcome')}, opaque=lambda q: q == 'mutant::Mutant::name', monitor=Tracer(lambda q, s: s.endswith('::flush') or s in ('Write::write_fmt', 'Write::write_all')))
        for k, s, v in outs:
            v = ip.mat(s, v)
            if k == 'ret' and is_ok(v):
                evs = [e for e in s.mon or ()]
                wr = [i for i, e in enumerate(evs) if e[0].startswith('Write::write') and any(mentions(e[1][0], T('fld', T('od'), h)) for h in held)]
                fl = [i for i, e in enumerate(evs) if e[0].endswith('flush')]
                ck.expect(not wr or fl and fl[-1] > wr[-1], 'buffered', 'a result is left in a buffer (%s) when recording returns' % ', '.join(held), where)
    else:
        ck.good('no buffered writer outlives the recording of an outcome')
