"""Tallies, result lists and outcomes.json agree with the classification of each scenario."""
from vlib import *
from c01 import so, LO, SO
from c02 import histories, spec, value

EXPLANATION = ('Effect summary of recording one scenario, extracted by value-flow analysis for every scenario kind and phase history: which counters are incremented, '
               'which list receives the mutant name, and what is serialised to outcomes.json; plus which file each list field is opened on.')
MIN_OBLIGATIONS = 150
COUNTERS = {'CaughtMutant': 'caught', 'MissedMutant': 'missed', 'Timeout': 'timeout', 'Unviable': 'unviable', 'Success': 'success', 'Failure': None}
LISTS = {'CaughtMutant': 'caught', 'MissedMutant': 'missed', 'Timeout': 'timeout', 'Unviable': 'unviable', 'Success': None, 'Failure': None}
OD = 'output::OutputDir'
NAME = 'mutant::Mutant::name'


def incremented(new, old):
    """new - old as a constant or None"""
    if new == old:
        return 0
    if new[0] == 't' and new[1] == 'add' and new[3] == old and new[2][0] == 'i':
        return new[2][1]
    return None


def list_fields(ck):
    """{field name: file name} of the File fields of OutputDir"""
    ip, outs = ck.run(OD + '::new', {0: T('parent')}, opaque=lambda q: q == 'output::LockFile::acquire_lock')
    res = None
    for k, s, v in outs:
        v = ip.mat(s, v)
        if is_ok(v):
            r = {}
            od = v[3][0]
            a = ck.p.adts[OD]['variants'][0][2]
            for n in a:
                f = field(ck.p, od, n)
                names = file_names(f)
                if names:
                    r[n] = names
            if res is not None and res != r:
                ck.bad('lists:vary', 'the files behind the lists differ between paths', ck.where(ck.fn(OD + '::new')))
            res = r
    if res is None:
        raise Missing('successful path through OutputDir::new')
    return res, outs, ip


def file_names(v):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) > 3 and x[0] == 't' and x[1] == 'OpenOptions::open' or len(x) > 2 and x[0] == 't' and x[1] in ('File::create', 'File::create_new'):
                pathv = x[3] if x[1] == 'OpenOptions::open' else x[2]
                if pathv[0] == 't' and pathv[1] == 'join' and pathv[-1][0] == 's':
                    out.append(pathv[-1][1])
                return
            for y in x:
                go(y)
    go(v)
    return out


def check(ck):
    p = ck.p
    lf, _, _ = list_fields(ck)
    where_new = ck.where(ck.fn(OD + '::new'))
    by_file = {}
    for f, names in lf.items():
        for n in names:
            by_file.setdefault(n, []).append(f)
    for n in ('missed.txt', 'caught.txt', 'timeout.txt', 'unviable.txt'):
        ck.expect(len(by_file.get(n, [])) == 1, 'listfile:' + n, '%s is opened for %s' % (n, by_file.get(n, [])), where_new, '%s <- %s' % (n, by_file.get(n)))
    fn = LO + '::add'
    where = ck.where(ck.fn(fn))
    old = {c: T('old', c) for c in ('total_mutants', 'missed', 'caught', 'timeout', 'unviable', 'success')}

    def judge(lab, outc, scen, h, want, where, tag):
        nm = '%s %s' % ('baseline' if scen == 'B' else 'mutant', ' '.join('%s=%s' % x for x in h))
        for c, o in old.items():
            n = incremented(field(p, lab, c), o)
            exp = 1 if scen == 'M' and (c == 'total_mutants' or COUNTERS[want] == c) else 0
            if n is None:
                ck.bad('%s:%s' % (tag, c), '%s: counter %s becomes %s' % (nm, c, pp(field(p, lab, c), p)[:100]), where)
            else:
                ck.expect(n == exp, '%s:%s:%s:%s' % (tag, c, scen, want), '%s (%s): counter %s grows by %d, not %d' % (nm, want, c, n, exp), where,
                          '%s: %s += %d' % (nm, c, n))
        os_ = field(p, lab, 'outcomes')
        good = os_ == ('seq', (('each', T('old', 'outcomes')), ('e', outc)))
        ck.expect(good, '%s:outcomes' % tag, '%s: the list of outcomes becomes %s' % (nm, pp(os_, p)[:200]), where)

    for scen in ('B', 'M'):
        for h in histories():
            want = spec(scen, h)
            o = so(p, scen, [(ph, value(p, k)) for ph, k in h])
            lab0 = mk(p, LO, outcomes=T('old', 'outcomes'), **old)
            ip, outs = ck.run(fn, {0: lab0, 1: o})
            for k, s, v in outs:
                if k == 'ret':
                    judge(ip.mat(s, ('ref', ('A', 0), ())), o, scen, h, want, where, 'add')
            # the whole recording step
            f2 = OD + '::add_scenario_outcome'
            w2 = ck.where(ck.fn(f2))
            od0 = mk(p, OD, lab_outcome=lab0, path=T('outdir'))
            pred = lambda path, sh: sh in ('serde_json::to_writer_pretty', 'serde_json::to_writer', 'serde_json::to_string_pretty', 'serde_json::to_vec_pretty', 'serde_json::to_string')
            ip, outs = ck.run(f2, {0: od0, 1: o}, opaque=lambda q: q == NAME, monitor=Tracer(pred))
            nm = '%s %s' % ('baseline' if scen == 'B' else 'mutant', ' '.join('%s=%s' % x for x in h))
            n_ok = 0
            for k, s, v in outs:
                v = ip.mat(s, v)
                if k != 'ret' or not is_ok(v):
                    continue
                n_ok += 1
                od = ip.mat(s, ('ref', ('A', 0), ()))
                judge(field(p, od, 'lab_outcome'), o, scen, h, want, w2, 'record')
                for e in s.mon or ():
                    lab = [x for x in e[1] if x[0] == 'adt' and x[1] == LO]
                    if lab:
                        judge(lab[0], o, scen, h, want, w2, 'outcomes.json')
                ser = [e for e in (s.mon or ()) if any(x[0] == 'adt' and x[1] == LO for x in e[1])]
                ck.expect(len(ser) >= 1, 'json:%s' % scen, '%s: outcomes.json is not rewritten' % nm, w2)
                for f in lf:
                    oldv = field(p, od0, f)
                    newv = field(p, od, f)
                    fname = lf[f][0]
                    exp = scen == 'M' and LISTS[want] is not None and fname == LISTS[want] + '.txt'
                    if newv == oldv:
                        ck.expect(not exp, 'list:%s:%s' % (want, fname), '%s (%s): the mutant is not written to %s' % (nm, want, fname), w2)
                    else:
                        ck.expect(exp, 'list:extra:%s:%s' % (want, fname), '%s (%s): something is written to %s' % (nm, want, fname), w2)
                        if exp:
                            txt = cat(oldv, T(NAME, T('mutant'), TRUE), ('s', '\n'))
                            ck.expect(newv == txt, 'list:text:%s' % fname, '%s: %s receives %s instead of the full mutant name and a newline' % (
                                nm, fname, pp(newv, p)[:200]), w2, '%s += name' % fname)
            if n_ok == 0:
                ck.bad('record:never-ok', 'recording %s never succeeds' % nm, w2)
    json_form(ck)


def json_form(ck):
    """what is in outcomes.json"""
    import serx
    import c36
    p = ck.p
    im = serx.impls(p)
    need = (LO, SO, 'outcome::PhaseResult', 'scenario::Scenario', 'process::Exit', 'outcome::Phase')
    if any(n not in im for n in need):
        ck.unsure('serializers not found')
        return
    PR = 'outcome::PhaseResult'
    EXITS = [('Success', (), 'Success'), ('Failure', (('i', 101),), {'Failure': 101}), ('Timeout', (), 'Timeout'), ('Signalled', (('i', 9),), {'Signalled': 9}), ('Other', (), 'Other')]
    EXT = 'process::Exit'
    vs = [v[0] for v in p.adts[EXT]['variants']]
    SC = 'scenario::Scenario'
    scs = [v[0] for v in p.adts[SC]['variants']]

    def same(j, w, key, what, where, path=''):
        if isinstance(w, dict) and isinstance(j, dict):
            for k in w:
                if k not in j:
                    ck.bad('json:missing:' + k, '%s: outcomes.json has no %s%s' % (what, path, k), where)
                else:
                    same(j[k], w[k], key, what, where, path + k + '.')
            return
        if isinstance(w, list) and isinstance(j, list) and len(w) == len(j):
            for a, b in zip(j, w):
                same(a, b, key, what, where, path)
            return
        if isinstance(j, tuple) and not isinstance(w, tuple) and not (j[0] == 't' and j[1] in ('fld', 'old')):
            ck.unsure('%s: %s is %s' % (what, path, pp(j, p)[:80]))
            return
        ck.expect(j == w, 'json:' + (path or key), '%s: outcomes.json has %s%s, not %s' % (what, path + '=' if path else '', j if not isinstance(j, tuple) else pp(j, p)[:80], w if not isinstance(w, tuple) else pp(w, p)[:80]), where, '%s: %s' % (what, path))
    m = c36.mutant(p, 'FnValue', True, '-> u8', 'x')
    mj = serx.json_of(ck, m)
    for name, fs, ej in EXITS:
        if name not in vs:
            continue
        for sn, scv, sj in (('B', mk(p, SC, 'Baseline'), 'Baseline'), ('M', ('adt', SC, scs.index('Mutant'), (m,)), {'Mutant': mj})):
            for phases in (('Build',), ('Build', 'Test'), ('Check',)):
                prs, pj, h = [], [], []
                for i, ph in enumerate(phases):
                    last = i == len(phases) - 1
                    e = ('adt', EXT, vs.index(name if last else 'Success'), fs if last else ())
                    h.append((ph, name if last else 'Success'))
                    prs.append(mk(p, PR, phase=mk(p, 'outcome::Phase', ph), duration=T('dur%d' % i), process_status=e, argv=seq(('s', 'cargo'), ('s', ph))))
                    pj.append({'phase': ph, 'process_status': ej if last else 'Success', 'argv': ['cargo', ph]})
                o = mk(p, SO, scenario=scv, phase_results=seq(*prs), log_path=('s', 'log/x.log'), diff_path=some(('s', 'diff/x.diff')) if sn == 'M' else NONE, output_dir=('s', '/o'))
                w = {'scenario': sj, 'summary': spec(sn, h), 'log_path': 'log/x.log', 'diff_path': 'diff/x.diff' if sn == 'M' else None, 'phase_results': pj}
                same(serx.json_of(ck, o), w, 'outcome', '%s %s' % ('baseline' if sn == 'B' else 'mutant', h), ck.where(im[SO]))
    o1, o2 = T('o1'), T('o2')
    lab = mk(p, LO, outcomes=seq(o1, o2), total_mutants=('i', 1), missed=('i', 2), caught=('i', 3), timeout=('i', 4), unviable=('i', 5), success=('i', 6))
    same(serx.json_of(ck, lab), {'outcomes': [o1, o2], 'total_mutants': 1, 'missed': 2, 'caught': 3, 'timeout': 4, 'unviable': 5}, 'lab', 'totals', ck.where(im[LO]))
