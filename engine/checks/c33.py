"""Every scenario has its own log and diff."""
from vlib import *
import scen
from cmdx import builder

EXPLANATION = ('Histories of starting scenarios are computed symbolically, carrying the state of the output directory from one to the next, for sequences with and without repeated base names: all log and diff paths '
               'differ, the log is created afresh (never opened when it exists), and the paths kept are those of the files created. For every partition of running a scenario: the diff written is the diff of '
               'the very text put into the tree, it is written once, to the path recorded in the outcome, and the recorded log path is the one started. The processes of a scenario are started with their output appended to that log.')
MIN_OBLIGATIONS = 60
ST_ = 'output::OutputDir::start_scenario'
LN = 'mutant::Mutant::log_file_name_base'
SC = 'scenario::Scenario'


def check(ck):
    parts(ck, names, records, diffs, base, outputs)


def outputs(ck):
    """what the processes of a scenario print is added to the log of that scenario"""
    import c10
    c10.check(Only(ck, r'stdout|stderr'))


def names(ck):
    p = ck.p
    inst = ck.fn(ST_)
    where = ck.where(inst)
    mi = [v[0] for v in p.adts[SC]['variants']].index('Mutant')

    def ln(ip, st, c):
        m = ip.mat(st, c.args[0])
        return [('ret', st, m[2])] if m[0] == 't' and m[1] == 'mutant' else None
    ofields = p.adts['output::OutputDir']['variants'][0]
    n = 0
    for hist in (['', 'a', 'b', 'c'], ['', 'a', 'a', 'a', 'b', 'a', 'b'], ['a', 'a', ''], ['', 'a', 'b', 'a', 'c', 'b', 'a', 'a'], ['', 'b'] + ['a'] * (5000 if ck.tier == 'thorough' else 1030) + ['b', 'b', 'a']):
        init = {}
        for f, t in zip(ofields[2], ofields[3]):
            if 'HashMap' in t or 'BTreeMap' in t or 'HashSet' in t or 'BTreeSet' in t or 'Vec<' in t:
                init[f] = ('seq', ())
            elif t in ('usize', 'u64', 'u32', 'i32'):
                init[f] = ('i', 0)
        D = mk(p, 'output::OutputDir', path=T('out'), **init)
        logs, diffs_ = [], []
        for step, nm in enumerate(hist):
            sc = mk(p, SC, 'Baseline') if nm == '' else ('adt', SC, mi, (T('mutant', ('s', 'M' + nm)),))
            ip, outs = ck.run(inst, {0: D, 1: sc}, opaque=lambda q: q == LN, models={LN: ln})
            goods = []
            for k, s, v in outs:
                v = ip.mat(s, v)
                if k == 'ret' and is_ok(v):
                    goods.append((s, v[3][0]))
            if len({repr(v) for s, v in goods}) != 1:
                ck.unsure('starting scenario %d of %s: %d ways' % (step, hist, len(goods)))
                break
            s, so = goods[0]
            d = ip.mat(s, ('ref', ('A', 0), ()))
            D = d
            n += 1
            lp, dp, lf = field(p, so, 'log_path'), field(p, so, 'diff_path'), field(p, so, 'log_file')
            tag = 'after %s, %s' % (hist[:step] if step < 9 else '%s, ... (%d scenarios)' % (', '.join(hist[:4]), step), nm or 'baseline')
            ck.expect(lp not in logs, 'log-shared', '%s: the log %s is already in use' % (tag, pp(lp, p)), where, '%s -> %s' % (tag, pp(lp, p)))
            logs.append(lp)
            # how the log was opened
            opens = opened(lf)
            if not opens:
                ck.unsure('log file %s' % pp(lf, p)[:100])
            for o in opens:
                b = builder(o[2]) if o[1] == 'OpenOptions::open' else [(o[1],)]
                path = o[3] if o[1] == 'OpenOptions::open' else o[2]
                flags = {x[0].split('::')[-1]: x[-1] for x in b}
                fresh = flags.get('create_new') == TRUE or o[1] == 'File::create_new'
                ck.expect(fresh, 'log-reused', '%s: an existing log file would be reused' % tag, where)
                ck.expect(path == T('join', T('out'), lp), 'log-elsewhere', '%s: the log kept is %s but the file opened is %s' % (tag, pp(lp, p), pp(path, p)[:80]), where)
            if nm == '':
                ck.expect(is_none(dp), 'diff-baseline', '%s: the baseline has a diff %s' % (tag, pp(dp, p)), where)
            elif is_some(dp):
                ck.expect(dp[3][0] not in diffs_, 'diff-shared', '%s: the diff %s is already in use' % (tag, pp(dp, p)), where)
                ck.expect(dp[3][0] != lp, 'diff-log', '%s: diff and log are the same file' % tag, where)
                diffs_.append(dp[3][0])
            else:
                ck.bad('diff-none', '%s: a mutant has no diff file: %s' % (tag, pp(dp, p)[:80]), where)
    ck.floor('scenarios started', n, 4)


def opened(v, out=None):
    out = [] if out is None else out
    if isinstance(v, tuple) and v:
        if v[0] == 't' and len(v) > 2 and v[1] in ('OpenOptions::open', 'File::create', 'File::create_new', 'File::open'):
            if v not in out:
                out.append(v)
        else:
            for x in v:
                if isinstance(x, tuple):
                    opened(x, out)
    return out


def records(ck):
    """the outcome of a scenario names its own log and diff"""
    p = ck.p
    for kind in 'BM':
        ip, paths = scen.scenario(ck, kind)
        for k, s, v, evs in paths:
            adds = [e for e in evs if e[0] == scen.ADD]
            starts = [e for e in evs if e[0] == scen.START]
            if not adds:
                continue
            o = adds[0][1][1]
            w = p.span_text(adds[0][2])
            so = [T('fld', T('as', T(scen.START, *e[1]), 'Ok'), '0') for e in starts]
            lp, dp, od = field(p, o, 'log_path'), field(p, o, 'diff_path'), field(p, o, 'output_dir')
            for nm, val in (('log_path', lp), ('diff_path', dp), ('output_dir', od)):
                want = [T('fld', x, nm) for x in so]
                if val in want:
                    ck.good('%s recorded from the scenario started' % nm)
                elif any(mentions(val, x) and mentions_field_name(val, nm) for x in so):
                    ck.good()
                elif is_none(val) and known_none(p, s, so, nm):
                    ck.good()
                elif val[0] in ('s', 'adt') or any(mentions(val, x) for x in so):
                    ck.bad('record:' + nm, 'the %s recorded is %s' % (nm, pp(val, p)[:100]), w)
                else:
                    ck.unsure('%s recorded: %s' % (nm, pp(val, p)[:100]))
            if kind == 'B':
                ck.expect(not any(e[0] == scen.WDIFF for e in evs), 'diff-of-baseline', 'a diff is written for the unmutated tree', w)
                continue
            code = T(scen.CODE, T('mutant'))
            wd = [i for i, e in enumerate(evs) if e[0] == scen.WDIFF]
            ck.expect(len(wd) == 1, 'diff-count', 'the diff is written %d times for a mutant' % len(wd), w)
            if wd:
                d = evs[wd[0]][1][1]
                ck.expect(d[0] == 't' and d[1] == scen.DIFF and d[2] == T('mutant') and d[3] == code, 'diff-text', 'the diff written is %s' % pp(d, p)[:120], w, 'diff of the mutated text')


def known_none(p, s, so, nm):
    """the path is one on which that field of the started scenario is None"""
    for k, f in s.facts.items():
        if isinstance(k, tuple) and len(k) == 4 and k[0] == 't' and k[1] == 'discr' and f[0] == 'i' and mentions_field_name(k[2], nm) and any(mentions(k[2], x) for x in so):
            if p.variant_name(k[3], p.variant_of_discr(k[3], f[1])) == 'None':
                return True
    return False


def mentions_field_name(v, nm):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 't' and len(v) >= 4 and v[1] == 'fld' and v[3] == nm:
        return True
    return any(mentions_field_name(x, nm) for x in v if isinstance(x, tuple))


def diffs(ck):
    """writing a diff goes to the diff path of the scenario"""
    p = ck.p
    inst = ck.fn(scen.WDIFF)
    where = ck.where(inst)
    SO = mk(p, 'output::ScenarioOutput', output_dir=T('out'), log_path=T('lp'), diff_path=some(T('dp')), log_file=T('lf'))
    ip, outs = ck.run(inst, {0: SO, 1: T('diff')}, monitor=Tracer(lambda q, s: s in ('fs::write', 'File::create', 'OpenOptions::open', 'fs::remove_file', 'fs::rename')))
    n = 0
    for k, s, v in outs:
        v = ip.mat(s, v)
        if k != 'ret':
            continue
        ws = [e for e in s.mon or () if e[0] == 'fs::write']
        for e in s.mon or ():
            if e[0] != 'fs::write':
                ck.unsure('diff written by %s' % e[0])
        for e in ws:
            n += 1
            ck.expect(e[1][0] == T('join', T('out'), T('dp')), 'diff-path', 'the diff is written to %s' % pp(e[1][0], p)[:100], where, 'diff written to its path')
            ck.expect(e[1][1] == T('diff'), 'diff-content', 'the diff file gets %s' % pp(e[1][1], p)[:100], where)
        if not is_err(v) and not any(e[0] != 'fs::write' for e in s.mon or ()):
            ck.expect(bool(ws), 'diff-unwritten', 'writing the diff succeeds without writing it', where)
    ck.count('diff writes', n)


def base(ck):
    """mutants of different files or places have different base names; line and column are separated"""
    p = ck.p
    inst = ck.fn(LN)
    where = ck.where(inst)
    SF = mk(p, 'source::SourceFile', tree_relative_path=T('path'))
    seen = {}
    for l, c in ((1, 11), (11, 1), (1, 1), (2, 1), (1, 2), (111, 1), (1, 111)):
        sp = mk(p, 'span::Span', start=mk(p, 'span::LineColumn', line=('i', l), column=('i', c)), end=T('end'))
        ip, outs = ck.run(inst, {0: mk(p, 'mutant::Mutant', source_file=SF, span=sp)})
        rs = {ip.mat(s, v) for k, s, v in outs if k == 'ret'}
        if len(rs) != 1:
            ck.unsure('base name: %s' % [pp(r, p)[:100] for r in rs])
            continue
        r = rs.pop()
        if not mentions(r, T('path')):
            ck.bad('base-path', 'the log name does not depend on the path of the file: %s' % pp(r, p)[:100], where)
        else:
            ck.good(pp(r, p)[:120])
        seen.setdefault(r, []).append((l, c))
