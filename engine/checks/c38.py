"""What is shown on the terminal."""
import itertools, re
from vlib import *
from cmdx import typed_args, overlay
import c02, c36

EXPLANATION = ('Decision table of what the console prints, extracted by path-partitioned value-flow over MIR: for the baseline and for a mutant, every phase history and every combination of --caught, --unviable, --all-logs '
               'and --no-times, the text given to the standard output is compared with the specified one (outcome word, full description with line and column, log contents where they are due), and the progress counters '
               'changed through the view are compared with the outcome; the final summary and the number of mutants found are evaluated for a grid of counts; and on every path that finishes a scenario its outcome is shown once.')
ASSUMPTIONS = ['console::StyledObject prints its text; nutmeg::View::update runs the function it is given once', 'printing to the standard output succeeds']
MIN_OBLIGATIONS = 300
C = 'console::Console::'
LOG = 'outcome::ScenarioOutcome::get_log_content'
WORD = {'CaughtMutant': 'caught', 'MissedMutant': 'MISSED', 'Failure': 'FAILED', 'Success': 'ok', 'Unviable': 'unviable', 'Timeout': 'TIMEOUT'}
COUNT = {'CaughtMutant': 'mutants_caught', 'MissedMutant': 'mutants_missed', 'Failure': 'failures', 'Success': 'successes', 'Unviable': 'unviable', 'Timeout': 'timeouts'}
PR = 'outcome::PhaseResult'
PRINT = lambda path, sh: sh in ('io::_print', 'io::_eprint', 'Term::write_line', 'Write::write_all', 'Write::write_fmt', 'View::message', 'View::write')


def flat(v):
    """a printed value as text with \\0 for parts that are not known; None when unknown altogether"""
    if v[0] == 's':
        return v[1]
    if v[0] in ('i',):
        return str(v[1])
    if v[0] == 'adt' and len(v[3]) == 1:
        return flat(v[3][0])
    if v[0] == 'cat':
        return ''.join(flat(x) for x in v[1])
    if v[0] == 'f':
        return str(v[1])
    if v[0] == 't' and v[1] in ('cat', 'joined', 'display', 'fmt', 'coloured', 'styled', 'plain', 'str'):
        if v[1] == 'joined':
            return '\0'
        return ''.join((flat(x) if flat(x) is not None else '\0') for x in v[2:] if isinstance(x, tuple))
    if v[0] == 't' and v[1] == 'LOG':
        return '<LOG>'
    return '\0'


def models():
    def ident(ip, st, c):
        return [('ret', st, ip.mat(st, c.args[0]))]
    m = {'console::style': ident, 'utils::style': ident, 'StyledObject::force_styling': ident}
    for k in ('bright', 'bold', 'dim', 'underlined', 'italic', 'reverse', 'for_stderr', 'for_stdout') + tuple(a + b for a in ('', 'on_') for b in ('black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white', 'bright')):
        m['StyledObject::' + k] = ident
    return m


def check(ck):
    parts(ck, finished, counters, summary, found, shown_once, log_content)


def outcome(p, scen, h):
    m = c36.mutant(p, 'FnValue', True, '-> u8', 'x')
    sc = mk(p, 'scenario::Scenario', 'Baseline') if scen == 'B' else mk(p, 'scenario::Scenario', 'Mutant', **{'0': m})
    prs = [mk(p, PR, phase=mk(p, 'outcome::Phase', ph), duration=T('dur'), process_status=c02.value(p, k)) for ph, k in h]
    return sc, mk(p, 'outcome::ScenarioOutcome', phase_results=seq(*prs), scenario=sc, output_dir=T('od'), log_path=T('lp'))


def finished(ck):
    p = ck.p
    inst = ck.fn(C + 'scenario_finished')
    where = ck.where(inst)
    n = 0
    log = lambda ip, st, c: [('ret', st, ok(T('LOG')))]
    for scen in ('B', 'M'):
        for h in c02.histories():
            kind = c02.spec(scen, h)
            sc, o = outcome(p, scen, h)
            for pc, pu, al, ti in itertools.product((FALSE, TRUE), repeat=4):
                op = overlay(p, 'options', 'options::Options', print_caught=pc, print_unviable=pu, show_times=ti, show_all_logs=al)
                ip, outs = ck.run(inst, typed_args(ck, inst, [('ScenarioOutcome', o), ('Scenario', sc), ('Options', op)]), models={LOG: log, **models()}, opaque=lambda q: q == LOG, monitor=Tracer(PRINT))
                want = not (kind == 'CaughtMutant' and pc == FALSE or kind == 'Unviable' and pu == FALSE)
                tag = '%s %s with%s%s%s' % ('baseline' if scen == 'B' else 'mutant', ' '.join('%s=%s' % x for x in h), ' --caught' if pc == TRUE else '', ' --unviable' if pu == TRUE else '', ' --all-logs' if al == TRUE else '')
                for k, s, v in outs:
                    if k != 'ret':
                        ck.unsure('%s: %s' % (tag, k))
                        continue
                    n += 1
                    evs = list(s.mon or ())
                    if not want:
                        ck.expect(not evs, 'hidden:' + kind, '%s: something is printed though it was not asked for' % tag, where, '%s: nothing printed' % tag)
                        continue
                    if not evs:
                        ck.bad('shown:' + kind, '%s: nothing is printed' % tag, where)
                        continue
                    if any(stdout_text(e) is None for e in evs):
                        ck.unsure('%s: printed with %s' % (tag, [e[0] for e in evs]))
                        continue
                    txt = ''.join(flat(stdout_text(e)) or '' for e in evs)
                    if txt[:1] in ('', '\0'):
                        ck.unsure('%s: prints %s' % (tag, pp(evs[0][1][0], p)[:120]))
                        continue
                    w = p.span_text(evs[0][2])
                    ck.expect(txt.startswith(WORD[kind]) and txt[len(WORD[kind])] in ' \t:', 'word:' + kind, '%s: the line starts with %r, not %r' % (tag, txt[:12], WORD[kind]), w, '%s: %r' % (tag, txt[:70]))
                    name = 'Unmutated baseline' if scen == 'B' else 'src/a/b.rs:5:6: replace A::f -> u8 with x'
                    first = txt.split('\n')[0]
                    ck.expect(name in first, 'name:' + scen, '%s: the line is %r, which does not say %r' % (tag, first[:80], name), w)
                    others = [x for x in WORD.values() if re.search(r'(^|[^\w])%s($|[^\w])' % x, first) and x != WORD[kind]]
                    ck.expect(not others, 'one-word', '%s: the line also says %s' % (tag, others), w)
                    ck.expect(txt.endswith('\n'), 'newline', '%s: the line is not ended' % tag, w)
                    due = al == TRUE or scen == 'B' and kind != 'Success'
                    ck.expect(('<LOG>' in txt) == due, 'log:%s' % due, '%s: the log is %sshown' % (tag, 'not ' if due else ''), w, '%s: log %s' % (tag, 'shown' if due else 'not shown'))
                    if due and '<LOG>' in txt:
                        ck.expect('\n<LOG>' in txt, 'log-line', '%s: the log starts in the middle of a line' % tag, w)
                    if ti == FALSE:
                        ck.expect('\0' not in txt, 'times', '%s: something that varies is printed although times are not to be shown' % tag, w)
    ck.floor('cases of a finished scenario', n, 200)


def counters(ck):
    """the progress bar"""
    p = ck.p
    inst = ck.fn(C + 'scenario_finished')
    where = ck.where(inst)
    LM = 'console::LabModel'
    if LM not in p.adts:
        ck.unsure('no progress model')
        return
    names = p.adts[LM]['variants'][0][2]
    nums = [x for x in list(COUNT.values()) + ['mutants_done', 'n_mutants'] if x in names]
    if set(COUNT.values()) - set(names):
        ck.unsure('no counters %s' % sorted(set(COUNT.values()) - set(names)))
        return
    model = mk(p, LM, **{x: ('i', 5) for x in nums}, scenario_models=seq())
    for scen in ('B', 'M'):
        for h in c02.histories():
            kind = c02.spec(scen, h)
            sc, o = outcome(p, scen, h)
            op = overlay(p, 'options', 'options::Options', print_caught=FALSE, print_unviable=FALSE, show_times=FALSE, show_all_logs=FALSE)

            def update(ip, st, c):
                cell = ('G', 'model')
                if cell not in st.mem:
                    st.mem[cell] = model
                return ip.call_value(st, c.args[1], [('ref', cell, ())], c)
            tag = '%s %s' % ('baseline' if scen == 'B' else 'mutant', ' '.join('%s=%s' % x for x in h))
            ip, outs = ck.run(inst, typed_args(ck, inst, [('ScenarioOutcome', o), ('Scenario', sc), ('Options', op)]), models={LOG: lambda ip, st, c: [('ret', st, ok(T('LOG')))], 'View::update': update, **models()},
                              opaque=lambda q: q == LOG)
            for k, s, v in outs:
                if k != 'ret' or ('G', 'model') not in s.mem:
                    ck.unsure('%s: counters: %s' % (tag, k))
                    continue
                m = ip.mat(s, s.mem[('G', 'model')])
                if m[0] != 'adt':
                    ck.unsure('%s: counters %s' % (tag, pp(m, p)[:80]))
                    continue
                for x in nums:
                    g = field(p, m, x)
                    want = 5 + (x == COUNT[kind]) + (x == 'mutants_done' and scen == 'M')
                    if g[0] != 'i':
                        ck.unsure('%s: %s is %s' % (tag, x, pp(g, p)[:60]))
                    else:
                        ck.expect(g[1] == want, 'counter:' + x, '%s: the counter %s goes from 5 to %s' % (tag, x, g[1]), where, '%s: %s %s' % (tag, x, g[1]))


def summary(ck):
    p = ck.p
    L = 'outcome::LabOutcome'
    fn = ck.fn(L + '::summary_string')
    where = ck.where(fn)
    labels = {'missed': r'missed', 'caught': r'caught', 'unviable': r'unviable', 'timeout': r'timeouts?', 'success': r'succeeded'}
    n = 0
    names = list(labels)
    grid = [dict.fromkeys(names, 0)] + [dict.fromkeys(names, 0) | {a: k} for a in names for k in (1, 2, 12)] + [{a: (i + 1) * 3 + j for i, a in enumerate(names)} for j in range(3)] + \
           [dict.fromkeys(names, 0) | {a: 7, b: 4} for a, b in itertools.permutations(names, 2)]
    for g in grid:
        for total in {sum(g.values()), 0, 1, 40}:
            for ti in (FALSE, TRUE):
                o = mk(p, L, total_mutants=('i', total), **{k: ('i', v) for k, v in g.items()})
                op = overlay(p, 'options', 'options::Options', show_times=ti)
                ip, outs = ck.run(fn, typed_args(ck, fn, [('LabOutcome', o), ('Options', op)]), models=models())
                for k, s, v in outs:
                    txt = flat(ip.mat(s, v)) if k == 'ret' else None
                    tag = 'summary of %d mutants, %s' % (total, g)
                    if txt is None or txt[:1] in ('\0', ''):
                        ck.unsure('%s: %s' % (tag, k))
                        continue
                    n += 1
                    mt = re.match(r'(\d+) mutants? tested', txt)
                    ck.expect(mt is not None and int(mt.group(1)) == total, 'total', '%s: %r' % (tag, txt[:100]), where, '%s: %r' % (tag, txt))
                    if mt is None:
                        continue
                    rest = txt[mt.end():]
                    for a, rx in labels.items():
                        got = [int(x) for x in re.findall(r'(\d+) ' + rx + r'\b', rest)]
                        ck.expect(sum(got) == g[a] and len(got) <= 1, 'summary:' + a, '%s: %r' % (tag, txt[:100]), where)
                    if ti == FALSE:
                        ck.expect('\0' not in txt, 'summary-time', '%s: something that varies is shown although times are not to be' % tag, where)
    ck.floor('summaries', n, 40)
    # and it is what is shown at the end
    fin = ck.fn(C + 'lab_finished')
    ip, outs = ck.run(fin, typed_args(ck, fin, [('LabOutcome', T('labout')), ('Options', T('opts'))]), models={L + '::summary_string': lambda ip, st, c: [('ret', st, T('SUMMARY', ip.mat(st, c.args[0])))]},
                      opaque=lambda q: q == L + '::summary_string', monitor=Tracer(PRINT))
    for k, s, v in outs:
        evs = list(s.mon or ())
        if k != 'ret':
            ck.unsure('lab_finished: ' + k)
            continue
        ck.expect(any(mentions(a, T('SUMMARY', T('labout'))) for e in evs for a in e[1]), 'summary-shown', 'the summary is not shown at the end', ck.where(fin), 'the summary is printed')


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


def found(ck):
    p = ck.p
    fn = ck.fn(C + 'discovered_mutants')
    for n in (0, 1, 2, 3, 21):
        ms = seq(*[T('m', ('i', i)) for i in range(n)])
        LM = 'console::LabModel'

        def update(ip, st, c):
            cell = ('G', 'model')
            if cell not in st.mem:
                st.mem[cell] = mk(p, LM, n_mutants=('i', 99))
            return ip.call_value(st, c.args[1], [('ref', cell, ())], c)
        has = LM in p.adts and 'n_mutants' in p.adts[LM]['variants'][0][2]
        ip, outs = ck.run(fn, typed_args(ck, fn, [('Mutant', ms)]), models=models() | ({'View::update': update} if has else {}), monitor=Tracer(PRINT))
        for k, s, v in outs:
            if k == 'ret' and has and ('G', 'model') in s.mem:
                m = ip.mat(s, s.mem[('G', 'model')])
                g = field(p, m, 'n_mutants') if m[0] == 'adt' else T('?')
                if g[0] == 'i':
                    ck.expect(g[1] == n, 'found-progress', 'of %d mutants found, progress is shown out of %d' % (n, g[1]), ck.where(fn), 'progress out of %d' % n)
            txt = ''.join(flat(stdout_text(e)) or '' for e in (s.mon or ()) if stdout_text(e) is not None)
            if k != 'ret' or not txt or '\0' in txt:
                ck.unsure('%d mutants found: %s %r' % (n, k, txt))
                continue
            nums = [int(x) for x in re.findall(r'\d+', txt)]
            ck.expect(nums == [n], 'found', '%d mutants were found, and %r is shown' % (n, txt), ck.where(fn), '%d: %r' % (n, txt))


def shown_once(ck):
    """every scenario that is finished is shown, with its own outcome"""
    import scen
    p = ck.p
    n = 0
    inst = ck.fn(scen.ROS)
    for kind in ('B', 'M'):
        SC = 'scenario::Scenario'
        sc = mk(p, SC, 'Baseline') if kind == 'B' else mk(p, SC, 'Mutant', **{'0': T('mutant')})
        given = {}
        b = p.body(inst)
        for i in range(b.argc):
            ty = p.types[b.locals[i + 1]]
            while ty['k'] == 'ref':
                ty = p.types[ty['t']]
            s = ty['s']
            given.update({i: T('worker')} if 'Worker' in s else {i: sc} if s.endswith('Scenario') else {i: T('packages')} if s.endswith('PackageSelection') else {i: T('timeouts')} if s.endswith('Timeouts') else {})
        FIN, ADD = C + 'scenario_finished', 'output::OutputDir::add_scenario_outcome'
        ip, outs = ck.run(inst, given, opaque=lambda q: q in scen.OPQ or is_console(q), monitor=Tracer(lambda path, sh: path in (FIN, ADD)))
        for k, s, v in outs:
            r = ip.mat(s, v) if k == 'ret' else None
            evs = list(s.mon or ())
            fin = [e for e in evs if e[0] == FIN]
            if r is None or not is_ok(r):
                ck.expect(len(fin) <= 1, 'twice', 'a scenario is shown twice', ck.where(inst))
                continue
            n += 1
            if not fin:
                ck.bad('not-shown', '%s: a finished scenario is not shown' % ('the baseline' if kind == 'B' else 'a mutant'), ck.where(inst))
                continue
            w = p.span_text(fin[0][2])
            ck.expect(len(fin) == 1, 'twice', 'a scenario is shown twice', w)
            ck.expect(any(a == r[3][0] for a in fin[0][1]), 'own-outcome', 'the outcome shown is not the outcome of this scenario', w, 'shown with its outcome')
            ck.expect(any(a == sc for a in fin[0][1]), 'own-scenario', 'the scenario shown is not the one that was run', w)
    ck.floor('finished scenarios', n, 2)


def log_content(ck):
    """the log shown is that of the scenario"""
    p = ck.p
    inst = ck.fn(LOG)
    where = ck.where(inst)
    sc, o = outcome(p, 'B', [])

    def rd(ip, st, c):
        return [('ret', st, ok(T('file', ip.mat(st, c.args[0])))), ('ret', st.copy(), err(T('e_read')))]
    ip, outs = ck.run(inst, {0: o}, models={'fs::read': rd, 'fs::read_to_string': rd})
    want = T('file', T('join', T('od'), T('lp')))
    for k, s, v in outs:
        r = ip.mat(s, v) if k == 'ret' else T('panic')
        if is_ok(r):
            if "'file'" not in repr(r):
                ck.unsure('content of the log: %s' % pp(r, p)[:100])
            else:
                ck.expect(repr(want) in repr(r), 'log-file', 'the log shown is %s' % pp(r[3][0], p)[:120], where, 'content of the log file of the scenario')
        elif is_err(r):
            ck.expect("'e_read'" in repr(r), 'log-error', 'a log that was read is an error', where, 'unreadable log')
