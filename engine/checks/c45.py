"""Colour codes appear where they are wanted, and only there."""
from cmdx import overlay
from vlib import *

EXPLANATION = ('The decision about colours is extracted as a table over every setting of --colors and of NO_COLOR and CLICOLOR_FORCE (unset, empty, 0, 1, other), and so is what is done with it: that it is passed on to both output streams, '
               'that the log written to the output directory is made without colours and the messages on the terminal with the decision for standard error, that both are set up before anything else is done, and that a list has colours exactly when standard output is to have them.')
ASSUMPTIONS = ['the console and tracing_subscriber crates honour the setting given to them', 'clap takes CARGO_TERM_COLOR for --colors if that is not given']
MIN_OBLIGATIONS = 40
CO = 'options::Colors'
FV = 'options::Colors::forced_value'
ACT = 'options::Colors::active_stdout'


def check(ck):
    parts(ck, table, stdout, streams, logs, started, listed)


def bools(v):
    """Some(true) / Some(false) / None as (decided, value)"""
    if is_none(v):
        return True, None
    if is_some(v) and v[3][0][0] == 'b':
        return True, v[3][0][1]
    return False, None


def table(ck):
    p = ck.p
    w = ck.where(ck.fn(FV))
    n = 0
    for nc in (None, '', '0', '1', 'yes'):
        for cf in (None, '', '0', '1', 'no'):
            for c in ('Auto', 'Always', 'Never'):
                env = {'NO_COLOR': nc, 'CLICOLOR_FORCE': cf}

                def var(ip, st, cl):
                    k = ip.mat(st, cl.args[0])
                    if k[0] != 's':
                        return None
                    v = env.get(k[1])
                    if cl.short == 'env::var_os':
                        return [('ret', st, NONE if v is None else some(('s', v)))]
                    return [('ret', st, err(T('not_present')) if v is None else ok(('s', v)))]
                ip, outs = ck.run(FV, {0: mk(p, CO, c)}, models={'env::var': var, 'env::var_os': var})
                want = False if nc not in (None, '0') else True if cf not in (None, '0') else {'Auto': None, 'Always': True, 'Never': False}[c]
                nm = 'NO_COLOR=%s CLICOLOR_FORCE=%s --colors=%s' % ('unset' if nc is None else repr(nc), 'unset' if cf is None else repr(cf), c)
                for k, s, v in outs:
                    v = ip.mat(s, v) if k == 'ret' else T('panic')
                    d, got = bools(v)
                    if not d:
                        ck.unsure('%s: %s' % (nm, pp(v, p)[:60]))
                        continue
                    n += 1
                    ck.expect(got == want, 'forced:%s' % ('NO_COLOR' if nc not in (None, '0') else 'CLICOLOR_FORCE' if cf not in (None, '0') else c),
                              'with %s colours are %s' % (nm, {None: 'left to the terminal', True: 'forced on', False: 'forced off'}[got]), w, nm if cf is None else None)
    ck.floor('settings of colours decided', n, 60)


def forced(v):
    def m(ip, st, c):
        return [('ret', st, v)]
    return m


FORCED = (('on', some(TRUE)), ('off', some(FALSE)), ('undecided', NONE))


def stdout(ck):
    p = ck.p
    w = ck.where(ck.fn(ACT))
    for nm, v in FORCED:
        ip, outs = ck.run(ACT, {0: T('colors')}, opaque=lambda q: q == FV, models={FV: forced(v), 'Colors::forced_value': forced(v)})
        for k, s, r in outs:
            r = ip.mat(s, r) if k == 'ret' else T('panic')
            if v != NONE:
                if r[0] != 'b':
                    ck.unsure('active_stdout, forced %s: %s' % (nm, pp(r, p)[:60]))
                    continue
                ck.expect(r == v[3][0], 'stdout:' + nm, 'colours forced %s are %s on standard output' % (nm, 'on' if r == TRUE else 'off'), w, 'standard output, forced ' + nm)
            elif r[0] == 'b':
                asked = any('colors_enabled' in repr(t) for t in s.facts)
                if asked:
                    ck.unsure('active_stdout by a question')
                else:
                    ck.bad('stdout:auto', 'colours left to the terminal are always %s on standard output' % ('on' if r == TRUE else 'off'), w)
            else:
                x = repr(r)
                if 'colors_enabled_stderr' in x:
                    ck.bad('stdout:auto', 'colours on standard output are decided by standard error', w)
                elif r[0] == 't' and r[1].endswith('colors_enabled'):
                    ck.good('standard output, left to the terminal')
                else:
                    ck.unsure('active_stdout: %s' % pp(r, p)[:60])


def streams(ck):
    p = ck.p
    f = ck.fn('console::enable_console_colors')
    w = ck.where(f)
    for nm, v in FORCED:
        tr = Tracer(lambda q, sh: sh is not None and 'set_colors_enabled' in sh)
        ip, outs = ck.run(f, {0: T('colors')}, opaque=lambda q: q == FV, models={FV: forced(v), 'Colors::forced_value': forced(v)}, monitor=tr)
        for k, s, r in outs:
            if k != 'ret':
                continue
            ev = [(e[0].split('::')[-1], e[1][0]) for e in s.mon or ()]
            if v == NONE:
                ck.expect(not ev, 'set:auto', 'colours left to the terminal are set to %s' % [pp(x[1], p) for x in ev], w, 'left to the terminal: not set')
                continue
            for st_ in ('set_colors_enabled', 'set_colors_enabled_stderr'):
                got = [x[1] for x in ev if x[0] == st_]
                if any(g[0] != 'b' for g in got):
                    ck.unsure('%s %s' % (st_, [pp(g, p)[:40] for g in got]))
                    continue
                ck.expect(bool(got) and got[-1] == v[3][0], 'set:%s' % st_, 'colours forced %s are %s for %s' % (nm, 'not set' if not got else 'set the other way', 'standard error' if 'stderr' in st_ else 'standard output'), w, 'forced %s: %s' % (nm, st_))


class Layers(Monitor):
    """with_ansi and with_writer calls, as they are chained"""

    def on_call(self, st, c):
        if c.short is None:
            return None
        last = c.short.split('::')[-1]
        if last in ('with_ansi', 'with_writer', 'make_debug_log_writer', 'make_terminal_writer') and len(st.mon or ()) < 20:
            st.mon = (st.mon or ()) + ((last, c.mats(st)),)
        return None


def logs(ck):
    p = ck.p
    f = ck.fn('console::Console::setup_global_trace')
    w = ck.where(f)
    for nm, v in FORCED:
        ip, outs = ck.run(f, {0: T('console'), 2: T('colors')}, opaque=lambda q: q == FV or q.endswith(('make_debug_log_writer', 'make_terminal_writer')),
                          models={FV: forced(v), 'Colors::forced_value': forced(v)}, monitor=Layers())
        n = 0
        for k, s, r in outs:
            ev = s.mon or ()
            # a chain is the with_ansi call and the with_writer call that has its result, whichever is first
            for i, (nm1, a) in enumerate(ev):
                if nm1 not in ('with_writer', 'with_ansi'):
                    continue
                for nm2, b in ev[i + 1:]:
                    if {nm1, nm2} != {'with_writer', 'with_ansi'} or not mentions(b[0], a[1]) or nm1 == 'with_ansi' and 'with_ansi' not in repr(b[0]):
                        continue
                    ansi, wr = (a[1], b[1]) if nm1 == 'with_ansi' else (b[1], a[1])
                    x = repr(wr)
                    if 'make_debug_log_writer' in x:
                        n += 1
                        if ansi[0] != 'b':
                            ck.bad('log:ansi', 'the log in the output directory has colour codes when %s' % pp(ansi, p)[:80], w)
                        else:
                            ck.expect(ansi == FALSE, 'log:ansi', 'the log in the output directory has colour codes', w, 'debug log without colours')
                    elif 'make_terminal_writer' in x:
                        n += 1
                        if v != NONE:
                            if ansi[0] != 'b':
                                ck.unsure('terminal: %s' % pp(ansi, p)[:60])
                            else:
                                ck.expect(ansi == v[3][0], 'terminal:' + nm, 'messages on the terminal %s colours although they are forced %s' % ('have' if ansi == TRUE else 'have no', nm), w, 'terminal, forced ' + nm)
                        elif ansi[0] == 'b':
                            ck.expect(any('colors_enabled_stderr' in repr(t) for t in s.facts), 'terminal:auto', 'messages on the terminal always %s colours' % ('have' if ansi == TRUE else 'lack'), w)
                        else:
                            ck.expect(ansi[0] == 't' and ansi[1].endswith('colors_enabled_stderr') or 'colors_enabled' not in repr(ansi), 'terminal:auto', 'colours of messages on standard error are decided by %s' % pp(ansi, p)[:60], w, 'terminal, left to it')
        if not n:
            ck.unsure('layers of the log not recognised')


def started(ck):
    p = ck.p
    w = ck.where(ck.fn('main'))
    WORK = ('workspace::Workspace::discover', 'list::list_files', 'list::list_mutants', 'lab::test_mutants')
    tr = Tracer(lambda q, sh: q in ('console::enable_console_colors', 'console::Console::setup_global_trace') + WORK)
    ip, outs = ck.run('main', opaque=lambda q: q in UNITS or is_console(q) or q.startswith('mutant::Mutant::'), monitor=tr)
    n = 0
    for k, s, v in outs:
        ev = [(e[0], e[1]) for e in s.mon or ()]
        names = [e[0] for e in ev]
        at = [i for i, x in enumerate(names) if x in WORK]
        if not at:
            continue
        n += 1
        before = ev[:at[0]]
        for f in ('console::enable_console_colors', 'console::Console::setup_global_trace'):
            a = [e[1][-1] for e in before if e[0] == f]
            ck.expect(bool(a), 'start:' + f, 'the work begins before %s' % f, w)
            for x in a:
                if x[0] == 'adt':
                    ck.bad('start:' + f, '%s is given %s, not what the user chose' % (f, pp(x, p)[:60]), w)
                else:
                    ck.expect(x[0] != 't' or 'colors' in repr(x), 'start:' + f, '%s is given %s' % (f, pp(x, p)[:60]), w, '%s before anything else' % f)
    if not n:
        ck.unsure('no path of main does anything')


def listed(ck):
    p = ck.p
    f = ck.fn('list::list_mutants')
    w = ck.where(f)
    O = 'options::Options'
    for on in (TRUE, FALSE):
        for json in (TRUE, FALSE):
            m = forced(on)
            opts = overlay(p, 'options', O, emit_json=json, emit_diffs=FALSE)
            tr = Tracer(lambda q, sh: q.startswith('mutant::Mutant::') and q.endswith(('to_styled_string', '::name')))
            ip, outs = ck.run(f, {0: seq(T('m1'), T('m2')), 1: opts}, opaque=lambda q: q == ACT or q.startswith('mutant::Mutant::') or '<mutant::Mutant' in q, models={ACT: m, 'Colors::active_stdout': m}, monitor=tr)
            for k, s, v in outs:
                if k != 'ret':
                    continue
                names = {e[0].split('::')[-1] for e in s.mon or ()}
                nm = 'colours %s, %s' % ('on' if on == TRUE else 'off', 'JSON' if json == TRUE else 'text')
                if json == TRUE or on == FALSE:
                    ck.expect('to_styled_string' not in names, 'list:' + nm, 'with %s a list of mutants has colour codes' % nm, w, nm)
                elif not names:
                    ck.unsure('list: ' + nm)
                else:
                    ck.expect('to_styled_string' in names, 'list:' + nm, 'with %s a list of mutants has no colours' % nm, w, nm)
