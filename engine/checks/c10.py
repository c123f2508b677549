"""Life of a cargo child process."""
from vlib import *
import cmdx
from cmdx import *

EXPLANATION = ('All partitions from starting a cargo run to the end of its child process: how the child is configured when it is spawned (group, stdin, output, directory), what happens in '
               'every round of waiting (time limit, interrupt and exit examined), and on every way out whether the child has ended or its whole process group was signalled and the child reaped.')
MIN_OBLIGATIONS = 40
ASSUMPTIONS = ['the child and its descendants end on SIGTERM to their group (a process that ignores it is waited for)']
PR = 'process::Process::run'
CI = 'interrupt::check_interrupted'


class Rounds(Monitor):
    """events of the current round of waiting; st.mon = (spawned?, events)"""

    def __init__(self, ck):
        self.ck = ck
        self.bad = []
        self.rounds = 0

    def on_call(self, st, c):
        sh = c.short
        spawned, evs = st.mon or (None, ())
        name = c.path if c.local else sh
        if sh == 'Command::spawn':
            spawned = (c.mats(st), c.span)
            evs = ()
        elif sh in ('signal::killpg', 'signal::kill', 'Child::kill', 'Child::wait', 'Child::try_wait', 'Instant::elapsed') or c.path == CI:
            evs = evs + ((name, c.mats(st), c.span),)
            if len(evs) > 12:
                raise Cap('rounds')
        elif sh == 'thread::sleep' and spawned:
            self.rounds += 1
            names = [e[0] for e in evs]
            p = self.ck.p
            where = p.span_text(c.span)
            if any('kill' in n for n in names):
                self.bad.append(('sleep-after-kill', 'the wait goes on after the child was signalled', where))
            else:
                if CI not in names:
                    self.bad.append(('round-interrupt', 'a round of waiting does not look for an interrupt', where))
                if 'Child::try_wait' not in names:
                    self.bad.append(('round-exit', 'a round of waiting does not look whether the child has ended', where))
                lim = dvariant(p, st, T('limit'))
                known = [v for t, v in st.facts.items() if t[0] == 't' and t[1] == 'lt' and mentions(t, T('limit')) and any(mentions(t, T('Instant::elapsed', *e[1])) or 'elapsed' in repr(t) for e in evs if e[0] == 'Instant::elapsed')]
                if lim != 'None' and not known:
                    self.bad.append(('round-limit', 'a round of waiting does not look at the time limit', where))
            evs = ()
        else:
            return None
        st.mon = (spawned, evs)
        return None


def conf(ck, evs, where, stop):
    """the configuration of the command that was spawned"""
    b = builder(evs[0][0])
    byname = {}
    for x in b:
        byname.setdefault(x[0].split('::')[-1], []).append(x[1:])
    if b[0][0] != 'Command::new':
        ck.unsure('command is not built in the open: %s' % (b[0],))
        return
    p = ck.p
    pg = byname.get('process_group', [])
    ck.expect(bool(pg) and all(x[-1] == ('i', 0) for x in pg), 'group', 'the child is not put into a process group of its own', where, 'process_group(0)')
    si = byname.get('stdin', [])
    ck.expect(bool(si) and si[-1][0] == T('Stdio::null'), 'stdin', 'the standard input of the child is %s' % (pp(si[-1][0], p)[:60] if si else 'inherited'), where, 'stdin null')
    log = T('join', T('fld', T('scenario_output'), 'output_dir'), T('fld', T('scenario_output'), 'log_path'))
    for n in ('stdout', 'stderr'):
        so = byname.get(n, [])
        v = so[-1][0] if so else None
        ck.expect(v is not None and mentions(v, log), n, 'the %s of the child goes to %s' % (n, pp(v, p)[:100] if v else 'the terminal'), where, n + ' to the log')
        if v is not None and mentions(v, log):
            ck.expect('append' in repr(v) or 'try_clone' in repr(v), n + '-append', 'the %s of the child overwrites the log' % n, where)
    cd = byname.get('current_dir', [])
    ck.expect(bool(cd) and cd[-1][0] == T('cwd'), 'cwd', 'the child runs in %s' % (pp(cd[-1][0], p)[:80] if cd else 'the current directory'), where, 'cwd')


def check(ck):
    p = ck.p
    inst = ck.fn(PR)
    where = ck.where(inst)
    b = p.body(inst)
    given = typed_args(ck, inst, [('(std::string::String, std::string::String)', T('env')), ('std::string::String', seq(T('bin'), T('a1'))), ('Duration', T('limit')), ('Utf8Path', T('cwd')),
                                  ('jobserver', T('jobserver')), ('ScenarioOutput', T('scenario_output')), ('Console', T('console'))])
    mon = Rounds(ck)
    ip, outs = ck.run(inst, given, opaque=lambda q: is_console(q) or q in (CI, QUOTE), monitor=mon, max_seconds=100)
    for k, m, w in mon.bad:
        ck.bad(k, m, w)
    ck.floor('rounds of waiting analysed', mon.rounds, 1)
    EX = 'process::Exit'
    kinds = {}
    seen_conf = set()
    for k, s, v in outs:
        if k != 'ret':
            continue
        v = ip.mat(s, v)
        spawned, evs = s.mon or (None, ())
        if spawned is None:
            ck.expect(is_err(v), 'no-child', 'a run succeeds without starting a process', where)
            continue
        if spawned not in seen_conf:
            seen_conf.add(spawned)
            conf(ck, spawned, p.span_text(spawned[1]), False)
        sp = T('Command::spawn', *spawned[0])
        if any(dvariant(p, s, t) == 'Err' for t in list({t[2] for t in s.facts if t[0] == 't' and t[1] == 'discr' and t[2][0] == 't' and t[2][1] == 'Command::spawn'})):
            ck.expect(is_err(v), 'spawn-failed', 'a run succeeds although the process could not be started', where)
            continue
        names = [e[0] for e in evs]
        killed = [i for i, n in enumerate(names) if n in ('signal::killpg', 'signal::kill', 'Child::kill')]
        waited = [i for i, n in enumerate(names) if n == 'Child::wait']
        over = [x for t, x in s.facts.items() if t[0] == 't' and t[1] == 'lt' and mentions(t, T('limit')) and 'elapsed' in repr(t)]
        expired = any(limit_exceeded(t, x) for t, x in s.facts.items())
        intr = dvariant(p, s, T(CI)) == 'Err' or any(dvariant(p, s, t) == 'Err' for t in {t[2] for t in s.facts if t[0] == 't' and t[1] == 'discr'} if t[0] == 't' and t[1] == CI)
        if killed:
            for i in killed:
                e = evs[i]
                ck.expect(e[0] == 'signal::killpg', 'kill-group', 'only the child itself is signalled, not its process group', p.span_text(e[2]), 'killpg')
                ck.expect(mentions_spawned(e[1][0]), 'kill-pid', 'the group signalled is %s, not that of the child' % pp(e[1][0], p)[:80], p.span_text(e[2]))
                sg = variant(p, e[1][1]) if len(e[1]) > 1 else None
                if e[0] == 'signal::killpg':
                    if sg is None and not (len(e[1]) > 1 and is_some(e[1][1])):
                        ck.unsure('signal')
                    else:
                        ck.expect(sg in ('SIGTERM', 'SIGKILL', None), 'kill-signal', 'the child is sent %s' % sg, p.span_text(e[2]))
            ck.expect(expired or intr, 'kill-cause', 'the child is killed although neither its limit was exceeded nor an interrupt came', where)
        kr = [dvariant(p, s, t) for t in {t[2] for t in s.facts if t[0] == 't' and t[1] == 'discr'} if t[0] == 't' and t[1] == 'signal::killpg']
        kill_failed = killed and 'Err' in kr
        if is_ok(v):
            x = v[3][0]
            nm = variant(p, x) if x[0] == 'adt' else None
            if nm is None:
                ck.unsure('result %s' % pp(x, p)[:80])
                continue
            kinds[nm] = kinds.get(nm, 0) + 1
            if nm == 'Timeout':
                ck.expect(bool(killed), 'timeout-kill', 'a run counts as timed out without its processes having been stopped', where, 'timeout: killed and reaped')
                ck.expect(expired, 'timeout-cause', 'a run counts as timed out although its limit was not exceeded', where)
                ck.expect(bool(waited) and (not killed or waited[-1] > killed[-1]), 'timeout-reap', 'a run that timed out is left before its process has ended', where)
            else:
                ck.expect('Child::try_wait' in names or 'Child::wait' in names, 'ended:' + nm, 'a run ends with %s although the process may still be running' % nm, where, nm + ' after the exit status was seen')
                ck.expect(not killed, 'killed-as:' + nm, 'a run whose process was killed counts as %s' % nm, where)
                ck.expect(not intr, 'interrupted-as:' + nm, 'an interrupted run counts as %s' % nm, where)
        elif is_err(v):
            if intr and not kill_failed:
                ck.expect(bool(killed) and bool(waited) and waited[-1] > killed[-1], 'interrupt-kill', 'on an interrupt the child is left running', where, 'interrupt: killed and reaped')
            if expired and not intr:
                ck.expect(bool(killed), 'limit-kill', 'after the limit the child is left running', where)
        else:
            ck.unsure('result not decided')
    for nm in ('Timeout', 'Success', 'Failure', 'Signalled'):
        ck.expect(nm in kinds, 'kind:' + nm, 'no run ever ends with %s' % nm, where)


def limit_exceeded(t, x):
    if t[0] != 't' or t[1] != 'lt' or 'elapsed' not in repr(t) or not mentions(t, T('limit')):
        return False
    a, b = t[2], t[3]
    if mentions(a, T('limit')):          # limit < elapsed
        return x == TRUE
    return x == FALSE                     # elapsed < limit is false


def mentions_spawned(t):
    r = repr(t)
    return 'Child::id' in r and 'Command::spawn' in r
