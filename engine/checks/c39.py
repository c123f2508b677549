"""One jobserver limits the tasks of all child processes."""
from vlib import *
from labx import lab, muts, TM
from cmdx import spawned, overlay, RC
import scen

EXPLANATION = ('All partitions of a whole run are enumerated with the jobserver on and off, with and without an explicit number of tasks, with one and several jobs and with the baseline on or off: '
               'at most one jobserver is made, exactly when it is on, before any scenario, with the number of tasks asked for (or that of the CPUs), and every worker, of the baseline and of mutants, has that jobserver; failing to make it ends the run. '
               'One scenario hands its worker\'s jobserver to every cargo phase, and the partitions from run_cargo to the spawning of the process show that the jobserver configures the child\'s command exactly when there is one, after the environment of the child is set.')
ASSUMPTIONS = ['the jobserver crate: Client::configure arranges for the child to inherit the jobserver']
MIN_OBLIGATIONS = 40


def client_of(v):
    """the jobserver in an Option value: (known, client or None)"""
    if is_none(v):
        return True, None
    if is_some(v):
        return True, v[3][0]
    return False, v


def check(ck):
    parts(ck, whole, phases, child)


def whole(ck):
    p = ck.p
    where = ck.where(ck.fn(TM))
    CL = T('the_jobserver')

    def new(ip, st, c):
        from labx import ev
        ev(st, 'client', ip.mat(st, c.args[0]))
        s2 = st.copy()
        ev(s2, 'client-failed')
        return [('ret', st, ok(CL)), ('ret', s2, err(T('e_client')))]

    for on in (TRUE, FALSE):
        for tasks in (NONE, some(('i', 13)), some(('i', 1))):
            for jobs, base, n in ((1, 'Run', 1), (2, 'Run', 2), (1, 'Skip', 2), (None, 'Skip', 1), (3, 'Skip', 3)):
                if (jobs or 1) > 1 and tasks == some(('i', 1)):
                    continue
                ip, paths = lab(ck, jobs, n, baseline=base, faults=False, js=True, over={'jobserver': on, 'jobserver_tasks': tasks},
                                extra={'Client::new': new, 'num_cpus::get': lambda ip, st, c: [('ret', st, T('n_cpus'))]})
                tag = 'jobserver=%s tasks=%s jobs=%s' % (on == TRUE, pp(tasks, p), jobs)
                if not paths:
                    ck.unsure('%s: no path' % tag)
                for k, s, v, evs in paths:
                    made = [e for e in evs if e[0] == 'client']
                    names = [e[0] for e in evs]
                    if 'client-failed' in names:
                        ck.expect(is_err(v), 'failed', '%s: a jobserver that cannot be made does not end the run' % tag, where, '%s: failure' % tag)
                        continue
                    want = 1 if on == TRUE else 0
                    if not any(x == 'run' for x in names):
                        continue
                    ck.expect(len(made) == want, 'count', '%s: %d jobservers are made' % (tag, len(made)), where, '%s: %d jobservers' % (tag, want))
                    for e in made:
                        w = tasks[3][0] if is_some(tasks) else T('n_cpus')
                        ck.expect(e[1] == w, 'tasks', '%s: the jobserver has %s tasks' % (tag, pp(e[1], p)[:60]), where, '%s: tasks' % tag)
                    for e in evs:
                        if e[0] != 'js':
                            continue
                        known, cl = client_of(e[1])
                        if not known:
                            ck.unsure('%s: jobserver of a worker: %s' % (tag, pp(e[1], p)[:100]))
                            continue
                        good = cl is None if on == FALSE else cl == CL
                        ck.expect(good, 'worker', '%s: a worker runs with %s' % (tag, 'no jobserver' if cl is None else pp(cl, p)[:80]), where, '%s: every worker' % tag)


def phases(ck):
    p = ck.p
    for kind in 'BM':
        ip, outs = scen.scenario(ck, kind)
        for k, s, v, evs in outs:
            for e in evs:
                if e[0] != scen.RC:
                    continue
                a = js_arg(ck, e)
                if a is None:
                    ck.unsure('jobserver argument of run_cargo')
                    continue
                ck.expect(a == T('fld', T('worker'), 'jobserver'), 'phase', 'a phase is run with the jobserver %s' % pp(a, p)[:80], ck.where(ck.fn(scen.ROS)), 'every phase of %s' % kind)


def js_arg(ck, e):
    p = ck.p
    b = p.body(ck.fn(RC))
    for i in range(b.argc):
        if 'jobserver' in p.types[b.locals[i + 1]]['s']:
            return e[1][i] if i < len(e[1]) else None
    return None


def child(ck):
    p = ck.p
    where = ck.where(ck.fn(RC))
    sel = mk(p, 'package::PackageSelection', 'All')
    for phase in ('Check', 'Build', 'Test'):
        for tool in ('Cargo', 'Nextest'):
            o = overlay(p, 'options', 'options::Options', test_tool=mk(p, 'options::TestTool', tool), profile=NONE, cap_lints=FALSE, additional_cargo_args=seq(), additional_cargo_test_args=seq())
            for js in (NONE, some(T('js'))):
                tag = '%s with %s' % (phase, tool)
                for s, b, span in spawned(ck, phase, o, sel, {'CARGO': T('CARGO')}, js=js):
                    w = p.span_text(span)
                    at = [i for i, x in enumerate(b) if x[0] in ('Client::configure', 'Client::configure_make', 'Client::configure_and_run')]
                    if js == NONE:
                        ck.expect(not at, 'none', '%s: a child is given a jobserver though there is none' % tag, w, '%s: none' % tag)
                        continue
                    ck.expect(bool(at) and all(b[i][1] == T('js') for i in at), 'configure', '%s: a child is started without the jobserver' % tag, w, '%s: configured' % tag)
                    for x in b[at[-1] + 1 if at else len(b):]:
                        lost = x[0] == 'Command::env_clear' or x[0] in ('Command::env', 'Command::env_remove') and x[1][0] == 's' and x[1][1] in ('CARGO_MAKEFLAGS', 'MAKEFLAGS', 'MFLAGS')
                        ck.expect(not lost, 'lost', '%s: the jobserver is taken from the environment of the child again' % tag, w)
