"""Interrupts are honoured."""
from vlib import *
import cmdx
from cmdx import *

EXPLANATION = ('Finite-state monitor over all partitions of the three long waits (copying the tree, waiting for the output lock, waiting for cargo) and of a cargo run: every file copied and every '
               'sleep is preceded by a look at the interrupt flag since the previous one; a seen interrupt leads to an error return with no further copy, sleep or process; '
               'the flag is set by the signal handler, read by the test, and never cleared.')
MIN_OBLIGATIONS = 15
CI = 'interrupt::check_interrupted'
STEPS = ('thread::sleep', 'fs::copy', 'Command::spawn', 'FileExt::lock_exclusive', 'copy_tree::unix::copy_symlink', 'fs::create_dir_all')


class Looks(Monitor):
    """st.mon = (looked since the last step, interrupt seen)"""

    def __init__(self, ck, need):
        self.ck = ck
        self.need = need
        self.bad = []
        self.steps = 0
        self.looks = 0

    def seen(self, st):
        p = self.ck.p
        for t in list(st.facts):
            if t[0] == 't' and t[1] == 'discr' and t[2][0] == 't' and t[2][1] == CI:
                if dvariant(p, st, t[2]) == 'Err':
                    return True
        return False

    def on_call(self, st, c):
        looked = bool(st.mon)
        if c.path == CI:
            self.looks += 1
            st.mon = ('looked',)
            return None
        if c.short in self.need or c.path in self.need:
            self.steps += 1
            w = self.ck.p.span_text(c.span)
            if self.seen(st):
                self.bad.append(('after:%s' % c.short, '%s is reached after an interrupt was seen' % c.short, w))
            elif not looked:
                self.bad.append(('unlooked:%s' % c.short, '%s is repeated without looking for an interrupt' % c.short, w))
            st.mon = None
        return None


def check(ck):
    p = ck.p
    POLLS = ('process::Process::poll',)
    for path, need, given in (
            ('copy_tree::copy_tree', ('fs::copy',), {}),
            ('output::LockFile::acquire_lock', ('thread::sleep',), {}),
            ('process::Process::run', ('thread::sleep',), {})):
        inst = ck.fn(path)
        mon = Looks(ck, need)
        ip, outs = ck.run(inst, given, opaque=lambda q: is_console(q) or q in (CI, QUOTE), monitor=mon, max_seconds=100)
        for k, m, w in mon.bad:
            ck.bad('%s:%s' % (path, k), m, w)
        ck.expect(mon.looks > 0, 'looks:' + path, '%s never looks for an interrupt' % path, ck.where(inst), '%s: %d looks, %d steps' % (path, mon.looks, mon.steps))
        ck.floor('steps in ' + path, mon.steps, 1)
        n = 0
        for k, s, v in outs:
            if k == 'ret' and mon.seen(s):
                n += 1
                ck.expect(is_err(ip.mat(s, v)), 'result:' + path, 'an interrupt seen in %s does not end it with an error' % path, ck.where(inst))
        ck.expect(n > 0, 'reaction:' + path, 'an interrupt seen in %s has no effect' % path, ck.where(inst))
    # a cargo run: after the process, before the result is used
    inst = ck.fn(RC)
    ip, outs = ck.run(inst, {}, opaque=lambda q: is_console(q) or q in (CI, 'process::Process::run', 'cargo::cargo_argv', 'cargo::encoded_rustflags'),
                      monitor=Tracer(lambda q, s: q in (CI, 'process::Process::run')))
    for k, s, v in outs:
        v = ip.mat(s, v)
        if k != 'ret' or not is_ok(v):
            continue
        names = [e[0] for e in s.mon or ()]
        ck.expect(CI in names and names.index(CI) > names.index('process::Process::run') if 'process::Process::run' in names else True, 'run:look',
                  'a cargo run returns a result without looking for an interrupt', ck.where(inst), 'run_cargo looks after the process')
        ck.expect(dvariant(p, s, T(CI)) == 'Ok', 'run:result', 'an interrupted cargo run counts as a result', ck.where(inst))
    # an interrupt ends the scenario with an error, and that must end the run with an error
    import labx
    n = 0
    for kw in (dict(jobs=None, n=1), dict(jobs=2, n=2), dict(jobs=1, n=2, baseline='Run'), dict(jobs=3, n=2, baseline='Run')):
        ip, paths = labx.lab(ck, **kw)
        for k, s, v, evs in paths:
            f = [e[1] for e in evs if e[0] == 'fault' and e[1][:2] == ('t', 'e_run')]
            if f:
                n += 1
                ck.expect(not is_ok(v), 'lab:swallowed', 'jobs=%s mutants=%d: the run goes on to succeed although a scenario was broken off (%s)' % (
                    kw['jobs'], kw['n'], ', '.join(pp(x, p) for x in f)), ck.where(ck.fn(labx.TM)), 'a broken off scenario ends the run with an error')
    ck.floor('broken off scenarios', n, 1)
    # the flag
    st_sites, ld_sites, clears = [], [], []
    for i in p.local_bodies():
        b = p.body(i)
        for blk in b.blocks:
            t = blk[1]
            if t[0] != 'call':
                continue
            nm = callee_name(p, t)
            if nm is None:
                continue
            if nm.startswith('std::sync::atomic::Atomic') and 'interrupt' in p.path(i):
                m = nm.split('::')[-1]
                if m in ('store', 'swap', 'compare_exchange', 'fetch_or', 'fetch_and', 'fetch_xor', 'compare_and_swap', 'compare_exchange_weak', 'fetch_nand', 'fetch_not'):
                    st_sites.append((p.path(i), t))
                if m in ('load', 'swap', 'fetch_or'):
                    ld_sites.append((p.path(i), t))
    ck.floor('interrupt flag accesses', len(st_sites) + len(ld_sites), 2)
    for path, t in st_sites:
        val = t[2][1] if len(t[2]) > 1 else None
        txt = repr(val)
        ck.expect("['b', False]" not in txt and 'False' not in txt, 'cleared', 'the interrupt flag is cleared in %s' % path, None, 'flag set in %s' % path)
    ip, outs = ck.run(CI, {})
    for k, s, v in outs:
        if k != 'ret':
            continue
        v = ip.mat(s, v)
        flags = [c for t, c in s.facts.items() if 'load' in repr(t)]
        if TRUE in flags:
            ck.expect(is_err(v), 'flag-true', 'a set interrupt flag is not an error', ck.where(ck.fn(CI)), 'flag set: error')
        elif FALSE in flags:
            ck.expect(is_ok(v), 'flag-false', 'an error without interrupt', ck.where(ck.fn(CI)), 'flag clear: ok')
        else:
            ck.unsure('flag')
    # handler installed before any work
    ip, outs = analyse_main(ck)
    n = 0
    for k, s, v in outs:
        evs = [e[0] for e in s.mon or ()]
        if 'lab::test_mutants' in evs:
            n += 1
            ck.expect('interrupt::install_handler' in evs and evs.index('interrupt::install_handler') < evs.index('lab::test_mutants'), 'handler',
                      'mutants are tested without an interrupt handler', ck.where(ck.fn('main')))
    ck.floor('paths to the lab', n, 1)


def callee_name(p, t):
    f = t[1]
    if f[0] == 'k' and f[1][0] == 'fn':
        return p.types[f[1][1]].get('p')
    return None
