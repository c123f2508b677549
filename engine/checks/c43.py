"""Workers run side by side; locks cannot block the run."""
import re
from vlib import *
import labx
from labx import TM
from interp import short_name

EXPLANATION = ('Dataflow over the control-flow graph of every local function: at every call, which lock guards may be alive (from the lock call, through moves, to the drop or the end of the storage), including those living in '
               'temporaries of loop conditions. Effects of callees (locks taken, waits, log events, uses of the terminal display) are summed up over the call graph. No wait for a process, a thread or time while a guard is alive; the '
               'order of locks is acyclic; functions run inside the display or a log writer neither use the display nor log. From all partitions of the lab: the workers are all started before the first is waited for.')
ASSUMPTIONS = ['nutmeg::View holds a lock of its own during update, and tracing calls the writers of the console for every event', 'locks are told apart by the type of what they guard']
MIN_OBLIGATIONS = 30

LOCK = re.compile(r'^(Mutex|ReentrantMutex|FairMutex)::(lock|try_lock)$|^RwLock::(read|write|try_read|try_write)$')
GUARD = re.compile(r'\b(MutexGuard|RwLockReadGuard|RwLockWriteGuard)<')
WAIT = re.compile(r'^(thread::sleep|(Scoped)?JoinHandle::join|Child::(wait|wait_with_output)|Command::(output|status|spawn)|Receiver::(recv|recv_timeout|iter)|Condvar::wait\w*|Barrier::wait|FileExt::lock_(exclusive|shared)|thread::(scope|park)|WalkBuilder::build(_parallel)?|fs::copy)$')
VIEW = re.compile(r'^View::\w+$')
EVENT = re.compile(r'Event(::<[^>]*>)?::(dispatch|child_of)')
DISPLAY = 'the terminal display'


class Locks:
    def __init__(self, p):
        self.p = p
        self.eff = {}
        self.sites = []      # (function, span, held classes, callee instance, short)
        self.inner = []      # (what, instance run inside, span): closures run inside the display, writers called for log events
        self.n_locks = 0

    def tyname(self, t):
        return self.p.types[t]['s']

    def is_guard(self, t):
        s = self.tyname(t)
        return bool(GUARD.search(s)) and not s.startswith(('&', '*')) and not s.startswith(('[closure', '{closure'))

    def klass(self, j):
        """what the lock guards"""
        args = [self.tyname(a) for a in self.p.insts[j]['args'] if isinstance(a, int)] if j is not None else []
        args = [a for a in args if not a.startswith("'")]
        return re.sub(r"<'_>|'\w+ ", '', args[0]) if args else 'something'

    def callee(self, f):
        if f[0] == 'k' and f[1][0] == 'fn':
            ty = self.p.types[f[1][1]]
            j = ty.get('i')
            return j, (self.p.path(j) if j is not None else ty.get('p')), ty
        return None, None, None

    def closures(self, j, ty, ops, rb):
        """local closures and functions handed to a call"""
        out = []
        for a in (self.p.insts[j]['args'] if j is not None else ()):
            if isinstance(a, int):
                t = self.p.types[a]
                if t.get('k') in ('closure', 'fndef', 'fn') and t.get('i') is not None and t['i'] in self.p.raw_bodies:
                    out.append(t['i'])
        return out

    def run(self, inst):
        """guards that may be alive at each call of a function"""
        p = self.p
        rb = p.raw_bodies[inst]
        blocks = rb['blocks']
        loc = rb['locals']
        guards = {l for l, t in enumerate(loc) if self.is_guard(t)}
        calls = []
        ent = {0: {}}
        work = [0]

        def operands(x):
            """(local, moved) of the whole locals used in an rvalue or operand list"""
            if isinstance(x, list):
                if len(x) >= 2 and x[0] in ('m', 'p', 'c') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                    yield x[1][0], x[0] == 'm'
                    return
                for y in x:
                    yield from operands(y)
        seen_calls = {}
        while work:
            n = work.pop()
            st = dict(ent[n])
            stmts, term, cleanup = blocks[n][0], blocks[n][1], blocks[n][2]
            if cleanup:
                continue
            for s in stmts:
                if s[0] == 'dead':
                    st.pop(s[1], None)
                elif s[0] == '=':
                    dst = s[1][0]
                    got = frozenset()
                    for l, mv in operands(s[2]):
                        if l in st and mv:
                            got |= st[l]
                            if self.moves_all(s[2], l):
                                st.pop(l, None)
                    if got and (dst in guards):
                        st[dst] = st.get(dst, frozenset()) | got
                    elif dst in guards and len(s[1]) == 1:
                        st.pop(dst, None)
            k = term[0]
            nxt = []
            if k == 'goto':
                nxt = [term[1]]
            elif k == 'switch':
                nxt = [x[1] for x in term[2]] + [term[3]]
            elif k == 'drop':
                if len(term[1]) == 1:
                    st.pop(term[1][0], None)
                nxt = [term[2]]
            elif k == 'assert':
                nxt = [term[3]]
            elif k == 'call':
                j, path, ty = self.callee(term[1])
                held = frozenset().union(*st.values()) if st else frozenset()
                seen_calls[n] = (j, path, ty, term[2], term[5], held)
                moved = frozenset()
                for o in term[2]:
                    for l, mv in operands(o):
                        if mv and l in st:
                            moved |= st.pop(l)
                dst = term[3][0]
                if path is not None and LOCK.match(short_name(path)[0]):
                    moved = frozenset([self.klass(j)])
                if dst in guards:
                    if moved:
                        st[dst] = moved
                    elif j is not None and j in p.raw_bodies and GUARD.search(self.tyname(loc[dst])):
                        m = re.search(r'Guard<(?:\'\w+, )?(.*?)>', self.tyname(loc[dst]))
                        st[dst] = frozenset([re.sub(r"<'_>|'\w+ ", '', m.group(1)) if m else 'something'])
                    else:
                        st.pop(dst, None)
                nxt = [term[4]] if term[4] is not None else []
            for m in nxt:
                old = ent.get(m)
                new = {l: (old or {}).get(l, frozenset()) | st.get(l, frozenset()) for l in set(old or {}) | set(st)}
                if old is None or new != old:
                    ent[m] = new
                    work.append(m)
        return seen_calls

    def moves_all(self, r, l):
        return r[0] in ('use', 'cast', 'agg') or True

    def build(self):
        p = self.p
        self.callsof = {}
        for i in p.raw_bodies:
            me = p.path(i)
            if me.startswith(('std::', 'core::', 'alloc::', '<std::')):
                continue
            self.callsof[i] = self.run(i)

    def direct(self, i):
        out = set()
        for n, (j, path, ty, ops, span, held) in self.callsof.get(i, {}).items():
            out |= self.site(j, path)
        return out

    def site(self, j, path):
        out = set()
        if path is None:
            return out
        sh = short_name(path)[0]
        if LOCK.match(sh):
            out.add(('lock', self.klass(j)))
        if WAIT.match(sh):
            out.add(('wait', sh))
        if VIEW.match(sh):
            out.add(('lock', DISPLAY))
        if EVENT.search(path):
            out.add(('event', 'a log event'))
        return out

    def effects(self, i):
        """what can happen while function i runs (its callees and the closures it makes included)"""
        if i in self.eff:
            return self.eff[i]
        seen, work, out = set(), [i], {}
        par = {i: None}
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            for n, (j, path, ty, ops, span, held) in self.callsof.get(k, {}).items():
                for e in self.site(j, path):
                    out.setdefault(e, (k, span))
                for t in ([j] if j is not None else []) + self.closures(j, ty, ops, None):
                    if t in self.callsof and t not in seen:
                        par.setdefault(t, k)
                        work.append(t)
        self.eff[i] = out
        return out


def check(ck):
    parts(ck, locks, workers)


def locks(ck):
    p = ck.p
    L = Locks(p)
    L.build()
    for i in L.callsof:
        if any(LOCK.match(short_name(c[1])[0]) for c in L.callsof[i].values() if c[1]):
            ck.functions.add(p.path(i))
    nlock = nheld = 0
    edges = {}
    logs = None
    # what a log event does: the writers of the console
    writers = [i for i in L.callsof if re.search(r'^<console::\w+ as (std::io::Write|.*MakeWriter.*)>::', p.path(i))]
    inside_event = set()
    for w in writers:
        inside_event |= {e for e in L.effects(w)}
    for i, calls in L.callsof.items():
        me = p.path(i)
        for n, (j, path, ty, ops, span, held) in calls.items():
            if path is None:
                continue
            sh = short_name(path)[0]
            where = p.span_text(span) if span is not None else None
            if LOCK.match(sh):
                nlock += 1
            if VIEW.match(sh):
                for c in L.closures(j, ty, ops, None):
                    eff = L.effects(c)
                    for e, (k, sp) in eff.items():
                        if e == ('lock', DISPLAY):
                            ck.bad('display-reentered:%s' % me, 'a function run inside the terminal display uses the display, which blocks for ever: %s' % p.path(k), p.span_text(sp))
                        elif e[0] == 'event':
                            ck.bad('display-logs:%s' % me, 'a function run inside the terminal display logs, and log events go through the display, which blocks for ever: %s' % p.path(k), p.span_text(sp))
                        elif e[0] == 'wait':
                            ck.bad('display-waits:%s' % me, 'a function run inside the terminal display waits (%s)' % e[1], p.span_text(sp))
                        else:
                            edges.setdefault((DISPLAY, e[1]), (me, p.span_text(sp)))
                    ck.good('%s: run inside the display: %s' % (me, sorted(x[1] for x in eff) or 'nothing'))
            eff = dict.fromkeys(L.site(j, path), (i, span))
            for t in ([j] if j is not None else []) + L.closures(j, ty, ops, None):
                if t in L.callsof:
                    for e, w in L.effects(t).items():
                        eff.setdefault(e, w)
            if not held:
                continue
            nheld += 1
            for e, (k, sp) in eff.items():
                todo = [e]
                if e[0] == 'event':
                    todo = [x for x in inside_event if x[0] == 'lock']
                for x in todo:
                    for h in held:
                        if x[0] == 'wait':
                            ck.bad('wait:%s:%s:%s' % (me, h, x[1]), '%s calls %s while the lock on %s is held; that waits (%s in %s), so all others who need the lock wait too' % (me, path, h, x[1], p.path(k)), where)
                        elif x[0] == 'lock':
                            if x[1] == h:
                                ck.bad('relock:%s:%s' % (me, h), '%s calls %s while the lock on %s is held, and that takes the same lock (in %s)%s' % (
                                    me, path, h, p.path(k), ' for a log event' if e[0] == 'event' else ''), where)
                            else:
                                edges.setdefault((h, x[1]), (me, where))
            ck.good('%s calls %s with %s held' % (me, sh, sorted(held)))
    # inside the writers of log events nothing may log
    for w in writers:
        eff = L.effects(w)
        ev = [e for e in eff if e[0] == 'event']
        ck.expect(not ev, 'writer-logs:%s' % p.path(w), '%s is called for a log event and logs itself' % p.path(w), p.span_text(eff[ev[0]][1]) if ev else None, '%s does not log' % p.path(w))
        for e in eff:
            if e[0] == 'wait':
                ck.bad('writer-waits:%s' % p.path(w), '%s waits (%s)' % (p.path(w), e[1]), None)
    for i in L.callsof:
        if re.search(r'^<console::\w+ as nutmeg::Model>::', p.path(i)):
            eff = L.effects(i)
            for e, (k, sp) in eff.items():
                if e == ('lock', DISPLAY) or e[0] == 'event':
                    ck.bad('render:%s' % e[0], 'drawing the display %s: %s' % ('uses the display' if e[0] == 'lock' else 'logs, and log events go through the display', p.path(k)), p.span_text(sp))
                elif e[0] == 'wait':
                    ck.bad('render:wait', 'drawing the display waits (%s)' % e[1], p.span_text(sp))
                else:
                    edges.setdefault((DISPLAY, e[1]), (p.path(i), p.span_text(sp)))
            ck.good('drawing the display: %s' % sorted(x[1] for x in eff))
    # order
    succ = {}
    for (a, b) in edges:
        succ.setdefault(a, set()).add(b)

    def reaches(a, b):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return False
    for (a, b), (me, w) in sorted(edges.items()):
        ck.expect(not reaches(b, a), 'order:%s:%s' % tuple(sorted((a, b))), 'the lock on %s is taken while that on %s is held (in %s), and elsewhere the other way round' % (b, a, me), w, '%s before %s' % (a, b))
    ck.count('functions analysed', len(L.callsof))
    ck.floor('lock acquisitions', nlock, 3)
    ck.count('calls with a lock held', nheld)
    ck.count('lock order edges', len(edges))


def workers(ck):
    """as many workers as asked for run at the same time"""
    p = ck.p
    where = ck.where(ck.fn(TM))
    n = 0
    for jobs, m, shuffle in ((None, 2, FALSE), (1, 2, FALSE), (2, 2, FALSE), (3, 2, FALSE), (2, 3, FALSE), (3, 4, FALSE), (4, 4, TRUE), (8, 6, FALSE), (2, 7, FALSE), (5, 9, FALSE)):
        ip, paths = labx.lab(ck, jobs=jobs, n=m, shuffle=shuffle, faults=False)
        for k, s, v, evs in paths:
            if not is_ok(v):
                continue
            names = [e[0] for e in evs]
            spawns = names.count('spawn')
            want = max(1, min(jobs or 1, m))
            if not spawns:
                # everything in the main thread: fine for one job only
                if 'run' in names:
                    ck.expect(want == 1, 'no-workers', '--jobs %s with %d mutants: no worker is started' % (jobs, m), where)
                continue
            n += 1
            ck.expect(spawns >= want, 'too-few', '--jobs %s with %d mutants: %d workers are started, %d could run' % (jobs, m, spawns, want), where, '--jobs %s, %d mutants: %d workers' % (jobs, m, spawns))
            if 'join' in names:
                last = max(i for i, x in enumerate(names) if x == 'spawn')
                ck.expect(names.index('join') > last, 'join-early', '--jobs %s with %d mutants: a worker is waited for before the last is started' % (jobs, m), where)
    ck.floor('runs with workers', n, 3)
