"""The lock on the output directory."""
from vlib import *

EXPLANATION = ('Typestate analysis of all partitions of creating the output directory, with every opened file a distinct handle: an existing directory is rotated away or deleted only after the exclusive lock on '
               'its lock.json was obtained, nothing but the older rotated directory is ever deleted, the new directory is locked before anything else is put into it, and the handle holding '
               'that lock is part of the returned value, neither closed nor unlocked.')
ASSUMPTIONS = ['an exclusive fs2 lock excludes other processes until the handle is closed or unlocked']
MIN_OBLIGATIONS = 20
NEW = 'output::OutputDir::new'
FT = 'std::fs::File'


def files_in(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 't' and v[1] == 'file':
            out.add(v[2][1])
        else:
            for x in v:
                if isinstance(x, tuple):
                    files_in(x, out)
    return out


class Locks(Monitor):
    """st.mon = (paths of handles, locked handles, closed handles, events)"""

    def __init__(self, ck):
        self.ck = ck
        self.ip = None

    def get(self, st):
        return st.mon or ((), frozenset(), frozenset(), ())

    def ev(self, st, *e):
        a, b, c, evs = self.get(st)
        if e not in evs:
            if len(evs) > 40:
                raise Cap('events')
            st.mon = (a, b, c, evs + (e,))

    def on_drop(self, st, ty, val, span, caller):
        if ty == FT or ty.endswith('OutputDir') or 'std::fs::File' in ty:
            v = self.ip.mat(st, val) if self.ip else val
            # an enum that was moved out of holds no file any more; only a plain file or struct is closed here
            ids = files_in(v)
            if ids and ty == FT:
                a, b, c, evs = self.get(st)
                st.mon = (a, b, c | ids, evs)

    def on_call(self, st, c):
        self.ip = c.ip
        sh = c.short
        a, b, cl, evs = self.get(st)
        if sh in ('OpenOptions::open', 'File::create', 'File::open', 'File::create_new'):
            path = c.m(st, len(c.args) - 1)
            n = len(a)
            if n > 12:
                raise Cap('handles')
            f = T('file', ('i', n), path)
            s2 = st.copy()
            st.mon = (a + (path,), b, cl, evs)
            self.ev(st, 'open', n, path, c.span)
            return [('ret', st, ok(f)), ('ret', s2, err(T('open_error', path)))]
        if sh in ('FileExt::try_lock_exclusive', 'FileExt::lock_exclusive', 'File::lock', 'File::try_lock'):
            ids = files_in(c.m(st, 0))
            s2 = st.copy()
            st.mon = (a, b | ids, cl, evs)
            for i in ids:
                self.ev(st, 'lock', i, a[i], c.span)
            return [('ret', st, ok(UNIT)), ('ret', s2, err(T('lock_error')))]
        if sh in ('FileExt::unlock', 'File::unlock'):
            ids = files_in(c.m(st, 0))
            st.mon = (a, b, cl | ids, evs)
            return [('ret', st, ok(UNIT))]
        if sh in ('fs::rename', 'fs::remove_dir_all', 'fs::create_dir', 'fs::create_dir_all', 'fs::write', 'fs::remove_file', 'fs::remove_dir', 'fs::copy'):
            held = frozenset(b - cl)
            self.ev(st, sh, c.mats(st), frozenset((i, a[i]) for i in b), frozenset((i, a[i]) for i in held), c.span)
        return None


def under(path, d):
    return path == d or (path[0] == 't' and path[1] == 'join' and (path[2] == d or path[2:][:len(d) - 2] == d[2:] if d[0] == 't' and d[1] == 'join' else path[2] == d))


def check(ck):
    parts(ck, rotation, placed)


def placed(ck):
    """which directory the results go to (and so which runs meet there)"""
    p = ck.p
    w = ck.where(ck.fn('main'))
    ip, outs = analyse_main(ck)
    n = 0
    seen = set()
    for k, s, v in outs:
        for e in s.mon or ():
            if e[0] != NEW:
                continue
            a = e[1][0]
            given = {}
            for t, c in s.facts.items():
                if t[0] == 't' and t[1] == 'discr' and t[2][0] == 't' and t[2][1] == 'fld' and t[2][-1] == 'output_in_dir':
                    given[t[2]] = dvariant(p, s, t[2])
            kinds = set(given.values())
            own, root = 'output_in_dir' in repr(a), 'Workspace::root' in repr(a) or "'root_dir'" in repr(a) or 'workspace_root' in repr(a)
            if (a, tuple(sorted(map(repr, kinds)))) in seen:
                continue
            seen.add((a, tuple(sorted(map(repr, kinds)))))
            if kinds == {'Some'}:
                n += 1
                ck.expect(own, 'placed:given', 'the output directory asked for is given, but the results go to %s' % pp(a, p)[:100], w, 'given: there')
            elif kinds == {'None'}:
                n += 1
                ck.expect(root and not own, 'placed:root', 'without an output directory asked for, the results go to %s, not to the root of the tree' % pp(a, p)[:100], w, 'not given: in the root of the tree')
            elif own and root and not kinds:
                ck.unsure('output directory %s' % pp(a, p)[:100])
            elif not kinds and not own:
                ck.bad('placed:ignored', 'the results go to %s whatever output directory is asked for' % pp(a, p)[:100], w)
            else:
                ck.unsure('output directory %s' % pp(a, p)[:100])
    if not n:
        ck.unsure('no path of main makes an output directory')


def rotation(ck):
    p = ck.p
    inst = ck.fn(NEW)
    where = ck.where(inst)
    D = T('join', T('dir'), ('s', 'mutants.out'))
    OLD = T('join', T('dir'), ('s', 'mutants.out.old'))
    mon = Locks(ck)
    ip, outs = ck.run(inst, {0: T('dir')}, monitor=mon, opaque=lambda q: q == 'interrupt::check_interrupted' or is_console(q), max_seconds=200)
    rot = okn = 0
    for k, s, v in outs:
        a, b, cl, evs = mon.get(s)
        created = False
        for e in evs:
            if e[0] in ('fs::rename', 'fs::remove_dir_all', 'fs::remove_dir', 'fs::remove_file'):
                w = p.span_text(e[4])
                args = e[1]
                if e[0] == 'fs::rename':
                    rot += 1
                    ck.expect(args[0] == D and args[1] == OLD, 'rename', '%s is renamed to %s' % (pp(args[0], p), pp(args[1], p)), w, 'rename to the .old name')
                else:
                    ck.expect(args[0] == OLD, 'delete', '%s deletes %s' % (e[0], pp(args[0], p)[:100]), w, 'only the older directory is deleted')
                ck.expect(any(under(pa, D) for _, pa in e[2]), 'rotate-unlocked:' + e[0], '%s(%s) without having obtained the lock on the existing directory' % (e[0], pp(args[0], p)[:60]), w, 'locked before %s' % e[0])
                if any(under(pa, D) for _, pa in e[2]):
                    ck.expect(any(under(pa, D) for _, pa in e[3]), 'lock-released-before-rotate',
                              'the lock on the existing directory is given up before it is renamed away (so another waiting run can rotate a directory already in use)', w)
            elif e[0] in ('fs::create_dir', 'fs::create_dir_all') and e[1][0] == D:
                created = True
                ck.expect(e[0] == 'fs::create_dir', 'create', 'an existing output directory would be reused', p.span_text(e[4]))
            elif e[0] == 'open' and created and under(e[2], D):
                isl = e[2] == T('join', *(D[2:] + (('s', 'lock.json'),)))
                locked_before = any(x[0] == 'lock' and evs.index(x) < evs.index(e) and evs.index(x) > first_create(evs, D) for x in evs)
                ck.expect(isl or locked_before, 'write-before-lock', '%s is opened before the new directory is locked' % pp(e[2], p)[:80], p.span_text(e[3]))
            elif e[0] in ('fs::create_dir', 'fs::write', 'fs::copy') and created:
                ck.expect(any(under(pa, D) for _, pa in e[3]), 'write-before-lock', '%s(%s) before the new directory is locked' % (e[0], pp(e[1][0], p)[:80]), p.span_text(e[4]))
        if k != 'ret':
            continue
        v = ip.mat(s, v)
        if not is_ok(v):
            ck.good()
            continue
        okn += 1
        fc = first_create(evs, D)
        newlocked = {x[1] for i, x in enumerate(evs) if x[0] == 'lock' and i > fc and under(x[2], D)}
        held = {i for i in files_in(v) if i in newlocked and i not in cl}
        ck.expect(fc >= 0, 'fresh', 'the output directory is used without having been created', where)
        ck.expect(bool(held), 'not-held', 'the returned output directory does not hold a lock on itself', where, 'the returned value holds the lock')
        fields = [field(p, v[3][0], f) for f in ('path',)]
        ck.expect(fields[0] == D, 'path', 'the output directory is %s' % pp(fields[0], p)[:100], where)
        exists = s.facts.get(T('Utf8Path::exists', D)) or s.facts.get(T('Path::exists', D))
        if exists == TRUE:
            ck.expect(any(e[0] == 'fs::rename' for e in evs), 'not-rotated', 'an existing output directory is not moved out of the way', where)
    ck.floor('rotations', rot, 1)
    ck.floor('successful creations', okn, 1)


def first_create(evs, D):
    for i, e in enumerate(evs):
        if e[0] in ('fs::create_dir', 'fs::create_dir_all') and e[1][0] == D:
            return i
    return -1
