"""The mutation is undone on every way out of a scenario."""
from vlib import *
import scen
from scen import *

EXPLANATION = ('Typestate analysis of the build tree (clean / mutated) over every path through running one mutant, including every error exit: the tree must be '
               'clean again, by writing back the text read from the file to the same path, whenever the scenario is left after the mutation was written.')
ASSUMPTIONS = ['the process is not killed or panicking between applying and reverting (documented caution)',
               'a write that itself reports failure is outside the property']
MIN_OBLIGATIONS = 20
PROBES = ('Utf8Path::is_file', 'Path::is_file', 'Utf8Path::exists', 'Path::exists', 'Utf8Path::symlink_metadata', 'Path::symlink_metadata', 'fs::symlink_metadata',
          'fs::metadata', 'Utf8Path::metadata', 'Path::metadata', 'Utf8Path::is_symlink', 'Path::is_symlink',
          'Utf8Path::canonicalize_utf8', 'Utf8Path::canonicalize', 'Path::canonicalize', 'fs::canonicalize')


def probe_more(p, s, target):
    """any query about the file itself that came out negative on this path"""
    for t, c in s.facts.items():
        if t[0] != 't' or not (mentions(t, target) or mentions(t, BD)):
            continue
        if c == FALSE and any(mentions_op(t, q) for q in PROBES):
            return True
        if t[1] == 'discr' and any(mentions_op(t, q) for q in PROBES) and c == ('i', 1) and t[3] == RES:
            return True
    return False


def mentions_op(t, op):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == 't' and t[1] == op:
            return True
        return any(mentions_op(x, op) for x in t if isinstance(x, tuple))
    return False


def failed(p, s, ev):
    """did the write of this event report an error on this path?"""
    for t, c in s.facts.items():
        if t[0] == 't' and t[1] == 'discr' and t[2][0] == 't' and c == ('i', 1) and t[3] == RES:
            r = t[2]
            if r[1] == ev[0] and r[2:2 + len(ev[1])] == ev[1]:
                return True
    return False


def walk(ck, p, s, evs):
    """state of the tree after the events: None clean, or the path that is dirty"""
    dirty = None
    first = None
    attempted_fail = False
    for e in evs:
        if e[0] in ('fs::write',):
            path, content = e[1][0], e[1][1]
            if not mentions(path, BD):
                continue
            if content == SRC:
                if dirty is not None and path == dirty:
                    if failed(p, s, e):
                        attempted_fail = True
                    else:
                        dirty = None
                        attempted_fail = False
            else:
                if not failed(p, s, e):
                    dirty = path
                    first = e
                    attempted_fail = False
        elif e[0] in ('fs::copy', 'fs::rename', 'File::create', 'File::create_new') and any(mentions(a, BD) for a in e[1][-1:]):
            dirty = e[1][-1]
            first = e
    return dirty, first, attempted_fail


def check(ck):
    p = ck.p
    ip, paths = scenario(ck, 'M')
    where = ck.where(ck.fn(ROS))
    napply = nexit = 0
    for k, s, v, evs in paths:
        if k != 'ret':
            continue
        nexit += 1
        applied = [e for e in evs if e[0] == 'fs::write' and mentions(e[1][0], BD) and e[1][1] != SRC and not failed(p, s, e)]
        dirty, first, att = walk(ck, p, s, evs)
        if applied:
            napply += 1
            last = [e[0] for e in evs][-1]
            if dirty is None:
                ck.good('%s after %s: reverted' % ('Ok' if is_ok(v) else 'Err', last))
            elif att or (is_err(v) and probe_more(p, s, dirty)):
                ck.good()
            else:
                ck.bad('dirty:%s:%s' % ('ok' if is_ok(v) else 'err', last),
                       'a scenario is left (%s) after %s with %s still holding mutated code' % ('successfully' if is_ok(v) else 'with an error', last, pp(dirty, p)[:120]), where)
    # the mutation is in place while cargo runs
    n = 0
    for k, s, v, evs in paths:
        seen = []
        for i, e in enumerate(evs):
            if e[0] == RC:
                n += 1
                d, _, _ = walk(ck, p, s, evs[:i])
                ck.expect(d is not None, 'clean-run', 'cargo is run for a mutant while its mutation is not in the tree', where)
                if d is not None:
                    ck.expect(d == TARGET, 'target', 'the mutation is written to %s, not to the mutated source file in the build directory' % pp(d, p)[:150], where)
                    ws = [x for x in evs[:i] if x[0] == 'fs::write' and x[1][0] == d]
                    ck.expect(ws[-1][1][1] == T(CODE, T('mutant')), 'content', 'the file written for a mutant is %s' % pp(ws[-1][1][1], p)[:150], where)
    # the baseline never touches the tree
    ipb, bpaths = scenario(ck, 'B')
    for k, s, v, evs in bpaths:
        w = [e for e in evs if e[0] in WRITERS and any(mentions(a, BD) for a in e[1])]
        ck.expect(not w, 'baseline-write', 'the baseline scenario writes to the tree: %s' % (w and w[0][0]), where)
    ck.floor('paths on which a mutation was applied', napply, 8)
    ck.floor('cargo runs on mutated trees', n, 4)

