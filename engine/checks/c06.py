"""Each worker has a build directory to itself."""
from vlib import *
import labx
from labx import *

EXPLANATION = ('All partitions of the lab for explicit mutant lists and job counts (workers in sequence, and a second worker interposed at every lock acquisition of the first): '
               'the build directory of every scenario run is compared between workers, and the provenance of a build directory is traced to a temporary directory created for it '
               '(or, for the first one under --in-place, to the source tree).')
ASSUMPTIONS = ['tempfile creates a directory that did not exist before', 'clap refuses --in-place together with --jobs as declared']
MIN_OBLIGATIONS = 50


def check(ck):
    p = ck.p
    where = ck.where(ck.fn(TM))
    pairs = 0
    for kw in (dict(jobs=2, n=2, faults=False, preempt=True), dict(jobs=2, n=3, faults=False, preempt=True), dict(jobs=3, n=3, faults=True),
               dict(jobs=2, n=2, faults=True, baseline='Run'), dict(jobs=1, n=2, faults=True), dict(jobs=4, n=5, faults=False)):
        ip, paths = lab(ck, **kw)
        for k, s, v, evs in paths:
            users = {}
            made = 0
            for e in evs:
                if e[0] == 'dir0':
                    made += 1
                if e[0] == 'copy':
                    made += 1
                    ck.expect(e[2] == T(WROOT, T('workspace')), 'copied-from', 'a worker\'s build directory is a copy of %s' % pp(e[2], p)[:80], where)
                if e[0] == 'run':
                    bd = e[3]
                    if bd != T('dir0') and not (bd[0] == 't' and bd[1] == 'copydir'):
                        ck.unsure('build directory %s' % pp(bd, p)[:80])
                        continue
                    users.setdefault(bd, set()).add(e[6])
            for bd, ws in users.items():
                w = ws - {0}
                pairs += 1
                ck.expect(len(w) <= 1, 'shared', 'jobs=%s: build directory %s is used by workers %s' % (kw['jobs'], pp(bd, p), sorted(w)), where, '%s used by one worker' % pp(bd, p))
            spawns = sum(1 for e in evs if e[0] == 'spawn')
            if is_ok(v) and spawns and not kw.get('faults'):
                ck.expect(made >= spawns, 'too-few', 'jobs=%s: %d build directories for %d workers' % (kw['jobs'], made, spawns), where)
    ck.floor('build directories in use', pairs, 20)
    # where build directories come from
    fb = ck.fn(FORBASE)
    CT = 'copy_tree::copy_tree'
    opq = {CT, 'manifest::fix_manifest', 'manifest::fix_cargo_config', WROOT}
    for path in (FORBASE, COPY):
        ip, outs = ck.run(path, {'options': T('options'), 'workspace': T('workspace'), 'source': T('source')},
                          opaque=lambda q: q in opq or is_console(q), monitor=Tracer(lambda q, s: q in opq))
        nok = 0
        for k, s, v in outs:
            if k != 'ret':
                continue
            v = ip.mat(s, v)
            if not is_ok(v):
                continue
            nok += 1
            bd = v[3][0]
            pth = field(p, bd, 'path')
            calls = called(s, CT)
            inp = s.facts.get(T('fld', T('options'), 'in_place'))
            if path == FORBASE and inp == TRUE:
                ck.expect(not calls and T(WROOT, T('workspace')) and mentions(pth, T(WROOT, T('workspace'))), 'in-place',
                          '--in-place does not work in the source tree: %s' % pp(pth, p)[:100], ck.where(fb))
                continue
            if path == FORBASE:
                ck.expect(inp == FALSE, 'in-place-untested', 'the build directory does not depend on --in-place', ck.where(fb))
            ck.expect(len(calls) == 1, 'copies', 'making a build directory copies the tree %d times' % len(calls), ck.where(fb))
            if calls:
                r = T('fld', T('as', T(CT, *calls[0][1]), 'Ok'), '0')
                src = [T('source')] if path == COPY else [T(WROOT, T('workspace'))]
                ck.expect(calls[0][1][0] in src, 'source', 'the build directory is a copy of %s' % pp(calls[0][1][0], p)[:80], ck.where(fb))
                ck.expect(mentions(pth, r), 'provenance', 'the build directory path is %s, not that of the new copy' % pp(pth, p)[:100], ck.where(fb), 'path %s' % pp(pth, p)[:100])
        if not nok:
            ck.unsure('no successful outcome of %s' % path)
