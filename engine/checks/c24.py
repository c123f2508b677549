"""Temporary copies are removed when the run ends."""
from vlib import *
from graph import Graph
from c05 import args_by_type, UN, is_temp, root

EXPLANATION = ('Ownership analysis: the temporary directory made for a copy is held by its removing guard on every path (also every error path) until it is owned by the build directory, and is given up only on '
               'paths where --leak-dirs is set; with it, it is given up. Call-graph analysis: nothing reachable while build directories exist exits the process, forgets or leaks a value, or stops it from being dropped.')
ASSUMPTIONS = ['dropping a tempfile::TempDir removes the directory', 'the process is not killed and does not panic with abort']
MIN_OBLIGATIONS = 12
O = 'options::Options'
GIVE_UP = ('TempDir::into_path', 'TempDir::keep', 'TempDir::leak', 'mem::forget', 'ManuallyDrop::new', 'Box::leak', 'TempDir::disable_cleanup', 'TempDir::close')


class Ev(Monitor):
    spans = set()

    def on_call(self, st, c):
        if c.short in GIVE_UP or c.short == 'Builder::keep' or c.short == 'Builder::disable_cleanup':
            e = (c.short, c.mats(st), c.span)
            self.spans.add(c.span)
            if e not in (st.mon or ()):
                st.mon = (st.mon or ()) + (e,)
        return None


def gives_up(e):
    if e[0] in ('Builder::keep', 'Builder::disable_cleanup', 'TempDir::disable_cleanup'):
        return len(e[1]) > 1 and e[1][1] == TRUE
    return e[0] != 'TempDir::close'


def check(ck):
    p = ck.p
    n = 0
    for f in ('build_dir::BuildDir::for_baseline', 'build_dir::BuildDir::copy_from'):
        inst = ck.fn(f)
        where = ck.where(inst)
        for leak in (FALSE, TRUE):
            given, kinds = args_by_type(ck, inst, mk(p, O, in_place=FALSE, leak_dirs=leak))
            ip, outs = ck.run(inst, given, opaque=lambda q: q in UN or is_console(q), monitor=Ev())
            for k, s, v in outs:
                v = ip.mat(s, v)
                if k != 'ret':
                    continue
                ups = [e for e in s.mon or () if gives_up(e)]
                if leak == FALSE:
                    ck.expect(not ups, 'given-up:' + (ups[0][0] if ups else ''), 'without --leak-dirs the temporary directory is given up (%s)' % (ups and ups[0][0]), where)
                if not is_ok(v):
                    continue
                n += 1
                td = field(p, v[3][0], 'temp_dir')
                pa = root(field(p, v[3][0], 'path'))
                if leak == FALSE:
                    if is_none(td):
                        ck.bad('unowned', 'without --leak-dirs the build directory does not own its temporary directory, which is removed too early or never', where)
                    elif is_some(td):
                        ck.expect(is_temp(pa) and pa[2] == td[3][0], 'other-dir', 'the build directory owns %s but its path is %s' % (pp(td, p)[:60], pp(pa, p)[:60]), where, 'the copy is owned by the build directory')
                    else:
                        ck.unsure('temp_dir is %s' % pp(td, p)[:100])
                else:
                    ck.expect(bool(ups) and is_none(td), 'not-leaked', 'with --leak-dirs the temporary directory is removed all the same', where, 'with --leak-dirs it is kept')
    ck.floor('build directories made', n, 4)
    # the copy itself
    f = 'copy_tree::copy_tree'
    inst = ck.fn(f)
    given, kinds = args_by_type(ck, inst, mk(p, O))
    ip, outs = ck.run(inst, given, opaque=lambda q: is_console(q) or q == 'interrupt::check_interrupted', monitor=Ev())
    for k, s, v in outs:
        v = ip.mat(s, v)
        if k != 'ret':
            continue
        ups = [e for e in s.mon or () if gives_up(e)]
        ck.expect(not ups, 'copy-given-up', 'the copy gives up its temporary directory (%s)' % (ups and ups[0][0]), ck.where(inst))
        if is_ok(v):
            t = v[3][0]
            if 'tempdir' in repr(t)[:200].lower() or mentions_name(t, 'Builder::tempdir') or mentions_name(t, 'TempDir::new'):
                ck.good('the copy returns its guard')
            else:
                ck.unsure('copy returns %s' % pp(t, p)[:100])
    # while build directories exist
    g = Graph(p)
    seen, ext = g.reach([ck.fn('lab::test_mutants')])
    ck.count('functions reachable from test_mutants', len(seen))
    for sh, path, span, caller in ext:
        if sh in ('process::exit', 'process::abort', 'intrinsics::abort', 'libc::exit', 'libc::_exit', 'libc::abort', 'exec') or path in ('std::process::exit', 'std::process::abort'):
            ck.bad('exit:' + p.path(caller), 'the process can be ended by %s while temporary directories exist: %s' % (path, g.chain(caller)[:300]), p.span_text(span))
        elif sh in GIVE_UP and ('BuildDir' in path or 'TempDir' in path) and sh not in ('TempDir::close',):
            if sh in ('TempDir::into_path', 'TempDir::keep', 'TempDir::leak'):
                # decided above on paths of making build directories; anywhere else it is a leak
                ck.expect(span in Ev.spans, 'leak:' + p.path(caller), '%s in %s' % (sh, p.path(caller)), p.span_text(span), '%s decided by path' % sh)
            else:
                ck.bad('forget:' + p.path(caller), '%s on a build directory in %s' % (path, p.path(caller)), p.span_text(span))
        elif sh in ('mem::forget', 'ManuallyDrop::new', 'Box::leak'):
            ty = callee_types(p, caller, span, sh)
            if ty and ('BuildDir' in ty or 'TempDir' in ty):
                ck.bad('forget:' + p.path(caller), '%s on %s in %s' % (sh, ty, p.path(caller)), p.span_text(span))
            else:
                ck.good()
        else:
            continue
    ck.good('no exit reachable from test_mutants in %d functions' % len(seen))
    # build directories do not escape the run
    rt = p.types[p.body(ck.fn('lab::test_mutants')).locals[0]]['s']
    ck.expect('BuildDir' not in rt and 'TempDir' not in rt, 'escape', 'test_mutants returns a build directory (%s), alive when the process exits' % rt, ck.where(ck.fn('lab::test_mutants')), 'test_mutants returns %s' % rt)
    # the handler of interrupts does not end the process
    try:
        h = ck.fn('interrupt::install_handler')
    except Missing:
        return
    seen, ext = g.reach([h])
    bad = [x for x in ext if x[1] in ('std::process::exit', 'std::process::abort')]
    ck.expect(not bad, 'handler-exit', 'the handler of interrupts ends the process at once, leaving temporary directories behind', ck.where(h), 'handler only notes the interrupt')


def callee_types(p, caller, span, sh):
    rb = p.raw_bodies.get(caller)
    for blk in rb['blocks']:
        t = blk[1]
        if t[0] == 'call' and t[5] == span:
            f = t[1]
            if f[0] == 'k' and f[1][0] == 'fn':
                ty = p.types[f[1][1]]
                return ty.get('s', '') + ' ' + ' '.join(p.types[a]['s'] for a in (p.insts[ty['i']]['args'] if ty.get('i') is not None else ()) if isinstance(a, int))
    return None


def mentions_name(t, nm):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 't' and t[1] == nm:
        return True
    return any(mentions_name(x, nm) for x in t if isinstance(x, tuple))
