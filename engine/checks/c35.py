"""Which packages and targets are mutated."""
from vlib import *
import itertools
import mainx
import c34

EXPLANATION = ('Decision tables by value-flow over MIR on explicit workspaces: which kinds of target give top source files; which packages an explicit, automatic or complete selection contains, for every position of the current directory, with and without default members; '
               'and, over all partitions of main, which selection and start directory follow from the options.')
ASSUMPTIONS = ['cargo metadata and cargo locate-project describe the workspace correctly']
MIN_OBLIGATIONS = 40
PTS = 'package::package_top_sources'
PFM = 'package::packages_from_metadata'
FP = 'workspace::Workspace::filter_packages'
EX = 'workspace::Workspace::expand_selection'
BYN = 'workspace::Workspace::packages_by_name'
DISC = mainx.DISC
LP = 'workspace::locate_project'
WALK = 'visit::walk_tree'
MUTATED = {'Bin', 'ProcMacro', 'CDyLib', 'DyLib', 'Lib', 'RLib', 'StaticLib'}


def kinds(p):
    return [v[0] for v in p.adts['cargo_metadata::TargetKind']['variants']]


def kind(p, k):
    i = kinds(p).index(k)
    return ('adt', 'cargo_metadata::TargetKind', i, (T('other'),) if k == 'Unknown' else ())


def target(p, ks, path):
    return mk(p, 'cargo_metadata::Target', kind=seq(*(kind(p, k) for k in ks)), src_path=('s', path), name=T('target name'))


def pkgmeta(p, name, manifest, targets):
    return mk(p, 'cargo_metadata::Package', name=('s', name), manifest_path=('s', manifest), targets=seq(*targets), version=T('version', ('s', name)))


def strs(v):
    xs = elems(v)
    return None if xs is None or any(x[0] != 's' for x in xs) else [x[1] for x in xs]


def targets(ck):
    p = ck.p
    inst = ck.fn(PTS)
    where = ck.where(inst)
    combos = [(k,) for k in kinds(p)] + [(a, b) for a in kinds(p) for b in kinds(p) if (a in MUTATED) != (b in MUTATED)]

    def tops(ts, root='/w'):
        ip, outs = ck.run(PTS, {0: ('s', root), 1: pkgmeta(p, 'x', root + '/x/Cargo.toml', ts)})
        out = set()
        for k, s, v in outs:
            g = strs(ip.mat(s, v)) if k == 'ret' else None
            out.add(None if g is None else tuple(g))
        return out.pop() if len(out) == 1 else None
    for ks in combos:
        g = tops([target(p, ks, '/w/x/src/lib.rs')])
        if g is None:
            ck.unsure('target of kinds %s' % (ks,))
            continue
        want = bool(set(ks) & MUTATED)
        ck.expect((g == ('x/src/lib.rs',)) if want else g == (), 'kind', 'a target of kind %s gives the sources %s' % ('+'.join(ks), list(g)), where, 'target of kind %s: %s' % ('+'.join(ks), list(g)))
    lib, b1, b2, t, o = (target(p, ('Lib',), '/w/x/src/lib.rs'), target(p, ('Bin',), '/w/x/src/main.rs'), target(p, ('Bin',), '/w/x/src/bin/b.rs'), target(p, ('Test',), '/w/x/tests/t.rs'), target(p, ('Lib',), '/other/src/lib.rs'))
    names = {id(lib): 'x/src/lib.rs', id(b1): 'x/src/main.rs', id(b2): 'x/src/bin/b.rs'}
    for n in range(0, 5):
        for c in itertools.permutations((lib, b1, b2, t, o), n):
            if n > 3 and c[0] is not lib:
                continue
            g = tops(c)
            if g is None:
                ck.unsure('%d targets' % n)
                continue
            want = sorted({names[id(x)] for x in c if id(x) in names})
            ck.expect(set(g) == set(want), 'tops', 'the sources of %d targets are %s, not %s' % (n, list(g), want), where, '%d targets: %s' % (n, want))
            ck.expect(list(g) == want, 'tops-order', 'the top sources depend on the order of the targets: %s' % list(g), where)
    g = tops([b1, b1, lib, b1])
    if g is not None:
        ck.expect(list(g) == ['x/src/lib.rs', 'x/src/main.rs'], 'tops-twice', 'a source named by several targets is listed as %s' % list(g), where, 'targets sharing a source')


def packages(ck):
    p = ck.p
    inst = ck.fn(PFM)
    where = ck.where(inst)
    ms = {'b': ('/w/b/Cargo.toml', 'b'), 'a': ('/w/sub/a/Cargo.toml', 'sub/a'), 'root': ('/w/Cargo.toml', ''), 'out': ('/elsewhere/Cargo.toml', None)}
    for n in range(0, 5):
        for c in itertools.permutations(ms, n):
            metas = [pkgmeta(p, k, ms[k][0], [target(p, ('Lib',), ms[k][0].replace('Cargo.toml', 'src/lib.rs'))]) for k in c]
            md = mk(p, 'cargo_metadata::Metadata', workspace_root=('s', '/w'))
            ip, outs = ck.run(PFM, {0: md}, models={'Metadata::workspace_packages': lambda ip, st, cc: [('ret', st, seq(*metas))]})
            for k, s, v in outs:
                xs = elems(ip.mat(s, v)) if k == 'ret' else None
                if xs is None or any(x[0] != 'adt' for x in xs):
                    ck.unsure('packages %s' % (c,))
                    continue
                got = [(field(p, x, 'name'), field(p, x, 'relative_dir'), field(p, x, 'top_sources')) for x in xs]
                want = [(('s', q), ('s', ms[q][1]), seq(('s', (ms[q][1] + '/' if ms[q][1] else '') + 'src/lib.rs'))) for q in sorted(c) if ms[q][1] is not None]
                ck.expect(got == want, 'packages', 'the packages %s are read as %s' % (list(c), [pp(ip.mat(s, x), p)[:100] for x in xs]), where, 'packages %s' % list(c))


def pk(p, name, rel):
    return mk(p, 'package::Package', name=('s', name), relative_dir=('s', rel), top_sources=seq(), version=T('v', ('s', name)))


def selection(ck):
    """the packages walked for every filter"""
    p = ck.p
    inst = ck.fn(DISC)
    where = ck.where(ck.fn(FP))
    ck.fn(LP)
    ck.fn(WALK)
    pks = [pk(p, 'a', 'a'), pk(p, 'b', 'x/b'), pk(p, 'c', ''), pk(p, 'zzz2', 'z'), pk(p, 'x-a', 'a/x')]
    nm = lambda x: field(p, x, 'name')[1]
    F = 'workspace::PackageFilter'
    cases = []
    for have in (pks, pks[:2], pks[2:3], pks[1:4], pks[3:], []):
        ns = [nm(x) for x in have]
        cases.append((have, 'All', None, None, None, ns))
        for names in ([], ['a'], ['b', 'a'], ['a', 'a'], ['c', 'a', 'b'], ['zzz'], ['b', 'zzz', 'b'], ['b', 'a', 'b', 'c', 'a']):
            cases.append((have, 'Explicit', names, None, None, [x for x in sorted(set(names)) if x in ns]))
        for d, w in (('/w/a', 'a'), ('/w/x/b', 'b'), ('/w', 'c'), ('/w/x', None), ('/other', None)):
            for defaults in ([], ['a'], ['b', 'a'], ns):
                defaults = [x for x in defaults if x in ns]
                want = [w] if w in ns else defaults if d == '/w' else 'err'
                cases.append((have, 'Auto', d, defaults, True, sorted(want) if isinstance(want, list) else want))
            cases.append((have, 'Auto', d, None, True, 'err'))
    for have, fk, arg, defaults, _, want in cases:
        ws = mk(p, 'workspace::Workspace', metadata=mk(p, 'cargo_metadata::Metadata', workspace_root=('s', '/w')), packages=seq(*have))
        fi = [v[0] for v in p.adts[F]['variants']].index(fk)
        flt = ('adt', F, fi, () if fk == 'All' else (seq(*(('s', x) for x in arg)),) if fk == 'Explicit' else (('s', '/cwd'),))

        def lp(ip, st, c):
            vs = [ip.mat(st, a) for a in c.args]
            if ('s', '/cwd') not in vs or TRUE in vs:
                st.mon = (st.mon or ()) + (('wrong', tuple(vs)),)
            if defaults is None:
                return [('ret', st, err(T('E')))]
            return [('ret', st, ok(('s', arg)))]

        def walk(ip, st, c):
            for a in c.args:
                v = ip.mat(st, a)
                xs = elems(v) if v[0] == 'seq' else None
                if xs is not None:
                    st.mon = (st.mon or ()) + (('walk', tuple(field(p, x, 'name')[1] for x in xs)),)
                    return [('ret', st, ok(T('discovered')))]
            st.mon = (st.mon or ()) + (('walk', None),)
            return [('ret', st, T('walked'))]

        def unwind(ip, st, c):
            return [('ret', st, ok(seq(*(pkgmeta(p, x, '/w/%s/Cargo.toml' % x, []) for x in reversed(defaults or [])))))]
        ip, outs = ck.run(DISC, {0: ws, 1: flt}, opaque=lambda q: q in (LP, WALK), models={LP: lp, WALK: walk, 'panic::catch_unwind': unwind})
        what = '%s%s of packages %s%s' % (fk, ' %s' % (arg,) if arg is not None else '', [nm(x) for x in have], ', default members %s' % defaults if defaults is not None else '')
        for k, s, v in outs:
            r = ip.mat(s, v) if k == 'ret' else T('panic')
            ev = list(s.mon or ())
            if ('walk', None) in ev:
                ck.unsure('%s: which packages' % what)
                continue
            if is_err(r):
                ck.expect(want == 'err' or c34.about(s, WALK), 'select-fails', 'selecting %s fails' % what, where, '%s: error' % what)
                continue
            ws_ = [e for e in ev if e[0] == 'walk']
            if not is_ok(r) or len(ws_) != 1:
                if k != 'ret':
                    continue
                ck.unsure('%s: %s' % (what, pp(r, p)[:120]))
                continue
            if any(e[0] == 'wrong' for e in ev):
                ck.bad('locate', '%s: the enclosing package is not looked up from the start directory' % what, where)
                continue
            got = list(ws_[0][1])
            if want == 'err':
                ck.bad('select-swallow', 'selecting %s gives %s instead of an error' % (what, got), where)
            else:
                ck.expect(got == want, 'select', 'selecting %s gives %s, not %s' % (what, got, want), where, '%s: %s' % (what, got))


def options(ck):
    """main: which filter and directory follow from the options"""
    p = ck.p
    ip, outs = mainx.partitions(ck)
    where = ck.where(ck.fn('main'))
    done = set()
    memo = {}

    def discovery(f):
        if f not in memo:
            memo[f] = next((x for x in sub(f) if x[:2] == ('t', DISC)), None)
        return memo[f]
    for k, s, v in outs:
        for t in {discovery(f) for f in s.facts} - {None}:
            flt = t[3]
            opened = [x for x in sub(t[2]) if x[:2] == ('t', 'workspace::Workspace::open')]
            if not opened:
                ck.unsure('workspace of discovery')
                continue
            start = opened[0][2]
            key = (flt, start, mainx.arg_fact(p, s, 'manifest_path'), mainx.arg_fact(p, s, 'dir'), mainx.arg_fact(p, s, 'workspace'), given(p, s, 'mutate_packages'))
            if key in done:
                continue
            done.add(key)
            _, _, mp, d, wsp, pkgs = key
            isx = mainx.mentions_field(flt, 'mutate_packages')
            if flt[0] != 'adt' and not isx:
                ck.unsure('selection %s' % pp(flt, p)[:100])
            elif pkgs is None:
                # decided without looking at --package
                ck.expect(isx, 'opt-package', 'with --package, the selection is %s if --workspace is %s' % (pp(flt, p)[:100], wsp), where)
            elif pkgs:
                ck.expect(isx, 'opt-package', 'with --package, the selection is %s' % pp(flt, p)[:100], where, 'packages given: those')
            elif wsp:
                ck.expect(flt[0] == 'adt' and variant_name(p, flt) == 'All', 'opt-workspace', 'with --workspace the selection is %s' % pp(flt, p)[:100], where, '--workspace: all')
            elif wsp is False:
                ck.expect(flt[0] == 'adt' and variant_name(p, flt) == 'Auto' and flt[3][0] == start, 'opt-auto', 'without options the selection is %s' % pp(flt, p)[:100], where, 'otherwise: automatic from the start directory')
            if mp:
                if start[0] == 's':
                    ck.expect(start[1] == '.', 'opt-manifest', 'with --manifest-path the start directory is %s' % pp(start, p), where)
                else:
                    okp = mainx.mentions_field(start, 'manifest_path') and 'Utf8Path::parent' in c34.words(start, set())
                    ck.expect(okp, 'opt-manifest', 'with --manifest-path the start directory is %s' % pp(start, p)[:100], where, '--manifest-path: its directory')
                    raw = start
                    while raw[0] == 't' and raw[1] in ('fld', 'as'):
                        raw = raw[2]
                    guarded = raw[:2] != ('t', 'Utf8Path::parent') or any('is_empty' in str(f) or f[0] == 'ne' or "'len'" in str(f) for f in s.facts if start in sub(f))
                    ck.expect(guarded, 'opt-manifest-empty', 'with a --manifest-path without directory the start directory is empty', where, '--manifest-path Cargo.toml: the current directory')
            elif d:
                ck.expect(mainx.mentions_field(start, 'dir'), 'opt-dir', 'with --dir the start directory is %s' % pp(start, p)[:100], where, '--dir: that directory')
            elif mp is False and d is False:
                ck.expect(start == ('s', '.'), 'opt-cwd', 'without --dir the start directory is %s' % pp(start, p)[:100], where, 'otherwise: the current directory')


def given(p, s, name):
    """is a list among the arguments known to be non-empty (True), empty (False)?"""
    for t, c in s.facts.items():
        if t[0] == 't' and t[1] in ('is_empty', 'Vec::is_empty') and mainx.mentions_field(t[2], name) and c[0] == 'b':
            return not c[1]
        if t[0] == 't' and t[1] in ('len', 'Vec::len') and mainx.mentions_field(t[2], name):
            return c != ('i', 0)
    return None


def variant_name(p, v):
    return p.adts[v[1]]['variants'][v[2]][0]


def sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from sub(x)


def located(ck):
    """the question put to cargo about the project that encloses a directory, and what is made of the answer"""
    from cmdx import builder
    p = ck.p
    inst = ck.fn(LP)
    where = ck.where(inst)
    n = 0
    for flag in (TRUE, FALSE):
        tr = Tracer(lambda q, sh: sh in ('Command::output', 'Command::spawn', 'Command::status'))
        ip, outs = ck.run(inst, {0: T('dir'), 1: flag}, monitor=tr)
        done = set()
        for k, s, v in outs:
            v = ip.mat(s, v) if k == 'ret' else T('panic')
            for e in s.mon or ():
                if e[1][0] in done:
                    continue
                done.add(e[1][0])
                b = builder(e[1][0])
                by = {}
                for x in b:
                    by.setdefault(x[0].split('::')[-1], []).append(x[1:])
                if b[0][0] != 'Command::new':
                    ck.unsure('locate-project command')
                    continue
                n += 1
                cd = by.get('current_dir', [])
                ck.expect(bool(cd) and cd[-1][0] == T('dir'), 'locate-dir', 'the enclosing project is looked up in %s, not in the directory asked about' % (pp(cd[-1][0], p)[:80] if cd else 'the current directory'), where, 'looked up in the directory')
                args = []
                for x in b:
                    m = x[0].split('::')[-1]
                    if m == 'arg':
                        args.append(x[-1])
                    elif m == 'args':
                        args += elems(x[-1]) if x[-1][0] == 'seq' else [T('?')]
                if T('?') in args or any(a[0] != 's' for a in args):
                    ck.unsure('locate-project arguments')
                    continue
                got = [a[1] for a in args]
                ck.expect(got[:1] == ['locate-project'] and ('--workspace' in got) == (flag == TRUE), 'locate-args', 'the enclosing %s is asked for by cargo %s' % ('workspace' if flag == TRUE else 'package', ' '.join(got)), where, 'cargo ' + ' '.join(got))
            if is_ok(v) and s.mon:
                good = [c for t, c in s.facts.items() if t[0] == 't' and t[1] == 'ExitStatus::success']
                code = [c for t, c in s.facts.items() if 'ExitStatus::code' in repr(t)]
                if not good and code:
                    # only some of the failing codes lead to an error
                    zero = any(t[0] == 't' and c == ('i', 0) and 'ExitStatus::code' in repr(t) and t[1] != 'discr' for t, c in s.facts.items())
                    ck.expect(zero, 'locate-status', 'a failing cargo locate-project is taken for an answer', where)
                else:
                    ck.expect(TRUE in good, 'locate-status', 'a failing cargo locate-project is taken for an answer', where, 'an answer only of a command that succeeds')
    if not n:
        ck.unsure('locate-project is not run in the open')


def check(ck):
    for f in (targets, packages, selection, options, located):
        try:
            f(ck)
        except Missing as e:
            ck.unsure('not found: %s' % e)
