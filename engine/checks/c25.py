"""The copied tree has what cargo needs."""
from vlib import *
from c05 import args_by_type, root, is_temp, TARGET_ARG

EXPLANATION = ('Copying is analysed for every sequence of two directory entries, each a file, directory, symbolic link or something else, or an error: on every path that succeeds, every file, directory and link was '
               'recreated at the same relative path in the temporary directory, and any error was returned. The predicate deciding what is skipped is extracted as a decision table over names and options, '
               'and the settings of the directory walk are compared with those specified.')
ASSUMPTIONS = ['the ignore crate walks the whole tree according to its settings', 'std::fs::copy copies content and permissions']
MIN_OBLIGATIONS = 60
CT = 'copy_tree::copy_tree'
O = 'options::Options'
VCS = ['.git', '.hg', '.bzr', '.svn', '_darcs', '.jj', '.pijul']
KEEP = ['src', 'Cargo.toml', 'target', '.cargo', '.gitignore', 'mutants', 'mutants.toml', 'mutants.out.new', 'git', '.github', 'build.rs', '.gitattributes', 'tests', '.hidden', 'xmutants.out', 'out', 'a.git', '.ignore', '_darcs2', 'jj']
OUTD = ['mutants.out', 'mutants.out.old']


class Ev(Monitor):
    """records effect calls, in order, per path"""

    def on_call(self, st, c):
        if c.short in TARGET_ARG or c.short in ('fs::read_link', 'io::copy'):
            e = (c.short, c.mats(st), c.span)
            if c.short == 'fs::read_link':
                return None
            if len(st.mon or ()) > 20:
                raise Cap('events')
            st.mon = (st.mon or ()) + (e,)
        return None


def walker(t):
    """settings of the walk: {name: last value}, base path; None when not understood"""
    out = []
    while t[0] == 't' and t[1] == 'upd':
        out.append((t[2].split('::')[-1], t[4] if len(t) > 4 else None))
        t = t[3]
    if t[0] == 't' and t[1] == 'WalkBuilder::new':
        return dict(reversed(out)), t[2]
    return None, None


def check(ck):
    p = ck.p
    inst = ck.fn(CT)
    where = ck.where(inst)
    copies(ck, inst, where)
    settings(ck, inst, where)


def copies(ck, inst, where):
    p = ck.p
    given, kinds = args_by_type(ck, inst, mk(p, O, copy_vcs=FALSE, gitignore=TRUE))
    src = [T('arg', ('i', i)) for i, t in kinds.items() if t.endswith('Path')]
    lists = {'two entries': seq(ok(T('e1')), ok(T('e2'))), 'entry, error': seq(ok(T('e1')), err(T('walk_error'))), 'error, entry': seq(err(T('walk_error')), ok(T('e2'))), 'nothing': seq()}
    n = 0
    for name, ls in lists.items():
        ip, outs = ck.run(inst, given, opaque=lambda q: is_console(q) or q == 'interrupt::check_interrupted', monitor=Ev(),
                          models={'WalkBuilder::build': lambda ip, st, c: [('ret', st, ls)], 'WalkBuilder::build_parallel': lambda ip, st, c: None})
        for k, s, v in outs:
            v = ip.mat(s, v)
            if k != 'ret':
                continue
            if not is_ok(v):
                continue
            n += 1
            if 'error' in name:
                ck.bad('walk-error', 'the copy succeeds although reading the source tree failed (%s)' % name, where)
                continue
            evs = [e for e in s.mon or ()]
            es = [T('e1'), T('e2')] if name == 'two entries' else []
            tmp = v[3][0]
            for e in es:
                kind = kind_of(s, e)
                path = T('DirEntry::path', e)
                mine = [x for x in evs if mentions(('adt', '', 0, x[1]), e)]
                if kind is None:
                    ck.unsure('kind of entry not known: %s' % pp_facts(s.facts, p)[:200])
                    continue
                want = {'file': 'fs::copy', 'dir': ('fs::create_dir_all', 'fs::create_dir'), 'symlink': 'fs::symlink'}.get(kind)
                if kind == 'other':
                    continue
                ok_ = [x for x in mine if x[0] in want]
                if not ok_:
                    if kind == 'file' and all(x[0] in ('fs::write', 'File::create', 'OpenOptions::open', 'Write::write_all', 'io::copy') for x in mine) and mine and not any('set_permissions' in q for q in reached(ck, inst)):
                        ck.bad('permissions', 'a file is copied by %s: its permissions are not kept' % mine[0][0], p.span_text(mine[0][2]))
                    elif mine:
                        ck.unsure('%s copied by %s' % (kind, mine[0][0]))
                    else:
                        ck.bad('not-copied:' + kind, 'a %s of the source tree is left out of the copy, which succeeds' % kind, where)
                    continue
                x = ok_[0]
                t = x[1][TARGET_ARG[x[0]]]
                w = p.span_text(x[2])
                rel_ok = t[0] == 't' and t[1] == 'join' and len(t) == 4 and is_temp(root(t)) and relative(t[3], path, src)
                if rel_ok:
                    ck.good('%s -> %s' % (kind, 'same relative path in the copy'))
                elif t[0] == 't' and t[1] == 'join':
                    ck.bad('place:' + kind, 'a %s is copied to %s' % (kind, pp(t, p)[:150]), w)
                else:
                    ck.unsure('%s copied to %s' % (kind, pp(t, p)[:150]))
                if kind == 'file':
                    ck.expect(x[1][0] == path, 'content', 'the file copied is %s' % pp(x[1][0], p)[:100], w)
                elif kind == 'symlink':
                    l = x[1][0]
                    if l == path:
                        ck.bad('link', 'a link is copied as a link to itself in the source tree', w)
                    elif mentions(l, T('fs::read_link', path)):
                        bare = l == T('fld', T('as', T('fs::read_link', path), 'Ok'), '0')
                        if bare:
                            ck.good('link target kept')
                        else:
                            ck.unsure('link target %s' % pp(l, p)[:100])
                    else:
                        ck.unsure('link target %s' % pp(l, p)[:100])
                # its result is an error if it failed
                st_ = result_of(s, x)
                if st_ == 'unknown':
                    ck.unsure('result of %s' % x[0])
                else:
                    ck.expect(st_ == 'Ok', 'copy-error:' + x[0], 'the copy succeeds %s' % ('although %s failed' % x[0] if st_ == 'Err' else 'whether or not %s does' % x[0]), w)
            # nothing is removed again
            rm = [x for x in evs if x[0].startswith('fs::remove') or x[0] == 'fs::rename']
            ck.expect(not rm, 'removed', 'the copy removes %s' % (rm and pp(rm[0][1][0], p)[:80]), where)
    ck.floor('successful copies', n, 4)


def result_of(s, e):
    """what the path knows about the result of a call: Ok, Err, nothing, or something not understood"""
    n = len(e[1])
    other = False

    def is_it(t):
        return t[0] == 't' and t[1] == e[0] and t[2:2 + n] == e[1]

    def inside(t):
        if not isinstance(t, tuple) or not t:
            return False
        return is_it(t) or any(inside(x) for x in t if isinstance(x, tuple))
    for f, c in s.facts.items():
        if f[0] == 't' and f[1] == 'discr' and is_it(f[2]) and f[3] == RES:
            return 'Ok' if c == ('i', 0) else 'Err'
        if inside(f):
            other = True
    return 'unknown' if other else 'nothing'


def relative(t, path, src):
    """is t the path of the entry relative to the source directory?"""
    if t[0] == 't' and t[1] == 'fld' and t[2][0] == 't' and t[2][1] == 'as':
        x = t[2][2]
        return x[0] == 't' and x[1] in ('Path::strip_prefix', 'Utf8Path::strip_prefix') and x[2] == path and x[3] in src
    return False


def kind_of(s, e):
    pos, neg = set(), set()
    for f, c in s.facts.items():
        if f[0] == 't' and f[1].startswith('FileType::is_') and mentions(f, e):
            (pos if c == TRUE else neg).add(f[1][len('FileType::is_'):])
    if pos:
        return pos.pop()
    if {'file', 'dir', 'symlink'} <= neg:
        return 'other'
    return None


def reached(ck, inst):
    """short names of everything called from here"""
    from graph import Graph
    from interp import short_name
    g = Graph(ck.p)
    r, _ = g.reach([inst])
    return {short_name(q)[0] for i in r for j, q, sp in g.refs(i) if q}


def settings(ck, inst, where):
    """what is skipped"""
    p = ck.p
    n = 0
    for vcs in (TRUE, FALSE):
        for gi in (TRUE, FALSE):
            given, kinds = args_by_type(ck, inst, mk(p, O, copy_vcs=vcs, gitignore=gi))
            src = [T('arg', ('i', i)) for i, t in kinds.items() if t.endswith('Path')]
            got = []

            def build(ip, st, c):
                got.append((ip, st.copy(), c.m(st, 0), c))
                return [('ret', st, seq())]
            ck.run(inst, given, opaque=lambda q: is_console(q) or q == 'interrupt::check_interrupted', models={'WalkBuilder::build': build})
            for ip, st, w, c in got:
                st_, base = walker(w)
                if st_ is None:
                    ck.unsure('walk %s' % pp(w, p)[:150])
                    continue
                n += 1
                tag = 'copy_vcs=%s gitignore=%s' % (vcs[1], gi[1])
                ck.expect(base in src, 'walk-base', 'the tree walked is %s' % pp(base, p)[:100], where)
                sf = st_.pop('standard_filters', None)
                dflt = {'git_ignore': TRUE, 'git_exclude': TRUE, 'git_global': TRUE, 'hidden': TRUE, 'ignore': TRUE, 'require_git': TRUE, 'follow_links': FALSE, 'parents': TRUE}
                want = {'git_ignore': gi, 'git_exclude': gi, 'git_global': gi, 'hidden': FALSE, 'ignore': FALSE, 'follow_links': FALSE, 'require_git': TRUE}
                if sf is not None:
                    ck.unsure('standard_filters')
                    continue
                if gi == TRUE:
                    want['parents'] = TRUE
                for k_, v_ in want.items():
                    have = st_.get(k_, dflt[k_])
                    if is_const(have):
                        ck.expect(have == v_, 'setting:' + k_, '%s: the walk has %s=%s' % (tag, k_, have[1]), where, '%s: %s=%s' % (tag, k_, have[1]))
                    else:
                        ck.unsure('%s=%s' % (k_, pp(have, p)[:60]))
                for k_ in ('max_depth', 'max_filesize', 'types', 'overrides', 'add_ignore', 'add_custom_ignore_filename', 'min_depth'):
                    ck.expect(k_ not in st_ or is_none(st_[k_] or UNIT), 'setting:' + k_, 'the walk is limited by %s' % k_, where)
                if st_.get('same_file_system') == TRUE:
                    ck.bad('setting:same_file_system', 'the walk stays on one file system', where)
                clo = st_.get('filter_entry')
                if clo is None:
                    ck.bad('no-filter', '%s: nothing is skipped' % tag, where)
                    continue
                more = derived(ck, ip, st, c, clo, tag, where)
                for nm in KEEP + VCS + OUTD + more:
                    want_ = nm not in OUTD and (vcs == TRUE or nm not in VCS)
                    r = judge(ck, ip, st, c, clo, nm)
                    if r is None:
                        ck.unsure('%s: filter on %s' % (tag, nm))
                    else:
                        ck.expect(r == want_, 'filter:%s:%s' % (nm if nm in VCS + OUTD else 'other', vcs[1]), '%s: %s is %s' % (tag, nm, 'copied' if r else 'left out'), where, '%s: %s %s' % (tag, nm, 'copied' if r else 'left out'))
    ck.floor('walks set up', n, 4)


def derived(ck, ip, st, c, clo, tag, where):
    """names to try, made of the texts the filter compares with; anything but the name that makes it leave an entry out"""
    p = ck.p
    NM = T('entry name')
    ip2 = ck.interp(models={'DirEntry::file_name': lambda ip, s, c: [('ret', s, NM)]})
    st = st.copy()
    st.facts = {}
    st.mem[('A', 900)] = T('entry')
    try:
        outs = ip2.apply(st, clo, [('ref', ('A', 900), ())], c)
    except Cap:
        return []
    lits = set()

    def walk(t, on):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 's' and isinstance(t[1], str):
            lits.add(t[1])
        elif t[0] in ('c', 'i') and len(t) == 2 and isinstance(t[1], (str, int)):
            ch = t[1] if isinstance(t[1], str) else chr(t[1]) if 32 < t[1] < 127 else None
            if ch and len(ch) == 1:
                lits.add(ch)
        for x in t:
            walk(x, on)
    for k, s, v in outs:
        r = ip2.mat(s, v)
        for f in s.facts:
            walk(f, True)
        walk(r, True)
        if k == 'ret' and r == FALSE:
            named = other = None
            for f, cc in s.facts.items():
                if mentions(f, NM):
                    if cc == TRUE or cc != FALSE and cc is not None:
                        named = f
                elif mentions(f, T('entry')) and 'file_type' not in repr(f):
                    other = f
            if named is None and other is not None:
                ck.bad('filter:attribute', '%s: an entry is left out because of %s' % (tag, pp(other, p)[:100]), where)
    out = []
    for l in sorted(lits):
        if len(l) > 24 or '/' in l:
            continue
        for nm in (l, 'a' + l, l + 'a', 'a' + l + 'a'):
            if nm and nm not in KEEP + VCS + OUTD + out:
                out.append(nm)
    return out[:40]


def judge(ck, ip, st, c, clo, nm):
    ip2 = ck.interp(models={'DirEntry::file_name': lambda ip, s, c: [('ret', s, ('s', nm))]})
    st = st.copy()
    st.mem[('A', 900)] = T('entry')
    try:
        outs = ip2.apply(st, clo, [('ref', ('A', 900), ())], c)
    except Cap:
        return None
    rs = {ip2.mat(s, v) for k, s, v in outs if k == 'ret'}
    if len(rs) == 1:
        r = rs.pop()
        if r[0] == 'b':
            return r[1]
    return None
