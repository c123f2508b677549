"""The source tree is not written to, unless --in-place."""
from vlib import *
from graph import Graph, WRITES
import scen
import re

EXPLANATION = ('Provenance analysis of every write: the call graph from main gives the complete list of calls that create, change or remove files; each function containing one is analysed with symbolic '
               'arguments and the path written must be rooted in the temporary copy (a fresh temporary directory), in the build directory of the worker, or in the output directory. '
               'Writing a mutation requires the real path, with symbolic links resolved, to be inside the build directory. With --in-place no copy is made and nothing is written while making the build directory.')
ASSUMPTIONS = ['cargo itself, and the tests it runs, are outside', 'a directory made by the tempfile crate is a new one']
MIN_OBLIGATIONS = 30
UN = {'copy_tree::copy_tree', 'manifest::fix_manifest', 'manifest::fix_cargo_config', 'manifest::fix_manifest_toml', 'manifest::fix_cargo_config_toml'}
# calls that change a file or directory, and which argument is the target
TARGET_ARG = {'fs::write': 0, 'fs::copy': 1, 'fs::rename': (0, 1), 'fs::create_dir': 0, 'fs::create_dir_all': 0, 'fs::remove_file': 0, 'fs::remove_dir': 0, 'fs::remove_dir_all': 0,
              'fs::set_permissions': 0, 'fs::hard_link': 1, 'fs::soft_link': 1, 'fs::symlink': 1, 'File::create': 0, 'File::create_new': 0, 'OpenOptions::open': 1,
              'Builder::tempdir_in': 1, 'Builder::tempfile_in': 1}


class Seen(Monitor):
    def __init__(self):
        self.ev = []
        self.sites = set()

    def on_call(self, st, c):
        if c.short in TARGET_ARG or c.path in UN or c.short.startswith('Builder::temp'):
            e = (c.path if c.local else c.short, c.mats(st), c.span)
            self.sites.add(c.span)
            if not any(x[:2] == e[:2] for x, _ in self.ev):
                self.ev.append((e, dict(st.facts)))
        return None


class Links(Monitor):
    """each write, with what is known about its path and the links removed before it"""
    def __init__(self):
        self.ev = []

    def on_call(self, st, c):
        if c.short not in TARGET_ARG:
            return None
        e = (c.short, c.mats(st), c.span)
        if c.short == 'fs::remove_file':
            st.mon = (st.mon or ()) + (('removed', e[1][0]),)
        else:
            self.ev.append((e, dict(st.facts), st.mon or ()))
        return None


def follows_link(e, facts, removed):
    """may this write change the file that a link in the copied tree leads to? None: not known"""
    if e[0] in ('fs::rename', 'fs::symlink', 'fs::soft_link', 'fs::hard_link', 'File::create_new'):
        return False    # these make or replace the name itself
    unknown = False
    for t in targets(e):
        r = root(t)
        parts = [x for j in (t[3:] if t[0] == 't' and t[1] == 'join' else ()) for x in (j[1].split('/') if j[0] == 's' else [j]) if x]
        real = link_free = dir_real = False
        for f, c in facts.items():
            if f[0] != 't' or not mentions(f, r):
                continue
            last = f[1].split('::')[-1]
            if last == 'starts_with' and len(f) >= 4 and 'canonicalize' in repr(f[2]) and 'canonicalize' in repr(f[3]) and mentions(f[3], r):
                if c == TRUE and mentions(f[2], t):
                    real = True
                elif c == TRUE and mentions(f[2], r):
                    dir_real = True
            elif last == 'is_symlink' and c == FALSE and mentions(f, t):
                link_free = True
            elif f[1] == 'discr' and f[2][0] == 't' and 'canonicalize' in f[2][1]:
                pass    # that it has a real path says nothing about where that is
            elif ('symlink' in repr(f) or 'canonicalize' in repr(f) or 'read_link' in repr(f)) and last != 'is_symlink' and not last.startswith('canonicalize'):
                unknown = True
        link_free = link_free or any(x == ('removed', t) for x in removed)
        if real or link_free and (len(parts) < 2 or dir_real):
            continue
        return None if unknown else True
    return False


def root(t):
    """the directory a path is built from"""
    while True:
        if t[0] == 't' and t[1] == 'join':
            t = t[2]
        elif t[0] == 't' and t[1] == 'fld' and t[3] == '0' and t[2][0] == 't' and t[2][1] == 'as':
            t = t[2][2]
        elif t[0] == 't' and t[1] in ('Utf8Path::canonicalize_utf8', 'Path::canonicalize', 'Utf8Path::canonicalize', 'fs::canonicalize', 'Utf8Path::to_path_buf', 'Path::to_path_buf',
                                      'Utf8PathBuf::from_path_buf', 'Utf8Path::from_path', 'Utf8Path::with_extension', 'Utf8Path::with_file_name'):
            t = t[2]
        else:
            return t


def read_only(e):
    if e[0] != 'OpenOptions::open':
        return False
    from cmdx import builder
    fl = {x[0].split('::')[-1]: x[-1] for x in builder(e[1][0]) if len(x) > 1}
    return not any(fl.get(k) == TRUE for k in ('write', 'append', 'create', 'create_new', 'truncate'))


def targets(e):
    ix = TARGET_ARG.get(e[0], ())
    ix = ix if isinstance(ix, tuple) else (ix,)
    return [e[1][i] for i in ix if i < len(e[1])]


def args_by_type(ck, inst, opts):
    p = ck.p
    b = p.body(inst)
    given, kinds = {}, {}
    for i in range(b.argc):
        ty = p.types[b.locals[i + 1]]
        while ty['k'] == 'ref':
            ty = p.types[ty['t']]
        s = ty['s'].split('<')[0]
        kinds[i] = s
        given[i] = opts if s.endswith('options::Options') else T('arg', ('i', i))
    return given, kinds


def is_temp(t):
    return t[0] == 't' and t[1] in ('TempDir::path', 'TempDir::into_path', 'TempDir::keep')


def check(ck):
    p = ck.p
    visited = set()
    complete = True
    O = 'options::Options'

    def run(f, opts=None, **kw):
        inst = ck.fn(f)
        given, kinds = args_by_type(ck, inst, opts if opts is not None else mk(p, O))
        m = Seen()
        ip, outs = ck.run(inst, given, opaque=lambda q: (q in UN and q != f) or is_console(q), monitor=m, **kw)
        visited.update(m.sites)
        return ip, outs, m, kinds, ck.where(inst)
    # making the build directory
    scratch_args = {}
    for f in ('build_dir::BuildDir::for_baseline', 'build_dir::BuildDir::copy_from'):
        ip, outs, m, kinds, where = run(f, mk(p, O, in_place=FALSE))
        ct = [e for e, _ in m.ev if e[0] == 'copy_tree::copy_tree']
        for k, s, v in outs:
            v = ip.mat(s, v)
            if k != 'ret' or not is_ok(v):
                continue
            r = root(field(p, v[3][0], 'path'))
            if is_temp(r):
                ck.good('%s: the build directory is %s' % (f, 'a temporary directory'))
            elif r[0] == 't' and r[1] in ('arg', 'fld'):
                ck.bad('dir:' + f, 'without --in-place the build directory is %s' % pp(r, p)[:120], where)
            else:
                ck.unsure('build directory %s' % pp(r, p)[:120])
        for e, facts in m.ev:
            w = p.span_text(e[2])
            if e[0] in UN:
                if e[0] == 'copy_tree::copy_tree':
                    continue
                ok_ = [i for i, a in enumerate(e[1]) if is_temp(root(a))]
                if ok_:
                    scratch_args.setdefault(e[0], set()).update(ok_)
                else:
                    ck.bad('fix:' + e[0], '%s is given no path in the copied tree: %s' % (e[0], ', '.join(pp(a, p)[:80] for a in e[1])), w)
            elif not read_only(e):
                judge(ck, e, w, is_temp)
    ip, outs, m, kinds, where = run('build_dir::BuildDir::for_baseline', mk(p, O, in_place=TRUE))
    for e, facts in m.ev:
        ck.expect(e[0] in UN and 'toml' in e[0] or read_only(e), 'in-place-write', 'with --in-place, making the build directory calls %s' % e[0], p.span_text(e[2]))
    # the copy
    f = 'copy_tree::copy_tree'
    ip, outs, m, kinds, where = run(f)
    for e, facts in m.ev:
        w = p.span_text(e[2])
        if e[0].startswith('Builder::temp') and e[0].endswith('_in'):
            if any(mentions(a, T('arg', ('i', i))) for i, t in kinds.items() if t.endswith('Path') for a in e[1][1:]):
                ck.bad('temp-in-source', 'the temporary directory is made in the source tree: %s' % pp(e[1][1], p)[:100], w)
            else:
                ck.unsure('temporary directory made in %s' % pp(e[1][1], p)[:100])
        elif e[0] in TARGET_ARG and not read_only(e):
            judge(ck, e, w, is_temp)
    # rewriting the manifests
    for f, ixs in sorted(scratch_args.items()):
        if f.endswith('_toml'):
            continue
        ip, outs, m, kinds, where = run(f)
        good = [T('arg', ('i', i)) for i in ixs]
        for e, facts in m.ev:
            if e[0] in TARGET_ARG and not read_only(e):
                judge(ck, e, p.span_text(e[2]), lambda r: r in good)
        inst = ck.fn(f)
        given, kinds = args_by_type(ck, inst, mk(p, O))
        m = Links()
        ck.run(inst, given, opaque=lambda q: (q in UN and q != f) or is_console(q), monitor=m)
        for e, facts, removed in m.ev:
            if read_only(e):
                continue
            fl = follows_link(e, facts, removed)
            if fl is None:
                ck.unsure('%s writes %s: cannot tell whether links are followed' % (f, pp(targets(e)[0], p)[:80]))
            else:
                ck.expect(not fl, 'fix-through-symlink:' + f, '%s changes %s in the copied tree without making sure that it is not, or below, a symbolic link to the original' % (
                    f, ', '.join(pp(t, p)[:80] for t in targets(e))), p.span_text(e[2]), 'not through a link')
    # scenarios
    n = 0
    for kind in 'MB':
        ip, paths = scen.scenario(ck, kind)
        for k, s, v, evs in paths:
            for e in evs:
                visited.add(e[2])
                if e[0] not in TARGET_ARG or read_only(e):
                    continue
                for t in targets(e):
                    w = p.span_text(e[2])
                    if mentions(t, scen.BD):
                        n += 1
                        ck.expect(root(t) == T('fld', scen.BD, 'path'), 'scenario-root', 'a scenario writes to %s' % pp(t, p)[:120], w, 'scenario writes to %s' % pp(t, p)[:80])
                        ck.expect(contained(s, t), 'write-through-symlink', 'a file of the build directory is written without making sure that it is not a symbolic link to a file outside', w, 'resolved path is inside the build directory')
                    else:
                        judge(ck, e, w, lambda r: False)
    ck.floor('writes of mutated or original code', n, 2)
    # the output directory
    outf = set()
    g = Graph(p)
    seen, ext = g.reach([ck.fn('main')])
    sites = []
    for sh, path, span, caller in ext:
        if sh in TARGET_ARG or sh.startswith('Builder::temp'):
            sites.append((sh, span, caller))
    ck.count('write sites reachable from main', len(sites))
    OWN = {'output::OutputDir': ('path',), 'output::ScenarioOutput': ('output_dir', 'path')}
    ip, outs, m, kinds, where = run('output::OutputDir::new')
    base = [T('arg', ('i', i)) for i, t in kinds.items()]
    names = set()
    for e, facts in m.ev:
        w = p.span_text(e[2])
        for t in targets(e):
            if read_only(e):
                continue
            r = root(t)
            if r not in base:
                judge(ck, e, w, lambda r: False)
                continue
            names_ = t[3:] if t[0] == 't' and t[1] == 'join' else ()
            first = names_[0] if names_ else None
            if first is None:
                ck.expect(e[0].startswith('fs::create_dir'), 'output-parent', 'the directory in which to make the output directory is changed by %s' % e[0], w)
            elif first[0] == 's':
                ck.expect(first[1] in ('mutants.out', 'mutants.out.old') or first[1].startswith(('mutants.out/', 'mutants.out.old/')), 'output-name',
                          '%s writes to %s beside the output directory' % (e[0], first[1]), w, '%s %s' % (e[0], pp(t, p)[:80]))
            else:
                ck.unsure('output path %s' % pp(t, p)[:100])
    callers = {}
    for i in seen:
        for j, path, span in g.refs(i):
            if j is not None:
                callers.setdefault(strip_closure(path), set()).add(strip_closure(p.path(i)))
    work = []
    for sh, span, caller in sites:
        if span not in visited:
            work.append(strip_closure(p.path(caller)))
    while work:
        f = work.pop()
        if f in outf or not p.find(f):
            continue
        outf.add(f)
        try:
            inst = ck.fn(f)
            given, kinds = args_by_type(ck, inst, mk(p, O))
            m = Seen()
            ip, outs = ck.run(inst, given, opaque=is_console, monitor=m)
        except Cap as e:
            # too large to follow: the path can only come from elsewhere if nothing here holds a directory that may be written
            tys = ' '.join(p.types[t]['s'] for t in p.body(inst).locals)
            if re.search('OutputDir|ScenarioOutput|BuildDir|TempDir', tys):
                ck.unsure('%s: %s' % (f, e))
            elif callers.get(f, set()) <= {'main'}:
                ck.bad('site:' + f, 'a path is written to in or below %s, which knows neither an output directory nor a build directory' % f, ck.where(inst))
            else:
                work.extend(callers[f])
            continue
        visited.update(m.sites)
        owners = [T('fld', T('arg', ('i', i)), fl) for i, t in kinds.items() for fl in OWN.get(t, ())]
        plain = [T('arg', ('i', i)) for i, t in kinds.items() if 'Path' in t or 'str' in t or 'String' in t]
        for e, facts in m.ev:
            if e[0] not in TARGET_ARG or read_only(e):
                continue
            w = p.span_text(e[2])
            if owners:
                judge(ck, e, w, lambda r: r in owners)
            elif all(root(t) in plain for t in targets(e)) and callers.get(f):
                # the path comes from the caller: judged there
                work.extend(callers[f])
            else:
                ck.bad('site:' + f, '%s in %s (called from %s) writes to %s, which is neither the output directory nor a build directory' % (
                    e[0], f, ', '.join(sorted(callers.get(f, ()))[:3]), ', '.join(pp(t, p)[:80] for t in targets(e))), w)
    left = [x for x in sites if x[1] not in visited]
    for sh, span, caller in left:
        ck.unsure('write site not reached by the analysis: %s in %s' % (sh, p.path(caller)))
    ck.count('write sites analysed', len(sites) - len(left))


def strip_closure(f):
    while '{closure' in f:
        f = f.rsplit('::{closure', 1)[0]
    return f


def contained(s, t):
    """a fact of this path says the resolved target is under the resolved build directory"""
    for f, c in s.facts.items():
        if c == TRUE and f[0] == 't' and f[1].split('::')[-1] == 'starts_with' and len(f) >= 4:
            a, b = f[2], f[3]
            if 'canonicalize' in repr(a) and mentions(a, t) and mentions(b, scen.BD) and root(b) == T('fld', scen.BD, 'path') and not mentions(b, scen.REL):
                return True
    return False


def judge(ck, e, w, ok_):
    p = ck.p
    if e[0] == 'fs::hard_link' and len(e[1]) > 1 and not ok_(root(e[1][0])):
        # the two names are one file: what is written to the copy later is written to the original
        r = root(e[1][0])
        if r[0] == 't' and r[1] in ('arg', 'fld', 'DirEntry::path', 'Workspace::root') or r[0] == 's':
            ck.bad('write:hard_link', 'a file is made to share its contents with %s' % pp(e[1][0], p)[:150], w)
        else:
            ck.unsure('hard link to %s' % pp(e[1][0], p)[:150])
    for t in targets(e):
        r = root(t)
        if ok_(r):
            ck.good('%s %s' % (e[0], pp(t, p)[:100]))
        elif r[0] == 't' and r[1] in ('arg', 'fld', 'DirEntry::path', 'Workspace::root', 'worker') or r[0] == 's':
            ck.bad('write:%s:%s' % (e[0], pp(r, p)[:40]), '%s changes %s' % (e[0], pp(t, p)[:150]), w)
        else:
            ck.unsure('%s changes %s' % (e[0], pp(t, p)[:150]))
