"""Relative dependencies outside of the tree keep working in the copy; those inside stay inside."""
from vlib import *
import posixpath

EXPLANATION = ('fix_manifest and fix_cargo_config analysed by value-flow over MIR on explicit documents with path dependencies in every place where cargo allows one and with every kind of path: the document written back must be the original with exactly those paths that lead out of the tree made absolute, relative to the original tree; '
               'a failure to read, parse or write is an error; on every partition of BuildDir::copy_from both are applied to the copy, with the original tree as the base, before the directory is handed out.')
ASSUMPTIONS = ['toml parses and writes documents faithfully']
MIN_OBLIGATIONS = 20
FM = 'manifest::fix_manifest'
FC = 'manifest::fix_cargo_config'
CF = 'build_dir::BuildDir::copy_from'
SRC = '/home/u/tree'


def val(p, x):
    vs = [v[0] for v in p.adts['toml::Value']['variants']]

    def mkv(n, y):
        return ('adt', 'toml::Value', vs.index(n), (y,))
    if isinstance(x, bool):
        return mkv('Boolean', TRUE if x else FALSE)
    if isinstance(x, str):
        return mkv('String', ('s', x))
    if isinstance(x, int):
        return mkv('Integer', ('i', x))
    if isinstance(x, list):
        return mkv('Array', seq(*[val(p, y) for y in x]))
    return mkv('Table', ('seq', tuple(('e', ('tup', (('s', k), val(p, y)))) for k, y in x.items())))


def back(p, v):
    """python value of an explicit toml value, or None"""
    if v[0] != 'adt' or v[1] != 'toml::Value':
        return None
    n = p.variant_name('toml::Value', v[2])
    y = v[3][0]
    if n in ('String', 'Boolean', 'Integer'):
        return y[1] if y[0] in ('s', 'b', 'i') else None
    if y[0] != 'seq' or any(s[0] != 'e' for s in y[1]):
        return None
    if n == 'Array':
        r = [back(p, s[1]) for s in y[1]]
        return None if any(q is None for q in r) else r
    out = {}
    for s in y[1]:
        if s[1][0] != 'tup' or s[1][1][0][0] != 's':
            return None
        b = back(p, s[1][1][1])
        if b is None:
            return None
        out[s[1][1][0][1]] = b
    return out


def norm(x):
    if isinstance(x, dict):
        return {k: norm(y) for k, y in x.items()}
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, str) and x.startswith('/'):
        return posixpath.normpath(x)
    return x


def outside(path):
    if path.startswith('/'):
        return False
    d = 0
    for c in path.split('/'):
        if c == '..':
            d -= 1
            if d < 0:
                return True
        elif c not in ('.', ''):
            d += 1
    return False


def fixed(path):
    return SRC + '/' + path if outside(path) else path


PATHS = ['../dep', 'dep', './dep', 'a/b', '/abs/dep', 'a/../../dep', 'a/../b', '..', '../../x/y', './../dep', 'a/./../../dep', 'a/b/../..', '../a/b/../c', '../a/../b/..', 'a/b/../../../c']


def exec_fix(ck, fn, given, doc, read=True, parse=True, write=True, exists=True):
    """[(written documents [(path, value)], result)] of every path"""
    p = ck.p
    TEXT = T('text')

    def ex(ip, st, c):
        return [('ret', st, TRUE if exists else FALSE)]

    def rd(ip, st, c):
        q = st.copy()
        q.mon = (q.mon or ()) + (('read', ip.mat(st, c.args[0])),)
        return [('ret', q, ok(TEXT) if read else err(T('ioerr')))]

    def rdb(ip, st, c):
        q = st.copy()
        q.mon = (q.mon or ()) + (('read', ip.mat(st, c.args[0])),)
        return [('ret', q, ok(TEXT) if read else err(T('ioerr')))]

    def pr(ip, st, c):
        if ip.mat(st, c.args[0]) != TEXT:
            return None
        return [('ret', st, ok(val(p, doc)) if parse else err(T('parseerr')))]

    def ser(ip, st, c):
        return [('ret', st, ok(T('toml', ip.mat(st, c.args[0]))))]

    def disp(ip, st, c):
        v = ip.mat(st, c.args[0])
        if v[0] == 'adt' and v[1] == 'toml::Value':
            return [('ret', st, T('toml', v))]
        return None

    def wr(ip, st, c):
        q = st.copy()
        q.mon = (q.mon or ()) + (('write', ip.mat(st, c.args[0]), ip.mat(st, c.args[1])),)
        return [('ret', q, ok(UNIT) if write else err(T('ioerr')))]
    def same(ip, st, c):
        return [('ret', st, ok(ip.mat(st, c.args[0])))]

    def no(ip, st, c):
        return [('ret', st, FALSE)]
    # (the copy itself holds no symbolic links here; those are C05's)
    links = {}
    for t in ('Utf8Path', 'Path'):
        links.update({t + '::is_symlink': no, t + '::canonicalize': same, t + '::canonicalize_utf8': same})
    ip, outs = ck.run(fn, given, models={**links, 'fs::canonicalize': same, 'Utf8Path::exists': ex, 'Path::exists': ex, 'Utf8Path::is_file': ex, 'Path::is_file': ex, 'fs::read_to_string': rd, 'fs::read': rdb, 'str::parse': pr, 'FromStr::from_str': pr, 'toml::from_str': pr, 'de::from_str': pr,
                                         'toml::to_string_pretty': ser, 'toml::to_string': ser, 'ser::to_string_pretty': ser, 'ser::to_string': ser, 'fs::write': wr, 'ToString::to_string': disp}, loop_limit=40, max_seconds=60)
    res = []
    for k, s, v in outs:
        r = ip.mat(s, v) if k == 'ret' else T('panic')
        # a partition that assumed something about the contents of the documents is not one that was decided
        vague = any('toml::Value' in repr(t) or "'text'" in repr(t) for t in s.facts)
        res.append((k, s.mon or (), T('vague') if vague else r))
    return ip, res


def text_doc(p, v):
    if v[0] == 't' and v[1] == 'toml':
        return back(p, v[2])
    if v[0] == 't' and len(v) == 3 and isinstance(v[2], tuple):
        return text_doc(p, v[2])
    return None


def doc_check(ck, fn, given, doc, want, key, what, file):
    p = ck.p
    w = ck.where(ck.fn(fn))
    ip, res = exec_fix(ck, fn, given, doc)
    if not res:
        ck.unsure('%s: no path' % what)
    for k, mon, r in res:
        if not is_ok(r):
            if is_err(r) or k == 'panic':
                ck.bad(key + '-fails', 'with %s preparing the copy fails' % what, w)
            else:
                ck.unsure('%s: %s' % (what, pp(r, p)[:80]))
            continue
        cur = doc
        sure = True
        for e in mon:
            if e[0] != 'write':
                continue
            if e[1] != ('s', file):
                if e[1][0] == 's' and posixpath.normpath(e[1][1]) == file:
                    pass
                elif e[1][0] == 's':
                    ck.bad(key + '-elsewhere', 'with %s the file %s is written instead of %s' % (what, e[1][1], file), w)
                    sure = False
                    continue
                else:
                    sure = False
                    continue
            if e[2] == T('text'):
                cur = doc
                continue
            d = text_doc(p, e[2])
            if d is None:
                ck.unsure('%s: writes %s' % (what, pp(e[2], p)[:100]))
                sure = False
                continue
            cur = d
        if not sure:
            continue
        if norm(cur) == norm(want):
            ck.good('%s: %s' % (file.split('/')[-1], what))
        else:
            ck.bad(key, 'with %s the copy has %s where it should have %s' % (what, cur, want), w)


def place(where, entry):
    d = entry
    for k in reversed(where):
        d = {k: d}
    return d


PLACES = [('dependencies',), ('dev-dependencies',), ('build-dependencies',), ('target', 'cfg(unix)', 'dependencies'), ('target', 'x86_64-unknown-linux-gnu', 'dev-dependencies'), ('target', 'cfg(unix)', 'build-dependencies'),
          ('workspace', 'dependencies'), ('replace',), ('patch', 'crates-io')]


def manifest(ck):
    p = ck.p
    given = {0: ('s', '/tmp/copy/Cargo.toml'), 1: ('s', SRC)}
    f = '/tmp/copy/Cargo.toml'
    rest = {'package': {'name': 'x', 'version': '0.1.0', 'path': '../no'}}
    for pl in PLACES:
        nm = '.'.join(pl)
        for path in PATHS if pl == ('dependencies',) else PATHS[:5]:
            doc = dict(rest, **place(pl, {'a': '1.0', 'b': {'version': '2', 'path': path}}))
            want = dict(rest, **place(pl, {'a': '1.0', 'b': {'version': '2', 'path': fixed(path)}}))
            doc_check(ck, FM, given, doc, want, 'manifest-' + nm, 'a dependency in [%s] at %s' % (nm, path), f)
    # several entries, entries of other shapes
    ents = {'z': {'path': '../z'}, 'one': '1', 'tbl': {'version': '1'}, 'odd': {'path': 3}, 'in': {'path': 'in'}, 'y': {'path': '../y', 'features': ['../f']}}
    fents = {'z': {'path': SRC + '/../z'}, 'one': '1', 'tbl': {'version': '1'}, 'odd': {'path': 3}, 'in': {'path': 'in'}, 'y': {'path': SRC + '/../y', 'features': ['../f']}}
    for pl in PLACES:
        nm = '.'.join(pl)
        doc_check(ck, FM, given, dict(rest, **place(pl, ents)), dict(rest, **place(pl, fents)), 'manifest-several', 'several dependencies in [%s]' % nm, f)
    alld = dict(rest)
    allw = dict(rest)
    alld.update({'dependencies': ents, 'dev-dependencies': ents, 'build-dependencies': ents, 'replace': ents, 'patch': {'crates-io': ents, 'https://x': ents}, 'target': {'cfg(unix)': {'dependencies': ents}}, 'workspace': {'dependencies': ents, 'members': ['../m']}})
    allw.update({'dependencies': fents, 'dev-dependencies': fents, 'build-dependencies': fents, 'replace': fents, 'patch': {'crates-io': fents, 'https://x': fents}, 'target': {'cfg(unix)': {'dependencies': fents}}, 'workspace': {'dependencies': fents, 'members': ['../m']}})
    doc_check(ck, FM, given, alld, allw, 'manifest-all', 'dependencies in all sections', f)
    doc_check(ck, FM, given, rest, rest, 'manifest-none', 'no dependencies', f)
    odd = dict(rest, dependencies=3, patch=['x'], replace='y')
    doc_check(ck, FM, given, odd, odd, 'manifest-odd', 'sections that are not tables', f)
    # nothing else is touched
    other = dict(rest, lib={'path': '../lib.rs'}, bin=[{'name': 'b', 'path': '../b.rs'}], features={'path': ['../x']})
    doc_check(ck, FM, given, other, other, 'manifest-other', 'other keys named path', f)


def config(ck):
    given = {0: ('s', '/tmp/copy'), 1: ('s', SRC)}
    f = '/tmp/copy/.cargo/config.toml'
    for path in PATHS:
        doc_check(ck, FC, given, {'paths': [path], 'build': {'jobs': 1}}, {'paths': [fixed(path)], 'build': {'jobs': 1}}, 'config-path', 'paths = [%s]' % path, f)
    doc_check(ck, FC, given, {'paths': PATHS}, {'paths': [fixed(x) for x in PATHS]}, 'config-paths', 'several paths', f)
    doc_check(ck, FC, given, {'paths': PATHS[:3] + [3]}, {'paths': [fixed(x) for x in PATHS[:3]] + [3]}, 'config-odd', 'odd paths', f)
    doc_check(ck, FC, given, {'build': {'paths': ['../x']}}, {'build': {'paths': ['../x']}}, 'config-other', 'no paths', f)
    p = ck.p
    ip, res = exec_fix(ck, FC, given, {'paths': ['../x']}, exists=False, read=False)
    for k, mon, r in res:
        if any(m[0] == 'read' for m in mon) or k != 'ret':
            ck.unsure('config missing: %s' % pp(r, p)[:60])
            continue
        ck.expect(is_ok(r), 'config-missing', 'without a .cargo/config.toml preparing the copy fails', ck.where(ck.fn(FC)))


def failures(ck):
    p = ck.p
    for fn, given, doc in ((FM, {0: ('s', '/tmp/copy/Cargo.toml'), 1: ('s', SRC)}, {'dependencies': {'a': {'path': '../a'}}}), (FC, {0: ('s', '/tmp/copy'), 1: ('s', SRC)}, {'paths': ['../a']})):
        for kw, what in (({'read': False}, 'cannot be read'), ({'parse': False}, 'cannot be parsed'), ({'write': False}, 'cannot be written')):
            ip, res = exec_fix(ck, fn, given, doc, **kw)
            for k, mon, r in res:
                if what == 'cannot be written' and not any(m[0] == 'write' for m in mon):
                    ck.unsure('%s does not write' % fn)
                    continue
                if k == 'ret' and is_ok(r):
                    ck.bad('failure-ignored', '%s: a file that %s is taken for success' % (fn, what), ck.where(ck.fn(fn)))
                else:
                    ck.good('%s: a file that %s is an error' % (fn, what))


def wiring(ck):
    """on every successful path of copy_from both fixes were applied to the copy"""
    p = ck.p

    class M(Monitor):
        def on_call(self, st, c):
            if c.path in (FM, FC):
                st.mon = (st.mon or ()) + ((c.path, ip.mat(st, c.args[0]), ip.mat(st, c.args[1])),)
    ip = None
    ip = ck.interp(monitor=M(), opaque=lambda q: q in (FM, FC, 'copy_tree::copy_tree'))
    ip, outs = ck.run(CF, {0: T('source')}, ip=ip)
    w = ck.where(ck.fn(CF))
    for k, s, v in outs:
        r = ip.mat(s, v) if k == 'ret' else T('panic')
        if not is_ok(r):
            continue
        b = r[3][0]
        try:
            path = field(p, b, 'path')
        except Exception:
            ck.unsure('copy_from: %s' % pp(r, p)[:80])
            continue
        for fn in (FM, FC):
            calls = [m for m in s.mon or () if m[0] == fn]
            if not calls:
                ck.bad('not-applied', 'a copy is handed out without %s having been applied' % fn, w)
                continue
            m = calls[0]
            okb = mentions(m[2], T('source'))
            canonical = 'canonicalize' in repr(m[2])
            ck.expect(okb and canonical, 'base', '%s is given %s as the base, not the absolute path of the original tree' % (fn, pp(m[2], p)[:100]), w)
            ck.expect(mentions(m[1], path) or m[1] == path, 'copy', '%s is applied to %s, not to the copy' % (fn, pp(m[1], p)[:100]), w)
            if fn == FM:
                ck.expect('Cargo.toml' in repr(m[1]), 'which', '%s is applied to %s' % (fn, pp(m[1], p)[:100]), w)


def check(ck):
    for f in (manifest, config, failures, wiring):
        try:
            f(ck)
        except Missing as e:
            ck.unsure('not found: %s' % e)
