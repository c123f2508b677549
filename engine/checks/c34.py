"""Every source file reachable through mod statements is visited, exactly once."""
from vlib import *
import visx
import itertools

EXPLANATION = ('find_mod_source is analysed as a decision table on explicit paths: every kind of parent file, nesting of inline modules with and without path attributes, and every set of existing files, against the rules of the Rust reference; '
               'find_path_attribute and the visitor of mod items on explicit nodes; walk_package on explicit graphs of files (modules shared by several targets, cycles, files outside the tree, excluded files, unreadable files): '
               'the files loaded must be exactly those reachable, each once, and files and mutants exactly those allowed by the filters, in the order of the walk.')
ASSUMPTIONS = ['syn parses mod items as documented']
MIN_OBLIGATIONS = 100
FMS = 'visit::find_mod_source'
FPA = 'visit::find_path_attribute'
WP = 'visit::walk_package'
WT = 'visit::walk_tree'
WF = 'visit::walk_file'
LOAD = 'source::SourceFile::load'
AM = 'options::Options::allows_mutant'
AF = 'options::Options::allows_source_file_path'


def modns(p, name, attr):
    return mk(p, 'visit::ModNamespace', name=('s', name), path_attribute=NONE if attr is None else some(('s', attr)), source_location=T('loc'))


def sf(p, path, top):
    return mk(p, 'source::SourceFile', tree_relative_path=('s', path), is_top=TRUE if top else FALSE, code=T('code', ('s', path)), package=T('package'))


def norm(x):
    out = []
    for c in x.split('/'):
        if c in ('', '.'):
            continue
        if c == '..' and out and out[-1] != '..':
            out.pop()
        else:
            out.append(c)
    return '/'.join(out)


def candidates(parent, top, parts):
    """by the Rust reference"""
    d, _, base = parent.rpartition('/')
    modrs = top or base == 'mod.rs'
    if not modrs and parts[0][1] is None:
        d = (d + '/' if d else '') + base.rsplit('.', 1)[0]
    for n, a in parts[:-1]:
        d = (d + '/' if d else '') + (a if a is not None else n)
    n, a = parts[-1]
    pre = d + '/' if d else ''
    return [pre + a] if a is not None else [pre + n + '.rs', pre + n + '/mod.rs']


def find(ck):
    p = ck.p
    where = ck.where(ck.fn(FMS))
    parents = [('src/lib.rs', True), ('src/main.rs', True), ('tool/src/bin/x.rs', True), ('src/foo.rs', False), ('src/foo/mod.rs', False), ('src/a/b/foo.rs', False), ('src/foo/xmod.rs', False), ('src/foo.bar.rs', False), ('lib.rs', True),
               ('src/mod.rs', True), ('src/a/mod.rs', False), ('src/other/named.rs', True), ('src/bin/inner/mod.rs', False), ('src/bin/prog.rs', True), ('src/bin/inner/leaf.rs', False), ('src/bin/prog/main.rs', True),
               ('sub/src/mod.rs', False), ('mod.rs', False), ('sub/pkg/src/tests/mod.rs', False), ('foo.rs', False), ('src/lib.rs', False), ('src/main/mod.rs', False), ('src/a/b/c/d/mod.rs', False), ('src/lib/x.rs', False)]
    chains = [[('bar', None)], [('bar', 'file.rs')], [('bar', 'd/file.rs')], [('bar', '../up.rs')], [('in', None), ('bar', None)], [('in', 'dir'), ('bar', None)], [('in', None), ('bar', 'file.rs')], [('in', 'dir'), ('bar', 'file.rs')],
              [('o', None), ('in', None), ('bar', None)], [('o', None), ('in', 'dir'), ('bar', 'file.rs')], [('o', 'dir'), ('in', None), ('bar', None)], [('o', 'dir'), ('in', 'dir2'), ('bar', 'x.rs')], [('bar_', None)], [('mod', None)]]
    for (par, top), ch in itertools.product(parents, chains):
        cs = candidates(par, top, ch)
        for ex in itertools.product((False, True), repeat=len(cs)):
            have = {norm(c) for c, e in zip(cs, ex) if e}
            asked = []

            def is_file(ip, st, c):
                v = ip.mat(st, c.args[0])
                if v[0] != 's' or not v[1].startswith('/w/'):
                    return None
                asked.append(v[1])
                return [('ret', st, TRUE if norm(v[1][3:]) in have else FALSE)]
            ref = mk(p, 'visit::ExternalModRef', parts=seq(*(modns(p, n, a) for n, a in ch)))
            ip, outs = ck.run(FMS, {0: ('s', '/w'), 1: sf(p, par, top), 2: ref}, models={'Utf8Path::is_file': is_file, 'Path::is_file': is_file, 'Utf8Path::exists': is_file,
                                                                                         # (files may be symbolic links to files: that makes no difference)
                                                                                         'Utf8Path::is_symlink': is_file, 'Path::is_symlink': is_file})
            want = next((c for c, e in zip(cs, ex) if e), None)
            name = 'mod %s in %s%s' % ('::'.join('%s%s' % (n, '[path=%s]' % a if a else '') for n, a in ch), par, ' (top)' if top else '')
            rs = set()
            for k, s, v in outs:
                r = ip.mat(s, v) if k == 'ret' else None
                if r == NONE:
                    rs.add(None)
                elif r is not None and r[0] == 'adt' and r[1] == OPT and r[3] and r[3][0][0] == 's':
                    rs.add(r[3][0][1])
                else:
                    rs.add('?')
            if '?' in rs or len(rs) != 1:
                ck.unsure('%s: %s' % (name, [pp(ip.mat(s, v), p)[:100] if k == 'ret' else k for k, s, v in outs][:3]))
                continue
            got = rs.pop()
            ck.expect((got is None) == (want is None) and (want is None or norm(got) == norm(want)), 'find:%s' % ('attr' if any(a for _, a in ch) else 'plain'), '%s with files %s is taken to be %s, not %s' % (name, sorted(have), got, want), where, '%s -> %s' % (name, got))


def attr(p, kind, val):
    prep(p)
    mi = lambda v: [x[0] for x in p.adts['syn::Meta']['variants']].index(v)
    if kind == 'nv':
        name, v = val
        if isinstance(v, str):
            ei = [x[0] for x in p.adts['syn::Expr']['variants']].index('Lit')
            li = [x[0] for x in p.adts['syn::Lit']['variants']].index('Str')
            value = ('adt', 'syn::Expr', ei, (mk(p, 'syn::ExprLit', attrs=seq(), lit=('adt', 'syn::Lit', li, (T('litstr', ('s', v)),))),))
        else:
            ei = [x[0] for x in p.adts['syn::Expr']['variants']].index('Macro')
            value = ('adt', 'syn::Expr', ei, (T('macro'),))
        meta = ('adt', 'syn::Meta', mi('NameValue'), (mk(p, 'syn::MetaNameValue', path=visx.path_(p, name), value=value),))
    else:
        meta = ('adt', 'syn::Meta', mi('Path'), (visx.path_(p, val),))
    return mk(p, 'syn::Attribute', meta=meta)


def prep(p):
    visx.prepare(p)
    for k, fs in {'syn::ExprLit': ['attrs', 'lit'], 'syn::Attribute': ['pound_token', 'style', 'bracket_token', 'meta']}.items():
        if k not in p.adts:
            p.adts[k] = {'variants': [[k.split('::')[-1], 0, fs, [''] * len(fs)]], 'kind': 'struct'}


def paths(ck):
    p = ck.p
    inst = ck.fn(FPA)
    where = ck.where(inst)
    models = {'LitStr::value': lambda ip, st, c: (lambda v: [('ret', st, v[2])] if v[0] == 't' and v[1] == 'litstr' else None)(ip.mat(st, c.args[0]))}
    lib = [('nv', ('path', 'x.rs')), ('nv', ('path', '../y/z.rs')), ('nv', ('path', '/abs.rs')), ('nv', ('doc', 'text')), ('nv', ('path', None)), ('p', 'inline'), ('p', 'path')]
    for n in (0, 1, 2, 3):
        for combo in itertools.product(lib, repeat=n):
            if n == 3 and not (combo[0] in lib[3:6] and combo[2] in lib[:4]):
                continue
            ip, outs = ck.run(FPA, {0: seq(*(attr(p, *a) for a in combo))}, models=models)
            want = next((a[1][1] for a in combo if a[0] == 'nv' and a[1][0] == 'path' and a[1][1] is not None), None)
            for k, s, v in outs:
                r = ip.mat(s, v) if k == 'ret' else T('panic')
                nm = 'attributes %s' % (combo,)
                if is_err(r):
                    g = 'err'
                elif is_ok(r) and r[3][0] == NONE:
                    g = None
                elif is_ok(r) and r[3][0][0] == 'adt' and r[3][0][3] and r[3][0][3][0][0] == 's':
                    g = r[3][0][3][0][1]
                else:
                    ck.unsure('%s: %s' % (nm, pp(r, p)[:150]))
                    continue
                w = 'err' if want is not None and want.startswith('/') else want
                ck.expect(g == w, 'attr', '%s give the path %s, not %s' % (nm, g, w), where, '%s -> %s' % (nm, g))


def items(ck):
    """the visitor of mod items"""
    p = ck.p
    prep(p)
    inst = visx.methods(p).get('visit_item_mod')
    if inst is None:
        raise Missing('visit_item_mod')
    where = ck.where(inst)
    outer = modns(p, 'outer', None)
    for content in (NONE, some(T('content'))):
        for stack in ((), (outer,), (modns(p, 'o1', None), outer), (modns(p, 'o1', 'd1'), modns(p, 'o2', None), outer)):
            for attrv in (ok(NONE), ok(some(('s', 'f.rs'))), err(T('bad'))):
                node = mk(p, 'syn::ItemMod', ident=('s', 'm'), attrs=T('attrs'), content=content)
                V, res = visx.visit(ck, 'visit_item_mod', node, models={FPA: lambda ip, st, c: [('ret', st, attrv)]}, mod_namespace_stack=seq(*stack))
                nm = 'mod m %s%s, path attribute %s' % ('{..}' if content != NONE else ';', ' in a block' if stack else '', pp(attrv, p))
                for s, vis, walks in res:
                    exc = visx.excluded(s)
                    ext = elems(field(p, vis, 'external_mods'))
                    st2 = elems(field(p, vis, 'mod_namespace_stack'))
                    if ext is None or st2 is None:
                        ck.unsure(nm)
                        continue
                    ck.expect(len(st2) == len(stack), 'stack', '%s: the stack of modules is left changed' % nm, where)
                    names = [[(field(p, x, 'name'), field(p, x, 'path_attribute')) for x in elems(field(p, e, 'parts')) or ()] for e in ext]
                    me = (('s', 'm'), attrv[3][0] if is_ok(attrv) else None)
                    full = [(field(p, x, 'name'), field(p, x, 'path_attribute')) for x in stack] + [me]
                    want = [full] if content == NONE and exc is False and is_ok(attrv) else []
                    if exc is None:
                        ck.unsure('%s: attributes not looked at' % nm)
                        continue
                    ck.expect(names == want, 'mods', '%s (%s): the modules to visit are %s' % (nm, 'skipped' if exc else 'not skipped', [[pp(a, p) for a, _ in x] for x in names]), where, '%s -> %d' % (nm, len(names)))
                    if content != NONE and exc is False and is_ok(attrv):
                        ws = [w for w in walks if elems(w[5]) is not None]
                        ck.expect(len(ws) == 1 and [(field(p, x, 'name'), field(p, x, 'path_attribute')) for x in elems(ws[0][5])] == full, 'inner', '%s: modules within are found under another path' % nm, where, nm)


def words(v, out):
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            words(x, out)
    elif isinstance(v, str):
        out.add(v)
    return out


def about(s, what):
    return any(what in words(f, set()) for f in s.facts)


def vague(s, r):
    """the analysis gave up following a collection"""
    w = words(r, set())
    for f in s.facts:
        words(f, w)
    return bool(w & {'wid', 'popped', 'queue', 'bag', 'HashSet::insert', 'HashSet::contains'})


GRAPHS = [
    # tops, {file: [mods]}, outside, excluded, failing
    ('one file', ['src/lib.rs'], {'src/lib.rs': []}, (), ()),
    ('chain', ['src/lib.rs'], {'src/lib.rs': ['src/a.rs'], 'src/a.rs': ['src/b.rs'], 'src/b.rs': []}, (), ()),
    ('tree', ['src/lib.rs'], {'src/lib.rs': ['src/a.rs', 'src/b.rs'], 'src/a.rs': ['src/a/x.rs'], 'src/b.rs': ['src/b/y.rs'], 'src/a/x.rs': [], 'src/b/y.rs': []}, (), ()),
    ('two targets sharing a module', ['src/lib.rs', 'src/main.rs'], {'src/lib.rs': ['src/a.rs'], 'src/main.rs': ['src/a.rs', 'src/c.rs'], 'src/a.rs': ['src/a/x.rs'], 'src/a/x.rs': [], 'src/c.rs': []}, (), ()),
    ('module that is a target', ['src/lib.rs', 'src/main.rs'], {'src/lib.rs': [], 'src/main.rs': ['src/lib.rs']}, (), ()),
    ('missing module', ['src/lib.rs'], {'src/lib.rs': [None, 'src/a.rs', None], 'src/a.rs': [None]}, (), ()),
    ('outside', ['src/lib.rs'], {'src/lib.rs': ['../x.rs', 'src/a.rs'], 'src/a.rs': [], '../x.rs': []}, ('../x.rs',), ()),
    ('outside first', ['../t.rs', 'src/lib.rs'], {'src/lib.rs': ['src/a.rs'], 'src/a.rs': [], '../t.rs': []}, ('../t.rs',), ()),
    ('excluded top', ['src/lib.rs'], {'src/lib.rs': ['src/a.rs'], 'src/a.rs': ['src/b.rs'], 'src/b.rs': []}, (), ('src/lib.rs',)),
    ('excluded middle', ['src/lib.rs'], {'src/lib.rs': ['src/a.rs', 'src/c.rs'], 'src/a.rs': ['src/b.rs'], 'src/b.rs': [], 'src/c.rs': []}, (), ('src/a.rs',)),
    ('excluded leaf', ['src/lib.rs'], {'src/lib.rs': ['src/a.rs', 'src/c.rs'], 'src/a.rs': [], 'src/c.rs': []}, (), ('src/a.rs',)),
    ('all excluded', ['src/lib.rs'], {'src/lib.rs': ['src/a.rs'], 'src/a.rs': []}, (), ('src/a.rs', 'src/lib.rs')),
    ('no targets', [], {}, (), ()),
]


def walk(ck):
    p = ck.p
    inst = ck.fn(WP)
    where = ck.where(inst)
    for need in (FMS, WF, LOAD, AM, AF):
        ck.fn(need)
    for name, tops, mods, outside, excluded in GRAPHS:
        for bad in [None] + [('load', f) for f in mods if f not in outside] + [('walk', f) for f in mods if f not in outside]:
            for attrs in (False, True):
                _walk(ck, where, name, tops, mods, outside, excluded, bad, attrs)


def _walk(ck, where, name, tops, mods, outside, excluded, bad, attrs, filters_only=False):
    p = ck.p

    def path_of(v):
        return v[1] if v[0] == 's' else None

    def str_arg(ip, st, c, ty='source::SourceFile'):
        for a in c.args:
            v = ip.mat(st, a)
            if v[0] == 'adt' and v[1] == ty:
                return v
        return None

    def load(ip, st, c):
        vs = [ip.mat(st, a) for a in c.args]
        f = next((v[1] for v in vs if v[0] == 's' and v[1] in mods), None)
        top = next((v for v in vs if v in (TRUE, FALSE)), None)
        if f is None:
            return None
        st.mon = (st.mon or ()) + (('load', f, top),)
        if bad == ('load', f):
            return [('ret', st, err(T('E')))]
        if f in outside:
            return [('ret', st, ok(NONE))]
        return [('ret', st, ok(some(mk(p, 'source::SourceFile', tree_relative_path=('s', f), is_top=top if top is not None else T('top'), code=T('code', ('s', f)), package=T('package')))))]

    def muts(f):
        return [mk(p, 'mutant::Mutant', source_file=T('sf', ('s', f)), replacement=('s', '%s %d' % (f, i)), genre=T('genre'), function=NONE, span=T('span', ('i', i))) for i in range(3)]

    def wf(ip, st, c):
        v = str_arg(ip, st, c)
        if v is None:
            return None
        f = path_of(field(p, v, 'tree_relative_path'))
        st.mon = (st.mon or ()) + (('walk', f),)
        if bad == ('walk', f):
            return [('ret', st, err(T('E')))]
        refs = seq(*(mk(p, 'visit::ExternalModRef', parts=seq(modns(p, '%s#%d' % (f, i), 'x.rs' if attrs and i % 2 == 0 else None))) for i, _ in enumerate(mods[f])))
        return [('ret', st, ok(('tup', (seq(*muts(f)), refs))))]

    def fms(ip, st, c):
        v = str_arg(ip, st, c, 'visit::ExternalModRef')
        if v is None:
            return None
        n = field(p, elems(field(p, v, 'parts'))[-1], 'name')[1]
        f, i = n.split('#')
        m = mods[f][int(i)]
        return [('ret', st, NONE if m is None else some(('s', m)))]

    def am(ip, st, c):
        v = str_arg(ip, st, c, 'mutant::Mutant')
        if v is None:
            return None
        return [('ret', st, FALSE if field(p, v, 'replacement')[1].endswith(' 1') else TRUE)]

    def af(ip, st, c):
        f = next((v[1] for v in (ip.mat(st, a) for a in c.args) if v[0] == 's'), None)
        if f is None:
            return None
        return [('ret', st, FALSE if f in excluded else TRUE)]

    OP = {LOAD: load, WF: wf, FMS: fms, AM: am, AF: af}
    pkg = mk(p, 'package::Package', top_sources=seq(*(('s', t) for t in tops)), name=T('name'), version=T('v'), relative_dir=T('rd'))
    ip, outs = ck.run(WP, {0: ('s', '/w'), 1: pkg, 2: seq()}, opaque=lambda q: q in OP or q == 'interrupt::check_interrupted', models=OP, loop_limit=30)
    # expected order of the walk: breadth first
    order, queue = [], list(tops)
    while queue:
        f = queue.pop(0)
        if f in order:
            continue
        order.append(f)
        if f not in outside:
            queue += [m for m in mods[f] if m is not None]
    nm = '%s%s%s' % (name, ', %s of %s fails' % bad if bad else '', ', path attributes' if attrs else '')
    kept = [f for f in order if f not in outside and f not in excluded]
    for k, s, v in outs:
        r = ip.mat(s, v) if k == 'ret' else T('panic')
        ev = list(s.mon or ())
        if not is_ok(r) and not is_err(r) or vague(s, r):
            ck.unsure('%s: %s' % (nm, pp(r, p)[:200]))
            continue
        loaded = [e[1] for e in ev if e[0] == 'load']
        if filters_only and (is_err(r) or set(loaded) != set(order)):
            continue
        if is_err(r):
            if bad or about(s, 'interrupt::check_interrupted'):
                ck.good()
            else:
                ck.bad('fails', '%s: discovery fails' % nm, where)
            continue
        ck.expect(not bad, 'swallow', '%s: the failure is not reported' % nm, where)
        if bad:
            continue
        if not filters_only:
            ck.expect(set(loaded) == set(order), 'reach', '%s: loads %s, not %s' % (nm, sorted(set(loaded)), sorted(order)), where, '%s: %s' % (nm, loaded))
            ck.expect(len(set(loaded)) == len(loaded), 'twice', '%s: a file is visited twice: %s' % (nm, loaded), where)
            for e in ev:
                if e[0] == 'load' and e[2] is not None and e[1] in tops:
                    ck.expect(e[2] == TRUE, 'top', '%s: the top file %s is not taken as such' % (nm, e[1]), where)
                elif e[0] == 'load' and e[2] is not None:
                    by = {attrs and mods[f].index(e[1]) % 2 == 0 for f in order if e[1] in mods.get(f, ())}
                    ck.expect((e[2] == TRUE) in by, 'notop', '%s: the modules of %s are looked for %s' % (nm, e[1], 'next to it' if e[2] == TRUE else 'below it'), where)
        if r[3][0][0] != 'tup' or any(elems(x) is None for x in r[3][0][1]):
            ck.unsure('%s: %s' % (nm, pp(r, p)[:300]))
            continue
        lists = [elems(x) for x in r[3][0][1]]
        ms = next((l for l in lists if l and l[0][1] == 'mutant::Mutant'), [])
        fs = next((l for l in lists if l and l[0][1] == 'source::SourceFile'), [])
        gm = [field(p, m, 'replacement')[1] for m in ms]
        gf = [field(p, f, 'tree_relative_path')[1] for f in fs]
        wm = ['%s %d' % (f, i) for f in kept for i in (0, 2)]
        ck.expect(set(gf) == set(kept) and len(gf) == len(kept), 'files', '%s: files %s, not %s' % (nm, gf, kept), where, '%s: files %s' % (nm, gf))
        ck.expect(set(gm) == set(wm) and len(gm) == len(wm), 'mutants', '%s: mutants %s, not %s' % (nm, gm, wm), where)


def tree(ck):
    """all packages"""
    p = ck.p
    inst = ck.fn(WT)
    where = ck.where(inst)
    pk = [T('pkg', ('i', i)) for i in range(3)]
    for n in range(4):
        for bad in [None] + list(range(n)):
            def wp(ip, st, c):
                v = next((v for v in (ip.mat(st, a) for a in c.args) if v[0] == 't' and v[1] == 'pkg'), None)
                if v is None:
                    return None
                i = v[2][1]
                if bad == i:
                    return [('ret', st, err(T('E')))]
                return [('ret', st, ok(('tup', (seq(T('m', v), T('m2', v)), seq(T('f', v))))))]
            ip, outs = ck.run(WT, {0: ('s', '/w'), 1: seq(*pk[:n])}, opaque=lambda q: q == WP or 'parsed_error_exprs' in q, models={WP: wp})
            for k, s, v in outs:
                r = ip.mat(s, v) if k == 'ret' else T('panic')
                if is_err(r):
                    if bad is None and not about(s, 'options::Options::parsed_error_exprs'):
                        ck.bad('tree-fails', 'walking %d packages fails' % n, where)
                    else:
                        ck.good()
                    continue
                if not is_ok(r) or r[3][0][0] != 'adt':
                    ck.unsure('tree: %s' % pp(r, p)[:100])
                    continue
                ck.expect(bad is None, 'tree-swallow', 'the failure of a package is not reported', where)
                if bad is not None:
                    continue
                ms, fs = elems(field(p, r[3][0], 'mutants')), elems(field(p, r[3][0], 'files'))
                ck.expect(ms == [T(a, x) for x in pk[:n] for a in ('m', 'm2')], 'tree', 'the mutants of %d packages are not collected in order' % n, where, '%d packages' % n)
                ck.expect(fs == [T('f', x) for x in pk[:n]], 'tree', 'the files of %d packages are not collected in order' % n, where)


def outside(ck):
    """files outside of the tree are not loaded"""
    p = ck.p
    inst = ck.fn(LOAD)
    where = ck.where(inst)
    for f, out in (('src/lib.rs', 0), ('../x.rs', 1), ('src/../x.rs', 0), ('src/../../x.rs', 1), ('a/b/../../c.rs', 0), ('a/../../b/c.rs', 1), ('./x.rs', 0), ('a/./b/../../../x.rs', 1), ('x.rs', 0), ('../w/x.rs', 1)):
        ip, outs = ck.run(LOAD, {0: ('s', '/w'), 1: ('s', f), 3: T('top')})
        for k, s, v in outs:
            r = ip.mat(s, v) if k == 'ret' else T('panic')
            if is_err(r):
                ck.expect(not out, 'outside', '%s: fails' % f, where)
                continue
            if not is_ok(r):
                ck.unsure('load %s: %s' % (f, pp(r, p)[:100]))
                continue
            if out:
                ck.expect(r[3][0] == NONE, 'outside', 'the file %s outside of the tree is loaded' % f, where, '%s is outside' % f)
            else:
                o = r[3][0]
                ck.expect(o != NONE, 'inside', 'the file %s within the tree is skipped' % f, where, '%s is inside' % f)
                if o != NONE and o[0] == 'adt' and o[3] and o[3][0][0] == 'adt':
                    ck.expect(field(p, o[3][0], 'tree_relative_path') == ('s', f) and field(p, o[3][0], 'is_top') == T('top'), 'fields', 'the loaded file %s is described wrongly' % f, where)


def check(ck):
    for f in (find, paths, items, walk, tree, outside):
        try:
            f(ck)
        except Missing as e:
            ck.unsure('not found: %s' % e)
