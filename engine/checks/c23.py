"""How command line, configuration file and defaults combine into the options."""
from vlib import *
import itertools
import c34
import mainx

EXPLANATION = ('Options::new analysed by value-flow over MIR on explicit combinations of each setting on the command line and in the configuration file, with every other setting once absent and once present: the resulting field must be the documented combination (override, concatenation, first non-empty list, default), '
               'and all other fields unchanged; invalid patterns are errors. Config::read_tree_config: a missing file gives the defaults, an unreadable or invalid one an error; over all partitions of main: the configuration is read unless --no-config is given, and the options are made of the arguments and that configuration.')
ASSUMPTIONS = ['clap and toml parse as documented']
MIN_OBLIGATIONS = 100
ON = 'options::Options::new'
BG = 'glob::build_glob_set'
RTC = 'config::Config::read_tree_config'
NO = [None]


def fields(p, ty):
    a = p.adts.get(ty)
    if a is None:
        raise Missing('type %s' % ty)
    return list(zip(a['variants'][0][2], a['variants'][0][3]))


def base(p, ty, tag, full, over):
    out = {}
    for n, t in fields(p, ty):
        if n in over:
            out[n] = over[n]
        elif t.startswith('std::option::Option'):
            x = T('%s.%s' % (tag, n))
            if t.endswith('<bool>'):
                x = TRUE
            elif 'TestTool' in t:
                x = T('%s.%s' % (tag, n))
            elif t.endswith('<usize>'):
                x = ('i', 2)
            out[n] = some(x) if full else NONE
        elif t.startswith('std::vec::Vec'):
            out[n] = seq(('s', '%s-%s' % (tag, n))) if full else seq()
        else:
            out[n] = T('%s.%s' % (tag, n))
    return mk(p, ty, **out)


def run(ck, args, config, full):
    p = ck.p
    A = base(p, 'Args', 'arg', full, args)
    C = base(p, 'config::Config', 'cfg', full, config)

    def rx(ip, st, c):
        v = ip.mat(st, c.args[0])
        q = st.copy()
        q.mon = (q.mon or ()) + ('badre',)
        return [('ret', st, ok(T('regexset', v))), ('ret', q, err(T('badre')))]

    def gs(ip, st, c):
        v = ip.mat(st, c.args[0])
        q = st.copy()
        q.mon = (q.mon or ()) + ('badglob',)
        return [('ret', st, ok(T('globset', v))), ('ret', q, err(T('badglob')))]
    ip, outs = ck.run(ON, {0: A, 1: C}, opaque=lambda q: q == BG, models={BG: gs, 'RegexSet::new': rx}, max_seconds=60)
    return ip, outs


def sensible(s):
    """ordinary values for the numbers mentioned in a path condition"""
    env = {T('arg.X'): 2.5, T('cfg.X'): 3.5}

    def walk(t, d=0):
        if not isinstance(t, tuple) or d > 12:
            return
        if len(t) == 2 and t[0] == 't' and t[1].split('.')[0] in ('arg', 'cfg') and 'timeout' in t[1]:
            env[t] = 2.5
            return
        for x in t:
            walk(x, d + 1)
    for t in s.facts:
        walk(t)
    return env


def results(ck, ip, outs, where, what):
    """options of every successful path"""
    p = ck.p
    res = []
    for k, s, v in outs:
        r = ip.mat(s, v) if k == 'ret' else T('panic')
        # numbers are taken to be sensible: one that is no number of seconds may be refused
        if num_facts(p, s.facts, sensible(s)) is False:
            continue
        if is_err(r):
            ck.expect(bool(s.mon), 'fails', 'with %s the options are rejected' % what, where)
            continue
        if not is_ok(r) or r[3][0][0] != 'adt':
            ck.unsure('%s: %s' % (what, pp(r, p)[:100]))
            continue
        ck.expect(not s.mon, 'invalid', 'an invalid pattern is ignored', where)
        if s.mon:
            continue
        res.append(r[3][0])
    return res


def contains_only(v, tag):
    w = {x for x in c34.words(v, set()) if x.startswith(('arg.', 'cfg.', 'arg-', 'cfg-'))}
    return w == {tag}


# option field: (argument, configuration, default when neither; None: an Option field)
OVERRIDE = {'build_timeout_multiplier': ('build_timeout_multiplier', 'build_timeout_multiplier'), 'test_timeout_multiplier': ('timeout_multiplier', 'timeout_multiplier'),
            'output_in_dir': ('output', 'output'), 'profile': ('profile', 'profile')}
DIRECT = {'baseline': 'baseline', 'check_only': 'check', 'colors': 'colors', 'emit_json': 'json', 'emit_diffs': 'diff', 'features': 'features', 'gitignore': 'gitignore', 'in_place': 'in_place', 'jobserver': 'jobserver', 'leak_dirs': 'leak_dirs',
          'print_caught': 'caught', 'print_unviable': 'unviable', 'show_line_col': 'line_col', 'show_all_logs': 'all_logs'}
NEGATED = {'shuffle': 'no_shuffle', 'show_times': 'no_times'}
ARGOPT = {'jobs': 'jobs', 'jobserver_tasks': 'jobserver_tasks', 'test_timeout': 'timeout', 'build_timeout': 'build_timeout'}
JOINED = {'additional_cargo_args': ('cargo_arg', 'additional_cargo_args'), 'additional_cargo_test_args': ('cargo_test_args', 'additional_cargo_test_args'), 'error_values': ('error', 'error_values')}
FIRST = {'examine_names': ('examine_re', 'examine_re', 'regexset'), 'exclude_names': ('exclude_re', 'exclude_re', 'regexset'), 'examine_globset': ('file', 'examine_globs', 'globset'), 'exclude_globset': ('exclude', 'exclude_globs', 'globset')}


def unopt(v):
    return v[3][0] if is_some(v) else None


def duration_of(v, x):
    """the duration of so many seconds"""
    return v[0] == 't' and 'Duration' in v[1] and x in v[2:] and len([a for a in v[2:] if a[0] == 't']) == 1


def check(ck):
    p = ck.p
    inst = ck.fn(ON)
    where = ck.where(inst)
    have = {n for n, _ in fields(p, 'options::Options')}

    def fld(o, n):
        return field(p, o, n) if n in have else None

    def vary(fa, fc, avals, cvals, judge, name):
        an = {n for n, _ in fields(p, 'Args')}
        cn = {n for n, _ in fields(p, 'config::Config')}
        if fa is not None and fa not in an or fc is not None and fc not in cn:
            ck.unsure('%s: option not found' % name)
            return
        for full in (False, True):
            for a, c in itertools.product(avals, cvals):
                ip, outs = run(ck, {fa: a} if fa else {}, {fc: c} if fc else {}, full)
                what = '%s%s%s' % (name, ', on the command line: %s' % pp(a, p) if fa else '', ', in the configuration: %s' % pp(c, p) if fc else '')
                rs = results(ck, ip, outs, where, what)
                if not rs:
                    ck.unsure('%s: no result' % what)
                for o in rs:
                    v = judge(o, a, c, what)
                    if v is None:
                        continue
                    good, got = v
                    if good is None:
                        ck.unsure('%s: %s' % (what, pp(got, p)[:100]))
                        continue
                    ck.expect(good, 'field:' + name, '%s: it is %s' % (what, pp(got, p)[:120]), where, '%s: %s' % (what, pp(got, p)[:80]))
    A, C = T('arg.X'), T('cfg.X')
    oa, oc = (NONE, some(A)), (NONE, some(C))
    for n, (fa, fc) in OVERRIDE.items():
        if n not in have:
            ck.unsure('no option %s' % n)
            continue
        vary(fa, fc, oa, oc, lambda o, a, c, w: ((fld(o, n) == (a if a != NONE else c)), fld(o, n)), n)
    for n, f in DIRECT.items():
        if n in have:
            given = mk(p, 'Features', **{q: T('feat.' + q) for q, _ in fields(p, 'Features')}) if n == 'features' and 'Features' in p.adts else A
            vary(f, None, [given], NO, lambda o, a, c, w: (fld(o, n) == a, fld(o, n)), n)
    for n, f in NEGATED.items():
        if n in have:
            vary(f, None, [TRUE, FALSE], NO, lambda o, a, c, w: (fld(o, n) == (FALSE if a == TRUE else TRUE), fld(o, n)), n)
    for n, f in ARGOPT.items():
        if n in have:
            vals = (NONE, some(('i', 3)), some(('i', 9)), some(('i', 8))) if n.startswith('job') else oa

            def judge(o, a, c, w):
                v = fld(o, n)
                if a == NONE:
                    return v == NONE, v
                if n.startswith('job'):
                    return v == a, v
                if unopt(v) is None:
                    return v[0] != 'adt' and None, v
                return duration_of(unopt(v), A), v
            vary(f, None, vals, NO, judge, n)
    la = (seq(), seq(('s', 'a1')), seq(('s', 'a1'), ('s', 'a2')))
    lc = (seq(), seq(('s', 'c1')), seq(('s', 'c2'), ('s', 'c1')))
    for n, (fa, fc) in JOINED.items():
        if n in have:
            vary(fa, fc, la + (seq(('s', 'Err(x)')),), lc + (seq(('s', 'a1')),), lambda o, a, c, w: ((elems(fld(o, n)) == elems(a) + elems(c)) if elems(fld(o, n)) is not None else None, fld(o, n)), n)
    for n, (fa, fc, kind) in FIRST.items():
        if n in have:
            def judge(o, a, c, w):
                v = fld(o, n)
                if v[0] != 't' or v[1] != kind:
                    return None, v
                return elems(v[2]) == (elems(a) or elems(c)), v
            vary(fa, fc, la, lc, judge, n)
    ob = (NONE, some(TRUE), some(FALSE))
    vary('copy_vcs', 'copy_vcs', ob, ob, lambda o, a, c, w: (fld(o, 'copy_vcs') == (unopt(a) or unopt(c) or FALSE), fld(o, 'copy_vcs')), 'copy_vcs')
    vary('cap_lints', 'cap_lints', ob, (TRUE, FALSE), lambda o, a, c, w: (fld(o, 'cap_lints') == (unopt(a) or c), fld(o, 'cap_lints')), 'cap_lints')
    tt = 'options::TestTool'
    tools = [('adt', tt, i, ()) for i in range(len(p.adts[tt]['variants']))]
    ot = [NONE] + [some(t) for t in tools]
    dflt = next(t for t in tools if p.adts[tt]['variants'][t[2]][0] == 'Cargo')
    vary('test_tool', 'test_tool', ot, ot, lambda o, a, c, w: (fld(o, 'test_tool') == (unopt(a) or unopt(c) or dflt), fld(o, 'test_tool')), 'test_tool')

    def mtt(o, a, c, w):
        v = fld(o, 'minimum_test_timeout')
        want = unopt(a) or unopt(c)
        if want is None:
            tw = [x for x in (v[2:] if v[0] == 't' else ())]
            return any(x[0] in ('f', 'i') and float(x[1]) == 20.0 for x in tw), v
        return duration_of(v, want), v
    vary('minimum_test_timeout', 'minimum_test_timeout', oa, oc, mtt, 'minimum_test_timeout')
    skip(ck, p, where, fld)
    packages(ck, p, where, fld)
    config(ck)
    wiring(ck)


def strs(v):
    xs = elems(v)
    return None if xs is None or any(x[0] != 's' for x in xs) else [x[1] for x in xs]


def skip(ck, p, where, fld):
    ob = (NONE, some(TRUE), some(FALSE))
    for full in (False, True):
        for a, c in itertools.product(([], ['f'], ['f,g'], ['f', 'g,h']), ([], ['c'], ['c', 'd'])):
            for da, dc in itertools.product(ob, ob):
                ip, outs = run(ck, {'skip_calls': seq(*(('s', x) for x in a)), 'skip_calls_defaults': da}, {'skip_calls': seq(*(('s', x) for x in c)), 'skip_calls_defaults': dc}, full)
                what = 'skip_calls %s, configuration %s, defaults %s and %s' % (a, c, pp(da, p), pp(dc, p))
                for o in results(ck, ip, outs, where, what):
                    got = strs(fld(o, 'skip_calls'))
                    if got is None:
                        ck.unsure('%s: %s' % (what, pp(fld(o, 'skip_calls'), p)[:100]))
                        continue
                    d = unopt(da) or unopt(dc) or TRUE
                    want = [y for x in a for y in x.split(',')] + c + (['with_capacity'] if d == TRUE else [])
                    ck.expect(sorted(set(got)) == sorted(set(want)), 'skip_calls', '%s: %s' % (what, got), where, '%s: %s' % (what, got))


def packages(ck, p, where, fld):
    ob = (NONE, some(TRUE), some(FALSE))
    TP = 'options::TestPackages'
    vn = [v[0] for v in p.adts[TP]['variants']]
    for full in (False, True):
        for wa, wc in itertools.product(ob, ob):
            for a, c in itertools.product(([], ['a'], ['a,b'], ['a', 'b,c']), ([], ['x'], ['x', 'y'])):
                ip, outs = run(ck, {'test_workspace': wa, 'test_package': seq(*(('s', x) for x in a))}, {'test_workspace': wc, 'test_package': seq(*(('s', x) for x in c))}, full)
                what = 'test_workspace %s and %s, test_package %s and %s' % (pp(wa, p), pp(wc, p), a, c)
                for o in results(ck, ip, outs, where, what):
                    v = fld(o, 'test_package')
                    if v[0] != 'adt' or vn[v[2]] == 'Named' and strs(v[3][0]) is None:
                        ck.unsure('%s: %s' % (what, pp(v, p)[:100]))
                        continue
                    got = (vn[v[2]], strs(v[3][0]) if v[3] else None)
                    if wa == some(TRUE):
                        want = ('Workspace', None)
                    elif a:
                        want = ('Named', [y for x in a for y in x.split(',')])
                    elif wa == NONE and wc == some(TRUE):
                        want = ('Workspace', None)
                    elif c:
                        want = ('Named', c)
                    else:
                        want = ('Mutated', None)
                    ck.expect(got == want, 'test_package', '%s: %s' % (what, got), where, '%s: %s' % (what, got))


def config(ck):
    p = ck.p
    inst = ck.fn(RTC)
    where = ck.where(inst)
    for exists, reads, parses in ((False, None, None), (True, False, None), (True, True, False), (True, True, True)):
        asked = []

        def ex(ip, st, c):
            asked.append(ip.mat(st, c.args[0]))
            return [('ret', st, TRUE if exists else FALSE)]

        def rd(ip, st, c):
            st.mon = (st.mon or ()) + (ip.mat(st, c.args[0]),)
            return [('ret', st, ok(T('toml'))) if reads else ('ret', st, err(T('E')))]

        def de(ip, st, c):
            return [('ret', st, ok(T('parsed', ip.mat(st, c.args[0]))) if parses else err(T('E')))]
        ip, outs = ck.run(RTC, {0: ('s', '/w')}, models={'Utf8Path::exists': ex, 'Path::exists': ex, 'Utf8Path::is_file': ex, 'Path::is_file': ex, 'fs::read_to_string': rd, 'de::from_str': de, 'toml::from_str': de})
        what = 'a configuration file that %s' % ('does not exist' if not exists else 'cannot be read' if not reads else 'is invalid' if not parses else 'is valid')
        for k, s, v in outs:
            r = ip.mat(s, v) if k == 'ret' else T('panic')
            if not is_ok(r) and not is_err(r):
                ck.unsure('%s: %s' % (what, pp(r, p)[:100]))
                continue
            for x in list(s.mon or ()) + asked:
                if x[0] == 's':
                    ck.expect(x[1] == '/w/.cargo/mutants.toml', 'config-path', 'the configuration is read from %s' % x[1], where, '.cargo/mutants.toml')
            if not exists:
                ck.expect(is_ok(r) and r[3][0] != T('parsed', T('toml')), 'config-none', '%s gives %s' % (what, pp(r, p)[:80]), where, '%s: defaults' % what)
            elif not reads or not parses:
                ck.expect(is_err(r), 'config-error', '%s is ignored' % what, where, '%s: error' % what)
            else:
                ck.expect(is_ok(r) and r[3][0] == T('parsed', T('toml')), 'config-read', '%s gives %s' % (what, pp(r, p)[:80]), where, '%s: read' % what)


def wiring(ck):
    p = ck.p
    ip, outs = mainx.partitions(ck)
    where = ck.where(ck.fn('main'))
    done = set()
    memo = {}

    def news(f):
        if f not in memo:
            memo[f] = frozenset(x for x in c34_sub(f) if x[:2] == ('t', ON))
        return memo[f]
    for k, s, v in outs:
        for t in set().union(*(news(f) for f in s.facts)) if s.facts else ():
            nc = mainx.arg_fact(p, s, 'no_config')
            if (t, nc) in done:
                continue
            done.add((t, nc))
            ck.expect(mainx.is_args(t[2]), 'wire-args', 'the options are not made of the command line: %s' % pp(t[2], p)[:100], where)
            read = RTC in c34.words(t[3], set())
            for q in c34_sub(t[3]):
                if q[0] == 't' and q[1] == RTC and len(q) > 2:
                    w_ = c34.words(q[2], set())
                    ck.expect('workspace::Workspace::root' in w_ or 'workspace_root' in repr(q[2]), 'wire-config-place', 'the configuration file is looked for in %s, not in the root of the workspace' % pp(q[2], p)[:100], where, 'configuration in the root of the workspace')
            if nc is None:
                ck.expect(read, 'wire-config', 'the configuration file is not read', where)
            else:
                ck.expect(read == (not nc), 'wire-config', 'with%s --no-config the configuration is %s' % ('' if nc else 'out', pp(t[3], p)[:100]), where, 'with%s --no-config: %s' % ('' if nc else 'out', 'read' if read else 'default'))
    if not done:
        ck.unsure('Options::new in main')


def c34_sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from c34_sub(x)
