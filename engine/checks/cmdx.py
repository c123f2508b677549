"""How a cargo child process is configured: all partitions from run_cargo to the spawning of the process."""
from vlib import *

RC = 'cargo::run_cargo'
POLL = 'process::Process::poll'
QUOTE = 'process::quote_argv'
VQN = 'package::Package::version_qualified_name'


def typed_args(ck, inst, table):
    """given= map from parameter types: table is [(text in the type, value)]"""
    p = ck.p
    b = p.body(inst)
    given = {}
    for i in range(b.argc):
        ty = p.types[b.locals[i + 1]]
        while ty['k'] == 'ref':
            ty = p.types[ty['t']]
        for t, v in table:
            if t in ty['s'] and (i not in given):
                given[i] = v
                break
    return given


def overlay(p, name, adt, **over):
    names = p.adts[adt]['variants'][0][2]
    for k in over:
        if k not in names:
            raise Missing('field %s.%s' % (adt, k))
    return ('ov', T(name), tuple(sorted(((('f', k), v) for k, v in over.items()), key=repr)))


def builder(v):
    """the calls that built a Command, in order: [(method, args...)]"""
    out = []
    while v[0] == 't' and v[1] == 'upd':
        out.append((v[2],) + tuple(v[4:]))
        v = v[3]
    out.append((v[1],) + tuple(v[2:]) if v[0] == 't' else ('?', v))
    out.reverse()
    return out


def runs(ck, phase, opts, pkgs, extra_models=None, **kw):
    """[(state, value, spawn events, poll events)]"""
    p = ck.p
    inst = ck.fn(RC)
    given = typed_args(ck, inst, [('BuildDir', T('build_dir')), ('PackageSelection', pkgs), ('Phase', mk(p, 'outcome::Phase', phase)), ('Duration', T('limit')),
                                  ('jobserver', T('jobserver')), ('ScenarioOutput', T('scenario_output')), ('Options', opts), ('Console', T('console'))])
    names = ('Command::spawn', 'Command::status', 'Command::output', 'CommandExt::exec')
    ip, outs = ck.run(inst, given, opaque=lambda q: is_console(q) or q in (POLL, QUOTE),
                      monitor=OnceTracer(lambda q, s: s in names or q == POLL), models=extra_models, **kw)
    return ip, [(k, s, ip.mat(s, v), [e for e in s.mon or () if e[0] != POLL], [e for e in s.mon or () if e[0] == POLL]) for k, s, v in outs]


def spawned(ck, phase, opts, pkgs, envs=None, js=T('jobserver'), extra=None):
    """[(state, builder calls)] of every process a cargo run starts; the analysis is cut at the spawn.
    envs: {variable: value or None}: what std::env::var returns"""
    found = []

    def cut(ip, st, c):
        found.append((st, [tuple(ip.mat(st, y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) for x in builder(ip.mat(st, c.args[0]))], c.span))
        return [('panic', st, UNIT)]

    def env_var(ip, st, c):
        k = ip.mat(st, c.args[0])
        if k[0] == 's' and envs is not None and k[1] in envs:
            v = envs[k[1]]
            return [('ret', st, ok(v) if v is not None else err(T('not_present')))]
        return None

    m = {'Command::spawn': cut, 'Command::status': cut, 'Command::output': cut}
    if envs is not None:
        m['env::var'] = env_var
    m |= extra or {}
    p = ck.p
    inst = ck.fn(RC)
    given = typed_args(ck, inst, [('BuildDir', T('build_dir')), ('PackageSelection', pkgs), ('Phase', mk(p, 'outcome::Phase', phase)), ('Duration', T('limit')),
                                  ('jobserver', js), ('ScenarioOutput', T('scenario_output')), ('Options', opts), ('Console', T('console'))])
    ck.run(inst, given, opaque=lambda q: is_console(q) or q in (POLL, QUOTE), models=m)
    return found


def argv_of(b):
    """(program, [arguments as seq items]) or None"""
    prog, args = None, []
    for x in b:
        m = x[0]
        if m == 'Command::new':
            prog = x[1]
        elif m == 'Command::arg':
            args.append(('e', x[1]))
        elif m == 'Command::args':
            v = x[1]
            while v[0] == 'it' or v[0] == 'seq':
                break
            if v[0] == 'seq':
                args += list(v[1])
            elif v[0] == 'it':
                args += [s[:2] for s in v[1]]
            else:
                args.append(('each', v))
    return prog, args


def env_of(b):
    """(list of (key, value) set, other environment operations) """
    out, other = [], []
    for x in b:
        m = x[0]
        if m == 'Command::env':
            out.append((x[1], x[2]))
        elif m == 'Command::envs':
            v = x[1]
            items = list(v[1]) if v[0] in ('seq', 'it') else None
            if items is None or any(s[0] != 'e' or s[1][0] != 'tup' for s in items):
                other.append(x)
            else:
                out += [tuple(s[1][1]) for s in items]
        elif m in ('Command::env_clear', 'Command::env_remove'):
            other.append(x)
    return out, other
