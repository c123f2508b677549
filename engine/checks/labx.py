"""The lab as a whole: all partitions of testing an explicit list of mutants with a given number of jobs, with the
running of one scenario, the making of build directories and the computation of time limits left symbolic.

Worker threads are run to completion where they are spawned; optionally the second worker is run inside the first, at any
point where the first takes a lock (so that the steps of the first are seen with another worker's steps between them)."""
from vlib import *

TM = 'lab::test_mutants'
ROS = "lab::Worker::<'_>::run_one_scenario"
FORBASE = 'build_dir::BuildDir::for_baseline'
COPY = 'build_dir::BuildDir::copy_from'
WML = 'output::OutputDir::write_mutants_list'
ODL = 'output::OutputDir::open_debug_log'
TFROM = 'timeouts::Timeouts::from_baseline'
TWITH = 'timeouts::Timeouts::without_baseline'
TFOR = 'timeouts::Timeouts::for_baseline'
PBN = 'workspace::Workspace::packages_by_name'
WROOT = 'workspace::Workspace::root'
OPQ = {ROS, FORBASE, COPY, WML, ODL, TFROM, TWITH, TFOR, PBN, WROOT}
THREAD, PENDING = ('X', 'thread'), ('X', 'pending')


def ev(st, *e):
    if len(st.mon or ()) > 80:
        raise Cap('too many recorded events')
    st.mon = (st.mon or ()) + (e,)


def nth(st, name):
    return sum(1 for e in st.mon or () if e[0] == name)


def pick(p, c, st, ip, suffix):
    """the argument whose type ends in suffix"""
    for i, a in enumerate(c.args):
        ty = p.types[c.argty[i]]
        while ty['k'] == 'ref':
            ty = p.types[ty['t']]
        if suffix in ty['s']:
            return ip.mat(st, a)
    return None


def lab(ck, jobs, n, baseline='Skip', tests='Workspace', shuffle=FALSE, faults=True, preempt=False, in_place=None, mutants=None, panics=False, over=None, extra=None, js=False, display=None, hook=None, **kw):
    p = ck.p
    mutants = mutants if mutants is not None else muts(n)
    more = over or {}
    over = {'jobs': some(('i', jobs)) if jobs is not None else NONE, 'shuffle': shuffle, 'jobserver': FALSE,
            'baseline': mk(p, 'BaselineStrategy' if 'BaselineStrategy' in p.adts else 'options::BaselineStrategy', baseline)}
    if in_place is not None:
        over['in_place'] = in_place
    tp = 'options::TestPackages'
    over['test_package'] = mk(p, tp, tests) if tests != 'Named' else ('adt', tp, [v[0] for v in p.adts[tp]['variants']].index('Named'), (T('names'),))
    over.update(more)
    names = p.adts['options::Options']['variants'][0][2]
    for k in over:
        if k not in names:
            raise Missing('field options::Options.%s' % k)
    opts = ('ov', T('options'), tuple(sorted(((('f', k), v) for k, v in over.items()), key=repr)))

    def both(st, good, bad):
        s2 = st.copy()
        out = [('ret', st, ok(good))]
        if faults:
            ev(s2, 'fault', bad)
            out.append(('ret', s2, err(bad)))
        return out

    def tid(st):
        return st.mem.get(THREAD, ('i', 0))[1]

    def m_forbase(ip, st, c):
        ev(st, 'dir0', tid(st))
        return both(st, T('dir0'), T('e_dir0'))

    def m_copy(ip, st, c):
        k = nth(st, 'copy')
        ev(st, 'copy', k, ip.mat(st, c.args[0]), tid(st))
        return both(st, T('copydir', ('i', k)), T('e_copy', ('i', k)))

    def m_wml(ip, st, c):
        ev(st, 'list', pick(p, c, st, ip, 'Mutant'))
        return both(st, UNIT, T('e_list'))

    def m_odl(ip, st, c):
        ev(st, 'debuglog')
        return both(st, T('debug_log_file'), T('e_debuglog'))

    EX = 'process::Exit'
    PR = 'outcome::PhaseResult'
    SO = 'outcome::ScenarioOutcome'

    def outcome(name, args=()):
        vi = [v[0] for v in p.adts[EX]['variants']].index(name)
        x = ('adt', EX, vi, tuple(('i', 101) for _ in p.adts[EX]['variants'][vi][2]))
        ph = lambda q, x: mk(p, PR, process_status=x, phase=mk(p, 'outcome::Phase', q))
        done = ('adt', EX, [v[0] for v in p.adts[EX]['variants']].index('Success'), ())
        return [mk(p, SO, phase_results=seq(*q), scenario=mk(p, 'scenario::Scenario', 'Baseline'))
                for q in ([ph('Build', done), ph('Test', x)], [ph('Check' if name == 'Success' else 'Build', x)])]

    def m_ros(ip, st, c):
        sc = pick(p, c, st, ip, 'Scenario')
        k = nth(st, 'run')
        if hook:
            hook(ip, st, sc)
        w = pick(p, c, st, ip, 'Worker')
        bd = field(p, w, 'build_dir')
        if js:
            ev(st, 'js', field(p, w, 'jobserver'))
        base = ('run', k, sc, bd, pick(p, c, st, ip, 'PackageSelection'), pick(p, c, st, ip, 'Timeouts'), tid(st), field(p, w, 'options'))
        out = []
        if variant(p, sc) == 'Baseline':
            for v in p.adts[EX]['variants']:
                for o in outcome(v[0]):
                    s2 = st.copy()
                    ev(s2, *(base + (v[0],)))
                    out.append(('ret', s2, ok(o)))
            if faults:
                s2 = st.copy()
                ev(s2, *(base + ('Err',)))
                ev(s2, 'fault', T('e_run', ('i', k)))
                out.append(('ret', s2, err(T('e_run', ('i', k)))))
            return out
        ev(st, *(base + ('Ok',)))
        s2 = st.copy()
        if faults:
            s2.mon = s2.mon[:-1] + (base + ('Err',),)
            ev(s2, 'fault', T('e_run', ('i', k)))
            out.append(('ret', s2, err(T('e_run', ('i', k)))))
        return [('ret', st, ok(T('outcome', ('i', k))))] + out

    closure = [None]

    def m_spawn(ip, st, c):
        f = c.args[-1]
        closure[0] = f
        pend = st.mem.pop(PENDING, None)
        ev(st, 'spawn', nth(st, 'spawn'))
        if pend is not None and pend[0] != 'i':
            st.mem[PENDING] = ('i', 1)
            return [('ret', st, ('adt', '$handle', 0, (pend,)))]
        if pend is not None:
            st.mem[PENDING] = pend
        st.mem[THREAD] = ('i', nth(st, 'spawn'))
        out = []
        for k, s, v in ip.apply(st, f, [], c):
            s.mem[THREAD] = ('i', 0)
            out.append((k, s, v if k != 'ret' else ('adt', '$handle', 0, (v,))))
        return out

    def m_lock(ip, st, c):
        from models import MODELS
        base = MODELS['Mutex::lock']
        outs = []
        if preempt and tid(st) == 1 and PENDING not in st.mem and jobs and jobs > 1 and nth(st, 'spawn') == 1:
            s2 = st.copy()
            s2.mem[THREAD] = ('i', 2)
            for k, s, v in ip.apply(s2, closure[0], [], c):
                if k != 'ret':
                    continue
                s.mem[THREAD] = ('i', 1)
                s.mem[PENDING] = ip.detach(s, v, None) if False else v
                outs += base(ip, s, c)
        outs += base(ip, st, c)
        return outs

    def m_join(ip, st, c):
        k = nth(st, 'join')
        ev(st, 'join', k)
        out = []
        if panics:
            s2 = st.copy()
            ev(s2, 'fault', T('panic', ('i', k)))
            out.append(('ret', s2, err(T('panic', ('i', k)))))
        return MOD_JOIN(ip, st, c) + out

    def lossy(short):
        old = MODELS.get(short)

        def m(ip, st, c):
            xs = elems(ip.mat(st, it_list(ip, st, c.args[0])))
            if xs is not None and any(x in mutants for x in xs):
                arg = ip.mat(st, c.args[1]) if len(c.args) > 1 else None
                if arg is None or arg[0] != 'i' or arg[1] > len(mutants):
                    ev(st, 'lossy', short)
            return old(ip, st, c) if old else None
        return m

    def it_list(ip, st, a):
        v = ip.val(st, a)
        return ('seq', tuple(('e', x[1]) for x in v[1])) if v[0] == 'it' else v

    from models import MODELS
    MOD_JOIN = MODELS['ScopedJoinHandle::join']

    def m_shuffle(ip, st, c):
        ev(st, 'shuffle')
        a = c.args[0]
        v = ip.val(st, a)
        xs = elems(v)
        if xs is None:
            return None
        if a[0] == 'ref':
            ip.write(st, a[1], a[2], seq(*reversed(xs)))
        return [('ret', st, UNIT)]

    models = {q: lossy(q) for q in ('Vec::truncate', 'VecDeque::truncate', 'Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by', 'Iterator::take', 'Itertools::unique', 'Itertools::dedup', 'Itertools::unique_by')}
    models |= {FORBASE: m_forbase, COPY: m_copy, WML: m_wml, ODL: m_odl, ROS: m_ros, 'Scope::spawn': m_spawn,
              'ScopedJoinHandle::join': m_join, 'Mutex::lock': m_lock, 'fastrand::shuffle': m_shuffle}
    models |= extra or {}
    if display is not None:
        models['View::update'] = display
        kw['keep_panics'] = True
    inst = ck.fn(TM)
    b = p.body(inst)
    given = {}
    for i in range(b.argc):
        ty = p.types[b.locals[i + 1]]
        while ty['k'] == 'ref':
            ty = p.types[ty['t']]
        s = ty['s']
        if s.endswith('Options'):
            given[i] = opts
        elif s.startswith('std::vec::Vec'):
            given[i] = seq(*mutants)
        elif s.endswith('Workspace'):
            given[i] = T('workspace')
        elif s.endswith('OutputDir'):
            given[i] = T('output_dir')
    ip, outs = ck.run(inst, given, opaque=lambda q: q in OPQ or is_console(q) and (display is None or q == 'console::Console::message'), models=models, **kw)
    return ip, [(k, s, ip.mat(s, v), list(s.mon or ())) for k, s, v in outs if k == 'ret' or display is not None]


def muts(n):
    return [T('m', ('i', k)) for k in range(n)]


def package(p, name):
    return mk(p, 'package::Package', name=('s', name), version=('s', '0.1.0'), relative_dir=('s', name), top_sources=seq(('s', name + '/src/lib.rs')))


def in_packages(p, names):
    """one mutant in each of the packages named"""
    out = []
    for k, n in enumerate(names):
        sf = mk(p, 'source::SourceFile', tree_relative_path=('s', n + '/src/lib.rs'), package=package(p, n), code=T('code'), is_top=TRUE)
        out.append(mk(p, 'mutant::Mutant', source_file=sf, replacement=('s', 'r%d' % k)))
    return out


def check_mutants_json(ck):
    """the list of mutants is written before anything is run, and is the list that is tested"""
    p = ck.p
    where = ck.where(ck.fn(TM))
    for kw in (dict(jobs=1, n=2, baseline='Run'), dict(jobs=2, n=2), dict(jobs=1, n=2, shuffle=TRUE), dict(jobs=1, n=0)):
        ip, paths = lab(ck, **kw)
        for k, s, v, evs in paths:
            names = [e[0] for e in evs]
            li = [i for i, x in enumerate(names) if x == 'list']
            ri = [i for i, x in enumerate(names) if x == 'run']
            if ri:
                ck.expect(bool(li) and li[0] < ri[0], 'mutants-json-late', 'a scenario runs before mutants.json is written', where, 'mutants.json first')
            if is_ok(v):
                ck.expect(bool(li), 'mutants-json', 'the run ends without mutants.json having been written', where)
            for i in li:
                xs = elems(evs[i][1]) if evs[i][1] is not None else None
                if xs is None:
                    ck.unsure('list written')
                else:
                    ck.expect(sorted(xs) == sorted(muts(kw['n'])), 'mutants-json-content', 'mutants.json lists other mutants than are tested', where)
