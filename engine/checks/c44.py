"""The progress display cannot break a run."""
import itertools, re
from vlib import *
from cmdx import typed_args
import c05, c38, labx, scen

EXPLANATION = ('Typestate by value-flow over MIR: copying of a tree, one scenario and the whole lab are analysed for all partitions with the display not abstracted: the functions given to nutmeg::View::update are run on an explicit '
               'model of the display, so that an update for something that was not announced (expect or unwrap of nothing) is seen as a panic on that path. The drawing of the display is analysed on a grid of the states the lab '
               'leaves (counts, phases, start times given or not), the estimate of the remaining time is evaluated for a grid of elapsed times, and the numbers shown are compared with the counts.')
ASSUMPTIONS = ['nutmeg::View::update runs the function it is given once, with the model; Model::render is called at any time between updates', 'Instant::elapsed is not negative']
MIN_OBLIGATIONS = 30
LM = 'console::LabModel'
CELL = ('G', 'model')
C = 'console::Console::'
BOOM = ('X', 'boom')


def model(ck, **over):
    p = ck.p
    if LM not in p.adts:
        raise Missing('model of the display')
    names, tys = p.adts[LM]['variants'][0][2], p.adts[LM]['variants'][0][3] if len(p.adts[LM]['variants'][0]) > 3 else None
    d = {}
    for x in names:
        d[x] = over.get(x, NONE if x in ('walk_tree', 'lab_start_time', 'mutants_start_time') else seq() if x.endswith('_models') else ('i', 0))
    for x in over:
        if x not in names:
            raise Missing('field LabModel.' + x)
    return mk(p, LM, **d)


def updater(init):
    """View::update on an explicit model; a panic inside ends the path as ('exit', 'boom')"""
    def update(ip, st, c):
        if CELL not in st.mem:
            st.mem[CELL] = init
        before = dict(st.facts)
        out = []
        for k, s, v in ip.call_value(st, c.args[1], [('ref', CELL, ())], c):
            if k == 'panic':
                sure = s.facts == before
                out.append(('exit', s, T('boom', c.span, TRUE if sure else FALSE, ('s', ip.p.path(c.caller) if isinstance(c.caller, int) else str(c.caller)))))
            else:
                out.append((k, s, v))
        return out
    return update


def booms(ck, what, outs):
    """reports paths on which an update panicked; returns how many did not"""
    n = 0
    for k, s, v in outs:
        if k == 'exit' and v[0] == 't' and v[1] == 'boom':
            where = ck.p.span_text(v[2]) if not isinstance(v[2], tuple) else None
            if v[3] == TRUE:
                ck.bad('display:%s' % v[4][1], '%s: the progress display is told (in %s) of something it was not told the start of: it panics' % (what, v[4][1]), where)
            else:
                ck.unsure('%s: %s may panic' % (what, v[4][1]))
        else:
            n += 1
    return n


def shown(ck, s):
    return s.mem.get(CELL)


def check(ck):
    parts(ck, copies, scenarios, labs, drawing)


def copies(ck):
    p = ck.p
    CT = 'copy_tree::copy_tree'
    inst = ck.fn(CT)
    where = ck.where(inst)
    given, kinds = c05.args_by_type(ck, inst, mk(p, 'options::Options', copy_vcs=FALSE, gitignore=TRUE))
    for name, ls in {'two entries': seq(ok(T('e1')), ok(T('e2'))), 'entry, error': seq(ok(T('e1')), err(T('walk_error'))), 'nothing': seq()}.items():
        ip, outs = ck.run(inst, given, opaque=lambda q: q == 'interrupt::check_interrupted', keep_panics=True,
                          models={'WalkBuilder::build': lambda ip, st, c: [('ret', st, ls)], 'View::update': updater(model(ck)), **c38.models()})
        n = booms(ck, 'copying (%s)' % name, outs)
        for k, s, v in outs:
            if k != 'ret' or not is_ok(ip.mat(s, v)):
                continue
            m = shown(ck, s)
            if m is None:
                ck.good('copying (%s): nothing displayed' % name)
                continue
            left = elems(field(p, ip.mat(s, m), 'copy_models'))
            if left is None:
                ck.unsure('copying (%s): what is displayed afterwards: %s' % (name, pp(ip.mat(s, m), p)[:300]))
            else:
                ck.expect(not left, 'copy-stays', 'a copy that is finished stays on the display', where, 'copying (%s): nothing is left on the display' % name)
        ck.floor('paths of copying (%s)' % name, n, 1)


def scenarios(ck):
    p = ck.p
    inst = ck.fn(scen.ROS)
    where = ck.where(inst)
    SC = 'scenario::Scenario'
    for kind in ('B', 'M'):
        mut = c38.c36.mutant(p, 'FnValue', True, '-> u8', 'x')
        sc = mk(p, SC, 'Baseline') if kind == 'B' else mk(p, SC, 'Mutant', **{'0': mut})
        given = {}
        b = p.body(inst)
        for i in range(b.argc):
            ty = p.types[b.locals[i + 1]]
            while ty['k'] == 'ref':
                ty = p.types[ty['t']]
            s = ty['s']
            given.update({i: T('worker')} if 'Worker' in s else {i: sc} if s.endswith('Scenario') else {i: T('packages')} if s.endswith('PackageSelection') else {i: T('timeouts')} if s.endswith('Timeouts') else {})
        quiet = lambda q: q in scen.OPQ or q == C + 'message' or q in ('outcome::ScenarioOutcome::get_log_content', 'console::style_scenario', 'console::style_outcome')
        ip, outs = ck.run(inst, given, opaque=quiet, keep_panics=True, models={'View::update': updater(model(ck)), **c38.models()})
        what = 'the baseline' if kind == 'B' else 'a mutant'
        n = booms(ck, what, outs)
        m = 0
        for k, s, v in outs:
            if k != 'ret' or not is_ok(ip.mat(s, v)):
                continue
            d = shown(ck, s)
            if d is None:
                continue
            left = elems(field(p, ip.mat(s, d), 'scenario_models'))
            if left is None:
                ck.unsure('%s: what is displayed afterwards' % what)
            else:
                m += 1
                ck.expect(not left, 'scenario-stays', '%s that is finished stays on the display' % what, where, '%s: nothing is left on the display' % what)
            done = field(p, ip.mat(s, d), 'mutants_done')
            if done[0] != 'i':
                ck.unsure('%s: number done is %s' % (what, pp(done, p)[:60]))
            else:
                ck.expect(done[1] == (kind == 'M'), 'done-count', '%s counts as %d mutants done, so that the number left is wrong or below zero' % (what, done[1]), where, '%s: %d done' % (what, done[1]))
        ck.floor('finished scenarios', m, 1)


def labs(ck):
    """what the display knows while mutants are tested"""
    p = ck.p
    where = ck.where(ck.fn(labx.TM))
    base = model(ck)
    n_runs = 0
    for kw in (dict(jobs=1, n=1, baseline='Run'), dict(jobs=1, n=2, baseline='Skip'), dict(jobs=2, n=2, baseline='Run'), dict(jobs=2, n=3, baseline='Skip'), dict(jobs=1, n=2, baseline='Skip', shuffle=TRUE)):
        what = 'testing %d mutants with %d jobs, baseline %s' % (kw['n'], kw['jobs'], kw['baseline'])
        seen = []

        def hook(ip, st, sc):
            if variant(p, sc) != 'Baseline':
                seen.append(ip.mat(st, st.mem[CELL]) if CELL in st.mem else None)
        ip, paths = labx.lab(ck, faults=False, display=updater(base), hook=hook, **kw)
        booms(ck, what, [(k, s, v) for k, s, v, e in paths])
        for m in seen:
            n_runs += 1
            if m is None:
                ck.bad('lab-unknown', '%s: a mutant is tested before the display knows of the lab' % what, where)
                continue
            for f, why in (('lab_start_time', 'that the lab was started'), ('mutants_start_time', 'when testing mutants began (the estimate of the remaining time panics without it)')):
                v = field(p, m, f)
                if v == NONE:
                    ck.bad('lab:' + f, '%s: a mutant is tested while the display does not know %s' % (what, why), where)
                elif v[0] == 'adt':
                    ck.good('%s: %s is known' % (what, f))
                else:
                    ck.unsure('%s: %s is %s' % (what, f, pp(v, p)[:60]))
            v = field(p, m, 'n_mutants')
            if v[0] != 'i':
                ck.unsure('%s: n_mutants is %s' % (what, pp(v, p)[:60]))
            else:
                ck.expect(v[1] == kw['n'], 'lab:n_mutants', '%s: the display counts up to %d' % (what, v[1]), where, '%s: counts up to %d' % (what, v[1]))
    ck.floor('mutants started', n_runs, 3)


class Secs(Monitor):
    def on_call(self, st, c):
        if re.match(r'^Duration::(from_secs_f64|from_secs_f32|mul_f64|mul_f32|div_f64|div_f32)$', c.short):
            st.mon = (st.mon or ()) + ((c.short, c.mats(st), c.span),)
        return None


def leaves(t, out):
    """elapsed times in a term"""
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == 't' and t[1] in ('Instant::elapsed', 'Instant::duration_since', 'Instant::saturating_duration_since', 'Instant::now', 'SystemTime::now'):
            out.add(t)
            return
        for x in t:
            leaves(x, out)


def drawing(ck):
    p = ck.p
    name = '<%s as nutmeg::Model>::render' % LM
    inst = ck.fn(name)
    where = ck.where(inst)
    start = lambda b, n: some(T(n)) if b else NONE
    grid = [(False, False, 0, 0, {}), (True, False, 0, 5, {}), (True, False, 0, 0, {}), (True, True, 0, 0, {})]
    kinds = ('mutants_caught', 'mutants_missed', 'unviable', 'timeouts')
    for n in (1, 2, 3, 4, 5, 9, 70):
        for done in sorted({0, 1, 2, 3, 4, n - 1, n}):
            if done <= n:
                for i, a in enumerate(kinds):
                    grid.append((True, True, done, n, {a: done}))
                grid.append((True, True, done, n, dict(zip(kinds, (done - done // 2 - done // 4, done // 4, 0, done // 2 )))))
    n_ok = 0
    for lab, mut, done, n, counts in grid:
        m = model(ck, lab_start_time=start(lab, 't0'), mutants_start_time=start(mut, 't1'), mutants_done=('i', done), n_mutants=('i', n), **{k: ('i', v) for k, v in counts.items()})
        what = '%d of %d done%s' % (done, n, ''.join(', %d %s' % (v, k) for k, v in sorted(counts.items()) if v))
        st = St()
        st.mem[CELL] = m
        ip, outs = ck.run(inst, {0: ('ref', CELL, ())}, st=st, keep_panics=True, models=c38.models(), monitor=Secs())
        for k, s, v in outs:
            if k == 'panic':
                if s.facts:
                    ck.unsure('%s: may panic' % what)
                else:
                    ck.bad('draw-panic', 'drawing the display with %s panics' % what, where)
                continue
            if k != 'ret':
                ck.unsure('%s: %s' % (what, k))
                continue
            for sh, args, span in s.mon or ():
                if not sh.startswith('Duration::from'):
                    args = args[1:]
                ls = set()
                leaves(args, ls)
                for e in (0.0, 0.3, 59.0, 1000.0, 1e7):
                    env = dict.fromkeys(ls, e)
                    if num_facts(p, s.facts, env) is False:
                        continue
                    x = num(p, args[0], env)
                    if x is None:
                        ck.unsure('%s: a duration of %s' % (what, pp(args[0], p)[:80]))
                    else:
                        ck.expect(0 <= x < 1.8e19, 'draw-duration', 'drawing the display with %s after %g s makes a Duration of %g s: that panics' % (what, e, x), p.span_text(span), '%s: %g s' % (what, x))
            txt = c38.flat(ip.mat(s, v))
            if txt is None:
                ck.unsure('%s: draws %s' % (what, pp(ip.mat(s, v), p)[:100]))
                continue
            n_ok += 1
            if not lab:
                continue
            nums = re.findall(r'(\d+)\D{0,4}/\D{0,4}(\d+)', txt)
            if len(nums) != 1:
                ck.unsure('%s: draws %r' % (what, txt[:80]))
                continue
            ck.expect(nums[0] == (str(done), str(n)), 'draw-counts', '%s is shown as %s/%s' % ((what,) + nums[0]), where, '%s: %r' % (what, txt[:60]))
            for a, word in (('mutants_missed', 'missed'), ('timeouts', 'timeout'), ('mutants_caught', 'caught'), ('unviable', 'unviable')):
                got = re.findall(r'(\d+)\W*%s' % word, txt, re.I)
                want = [str(counts[a])] if counts.get(a) else []
                if got and got != ['0'] or want:
                    ck.expect(got == want, 'draw:' + a, '%s: %s %s are shown: %r' % (what, got or 'no', word, txt[:100]), where)
    ck.floor('states drawn', n_ok, 20)
