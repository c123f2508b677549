"""The cargo command line of every phase."""
from vlib import *
from cmdx import *
import itertools

EXPLANATION = ('Decision-table extraction: for every phase, test tool, profile setting, package selection, feature setting and extra arguments, the command that reaches the process '
               'spawn is computed symbolically from run_cargo and compared with the specified command line (sub-command first, then the flags in any order, user arguments in their order, test arguments last and only when tests run).')
MIN_OBLIGATIONS = 100


def check(ck):
    p = ck.p
    where = ck.where(ck.fn(RC))
    PS = 'package::PackageSelection'
    vi = [v[0] for v in p.adts[PS]['variants']].index('Explicit')
    pkg = lambda k: mk(p, 'package::Package', name=T('name', ('i', k)), version=T('version', ('i', k)))
    sels = {'All': mk(p, PS, 'All'), 'two': ('adt', PS, vi, (seq(pkg(0), pkg(1)),)), 'one': ('adt', PS, vi, (seq(pkg(0)),))}
    FT = p.adts['options::Options']
    names = FT['variants'][0][2]
    fty = FT['variants'][0][3][names.index('features')] if 'features' in names else None
    if fty is None or fty not in p.adts:
        raise Missing('feature options')
    n = 0
    for phase, tool, prof, (sn, sel), (nodef, allf), extra in itertools.product(
            ('Check', 'Build', 'Test'), ('Cargo', 'Nextest'), (False, True), sels.items(), ((FALSE, FALSE), (TRUE, FALSE), (FALSE, TRUE), (TRUE, TRUE)), (False, True)):
        if extra != (sn == 'two') and (nodef, allf) != (FALSE, FALSE):
            continue
        feats = [T('feature', ('i', 0)), T('feature', ('i', 1))] if extra else []
        ca = [T('cargo_arg', ('i', 0)), T('cargo_arg', ('i', 1))] if extra else []
        ta = [T('test_arg', ('i', 0)), T('test_arg', ('i', 1))] if extra else []
        o = overlay(p, 'options', 'options::Options', test_tool=mk(p, 'options::TestTool', tool), profile=some(T('profile')) if prof else NONE,
                    features=mk(p, fty, no_default_features=nodef, all_features=allf, features=seq(*feats)), additional_cargo_args=seq(*ca),
                    additional_cargo_test_args=seq(*ta), cap_lints=FALSE)
        tag = '%s %s profile=%s packages=%s no-default=%s all=%s extra=%s' % (phase, tool, prof, sn, nodef == TRUE, allf == TRUE, extra)
        sp = spawned(ck, phase, o, sel, {'CARGO': T('CARGO')})
        if not sp:
            ck.bad('none', '%s: no process is started' % tag, where)
        for s, b, span in sp:
            prog, args = argv_of(b)
            w = p.span_text(span)
            if prog is None or any(a[0] != 'e' for a in args):
                ck.unsure('%s: arguments %s' % (tag, [pp(a[1], p)[:60] for a in args]))
                continue
            args = [a[1] for a in args]
            S = lambda x: ('s', x)
            if phase == 'Check':
                head = [S('check')]
                flags = [S('--tests')]
            else:
                head = [S('test')] if tool == 'Cargo' else [S('nextest'), S('run')]
                flags = [S('--no-run')] if phase == 'Build' else []
            n += 1
            flags += [S('--verbose')]
            if prof:
                flags.append(cat(S('--profile=' if tool == 'Cargo' or phase == 'Check' else '--cargo-profile='), T('profile')))
            if sn == 'All':
                flags.append(S('--workspace'))
            else:
                flags += [cat(S('--package='), T('name', ('i', k)), S('@'), T('version', ('i', k))) for k in range(2 if sn == 'two' else 1)]
            if nodef == TRUE:
                flags.append(S('--no-default-features'))
            if allf == TRUE:
                flags.append(S('--all-features'))
            flags += [cat(S('--features='), f) for f in feats]
            tail = ta if phase == 'Test' else []
            ck.expect(prog == T('CARGO'), 'program', 'the program run is %s, not $CARGO' % pp(prog, p)[:60], w)
            got_head = args[:len(head)]
            got_tail = args[len(args) - len(tail):] if tail else []
            mid = args[len(head):len(args) - len(tail)]
            show = '%s: %s' % (tag, ' '.join(pp(a, p) for a in args))
            ck.expect(got_head == head, 'subcommand:%s:%s' % (phase, tool), show + ' does not start with ' + ' '.join(x[1] for x in head), w, show)
            ck.expect(got_tail == tail, 'test-args:%s' % phase, show + ': the test arguments are not the last arguments', w)
            ck.expect([a for a in mid if a in ca] == ca, 'cargo-args:%s' % phase, show + ': additional cargo arguments missing or out of order', w)
            rest = [a for a in mid if a not in ca]
            for f in flags:
                ck.expect(rest.count(f) == flags.count(f), 'flag:%s:%s' % (phase, flagname(f)), show + ': %s given %d times' % (pp(f, p), rest.count(f)), w)
            for f in rest:
                ck.expect(f in flags, 'extra:%s:%s' % (phase, flagname(f)), show + ': unexpected %s' % pp(f, p), w)
    ck.floor('command lines', n, 40)
    # without $CARGO
    o = overlay(p, 'options', 'options::Options', test_tool=mk(p, 'options::TestTool', 'Cargo'), profile=NONE, cap_lints=FALSE, additional_cargo_args=seq(), additional_cargo_test_args=seq(),
                features=mk(p, fty, no_default_features=FALSE, all_features=FALSE, features=seq()))
    for s, b, span in spawned(ck, 'Test', o, sels['All'], {'CARGO': None}):
        if argv_of(b)[0] is None:
            ck.unsure('program without $CARGO')
            continue
        ck.expect(argv_of(b)[0] == ('s', 'cargo'), 'program-default', 'without $CARGO the program run is %s' % pp(argv_of(b)[0], p)[:60], p.span_text(span))


def flagname(f):
    if f[0] == 's':
        return f[1]
    for x in f[1:]:
        if isinstance(x, tuple) and x and x[0] == 's':
            return x[1]
        if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0][0] == 's':
            return x[0][1]
    return '?'
