"""The environment of every cargo process."""
from vlib import *
from cmdx import *

EXPLANATION = ('For every phase and every state of the cap-lints option, CARGO_ENCODED_RUSTFLAGS and RUSTFLAGS (absent, empty, set), the environment handed to the process spawn is computed '
               'symbolically from run_cargo and compared with the specification.')
MIN_OBLIGATIONS = 40
CAP = '--cap-lints=warn'
US = '\x1f'


def check(ck):
    p = ck.p
    PS = 'package::PackageSelection'
    where = ck.where(ck.fn(RC))
    E, R = T('ENC'), T('RUSTFLAGS')
    n = 0
    for phase in ('Check', 'Build', 'Test'):
        for cap in (FALSE, TRUE):
            for enc in (None, ('s', ''), E, ('s', 'a\x1fb c'), ('s', '-v'), ('s', '--cap-lints=allow\x1f-Cx')):
                for rf in (None, ('s', ''), R, ('s', ' -C  x=y '), ('s', '-Dwarnings'), ('s', '-v'), ('s', '-C linker=a  -v --cfg a'), ('s', '--cap-lints=allow')):
                    o = overlay(p, 'options', 'options::Options', test_tool=mk(p, 'options::TestTool', 'Cargo'), profile=NONE, cap_lints=cap)
                    tag = '%s cap_lints=%s CARGO_ENCODED_RUSTFLAGS=%s RUSTFLAGS=%s' % (phase, cap == TRUE, show(p, enc), show(p, rf))
                    for s, b, span in spawned(ck, phase, o, mk(p, PS, 'All'), {'CARGO': T('CARGO'), 'CARGO_ENCODED_RUSTFLAGS': enc, 'RUSTFLAGS': rf}):
                        w = p.span_text(span)
                        env, other = env_of(b)
                        for x in other:
                            if x[0] in ('Command::env_clear', 'Command::env_remove'):
                                ck.bad('env:' + x[0], '%s: the inherited environment is changed by %s' % (tag, x[0]), w)
                        if any(x[0] == 'Command::envs' for x in other):
                            ck.unsure(tag)
                            continue
                        n += 1
                        d = {}
                        for k, v in env:
                            d[k] = v
                        for k, v in (('INSTA_UPDATE', 'no'), ('INSTA_FORCE_PASS', '0')):
                            got = d.pop(('s', k), None)
                            ck.expect(got == ('s', v), k, '%s: %s is %s, not %s' % (tag, k, show(p, got), v), w, '%s=%s' % (k, v))
                        got = d.pop(('s', 'CARGO_ENCODED_RUSTFLAGS'), None)
                        key = 'rustflags:%s:%s:%s' % (cap == TRUE, kind(enc), kind(rf))
                        if cap == FALSE:
                            want = None
                        elif enc is not None:
                            want = ('s', CAP) if enc == ('s', '') else cat(enc, ('s', US + CAP))
                        elif rf is None:
                            want = ('s', CAP)
                        elif rf[0] == 's':
                            want = ('s', US.join(rf[1].split() + [CAP]))
                        else:
                            want = 'split'
                        e_empty = [c for t, c in s.facts.items() if t == T('is_empty', E)]
                        if enc == E and e_empty == [TRUE] and cap == TRUE:
                            want = ('s', CAP)
                        if got is not None:
                            # a string known to be empty adds nothing
                            for sym in (E, R):
                                if [c for t, c in s.facts.items() if t == T('is_empty', sym)] == [TRUE] and got[0] == 'cat':
                                    got = cat(*[x for x in got[1] if x != sym])
                        if want == 'split':
                            # either known empty, or the words of RUSTFLAGS followed by the cap
                            if [c for t, c in s.facts.items() if t == T('is_empty', R)] == [TRUE]:
                                want = ('s', CAP)
                            else:
                                g = got or NONE
                                ck.expect(got is not None and mentions(got, R) and repr(got).count(CAP) == 1, key, '%s: CARGO_ENCODED_RUSTFLAGS is %s' % (tag, show(p, got)), w)
                                continue
                        ck.expect(got == want, key, '%s: CARGO_ENCODED_RUSTFLAGS is set to %s, not %s' % (tag, show(p, got), show(p, want)), w, '%s -> %s' % (tag, show(p, got)))
                        for k in d:
                            if k[0] == 's' and k[1] in ('RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'PATH', 'CARGO', 'HOME', 'RUSTC', 'RUSTDOCFLAGS', 'CARGO_TARGET_DIR'):
                                ck.bad('env:' + k[1], '%s: the variable %s is overridden' % (tag, k[1]), w)
    ck.floor('environments', n, 60)


def show(p, v):
    return 'unset' if v is None else pp(v, p)[:80]


def kind(v):
    return 'unset' if v is None else 'empty' if v == ('s', '') else 'set'
