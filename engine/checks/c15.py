"""Shards."""
from vlib import *
import mainx
from mainx import *

EXPLANATION = ('Selection of a shard computed symbolically for every list length up to 8 and every shard k/n up to n = 9: disjoint, complete, in order and balanced; parsing of k/n as a decision table; '
               'every partition of main: the shard is taken of exactly the complete, deterministic list of mutants, as the last step, and is the list that is tested or listed.')
MIN_OBLIGATIONS = 100
FS = '<shard::Shard as std::str::FromStr>::from_str'


def check(ck):
    p = ck.p
    where = ck.where(ck.fn(SEL))
    SH = 'shard::Shard'
    top = 8 if ck.tier == 'quick' else 14
    for ln in range(0, top + 1):
        ms = [T('m', ('i', i)) for i in range(ln)]
        for n in range(1, top + 2):
            got = []
            bad = False
            for k in range(n):
                ip, outs = ck.run(SEL, {0: mk(p, SH, k=('i', k), n=('i', n)), 1: seq(*ms)})
                rs = {ip.mat(s, v) for kk, s, v in outs if kk == 'ret'}
                es = [elems(r) for r in rs]
                if len(rs) != 1 or es[0] is None or any(kk != 'ret' for kk, _, _ in outs):
                    if any(kk == 'panic' for kk, _, _ in outs):
                        ck.bad('select-panic', 'selecting shard %d/%d of %d mutants panics' % (k, n, ln), where)
                    else:
                        ck.unsure('shard %d/%d of %d mutants: %s' % (k, n, ln, [pp(r, p)[:100] for r in rs]))
                    bad = True
                    continue
                got.append(es[0])
            if bad:
                continue
            flat = [m for g in got for m in g]
            ck.expect(len(set(flat)) == len(flat), 'overlap', 'with %d mutants and %d shards, a mutant is in two shards: %s' % (ln, n, show(got)), where)
            ck.expect(set(flat) == set(ms), 'gap', 'with %d mutants and %d shards, some mutant is in no shard: %s' % (ln, n, show(got)), where, '%d mutants in %d shards: %s' % (ln, n, show(got)))
            ck.expect(all(g == sorted(g, key=lambda m: m[2][1]) for g in got), 'order', 'a shard reorders its mutants', where)
            ck.expect(max(len(g) for g in got) - min(len(g) for g in got) <= 1, 'balance', 'with %d mutants and %d shards the sizes differ by more than one: %s' % (ln, n, show(got)), where)
    parse(ck)
    wiring(ck)


def show(got):
    return [[m[2][1] for m in g] for g in got]


def parse(ck):
    p = ck.p
    inst = ck.fn(FS)
    where = ck.where(inst)

    def parse_model(ip, st, c):
        v = ip.mat(st, c.args[0])
        if v[0] == 's':
            if v[1].isdigit():
                return [('ret', st, ok(('i', int(v[1]))))]
            return [('ret', st, err(T('parse_error')))]
        return None

    for text, want in [('%d/%d' % (k, n), (k, n) if k < n else None) for k in range(0, 4) for n in range(0, 4)] + [('', None), ('1', None), ('/', None), ('a/2', None), ('1/b', None), ('1/', None), ('/2', None), ('-1/2', None), ('1/2/3', None)]:
        ip, outs = ck.run(inst, {0: ('s', text)}, models={'str::parse': parse_model, 'FromStr::from_str': parse_model})
        for k, s, v in outs:
            v = ip.mat(s, v)
            if k != 'ret':
                if k == 'panic':
                    ck.bad('parse-panic', 'parsing %r panics' % text, where)
                continue
            if not (is_ok(v) or is_err(v)):
                ck.unsure('parse %r: %s' % (text, pp(v, p)[:100]))
            elif want is None:
                ck.expect(is_err(v), 'accepts', 'the shard %r is accepted' % text, where, '%r refused' % text)
            else:
                ck.expect(is_ok(v) and field(p, v[3][0], 'k') == ('i', want[0]) and field(p, v[3][0], 'n') == ('i', want[1]), 'parse', 'the shard %r is parsed as %s' % (text, pp(v, p)[:100]), where, '%r accepted' % text)


def wiring(ck):
    p = ck.p
    ip, outs = partitions(ck)
    where = ck.where(ck.fn('main'))
    n = 0
    for k, s, v in outs:
        for e in s.mon or ():
            if e[0] not in ('lab::test_mutants', 'list::list_mutants'):
                continue
            a = e[1][0]
            ls, base = layers(a)
            sh = arg_fact(p, s, 'shard')
            w = p.span_text(e[2])
            names = [x[0] for x in ls]
            if sh is None:
                if SEL in names:
                    ck.unsure('a shard taken without looking at the option')
                else:
                    ck.bad('unsharded', '%s is called without looking at --shard' % e[0], w)
                continue
            n += 1
            if not sh:
                ck.expect(SEL not in names, 'always', 'a shard is taken although --shard was not given', w)
                continue
            ck.expect(names.count(SEL) == 1, 'not-sharded', 'with --shard, %s gets %s' % (e[0], pp(a, p)[:120]), w)
            if names.count(SEL) != 1:
                continue
            ck.expect(names[0] == SEL, 'not-last', 'the list is filtered by %s after the shard was taken' % names[0], w)
            ck.expect(mentions_field(ls[names.index(SEL)][1], 'shard'), 'other-shard', 'the shard selected is not the one of --shard', w)
            for x in ls:
                if x[0] not in (SEL, DIFF, REM, 'mutants'):
                    ck.bad('between:' + x[0], 'the list of mutants is changed by %s before a shard is taken, so shards of different runs need not fit together' % x[0], w)
            ck.expect(base[0] == 't' and base[1] == DISC, 'base', 'the sharded list is not the discovered one but %s' % pp(base, p)[:100], w)
    ck.floor('uses of the list in main', n, 4)
