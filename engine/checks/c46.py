"""The code of a replacement is written out token for token."""
from vlib import *
import itertools
import re

EXPLANATION = ('The function that turns a token stream into text is analysed by value-flow for every sequence of up to three tokens out of identifiers, literals, each punctuation mark of Rust and groups with each delimiter (what it does with a token depends only on the text so far, '
               'the token and whether and what follows, so longer sequences add nothing); the text inside a group is opaque and taken to be right, by induction. The text must have the text of each token, in order, and nothing else but spaces; words that meet are kept apart, and a punctuation mark of several characters is not torn apart.')
ASSUMPTIONS = ['groups without delimiters do not occur in code that was read from a file', 'proc_macro2 spells single tokens']
MIN_OBLIGATIONS = 100
NAME = 'to_pretty_string'
TT = 'proc_macro2::TokenTree'
WORDS = [('Ident', 'abc'), ('Ident', 'r#x'), ('Literal', '12'), ('Literal', '"s t"')]
PUNCTS = [('Punct', c) for c in "=<>!~?+-*/%^&|@.,;:#$'"]
GROUPS = [('Group', d) for d in ('Brace', 'Bracket', 'Parenthesis')]
DEL = {'Brace': '{}', 'Bracket': '[]', 'Parenthesis': '()'}
# what the code that is generated has next to each other, written together, and one operator
JOINT = {'->', '::', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..'}


def check(ck):
    p = ck.p
    insts = [i for i in p.raw_bodies if p.path(i).endswith('::' + NAME) and 'closure' not in p.path(i)]
    if not insts:
        raise Missing('function ' + NAME)
    inst = insts[0]
    w = ck.where(inst)
    if TT not in p.adts:
        raise Missing('type ' + TT)
    n = 0
    every = WORDS + PUNCTS + GROUPS
    few = [WORDS[0], WORDS[2], ('Punct', ','), ('Punct', '='), ('Punct', '>'), ('Punct', '-'), ('Punct', ':'), ('Punct', '<'), ('Punct', '&'), GROUPS[2], GROUPS[0]]
    seqs = [()] + [(a,) for a in every] + [(a, b) for a in every for b in every]
    if ck.tier != 'quick':
        seqs += [(a, b, c) for a in few for b in few for c in few]
    else:
        seqs += [(a, b, c) for a in few[:6] for b in few[:6] for c in few[:3]]
    for q in seqs:
        n += one(ck, inst, q, w)
    ck.floor('sequences of tokens decided', n, 300)


def tok(p, t):
    k, x = t
    return mk(p, TT, k, **{first(p, k): T('tok', ('s', k), ('s', x))})


def first(p, k):
    for v in p.adts[TT]['variants']:
        if v[0] == k:
            return v[2][0]
    raise Missing('variant %s::%s' % (TT, k))


def unpack(v):
    while v[0] == 't' and v[1] != 'tok' and len(v) > 2 and v[1] in ('ref', 'deref', 'clone'):
        v = v[2]
    return (v[2][1], v[3][1]) if v[0] == 't' and v[1] == 'tok' else None


class Toks(Monitor):
    def __init__(self, p, q):
        self.p = p
        self.q = q

    def on_call(self, st, c):
        sh = c.path.split('::')[-1]
        if not c.args:
            return None
        v = c.m(st, 0)
        if sh in ('to_token_stream', 'into_token_stream') and v == T('code'):
            return [('ret', st, T('stream'))]
        if sh == 'into_iter' and v == T('stream'):
            return [('ret', st, ('it', tuple(('e', tok(self.p, t), ()) for t in self.q)))]
        if v[0] == 't' and v[1] == 'inside':
            if NAME in c.path:
                return [('ret', st, ('s', 'INSIDE'))]
            if sh in ('to_token_stream', 'into_token_stream', 'clone'):
                return [('ret', st, v)]
            if sh == 'into_iter':
                return [('ret', st, ('it', (('e', tok(self.p, ('Ident', 'INSIDE')), ()),)))]
            if sh == 'is_empty':
                return [('ret', st, FALSE)]
        t = unpack(v)
        if t is None:
            return None
        k, x = t
        if sh == 'as_char' and k == 'Punct':
            return [('ret', st, ('ch', x))]
        if sh == 'to_string':
            return [('ret', st, ('s', x))]
        if k == 'Group' and sh == 'delimiter':
            return [('ret', st, mk(self.p, 'proc_macro2::Delimiter', x))]
        if k == 'Group' and sh == 'stream':
            return [('ret', st, T('inside', ('s', x)))]
        return None


def text(t):
    return DEL[t[1]][0] + 'INSIDE' + DEL[t[1]][1] if t[0] == 'Group' else t[1]


def one(ck, inst, q, w):
    p = ck.p
    ip, outs = ck.run(inst, {0: T('code')}, monitor=Toks(p, q))
    n = 0
    nm = ' '.join(text(t) for t in q) or 'nothing'
    for k, s, v in outs:
        v = ip.mat(s, v) if k == 'ret' else T('panic')
        if v[0] != 's':
            ck.unsure('%s: %s' % (nm, pp(v, p)[:80]))
            continue
        n += 1
        got = v[1]
        kind = ' '.join(t[0] for t in q)
        # cut the text into the texts of the tokens
        pos = 0
        gaps = []
        for t in q:
            m = re.compile(r'\s*').match(got, pos)
            gap = m.group(0)
            x = text(t)
            j = m.end()
            if t[0] == 'Group':
                r = re.compile(r'\%s\s*INSIDE\s*\%s' % tuple(DEL[t[1]])).match(got, j)
                j2 = r.end() if r else None
            else:
                j2 = j + len(x) if got.startswith(x, j) else None
            if j2 is None:
                gaps = None
                break
            gaps.append(gap)
            pos = j2
        if gaps is None or got[pos:].strip():
            ck.bad('tokens:' + kind, 'the tokens %s are written as %s' % (nm, got or 'nothing'), w)
            continue
        for (a, b, g) in zip(q, q[1:], gaps[1:]):
            if a[0] in ('Ident', 'Literal') and b[0] in ('Ident', 'Literal') and not g:
                ck.bad('run-together:' + kind, 'the words %s and %s are run together: %s' % (a[1], b[1], got), w)
                break
            if a[0] == 'Punct' and b[0] == 'Punct' and a[1] + b[1] in JOINT and g:
                ck.bad('torn:' + kind, 'the operator %s%s is torn apart: %s' % (a[1], b[1], got), w)
                break
        else:
            ck.good('%s: %s' % (nm, got) if len(q) == 1 else None)
    return n
