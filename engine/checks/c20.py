"""Applying a mutation replaces exactly the span."""
from vlib import *
import itertools

EXPLANATION = ('Mutant::mutated_code and Mutant::original_text are analysed on texts whose characters are opaque apart from their class (line feed, carriage return, anything else), for every arrangement of classes up to the bound and every span within the text: '
               'the result must be the text before the span, the replacement followed by nothing but a comment, and the text from the end of the span, character for character; the original text must be exactly the characters of the span. '
               'Columns count as the parser counts them: every character but the line feed and the carriage return directly before it. Apart from these classes the code does not look at characters, so that the bound is on the number of characters only.')
ASSUMPTIONS = ['proc_macro2 counts columns in characters']
MIN_OBLIGATIONS = 500
MC = 'mutant::Mutant::mutated_code'
OT = 'mutant::Mutant::original_text'


def positions(text):
    """[(line, col)] of every character, and of the end"""
    out = []
    line, col = 1, 1
    for i, c in enumerate(text):
        out.append((line, col))
        if c == 'n':
            line, col = line + 1, 1
        elif c == 'r' and i + 1 < len(text) and text[i + 1] == 'n':
            pass
        else:
            col += 1
    out.append((line, col))
    return out


def spans_of(text):
    ps = positions(text)
    cr = [i for i in range(len(text) - 1) if text[i:i + 2] == 'rn']
    starts = [i for i in range(len(text) + 1) if i not in cr and i - 1 not in cr]
    ends = [i for i in range(len(text) + 1) if i - 1 not in cr]
    return [(i, j, ps[i], ps[j]) for i in starts for j in ends if i <= j]


def values(text, const):
    out = []
    for i, c in enumerate(text):
        if c == 'n':
            out.append(('ch', '\n'))
        elif c == 'r':
            out.append(('ch', '\r'))
        else:
            out.append(('ch', 'aébcdfghijkl'[i]) if const else T('char', ('i', i)))
    return out


def flat(v):
    """list of characters, opaque pieces as they are; None if something is not understood"""
    parts = v[1] if v[0] == 'cat' else (v,)
    out = []
    for q in parts:
        if q[0] in ('s', 'ch'):
            out += [('ch', x) for x in q[1]]
        else:
            out.append(q)
    return out


def check(ck):
    parts(ck, converted, main_)


def converted(ck):
    """the position of a parsed token in the terms of the mutants: lines from 1, columns from 1 where the parser has them from 0"""
    p = ck.p
    PL = 'proc_macro2::LineColumn'
    if PL not in p.adts:
        ck.unsure('the parser has no %s' % PL)
        return
    n = 0
    for i in p.local_bodies():
        path = p.path(i)
        if '>::from' not in path or 'proc_macro2' not in repr([p.types[x]['s'] for x in p.body(i).locals[1:2]]):
            continue
        to = p.types[p.body(i).locals[0]]['s']
        src = p.types[p.body(i).locals[1]]['s']
        if not to.endswith(('LineColumn', 'Span')):
            continue
        w = ck.where(i)
        for a, b in (((1, 0), (1, 1)), ((1, 5), (1, 9)), ((3, 7), (8, 0)), ((4, 0), (12, 33))):
            pos = lambda q: mk(p, PL, line=('i', q[0]), column=('i', q[1]))

            def at(q):
                return lambda ip, st, c: [('ret', st, pos(q))]
            joined = lambda ip, st, c: [('ret', st, T('joined'))]
            given = {0: pos(a) if src.endswith('LineColumn') else T('parsed')}
            ip, outs = ck.run(i, given, models={'Span::start': at(a), 'Span::end': at(b), 'DelimSpan::join': joined})
            for k, s, v in outs:
                v = ip.mat(s, v) if k == 'ret' else T('panic')
                try:
                    got = [field(p, v, 'line'), field(p, v, 'column')] if to.endswith('LineColumn') else [field(p, field(p, v, e), f) for e in ('start', 'end') for f in ('line', 'column')]
                except Exception:
                    ck.unsure('%s: %s' % (path, pp(v, p)[:80]))
                    continue
                want = [a[0], a[1] + 1] + ([] if to.endswith('LineColumn') else [b[0], b[1] + 1])
                if any(g[0] != 'i' for g in got):
                    ck.unsure('%s: %s' % (path, pp(v, p)[:80]))
                    continue
                n += 1
                ck.expect([g[1] for g in got] == want, 'convert:' + path, 'the place %s%s of the parser (columns from 0) becomes %s' % (a, '' if to.endswith('LineColumn') else ' to %s' % (b,), [g[1] for g in got]), w,
                          '%s of %s' % (path, a))
    ck.floor('conversions of positions', n, 4)


def main_(ck):
    p = ck.p
    mc, ot = ck.fn(MC), ck.fn(OT)
    loaded(ck)
    n = 5 if ck.tier == 'thorough' else 4
    texts = [''.join(x) for k in range(1, n + 1) for x in itertools.product('xnr', repeat=k)]
    texts += ['xxnxxnxx', 'xxrnxxrnx', 'nnxnn', 'xxxxxx']
    ck.count('texts', len(texts))
    for text in texts:
        sp = spans_of(text)
        if len(text) >= 5:
            sp = sp[::3] + [sp[-1]]
        for i, j, a, b in sp:
            for fn, what in ((mc, 'mutated'), (ot, 'original')):
                one(ck, fn, what, text, i, j, a, b)


def one(ck, fn, what, text, i, j, a, b, const=False):
    p = ck.p
    vals = values(text, const)
    TEXT = ('s', ''.join(x[1] for x in vals)) if const else T('text')
    lc = lambda q: mk(p, 'span::LineColumn', line=('i', q[0]), column=('i', q[1]))
    m = mk(p, 'mutant::Mutant', span=mk(p, 'span::Span', start=lc(a), end=lc(b)), replacement=T('rep'), source_file=mk(p, 'source::SourceFile', code=TEXT), genre=T('genre'), function=T('function'))

    def chars(ip, st, c):
        if c.m(st, 0) == TEXT:
            return [('ret', st, ('it', tuple(('e', v, ()) for v in vals)))]
        return None

    def classes(st):
        pass
    models = {} if const else {'str::chars': chars}
    ip = ck.interp(models=models)
    st = St()
    for v in vals:
        if v[0] == 't':
            for ch in '\n\r':
                ip.assume(st, ip.mk_eq_raw(v, ('ch', ch)), FALSE)
    ip, outs = ck.run(fn, {0: m}, ip=ip, st=st)
    where = ck.where(fn)
    # name the position class for a stable key
    key = what
    if not const and any(doubtful(s) for k, s, v in outs):
        # the code looks further into characters than their class
        one(ck, fn, what, text, i, j, a, b, True)
        return
    for k, s, v in outs:
        if k != 'ret':
            ck.bad(key + ':panic', 'the %s text of span %s-%s in %r cannot be computed' % (what, a, b, text), where)
            continue
        r = ip.mat(s, v)
        got = flat(r)
        if what == 'original':
            want = [norm(x) for x in vals[i:j]]
            if not const and any(x[0] not in ('ch',) and x not in vals for x in got):
                one(ck, fn, what, text, i, j, a, b, True)
                continue
            if const and any(x[0] != 'ch' for x in got):
                ck.unsure('original text: %s' % pp(r, p)[:150])
                continue
            ck.expect(got == want, key, 'in the text %s the original of span %s-%s is %s' % (show(vals), a, b, show(got)), where, 'text of %d characters: original text' % len(text))
            continue
        pre, post = [norm(x) for x in vals[:i]], [norm(x) for x in vals[j:]]
        known = set(vals) | {T('rep')}
        if any(x[0] != 'ch' and x not in known for x in got):
            if not const:
                one(ck, fn, what, text, i, j, a, b, True)
            else:
                ck.unsure('mutated code: %s' % pp(r, p)[:150])
            continue
        okk = got[:i] == pre and got[i:i + 1] == [T('rep')] and (not post or got[-len(post):] == post) and len(got) >= i + 1 + len(post)
        mid = got[i + 1:len(got) - len(post)] if okk else []
        if okk:
            okk = all(x[0] == 'ch' for x in mid)
            t = ''.join(x[1] for x in mid).strip(' ')
            okk = okk and (t == '' or t.startswith('/*') and t.endswith('*/') and t.count('*/') == 1)
        ck.expect(okk, key, 'in the text %s replacing the span %s-%s gives %s' % (show(vals), a, b, show(got)), where, 'text of %d characters: replaced' % len(text))


def norm(x):
    return x


def show(xs):
    out = ''
    for x in xs:
        if x[0] == 'ch':
            out += {'\n': '\\n', '\r': '\\r'}.get(x[1], x[1])
        elif x == T('rep'):
            out += '<replacement>'
        elif x[0] == 't' and x[1] == 'char':
            out += 'ABCDEFGHIJ'[x[2][1]]
        else:
            out += '?'
    return out


LOAD = 'source::SourceFile::load'


def loaded(ck):
    """the text that is mutated is that of the file, with Unix line endings"""
    p = ck.p
    fn = ck.fn(LOAD)
    where = ck.where(fn)
    ip, outs = ck.run(fn, {0: T('tree'), 1: T('rel'), 2: T('package'), 3: T('top')}, opaque=lambda q: q.endswith('ascent') or q.endswith('to_slash_path'))
    n = 0
    for k, s, v in outs:
        r = ip.mat(s, v)
        if k != 'ret' or not is_ok(r):
            continue
        o = r[3][0]
        if not is_some(o):
            ck.expect(any('ascent' in repr(f) for f in s.facts), 'load:none', 'a source file inside the tree is left out', where)
            continue
        sf = o[3][0]
        code = field(p, sf, 'code')
        path = field(p, sf, 'tree_relative_path')
        n += 1
        ck.expect(path == T('rel'), 'load:path', 'the path of the source file is %s' % pp(path, p)[:100], where, 'path as given')
        txt = repr(code)
        ck.expect("'\\\\r\\\\n'" in repr(txt) or '\\r\\n' in txt, 'load:endings', 'the text of a source file keeps CRLF line endings: %s' % pp(code, p)[:150], where, 'CRLF normalised')
        ck.expect("'tree'" in txt and "'rel'" in txt, 'load:text', 'the text of a source file is %s' % pp(code, p)[:150], where, 'text read from the tree')
        ck.expect(field(p, sf, 'is_top') == T('top'), 'load:top', 'is_top is %s' % pp(field(p, sf, 'is_top'), p)[:80], where)
    if not n:
        ck.unsure('SourceFile::load: no successful path')
    for text in ('a\r\nb\n', ' x', 'x', '\r\n', 'a\rb\r', '', '\n\nfn\n\n', '\tx \n ', 'a\r\n\r\nb\n\r\n', '\r\r\n', '\ufeffx', '\u00e9\u4e16', '#!/bin/x\nfn'):
        ip, outs = ck.run(fn, {0: ('s', '/w'), 1: ('s', 'src/a.rs'), 2: T('package'), 3: T('top')}, models={'fs::read_to_string': lambda ip, st, c: [('ret', st, ok(('s', text)))]})
        for k, s, v in outs:
            r = ip.mat(s, v) if k == 'ret' else T('panic')
            if not is_ok(r) or not is_some(r[3][0]) or r[3][0][3][0][0] != 'adt':
                continue
            code = field(p, r[3][0][3][0], 'code')
            if code[0] != 's':
                ck.unsure('the text loaded from %r: %s' % (text, pp(code, p)[:100]))
                continue
            ck.expect(code[1] == text.replace('\r\n', '\n'), 'load:exact', 'a file containing %r is read as %r' % (text, code[1]), where, 'file containing %r' % text)
