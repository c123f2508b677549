"""Readable text for abstract values."""


UNKNOWN = set()      # data-moving functions without a model met so far
TAINT = [False]      # a value that went through one of them was printed since the last verdict


def tainted(v, d=0):
    if not isinstance(v, tuple) or not v or d > 60:
        return False
    if v[0] == 't' and len(v) > 1 and (v[1] in UNKNOWN or v[1] == 'upd' and len(v) > 2 and v[2] in UNKNOWN):
        return True
    return any(tainted(x, d + 1) for x in v if isinstance(x, tuple))


def pp(v, p=None, d=0):
    if d == 0 and UNKNOWN and not TAINT[0] and tainted(v):
        TAINT[0] = True
    return pp_(v, p, d)


def pp_(v, p=None, d=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if d > 12:
        return '…'
    k = v[0]
    f = lambda x: pp(x, p, d + 1)
    if k == 'i':
        return str(v[1])
    if k == 'b':
        return 'true' if v[1] else 'false'
    if k == 's':
        return repr(v[1])
    if k == 'ch':
        return repr(v[1])
    if k == 'f':
        return v[1]
    if k == 'adt':
        n = v[1].split('::')[-1]
        if p:
            a = p.adts.get(v[1])
            if a and a['kind'] == 'enum':
                n = n + '::' + a['variants'][v[2]][0]
            elif a and v[3] and a['variants'][0][2] and len(v[3]) == len(a['variants'][0][2]):
                return n + '{' + ', '.join('%s: %s' % (x, f(y)) for x, y in zip(a['variants'][0][2], v[3])) + '}'
        else:
            n = n + '#%d' % v[2]
        return n + ('(' + ', '.join(map(f, v[3])) + ')' if v[3] else '')
    if k == 'tup':
        return '(' + ', '.join(map(f, v[1])) + ')'
    if k == 'seq':
        return '[' + ', '.join(f(s[1]) if s[0] == 'e' else '*' + f(s[1]) for s in v[1]) + ']'
    if k == 'it':
        return 'iter[' + ', '.join((f(s[1]) if s[0] == 'e' else '*' + f(s[1])) + ('|%d' % len(s[2]) if s[2] else '') for s in v[1]) + ']'
    if k == 'cat':
        return '"' + ''.join(x[1].replace('\n', '\\n') if x[0] == 's' else '{' + f(x) + '}' for x in v[1]) + '"'
    if k == 'ref':
        return '&%s%s' % (v[1], list(v[2]))
    if k == 'guard':
        return 'guard(%s)' % f(v[1])
    if k == 'clo':
        return 'closure%d' % v[1]
    if k == 'fn':
        return 'fn%d' % v[1]
    if k == 'ov':
        return f(v[1]) + '{' + ', '.join('%s: %s' % ('.'.join(map(str, a[1:])), f(b)) for a, b in v[2]) + '}'
    if k == 't':
        op = v[1]
        if op == 'arg':
            return str(v[2])
        if op == 'fld':
            return f(v[2]) + '.' + str(v[3])
        if op == 'as':
            return '(' + f(v[2]) + ' as ' + str(v[3]) + ')'
        if op == 'not':
            return '!' + f(v[2])
        if op == 'eq':
            return '(' + f(v[2]) + ' == ' + f(v[3]) + ')'
        if op == 'lt':
            return '(' + f(v[2]) + ' < ' + f(v[3]) + ')'
        if op == 'discr':
            return 'variant(' + f(v[2]) + ')'
        return str(op) + '(' + ', '.join(f(x) for x in v[2:] if not (isinstance(x, tuple) and x and x[0] == '@')) + ')'
    if k == '@':
        return '@'
    return '(' + ' '.join(pp(x, p, d + 1) for x in v) + ')'


def pp_facts(facts, p=None):
    out = []
    for t, c in facts.items():
        if t[0] == 'ne':
            tt = t[1]
            if tt[0] == 't' and tt[1] == 'discr' and p:
                out.append('%s not in %s' % (pp(tt, p), sorted(vname(p, tt, x) for x in c)))
            else:
                out.append('%s not in {%s}' % (pp(tt, p), ', '.join(pp(x, p) for x in c)))
        elif t[0] == 't' and t[1] == 'discr' and p:
            out.append('%s=%s' % (pp(t, p), vname(p, t, c)))
        elif t[0] == 't' and t[1] == 'none_of':
            out.append('none_of(%s)' % pp(t[2], p))
        else:
            out.append('%s=%s' % (pp(t, p), pp(c, p)))
    return out


def vname(p, t, c):
    a = p.adts.get(t[3])
    if a:
        for v in a['variants']:
            if v[1] == c[1]:
                return v[0]
    return str(c[1])
