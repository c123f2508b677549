"""Path-partitioned value-flow analysis over MIR.

Abstract domain: each storage location holds a constant, an aggregate, a
reference, or a *provenance term* (how the value was obtained: which field of
which input, which library call on which arguments).  Branches on values that
are not decided split the partition and record the branch fact; contradictory
partitions are pruned; loop heads are widened.  No solver and no execution:
the only deciding operations are constant folding, equality of terms and fact
lookup.
"""
import sys
import time
from mir import short as short_name

sys.setrecursionlimit(20000)

OPT = 'std::option::Option'
RES = 'std::result::Result'
UNIT = ('tup', ())
TRUE = ('b', True)
FALSE = ('b', False)


def some(v):
    return ('adt', OPT, 1, (v,))


NONE = ('adt', OPT, 0, ())


def ok(v):
    return ('adt', RES, 0, (v,))


def err(v):
    return ('adt', RES, 1, (v,))


def T(op, *a):
    return ('t', op) + a


CONST = ('i', 'b', 's', 'ch', 'f')


def is_const(v):
    return v[0] in CONST


def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'ch':
            p = ('s', p[1])
        if p[0] == 'cat':
            items = p[1]
        else:
            items = (p,)
        for q in items:
            if q[0] == 's' and q[1] == '':
                continue
            if q[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('s', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and mentions(x, t):
                return True
    return False


def subst(v, a, b):
    if v == a:
        return b
    if v == b:
        return v
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            if isinstance(x, (tuple,)):
                y = subst(x, a, b)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    return v


import re as _re
import pp as pp_mod
# functions that only move data about: a value that went through one without a model is not known
DATA = _re.compile(r'(Vec|VecDeque|String|str|\[T\]|Iterator|DoubleEndedIterator|ExactSizeIterator|Itertools|Option|Result|Clone|ToOwned|HashMap|BTreeMap|HashSet|BTreeSet|Cow|Rc|Arc|Box|'
                   r'iter|array|char|slice|Extend|FromIterator|cmp|Ord|PartialOrd|mem|usize|u64|bool|Entry|Peekable|Sum|LinkedList|BinaryHeap|OnceCell|Cell|RefCell)::')

class St:
    __slots__ = ('mem', 'facts', 'mon', 'loops', 'fresh', 'tr')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.mon = None
        self.loops = {}
        self.fresh = frozenset()
        self.tr = None

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.mon = self.mon
        s.loops = dict(self.loops)
        s.fresh = self.fresh
        s.tr = self.tr
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.mon)

    def log(self, x):
        self.tr = (self.tr, x)

    def trace(self):
        out = []
        t = self.tr
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Cap(Exception):
    pass


class Ctx:
    """Call information handed to models and monitors."""
    __slots__ = ('ip', 'short', 'path', 'selfty', 'args', 'site', 'span', 'inst', 'argty', 'destty', 'fid', 'depth', 'local', 'caller', 'stack')

    def m(self, st, k):
        return self.ip.mat(st, self.args[k])

    def mats(self, st):
        return tuple(self.ip.mat(st, a) for a in self.args)


class Monitor:
    def on_call(self, st, c):
        return None

    def on_drop(self, st, ty, val, span, caller):
        return None

    def on_enter(self, st, path, args, ip):
        return None

    def on_exit(self, st, path, val, ip):
        return None


IMPURE_OWNERS = {
    'fs', 'File', 'Child', 'Atomic', 'Builder', 'Read', 'TempDir', 'Walk', 'signal', 'FileExt',
}
IMPURE = {
    'OpenOptions::open', 'Command::spawn', 'Command::output', 'Command::status', 'Instant::now', 'Instant::elapsed',
    'OffsetDateTime::now_utc', 'Utf8Path::exists', 'Utf8Path::is_file', 'Utf8Path::is_dir', 'Path::exists', 'Path::is_file',
    'Path::is_dir', 'Utf8Path::canonicalize_utf8', 'Path::canonicalize', 'io::Write', 'Write::write_all', 'Write::write_fmt', 'Write::write',
    'Write::flush', 'MetadataCommand::exec', 'serde_json::to_writer_pretty', 'fastrand::shuffle', 'Metadata::modified',
    'Utf8Path::symlink_metadata', 'Path::symlink_metadata', 'Utf8Path::metadata', 'Path::metadata', 'Utf8Path::is_symlink', 'Path::is_symlink',
    'Utf8Path::try_exists', 'Path::try_exists',
}


PURE = {'TempDir::path', 'Builder::new', 'File::options', 'fs::read_link'}


def default_impure(short):
    return short in IMPURE or (short.split('::')[0] in IMPURE_OWNERS and short not in PURE)


class Interp:
    def __init__(self, prog, opaque=None, monitor=None, impure=None, max_steps=400000, loop_limit=3,
                 keep_panics=False, max_depth=40, models=None, max_seconds=150):
        self.max_seconds = max_seconds
        self.p = prog
        self.opaque = opaque or (lambda path: False)
        self.mon = monitor or Monitor()
        self.impure = impure or default_impure
        self.max_steps = max_steps
        self.steps = 0
        self.loop_limit = loop_limit
        self.keep_panics = keep_panics
        self.max_depth = max_depth
        self.frames = {}
        self.frame_rev = []
        self.stack = []
        self.fn_seen = set()
        self.sites = set()
        self.unknown = {}
        self.extra_models = models or {}
        from models import MODELS
        self.models = MODELS

    # ---------------------------------------------------------------- values
    def conv_const(self, c):
        k = c[0]
        if k == 'i':
            return ('i', c[1])
        if k == 'b':
            return ('b', c[1])
        if k == 'c':
            return ('ch', c[1])
        if k == 'f':
            return ('f', c[1])
        if k == 's':
            return ('s', c[1])
        if k == 'bytes':
            return ('bytes', tuple(c[1]))
        if k == 'fn':
            return ('fn', c[1])
        if k == 'fnptr':
            return ('fni', c[1])
        if k == 'ref':
            return self.conv_const(c[1])
        if k == 'arr':
            return ('seq', tuple(('e', self.conv_const(x)) for x in c[1]))
        if k == 'tup':
            return ('tup', tuple(self.conv_const(x) for x in c[1]))
        if k == 'adt':
            if c[1] in ('std::string::String',):
                return ('s', '')
            if c[1] == 'std::vec::Vec':
                return ('seq', ())
            return ('adt', c[1], c[2], tuple(self.conv_const(x) for x in c[3]))
        if k == 'static':
            return T('static', c[1])
        if k == 'big':
            return T('big', str(c[1:]))
        return T('const', str(c[1]) if len(c) > 1 else '?')

    def frame(self, parent, blk, inst):
        k = (parent, blk, inst)
        f = self.frames.get(k)
        if f is None:
            f = self.frames[k] = len(self.frame_rev)
            self.frame_rev.append(k)
        return f

    def mkfld(self, v, el):
        k = el[0]
        if k == 'f':
            return T('fld', v, el[2] if el[2] is not None else str(el[1]))
        if k == 'dc':
            return T('as', v, el[2])
        if k == 'ix':
            return T('index', v, el[1])
        if k == 'ci':
            return T('index', v, ('i', -el[1] if el[2] else el[1]))
        if k == 'sub':
            return T('sub', v, ('i', el[1]), ('i', el[2]), ('b', el[3]))
        if k == 'm':
            return T(el[1], v, *el[2])
        return T('proj', v, str(el))

    @staticmethod
    def elkey(el):
        if el[0] == 'f':
            return ('f', el[2] if el[2] is not None else str(el[1]))
        if el[0] == 'dc':
            return ('dc', el[2])
        return el

    def seq_at(self, v, i):
        """element i of a seq when known"""
        segs = v[1]
        if i >= 0:
            for k, s in enumerate(segs):
                if s[0] != 'e':
                    return None
                if k == i:
                    return s[1]
        else:
            for k, s in enumerate(reversed(segs)):
                if s[0] != 'e':
                    return None
                if k == -i - 1:
                    return s[1]
        return None

    def proj(self, st, v, el):
        while v[0] == 'ref':
            v = self.read(st, v[1], v[2])
        k = v[0]
        e0 = el[0]
        if k == 'adt':
            if e0 == 'f':
                if el[1] < len(v[3]):
                    return v[3][el[1]]
                return self.mkfld(v, el)
            if e0 == 'dc':
                return v
            return self.mkfld(v, el)
        if k == 'tup' and e0 == 'f':
            return v[1][el[1]] if el[1] < len(v[1]) else self.mkfld(v, el)
        if k == 'clo' and e0 == 'f':
            return v[2][el[1]] if el[1] < len(v[2]) else self.mkfld(v, el)
        if k == 'guard':
            return self.proj(st, v[1], el)
        if k == 'seq':
            if e0 == 'ix' and el[1][0] == 'i':
                r = self.seq_at(v, el[1][1])
                if r is not None:
                    return r
            if e0 == 'ci':
                r = self.seq_at(v, -el[1] if el[2] else el[1])
                if r is not None:
                    return r
            if e0 == 'sub' and all(s[0] == 'e' for s in v[1]):
                n = len(v[1])
                lo = el[1]
                hi = n - el[2] if el[3] else el[2]
                return ('seq', v[1][lo:hi])
            return self.mkfld(v, el)
        if k == 'ov':
            key = self.elkey(el)
            for kk, vv in v[2]:
                if kk == key:
                    return vv
            return self.proj(st, v[1], el)
        return self.mkfld(v, el)

    def read(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            v = T('undef', str(loc[0]))
        for el in path:
            v = self.proj(st, v, el)
        return v

    def upd(self, st, v, path, val):
        if not path:
            return val
        el = path[0]
        k = v[0]
        if k == 'ref':
            # the place goes through a reference stored here
            self.write(st, v[1], v[2] + path, val)
            return v
        if k == 'adt':
            if el[0] == 'dc':
                return self.upd(st, v, path[1:], val)
            if el[0] == 'f' and el[1] < len(v[3]):
                fs = list(v[3])
                fs[el[1]] = self.upd(st, fs[el[1]], path[1:], val)
                return ('adt', v[1], v[2], tuple(fs))
        if k == 'tup' and el[0] == 'f' and el[1] < len(v[1]):
            fs = list(v[1])
            fs[el[1]] = self.upd(st, fs[el[1]], path[1:], val)
            return ('tup', tuple(fs))
        if k == 'clo' and el[0] == 'f' and el[1] < len(v[2]):
            fs = list(v[2])
            fs[el[1]] = self.upd(st, fs[el[1]], path[1:], val)
            return ('clo', v[1], tuple(fs))
        if k == 'seq' and el[0] in ('ix', 'ci'):
            i = None
            if el[0] == 'ix' and el[1][0] == 'i':
                i = el[1][1]
            elif el[0] == 'ci':
                i = -el[1] if el[2] else el[1]
            if i is not None and self.seq_at(v, i) is not None:
                segs = list(v[1])
                segs[i] = ('e', self.upd(st, segs[i][1], path[1:], val))
                return ('seq', tuple(segs))
        key = self.elkey(el)
        if k == 'ov':
            base, d = v[1], dict(v[2])
        else:
            base, d = v, {}
        cur = d.get(key)
        if cur is None:
            cur = self.proj(st, base, el)
        if cur[0] == 'ref' and path[1:]:
            self.write(st, cur[1], cur[2] + path[1:], val)
            return v
        d[key] = self.upd(st, cur, path[1:], val)
        return ('ov', base, tuple(sorted(d.items(), key=repr)))

    def write(self, st, loc, path, val):
        if not path:
            st.mem[loc] = val
        else:
            v = st.mem.get(loc)
            if v is None:
                v = T('undef', str(loc[0]))
            st.mem[loc] = self.upd(st, v, path, val)

    def mat(self, st, v, depth=0):
        """Replace references by the values they point to."""
        if depth > 60:
            return T('deep')
        k = v[0]
        if k == 'ref':
            return self.mat(st, self.read(st, v[1], v[2]), depth + 1)
        if k in CONST or k in ('fn', 'fni', 'bytes'):
            return v
        if k == 'guard':
            return self.mat(st, v[1], depth + 1)
        if k == 'adt':
            return ('adt', v[1], v[2], tuple(self.mat(st, x, depth + 1) for x in v[3]))
        if k == 'tup':
            return ('tup', tuple(self.mat(st, x, depth + 1) for x in v[1]))
        if k == 'clo':
            return ('clo', v[1], tuple(self.mat(st, x, depth + 1) for x in v[2]))
        if k == 'seq':
            return ('seq', tuple((s[0], self.mat(st, s[1], depth + 1)) + tuple(s[2:]) for s in v[1]))
        if k == 'it':
            return ('it', tuple((s[0], self.mat(st, s[1], depth + 1), s[2]) for s in v[1]))
        if k == 'ov':
            return ('ov', self.mat(st, v[1], depth + 1), tuple((kk, self.mat(st, x, depth + 1)) for kk, x in v[2]))
        return v

    def val(self, st, v):
        """Follow references at the top level only."""
        n = 0
        while v[0] in ('ref', 'guard'):
            v = self.read(st, v[1], v[2]) if v[0] == 'ref' else v[1]
            n += 1
            if n > 50:
                break
        return v

    # ---------------------------------------------------------------- facts
    def lookup(self, st, t):
        k = t[0]
        if k != 't':
            return t
        f = st.facts.get(t)
        if f is not None:
            return f
        op = t[1]
        if op == 'not':
            x = self.lookup(st, t[2])
            if x[0] == 'b':
                return ('b', not x[1])
        elif op == 'eq':
            a, b = t[2], t[3]
            if a == b:
                return TRUE
            fa = st.facts.get(a, a)
            fb = st.facts.get(b, b)
            if is_const(fa) and is_const(fb):
                return ('b', fa == fb)
            for x, y in ((a, fb), (b, fa)):
                if is_const(y):
                    ne = st.facts.get(('ne', x))
                    if ne and y in ne:
                        return FALSE
            if st.facts.get(T('lt', a, b)) == TRUE or st.facts.get(T('lt', b, a)) == TRUE:
                return FALSE
        elif op == 'lt':
            a, b = t[2], t[3]
            if a == b:
                return FALSE
            fa = st.facts.get(a, a)
            fb = st.facts.get(b, b)
            if fa[0] == 'i' and fb[0] == 'i':
                return ('b', fa[1] < fb[1])
            if st.facts.get(T('lt', b, a)) == TRUE or st.facts.get(self.mk_eq_raw(a, b)) == TRUE:
                return FALSE
        return t

    @staticmethod
    def mk_eq_raw(a, b):
        if is_const(a) and not is_const(b):
            a, b = b, a
        elif not (is_const(b) and not is_const(a)) and repr(b) < repr(a):
            a, b = b, a
        return T('eq', a, b)

    def mk_not(self, x):
        if x[0] == 'b':
            return ('b', not x[1])
        if x[0] == 't' and x[1] == 'not':
            return x[2]
        return T('not', x)

    def mk_and(self, xs):
        out = []
        for x in xs:
            if x == FALSE:
                return FALSE
            if x == TRUE:
                continue
            out.append(x)
        if not out:
            return TRUE
        if len(out) == 1:
            return out[0]
        return T('and', *out)

    def mk_eq(self, st, a, b):
        """equality of two materialised values"""
        if a == b:
            return TRUE
        if is_const(a) and is_const(b):
            return ('b', a == b)
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
            if a[2] != b[2]:
                return FALSE
            return self.mk_and([self.mk_eq(st, x, y) for x, y in zip(a[3], b[3])])
        if a[0] == 'adt' or b[0] == 'adt':
            if b[0] == 'adt':
                a, b = b, a
            # a is an adt value, b opaque: compare discriminant when it has no payload
            ad = self.p.adts.get(a[1])
            if b[0] == 't' and ad and ad['kind'] == 'enum':
                dterm = T('discr', b, a[1])
                dv = ad['variants'][a[2]][1]
                d = self.lookup(st, self.mk_eq_raw(dterm, ('i', dv)))
                if not a[3]:
                    return d
                if d == FALSE:
                    return FALSE
                vn = ad['variants'][a[2]][0]
                parts = [d] + [self.mk_eq(st, x, T('fld', T('as', b, vn), ad['variants'][a[2]][2][k])) for k, x in enumerate(a[3])]
                return self.mk_and(parts)
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            return self.mk_and([self.mk_eq(st, x, y) for x, y in zip(a[1], b[1])])
        if a[0] == 'seq' and b[0] == 'seq' and all(s[0] == 'e' for s in a[1] + b[1]):
            if len(a[1]) != len(b[1]):
                return FALSE
            return self.mk_and([self.mk_eq(st, x[1], y[1]) for x, y in zip(a[1], b[1])])
        if a == ('s', '') or b == ('s', ''):
            return self.lookup(st, self.is_empty_term(st, b if a == ('s', '') else a))
        return self.lookup(st, self.mk_eq_raw(a, b))

    def is_empty_term(self, st, v):
        if v[0] == 's':
            return ('b', v[1] == '')
        if v[0] == 'seq':
            if not v[1]:
                return TRUE
            if any(s[0] == 'e' for s in v[1]):
                return FALSE
            if len(v[1]) == 1:
                return self.lookup(st, T('is_empty', v[1][0][1]))
        if v[0] == 'cat' and any(x[0] == 's' for x in v[1]):
            return FALSE
        return self.lookup(st, T('is_empty', v))

    def variants_of(self, t):
        if t[0] == 't' and t[1] == 'discr':
            a = self.p.adts.get(t[3])
            if a:
                return [('i', v[1]) for v in a['variants']]
        return None

    def assume(self, st, t, c):
        """Record t == c. False if contradictory. Mutates st."""
        if is_const(t):
            return t == c
        if t[0] != 't':
            st.facts[t] = c
            return True
        op = t[1]
        if op == 'not':
            return self.assume(st, t[2], ('b', not c[1]))
        cur = self.lookup(st, t)
        if is_const(cur):
            return cur == c
        ne = st.facts.get(('ne', t))
        if ne and c in ne:
            return False
        if op == 'and' and c == TRUE:
            return all(self.assume(st, x, TRUE) for x in t[2:])
        if op == 'or' and c == FALSE:
            return all(self.assume(st, x, FALSE) for x in t[2:])
        if op == 'eq':
            a, b = t[2], t[3]
            if is_const(b):
                if c == TRUE:
                    return self.assume(st, a, b)
                return self.assume_ne(st, a, b)
        st.facts[t] = c
        if ne:
            st.facts.pop(('ne', t), None)
        return True

    def assume_ne(self, st, t, c):
        if is_const(t):
            return t != c
        cur = self.lookup(st, t)
        if is_const(cur):
            return cur != c
        if c[0] == 'b':
            return self.assume(st, t, ('b', not c[1]))
        ne = st.facts.get(('ne', t), frozenset()) | {c}
        vs = self.variants_of(t)
        if vs is not None:
            rest = [v for v in vs if v not in ne]
            if not rest:
                return False
            if len(rest) == 1:
                st.facts.pop(('ne', t), None)
                st.facts[t] = rest[0]
                return True
        st.facts[('ne', t)] = ne
        return True

    def branch(self, st, t):
        """[(state, bool)] for a boolean value"""
        t = self.lookup(st, t)
        if t[0] == 'b':
            return [(st, t[1])]
        out = []
        for b in (True, False):
            s = st.copy()
            if self.assume(s, t, ('b', b)):
                out.append((s, b))
        return out

    def fresh(self, st, t):
        """Use t as the result of a new evaluation: older uses of the same name are renamed."""
        if t in st.fresh:
            old = T('old', t)
            for k, v in list(st.mem.items()):
                if mentions(v, t):
                    st.mem[k] = subst(v, t, old)
            for k in list(st.facts):
                if mentions(k, t):
                    del st.facts[k]
            if st.mon is not None and isinstance(st.mon, tuple) and mentions(st.mon, t):
                st.mon = subst(st.mon, t, old)
        else:
            st.fresh = st.fresh | {t}
        return t

    # ---------------------------------------------------------------- operands
    def conv_el(self, st, fid, el):
        k = el[0]
        if k == 'f':
            ty = self.p.types[el[3]]
            if ty['k'] == 'adt' and ty['p'] in ('std::ptr::Unique', 'std::ptr::NonNull', 'std::boxed::BoxRaw'):
                return None
            if ty['k'] == 'ptr' and el[2] == 'pointer':
                return None
            return ('f', el[1], el[2])
        if k == 'dc':
            return ('dc', el[1], el[2])
        if k == 'ix':
            v = self.val(st, self.read(st, ('L', fid, el[1]), ()))
            return ('ix', self.lookup(st, v) if v[0] == 't' else v)
        return tuple(el)

    def resolve(self, st, fid, place):
        loc, path, ident = ('L', fid, place[0]), (), False
        for el in place[1:]:
            if el == '*':
                v = self.read(st, loc, path)
                if v[0] == 'guard':
                    v = v[1]
                if v[0] == 'ref':
                    loc, path = v[1], v[2]
                    ident = False
                else:
                    ident = True
            else:
                e = self.conv_el(st, fid, el)
                if e is not None:
                    path = path + (e,)
        return loc, path, ident

    def place(self, st, fid, place):
        loc, path, _ = self.resolve(st, fid, place)
        return self.read(st, loc, path)

    def operand(self, st, fid, o):
        if o[0] == 'k':
            return self.conv_const(o[1])
        v = self.place(st, fid, o[1])
        if v[0] == 't':
            v = self.lookup(st, v)
        return v

    def discr(self, st, v, tyid):
        v = self.val(st, v)
        if v[0] == 'adt':
            a = self.p.adts.get(v[1])
            if a and v[2] < len(a['variants']):
                return ('i', a['variants'][v[2]][1])
        ty = self.p.types[tyid]
        if v[0] == 'ov':
            for kk, _ in v[2]:
                if kk[0] == 'dc':
                    a = self.p.adts.get(ty.get('p'))
                    for x in a['variants']:
                        if x[0] == kk[1]:
                            return ('i', x[1])
            v = v[1]
        return self.lookup(st, T('discr', self.mat(st, v), ty.get('p', '?')))

    BINOPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'band', 'BitOr': 'bor', 'BitXor': 'bxor',
              'Shl': 'shl', 'Shr': 'shr', 'AddUnchecked': 'add', 'SubUnchecked': 'sub', 'MulUnchecked': 'mul', 'Offset': 'offset'}

    def arith(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                return ('i', {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x // y,
                              'rem': lambda: x % y, 'band': lambda: x & y, 'bor': lambda: x | y, 'bxor': lambda: x ^ y,
                              'shl': lambda: x << y, 'shr': lambda: x >> y}[op]())
            except (ZeroDivisionError, KeyError, ValueError):
                return T(op, a, b)
        if a[0] == 'b' and b[0] == 'b':
            x, y = a[1], b[1]
            if op == 'band':
                return ('b', x and y)
            if op == 'bor':
                return ('b', x or y)
            if op == 'bxor':
                return ('b', x != y)
        if op == 'band':
            if FALSE in (a, b):
                return FALSE
            if a == TRUE:
                return b
            if b == TRUE:
                return a
        if op == 'bor':
            if TRUE in (a, b):
                return TRUE
            if a == FALSE:
                return b
            if b == FALSE:
                return a
        if op in ('add', 'mul', 'band', 'bor', 'bxor') and repr(b) < repr(a):
            a, b = b, a
        if op in ('add', 'sub') and b == ('i', 0):
            return a
        if op == 'add' and a == ('i', 0):
            return b
        # (x + c1) + c2
        if op == 'add' and a[0] == 'i' and b[0] == 't' and b[1] == 'add' and b[2][0] == 'i':
            return T('add', ('i', a[1] + b[2][1]), b[3])
        if op == 'sub' and b[0] == 'i' and a[0] == 't' and a[1] == 'add' and a[2][0] == 'i':
            n = a[2][1] - b[1]
            return a[3] if n == 0 else (T('add', ('i', n), a[3]) if n > 0 else T('sub', a[3], ('i', -n)))
        return T(op, a, b)

    def is_unsigned(self, tyid):
        t = self.p.types[tyid] if tyid is not None else None
        return bool(t) and t['k'] == 'prim' and t['s'] in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128')

    def cmp(self, st, op, a, b, unsigned=False):
        if op == 'Ne':
            return self.mk_not(self.cmp(st, 'Eq', a, b, unsigned))
        if op == 'Gt':
            return self.cmp(st, 'Lt', b, a, unsigned)
        if op == 'Ge':
            return self.mk_not(self.cmp(st, 'Lt', a, b, unsigned))
        if op == 'Le':
            return self.mk_not(self.cmp(st, 'Lt', b, a, unsigned))
        if op == 'Eq':
            for x, y in ((a, b), (b, a)):
                if x[0] == 't' and x[1] == 'len' and y == ('i', 0):
                    return self.is_empty_term(st, x[2])
                if x[0] == 'b' and y[0] == 't':
                    return y if x[1] else self.mk_not(y)
            return self.mk_eq(st, a, b)
        if op == 'Lt':
            if a[0] == 'i' and b[0] == 'i':
                return ('b', a[1] < b[1])
            if a == b:
                return FALSE
            if unsigned or (a[0] == 't' and a[1] == 'len') or (b[0] == 't' and b[1] == 'len'):
                if a == ('i', 0):
                    return self.mk_not(self.cmp(st, 'Eq', b, ('i', 0), unsigned))
                if b == ('i', 1):
                    return self.cmp(st, 'Eq', a, ('i', 0), unsigned)
                if b == ('i', 0):
                    return FALSE
            return self.lookup(st, T('lt', a, b))
        return T(op, a, b)

    def rvalue(self, st, fid, r, body):
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, r[1])
        if k == 'ref':
            loc, path, ident = self.resolve(st, fid, r[1])
            if not r[2]:
                v = self.read(st, loc, path)
                if v[0] in CONST or ident or v[0] == 'ref' and False:
                    return v
            elif ident and not path:
                pass
            return ('ref', loc, path)
        if k == 'agg':
            h = r[1]
            ops = tuple(self.operand(st, fid, o) for o in r[2])
            if h[0] == 'tup':
                return ('tup', ops)
            if h[0] == 'arr':
                return ('seq', tuple(('e', o) for o in ops))
            if h[0] == 'adt':
                return ('adt', h[1], h[2], ops)
            if h[0] == 'closure':
                return ('clo', h[1], ops)
            if h[0] == 'rawptr':
                return ops[0]
            return T('agg', *ops)
        if k == 'discr':
            v = self.place(st, fid, r[1])
            return self.discr(st, v, r[2])
        if k == 'bin':
            op = r[1]
            a = self.val(st, self.operand(st, fid, r[2]))
            b = self.val(st, self.operand(st, fid, r[3]))
            if a[0] == 't':
                a = self.lookup(st, a)
            if b[0] == 't':
                b = self.lookup(st, b)
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.cmp(st, op, self.mat(st, a), self.mat(st, b), self.is_unsigned(r[4]))
            if op.endswith('WithOverflow'):
                return ('tup', (self.arith(self.BINOPS[op[:-12]], a, b), FALSE))
            if op in self.BINOPS:
                return self.arith(self.BINOPS[op], a, b)
            return T(op, a, b)
        if k == 'un':
            a = self.val(st, self.operand(st, fid, r[2]))
            if r[1] == 'Not':
                if a[0] == 'b' or (a[0] == 't'):
                    return self.mk_not(a)
                return T('bnot', a)
            if r[1] == 'Neg':
                if a[0] == 'i':
                    return ('i', -a[1])
                if a[0] == 'f':
                    return ('f', '-' + a[1])
                return T('neg', a)
            if r[1] == 'PtrMetadata':
                return self.seq_len(st, self.val(st, a))
            return T(r[1], a)
        if k == 'cast':
            a = self.operand(st, fid, r[2])
            return a
        if k == 'repeat':
            a = self.operand(st, fid, r[1])
            if r[2] is not None and r[2] <= 64:
                return ('seq', (('e', a),) * r[2])
            return T('repeat', a)
        if k == 'tls':
            return T('tls', r[1])
        return T('rv', str(k))

    def seq_len(self, st, v):
        if v[0] == 'seq' and all(s[0] == 'e' for s in v[1]):
            return ('i', len(v[1]))
        if v[0] == 's':
            return ('i', len(v[1].encode()))
        return self.lookup(st, T('len', self.mat(st, v)))

    # ---------------------------------------------------------------- execution
    def run(self, inst, args, st=None):
        st = st or St()
        self.steps = 0
        self.deadline = time.monotonic() + self.max_seconds
        return self.call_body(st, inst, list(args), -1, -1)

    def call_body(self, st, inst, args, parent, blk):
        body = self.p.body(inst)
        path = self.p.path(inst)
        fid = self.frame(parent, blk, inst)
        self.fn_seen.add(path)
        if len(args) != body.argc:
            # closures called through FnOnce: tuple the rest if needed
            if body.argc > len(args):
                args = args + [T('missing')] * (body.argc - len(args))
            else:
                args = args[:body.argc]
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = a
        self.mon.on_enter(st, path, args, self)
        self.stack.append(inst)
        try:
            outs = self.exec_body(st, fid, body)
        finally:
            self.stack.pop()
        res = []
        seen = set()
        for kind, s, v in outs:
            if kind == 'ret':
                v = self.detach(s, v, fid)
                self.mon.on_exit(s, path, v, self)
            for k in [k for k in s.mem if k[0] == 'L' and k[1] == fid]:
                del s.mem[k]
            for k in [k for k in s.loops if k[0] == fid]:
                del s.loops[k]
            key = (kind, v, s.key())
            if key in seen:
                continue
            seen.add(key)
            res.append((kind, s, v))
        return res

    def detach(self, st, v, fid):
        """materialise references into frame fid"""
        if v[0] == 'ref':
            if v[1][0] == 'L' and v[1][1] == fid:
                return self.detach(st, self.read(st, v[1], v[2]), fid)
            return v
        if v[0] in CONST or v[0] in ('t', 'fn', 'fni', 'bytes', 'cat'):
            return v
        if v[0] == 'adt':
            return ('adt', v[1], v[2], tuple(self.detach(st, x, fid) for x in v[3]))
        if v[0] == 'tup':
            return ('tup', tuple(self.detach(st, x, fid) for x in v[1]))
        if v[0] == 'clo':
            return ('clo', v[1], tuple(self.detach(st, x, fid) for x in v[2]))
        if v[0] in ('seq', 'it'):
            return (v[0], tuple((s[0], self.detach(st, s[1], fid)) + tuple(s[2:]) for s in v[1]))
        if v[0] == 'guard':
            return ('guard', self.detach(st, v[1], fid)) + v[2:]
        return v

    def exec_body(self, st0, fid, body):
        outs = []
        work = [(0, st0, None)]
        visited = {}
        while work:
            bi, st, pred = work.pop()
            while True:
                self.steps += 1
                if self.steps & 255 == 0 and time.monotonic() > self.deadline:
                    raise Cap('time cap reached in %s' % self.p.path(body.inst))
                if self.steps > self.max_steps:
                    raise Cap('step cap reached in %s' % self.p.path(body.inst))
                if bi in body.headers:
                    st2 = self.at_header(st, fid, body, bi, pred, visited)
                    if st2 is None:
                        break
                    st = st2
                elif bi in body.joins:
                    k = st.key()
                    vs = visited.setdefault(bi, set())
                    if k in vs:
                        break
                    vs.add(k)
                stmts, term, _ = body.blocks[bi]
                for s in stmts:
                    k = s[0]
                    if k == '=':
                        v = self.rvalue(st, fid, s[2], body)
                        loc, path, _ = self.resolve(st, fid, s[1])
                        self.write(st, loc, path, v)
                    elif k == 'dead':
                        st.mem.pop(('L', fid, s[1]), None)
                    elif k == 'sd':
                        pass
                k = term[0]
                if k == 'goto':
                    pred, bi = bi, term[1]
                    continue
                if k == 'ret':
                    outs.append(('ret', st, st.mem.get(('L', fid, 0), UNIT)))
                    break
                if k == 'switch':
                    v = self.val(st, self.operand(st, fid, term[1]))
                    if v[0] == 't':
                        v = self.lookup(st, v)
                    if is_const(v):
                        tgt = term[3]
                        for c, b in term[2]:
                            if self.conv_const(c) == v:
                                tgt = b
                                break
                        pred, bi = bi, tgt
                        continue
                    if v[0] != 't':
                        v = T('val', v)
                    cs = [(self.conv_const(c), b) for c, b in term[2]]
                    for c, b in cs:
                        s2 = st.copy()
                        if self.assume(s2, v, c):
                            work.append((b, s2, bi))
                    good = True
                    for c, b in cs:
                        if not self.assume_ne(st, v, c):
                            good = False
                            break
                    if not good:
                        break
                    pred, bi = bi, term[3]
                    continue
                if k == 'drop':
                    loc, path, _ = self.resolve(st, fid, term[1])
                    v = self.read(st, loc, path)
                    self.mon.on_drop(st, self.p.types[term[3]]['s'], v, term[4], self.p.path(body.inst))
                    pred, bi = bi, term[2]
                    continue
                if k == 'assert':
                    c = self.operand(st, fid, term[1])
                    pred, bi = bi, term[3]
                    continue
                if k == 'call':
                    res = self.do_call(st, fid, body, bi, term)
                    first = True
                    cont = None
                    for kind, s, v in res:
                        if kind != 'ret' or term[4] is None:
                            if kind == 'panic' and not self.keep_panics:
                                continue
                            if kind == 'ret':
                                continue
                            outs.append((kind, s, v))
                            continue
                        loc, path, _ = self.resolve(s, fid, term[3])
                        self.write(s, loc, path, v)
                        if cont is None:
                            cont = s
                        else:
                            work.append((term[4], s, bi))
                    if cont is None:
                        break
                    st = cont
                    pred, bi = bi, term[4]
                    continue
                # unreach / resume / other
                break
        return outs

    def at_header(self, st, fid, body, bi, pred, visited):
        key = (fid, bi)
        if pred is None or pred not in body.loops.get(bi, ()):
            hist = ()
        else:
            hist = st.loops.get(key, ())
        if len(hist) >= self.loop_limit and not (len(hist) < 60 and self.progress(st, hist[-1], fid)):
            st = self.widen(st, hist[-1], fid, bi)
        k = st.key()
        vs = visited.setdefault(bi, set())
        if k in vs:
            return None
        vs.add(k)
        st.loops[key] = hist + ((dict(st.mem), dict(st.facts)),)
        return st

    @staticmethod
    def shrinks(o, v):
        if o == v or o[0] != v[0]:
            return False
        k = o[0]
        if k == 'it':
            n0 = [s[0] for s in o[1]]
            n1 = [s[0] for s in v[1]]
            if len(n1) < len(n0) and all(k == 'e' for k in n0):
                return True
            # an integer range with constant bounds
            return bool(n0 and n1 and all(k in ('e', 'rng') for k in n0 + n1) and o[1][-1] == v[1][-1] and n0[0] == 'rng' and n1[0] == 'rng')
        if k == 'seq':
            return len(v[1]) < len(o[1]) and all(s[0] == 'e' for s in o[1])
        if k == 'adt' and o[1:3] == v[1:3]:
            return any(Interp.shrinks(a, b) for a, b in zip(o[3], v[3]))
        if k == 'tup':
            return any(Interp.shrinks(a, b) for a, b in zip(o[1], v[1]))
        if k == 'ov':
            d = dict(v[2])
            return any(kk in d and Interp.shrinks(x, d[kk]) for kk, x in o[2])
        return False

    @staticmethod
    def progress(st, prev, fid):
        """a finite, explicitly enumerated sequence is being consumed: the loop is bounded"""
        pm = prev[0]
        for loc, v in st.mem.items():
            o = pm.get(loc)
            if o is not None and o is not v and Interp.shrinks(o, v):
                return True
        return False

    def widen(self, st, prev, fid, bi):
        pm, pf = prev
        for loc, v in list(st.mem.items()):
            o = pm.get(loc)
            if o is not None and o != v:
                st.mem[loc] = self.widen_val(o, v, loc, fid, bi)
        for t in list(st.facts):
            if pf.get(t) != st.facts[t]:
                del st.facts[t]
        return st

    def widen_val(self, o, v, loc, fid, bi, path=()):
        if o == v:
            return v
        if o[0] == 'adt' and v[0] == 'adt' and o[1] == v[1] and o[2] == v[2] and len(o[3]) == len(v[3]):
            return ('adt', v[1], v[2], tuple(self.widen_val(a, b, loc, fid, bi, path + (i,)) for i, (a, b) in enumerate(zip(o[3], v[3]))))
        if o[0] == 'tup' and v[0] == 'tup' and len(o[1]) == len(v[1]):
            return ('tup', tuple(self.widen_val(a, b, loc, fid, bi, path + (i,)) for i, (a, b) in enumerate(zip(o[1], v[1]))))
        if o[0] == 'ov' and v[0] == 'ov' and o[1] == v[1]:
            od, nd = dict(o[2]), dict(v[2])
            out = {}
            for k in nd:
                if k in od:
                    out[k] = self.widen_val(od[k], nd[k], loc, fid, bi, path + (str(k),))
                else:
                    out[k] = T('wid', fid, bi, loc[1:], path + (str(k),))
            return ('ov', v[1], tuple(sorted(out.items(), key=repr)))
        if o[0] == 'seq' and v[0] == 'seq':
            # keep the common prefix, generalise the rest
            n = 0
            while n < len(o[1]) and n < len(v[1]) and o[1][n] == v[1][n]:
                n += 1
            rest = set()
            for s in o[1][n:] + v[1][n:]:
                if s[0] == 'bag':
                    rest |= set(s[1][2:])
                else:
                    rest.add(s)
            return ('seq', v[1][:n] + (('bag', T('bag', *sorted(rest, key=repr))),))
        return T('wid', fid, bi, loc[1:], path)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fid, body, bi, term):
        f = self.operand(st, fid, term[1])
        args = [self.operand(st, fid, a) for a in term[2]]
        c = Ctx()
        c.ip = self
        c.args = args
        c.site = (fid, bi)
        c.span = term[5]
        c.argty = term[7]
        c.destty = term[6]
        c.fid = fid
        c.depth = len(self.stack)
        c.caller = self.p.path(body.inst)
        c.stack = [self.p.path(i) for i in self.stack]
        self.sites.add((body.inst, bi))
        return self.call_value(st, f, args, c)

    def call_value(self, st, f, args, c):
        f = self.val(st, f)
        if f[0] == 'fn':
            ty = self.p.types[f[1]]
            if ty.get('ctor'):
                adt, vn = ty['ctor']
                a = self.p.adts.get(adt)
                vi = 0
                for k, v in enumerate(a['variants']):
                    if v[0] == vn:
                        vi = k
                return [('ret', st, ('adt', adt, vi, tuple(args)))]
            i = ty.get('i')
            if i is None:
                c.inst, c.path, c.local = None, ty['p'], False
                c.short, c.selfty = short_name(ty['p'])
                return self.call_external(st, c)
            return self.call_inst(st, i, args, c)
        if f[0] == 'fni':
            return self.call_inst(st, f[1], args, c)
        if f[0] == 'clo':
            return self.apply(st, f, args, c)
        c.inst, c.path, c.local = None, 'indirect', False
        c.short, c.selfty = 'indirect::call', None
        return self.call_external(st, c)

    def apply(self, st, f, args, c):
        """call a closure / fn value with separate args"""
        fref = f
        f = self.val(st, f)
        if f[0] == 'clo':
            inst = f[1]
            body = self.p.body(inst)
            if body is None:
                c.inst, c.path, c.local = inst, self.p.path(inst), True
                c.short, c.selfty = short_name(c.path)
                return self.call_external(st, c)
            envty = self.p.types[body.locals[1]]
            if envty['k'] == 'ref':
                if fref[0] == 'ref':
                    env = fref
                else:
                    loc = ('E', c.site, inst)
                    st.mem[loc] = f
                    env = ('ref', loc, ())
            else:
                env = f
            return self.enter(st, inst, [env] + list(args), c)
        if f[0] == 'fn' or f[0] == 'fni':
            c2 = Ctx()
            for a in Ctx.__slots__:
                if hasattr(c, a):
                    setattr(c2, a, getattr(c, a))
            c2.args = list(args)
            c2.argty = None
            c2.destty = None
            return self.call_value(st, f, list(args), c2)
        return [('ret', st, T('apply', self.mat(st, f), *[self.mat(st, a) for a in args]))]

    def enter(self, st, inst, args, c):
        if inst in self.stack and self.stack.count(inst) > 1 or len(self.stack) > self.max_depth:
            c.inst, c.path, c.local = inst, self.p.path(inst), True
            c.short, c.selfty = short_name(c.path)
            c.args = args
            return self.call_external(st, c)
        return self.call_body(st, inst, args, c.site[0], (c.site[1], inst))

    def call_inst(self, st, inst, args, c):
        I = self.p.insts[inst]
        c.inst, c.path, c.local = inst, I['path'], I['local']
        c.short, c.selfty = short_name(I['path'])
        c.args = args
        macs = self.p.macros(c.span)
        if any(m.startswith('tracing') for m in macs):
            dt = self.p.types[c.destty]['s'] if c.destty is not None else ''
            if dt == 'bool':
                return [('ret', st, FALSE)]
            if I['path'].startswith('tracing') or not I['local']:
                return [('ret', st, T('tracing'))]
        r = self.mon.on_call(st, c)
        if r is not None:
            return r
        if I['kind'] in ('closure_once', 'fnptr_shim') or c.short in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            tup = self.val(st, args[1]) if len(args) > 1 else UNIT
            rest = list(tup[1]) if tup[0] == 'tup' else [tup]
            f = self.val(st, args[0])
            if f[0] in ('clo', 'fn', 'fni'):
                return self.apply(st, args[0], rest, c)
        if inst in self.p.raw_bodies and not self.opaque(I['path']):
            m = self.models.get('=' + c.short)
            if m is None:
                b = self.p.body(inst)
                if b.spread is None and '{closure' in I['path'].rsplit('::', 1)[-1] and len(args) == 2 and b.argc != 2:
                    tup = self.val(st, args[1])
                    if tup[0] == 'tup':
                        args = [args[0]] + list(tup[1])
                        c.args = args
                elif '{closure' in I['path'].rsplit('::', 1)[-1] and len(args) == 2 and c.argty and self.p.types[c.argty[1]]['k'] == 'tuple':
                    tup = self.val(st, args[1])
                    if tup[0] == 'tup':
                        args = [args[0]] + list(tup[1])
                        c.args = args
                return self.enter(st, inst, args, c)
        return self.call_external(st, c)

    def call_external(self, st, c):
        m = self.extra_models.get(c.path) or self.extra_models.get(c.short)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
            m = None
        if not c.local:
            m = self.models.get('=' + c.short) or self.models.get(c.short)
            if m is None:
                m = self.models.get('*::' + c.short.split('::')[-1])
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        return self.unknown_call(st, c)

    def unknown_call(self, st, c):
        self.unknown[c.path] = self.unknown.get(c.path, 0) + 1
        dt = self.p.types[c.destty] if c.destty is not None else None
        if dt is not None and dt['s'] == '!':
            return [('panic', st, UNIT)]
        mats = [self.mat(st, a) for a in c.args]
        name = c.path if c.local else c.short
        if not c.local and DATA.match(c.short):
            pp_mod.UNKNOWN.add(name)
        argty = c.argty or []
        sub = None
        muts = []
        for i, a in enumerate(c.args):
            if a[0] == 'ref' and i < len(argty):
                ty = self.p.types[argty[i]]
                if ty['k'] in ('ref', 'ptr') and ty.get('m'):
                    muts.append((i, a, ty))
        imp = self.impure(name) or self.impure(c.short)
        t = T(name, *mats)
        if imp:
            t = self.fresh(st, t + (('@', c.site),))
        # a &mut result is a sub-place of the first &mut argument
        if dt is not None and dt['k'] == 'ref' and dt.get('m') and muts:
            i, a, ty = muts[0]
            rest = tuple(m for k, m in enumerate(mats) if k != i)
            if ty['t'] == dt['t'] and self.builder_like(c):
                self.write(st, a[1], a[2], T('upd', name, mats[i], *rest))
                return [('ret', st, a)]
            return [('ret', st, ('ref', a[1], a[2] + (('m', name, rest),)))]
        for i, a, ty in muts:
            rest = tuple(m for k, m in enumerate(mats) if k != i)
            self.write(st, a[1], a[2], T('upd', name, mats[i], *rest))
        if dt is not None and dt['s'] == '()':
            return [('ret', st, UNIT)]
        return [('ret', st, self.lookup(st, t))]

    def builder_like(self, c):
        return True
