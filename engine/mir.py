"""Loading of the MIR dump: functions, control-flow graphs, resolved callees."""
import re
from functools import lru_cache


def strip_generics(s):
    """Remove <...> groups that are generic arguments (not the leading '<X as T>')."""
    out = []
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>' and not (i > 0 and s[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return re.sub(r'::(?=::|$)', '', ''.join(out)).replace('::::', '::')


def last_seg(t):
    t = t.strip()
    t = re.sub(r"^(&|'\w+ |mut |dyn )+", '', t)
    if t.startswith('['):
        return '[T]'
    if t.startswith('('):
        return '()'
    t = strip_generics(t)
    return t.split('::')[-1]


def match_angle(s, i):
    """index just after the '>' matching s[i]=='<'"""
    d = 0
    while i < len(s):
        if s[i] == '<':
            d += 1
        elif s[i] == '>' and s[i - 1] != '-':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return len(s)


def split_as(inner):
    """split 'X as Trait' / 'impl Trait for X' at depth 0"""
    d = 0
    for i, c in enumerate(inner):
        if c in '<([':
            d += 1
        elif c in '>)]' and not (c == '>' and inner[i - 1] == '-'):
            d -= 1
        elif d == 0 and inner.startswith(' as ', i):
            return inner[:i], inner[i + 4:]
    return inner, None


def split_for(inner):
    d = 0
    for i, c in enumerate(inner):
        if c in '<([':
            d += 1
        elif c in '>)]' and not (c == '>' and inner[i - 1] == '-'):
            d -= 1
        elif d == 0 and inner.startswith(' for ', i):
            return inner[:i], inner[i + 5:]
    return None, inner


@lru_cache(maxsize=None)
def short(path):
    """(short name 'Owner::method', self type text or None).
    For trait methods Owner is the trait."""
    m = path.find('<impl ')
    if path.startswith('<'):
        j = match_angle(path, 0)
        x, t = split_as(path[1:j - 1])
        rest = path[j:]
        rest = strip_generics(rest).strip(':')
        owner = last_seg(t) if t else last_seg(x)
        return owner + '::' + rest, x
    if m >= 0:
        j = match_angle(path, m)
        inner = path[m + 6:j - 1]
        t, x = split_for(inner)
        rest = strip_generics(path[j:]).strip(':')
        owner = last_seg(t) if t else last_seg(x)
        return owner + '::' + rest, x
    p = strip_generics(path)
    segs = [s for s in p.split('::') if s]
    return '::'.join(segs[-2:]), None


class Body:
    __slots__ = ('inst', 'argc', 'spread', 'locals', 'names', 'blocks', 'preds', 'headers', 'loops', 'joins')

    def __init__(self, b):
        self.inst = b['id']
        self.argc = b['argc']
        self.spread = b['spread']
        self.locals = b['locals']
        self.names = b['names']
        self.blocks = b['blocks']
        self.analyse()

    def succs(self, i):
        t = self.blocks[i][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[3]]
        return []

    def analyse(self):
        n = len(self.blocks)
        preds = [[] for _ in range(n)]
        color = [0] * n
        back = []
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        seen_edges = set()
        while stack:
            u, it = stack[-1]
            adv = False
            for v in it:
                if (u, v) not in seen_edges:
                    seen_edges.add((u, v))
                    preds[v].append(u)
                if color[v] == 1:
                    back.append((u, v))
                elif color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(self.succs(v))))
                    adv = True
                    break
            if not adv:
                color[u] = 2
                stack.pop()
        self.preds = preds
        self.headers = {v for _, v in back}
        self.loops = {}
        for u, v in back:
            body = self.loops.setdefault(v, {v})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds[x])
        self.joins = {i for i in range(n) if len(preds[i]) > 1}


class Program:
    def __init__(self, d):
        self.types = d['types']
        self.insts = d['insts']
        self.spans = d['spans']
        self.adts = {a['path']: a for a in d['adts'] if a}
        self.raw_bodies = {b['id']: b for b in d['bodies']}
        self._bodies = {}
        self.by_path = {}
        for i in self.insts:
            if i:
                self.by_path.setdefault(i['path'], []).append(i['id'])

    def body(self, inst):
        b = self._bodies.get(inst)
        if b is None:
            rb = self.raw_bodies.get(inst)
            if rb is None:
                return None
            b = self._bodies[inst] = Body(rb)
        return b

    def path(self, inst):
        return self.insts[inst]['path']

    def find(self, path):
        """instance ids with a body, by exact path"""
        return [i for i in self.by_path.get(path, []) if i in self.raw_bodies]

    def local_bodies(self):
        return [i for i in self.raw_bodies if self.insts[i]['local']]

    def span_text(self, sid):
        s = self.spans[sid]
        f = s[0]
        k = f.find('/repo/')
        return '%s:%d' % (f, s[1])

    def macros(self, sid):
        s = self.spans[sid]
        return s[3] if len(s) > 3 else ()

    def ty(self, i):
        return self.types[i]

    def variant_of_discr(self, adt, n):
        a = self.adts.get(adt)
        if not a:
            return None
        for k, v in enumerate(a['variants']):
            if v[1] == n:
                return k
        return None

    def variant_name(self, adt, k):
        a = self.adts.get(adt)
        return a['variants'][k][0] if a and k < len(a['variants']) else str(k)

    def field_index(self, adt, name, variant=0):
        a = self.adts.get(adt)
        if not a:
            return None
        fs = a['variants'][variant][2]
        return fs.index(name) if name in fs else None
