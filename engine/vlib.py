"""Shared plumbing of the checks: loading the program, building abstract inputs,
recording obligations, reporting."""
import json
import os
import re
import sys
import time
import traceback

import canon
import extract
from mir import Program
from interp import (Interp, St, Monitor, Cap, T, TRUE, FALSE, UNIT, NONE, some, ok, err, cat, is_const, mentions, subst, OPT, RES)
from pp import pp, pp_facts

VERIF = extract.VERIF
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Missing(Exception):
    """an anchor of the property cannot be found in the current source"""


def load():
    notes = []
    p = Program(canon.canon(extract.dump(), notes))
    p.notes = notes
    for n in notes:
        print('note: ' + n)
    return p


def taint():
    import pp as m
    t, m.TAINT[0] = m.TAINT[0], False
    return t


class Outs(list):
    """outcomes of an analysis; while one is being judged the check knows its path condition"""
    ck = None

    def __iter__(self):
        try:
            for o in list.__iter__(self):
                self.ck.cur = o[1]
                yield o
        finally:
            self.ck.cur = None


PURE = {'eq', 'ne', 'lt', 'le', 'not', 'and', 'or', 'add', 'sub', 'mul', 'contains', 'cat', 'len', 'is_empty', 'max', 'min', 'starts_with', 'ends_with'}


def ground(t):
    """a closed term over pure operations that the interpreter could not evaluate"""
    if t[0] in ('i', 'b', 's', 'ch', 'f'):
        return True
    if t[0] in ('seq', 'it'):
        return all(x[0] == 'e' and ground(x[1]) for x in t[1])
    if t[0] in ('tup',):
        return all(ground(x) for x in t[1])
    if t[0] != 't' or not (t[1] in PURE or t[1].startswith('collect:') or t[1].startswith('str::')):
        return False
    return all(ground(x) for x in t[2:] if isinstance(x, tuple))


def doubtful(st):
    """the path condition has a part that goes through an unmodelled function or could not be evaluated"""
    import pp as m
    for t in st.facts:
        if t[0] == 'ne' and len(t) > 1 and isinstance(t[1], tuple):
            t = t[1]
        if t[0] == 't' and (m.UNKNOWN and m.tainted(t) or ground(t)):
            return True
    return False


class Check:
    cur = None

    def __init__(self, pid, prog, tier='quick'):
        self.pid = pid
        self.p = prog
        self.tier = tier
        self.t0 = time.time()
        self.violations = []      # (key, message, where)
        self.oblig = 0
        self.discharged = 0
        self.undecided = []
        self.samples = []
        self.notes = []
        self.functions = set()
        self.sites = set()
        self.paths = 0
        self.counts = {}
        self.floors = []

    # ---- recording
    def good(self, what=None):
        taint()
        self.oblig += 1
        self.discharged += 1
        if what is not None and len(self.samples) < 12 and str(what)[:400] not in self.samples:
            self.samples.append(str(what)[:400])

    def bad(self, key, msg, where=None):
        if taint() or self.cur is not None and doubtful(self.cur):
            # the value (or the path condition) at fault went through a library function the analysis has no model of
            self.unsure('%s: %s' % (key, msg))
            return
        self.oblig += 1
        if not any(k == key for k, _, _ in self.violations):
            self.violations.append((key, msg, where))

    def expect(self, cond, key, msg, where=None, sample=None):
        if cond:
            taint()
            self.good(sample)
        else:
            self.bad(key, msg, where)
        return cond

    def unsure(self, what):
        taint()
        self.oblig += 1
        self.undecided.append(str(what)[:300])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, at_least):
        """fewer instances than were confirmed by reading: the rule would be vacuous"""
        self.counts[name] = n
        if n < at_least and self.undecided:
            self.unsure('only %d %s decided' % (n, name))
        elif n < at_least:
            self.bad('floor:' + name, 'only %d %s found, at least %d expected: the rule no longer covers the code' % (n, name, at_least))

    # ---- analysis helpers
    def fn(self, path):
        xs = self.p.find(path)
        if not xs:
            raise Missing('function %s' % path)
        return xs[0]

    def where(self, inst):
        return self.p.span_text(self.p.insts[inst]['span'])

    def interp(self, **kw):
        return Interp(self.p, **kw)

    def run(self, path, given=None, ip=None, st=None, setup=None, **kw):
        """analyse one function; returns (ip, outcomes)"""
        inst = self.fn(path) if isinstance(path, str) else path
        ip = ip or self.interp(**kw)
        st = st or St()
        args = args_for(self.p, st, inst, given or {})
        if setup:
            setup(st)
        outs = ip.run(inst, args, st)
        self.functions |= ip.fn_seen
        self.sites |= ip.sites
        self.paths += len(outs)
        outs = Outs(self.settle(ip, inst, outs))
        outs.ck = self
        return ip, outs

    def settle(self, ip, inst, outs):
        """a Result returned straight from an unknown call is either Ok or Err"""
        b = self.p.body(inst)
        if 'Result<' not in self.p.types[b.locals[0]]['s'][:30]:
            return outs
        r = []
        for k, s, v in outs:
            m = ip.mat(s, v) if k == 'ret' else v
            if k != 'ret' or m[0] != 't':
                r.append((k, s, v))
                continue
            d = T('discr', m, RES)
            for vi, n, mkr in ((0, 'Ok', ok), (1, 'Err', err)):
                s2 = s.copy()
                if ip.assume(s2, d, ('i', vi)):
                    r.append((k, s2, mkr(T('fld', T('as', m, n), '0'))))
        return r

    # ---- finish
    def finish(self, level, explanation, assumptions=()):
        known = load_known(self.pid)
        fresh, seen = [], []
        for v in self.violations:
            if v[0] in known:
                seen.append(v)
            else:
                fresh.append(v)
        for k, m, w in seen:
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.pid, m, k, w or ''))
        cov = {
            'explanation': explanation,
            'obligations': self.oblig,
            'discharged': self.discharged,
            'undecided': len(self.undecided),
            'undecided_samples': self.undecided[:8],
            'functions_analysed': len(self.functions),
            'functions': sorted(self.functions)[:60],
            'call_sites': len(self.sites),
            'paths': self.paths,
            'counts': self.counts,
            'samples': self.samples,
            'notes': self.notes,
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': cov, 'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 3), 'violations': len(fresh)}
        os.makedirs(os.path.join(EVID), exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if fresh:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + '.txt')
            with open(rp, 'w') as f:
                for k, m, w in fresh:
                    f.write('%s\n  key: %s\n  at: %s\n' % (m, k, w))
            for k, m, w in fresh:
                print('%s: %s  (%s) [%s]' % (self.pid, m, w or '-', k))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s ok: %d obligations, %d discharged, %d undecided, %d functions, %d paths' % (
            self.pid, self.oblig, self.discharged, len(self.undecided), len(self.functions), self.paths))
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line[len('finding: property=%s ' % pid):]
                key = rest.split(' :: ')[0].strip()
                out[key] = rest
    return out


def arg_names(p, inst):
    b = p.body(inst)
    names = {}
    for n, pl in b.names:
        if len(pl) == 1 and 1 <= pl[0] <= b.argc:
            names.setdefault(pl[0], n)
    return [names.get(i, 'a%d' % i) for i in range(1, b.argc + 1)]


def args_for(p, st, inst, given):
    """abstract arguments: by position (int key) or name; references get a location of their own"""
    b = p.body(inst)
    out = []
    for i, n in enumerate(arg_names(p, inst)):
        ty = p.types[b.locals[i + 1]]
        v = given.get(i, given.get(n))
        if v is None:
            v = T('arg', i)
        if ty['k'] == 'ref' and v[0] != 'ref':
            st.mem[('A', i)] = v
            out.append(('ref', ('A', i), ()))
        else:
            out.append(v)
    return out


def mk(p, path_, variant_=None, /, **fields):
    """an abstract struct / enum value; unspecified fields are opaque"""
    a = p.adts.get(path_)
    if a is None:
        if path_.startswith('syn::') and variant_ is None:
            # a type of syn that the program does not look into (any more) has no known layout: opaque
            return T('unread', ('s', path_))
        raise Missing('type %s' % path_)
    vi = 0
    if variant_ is not None:
        for k, v in enumerate(a['variants']):
            if v[0] == variant_:
                vi = k
                break
        else:
            raise Missing('variant %s::%s' % (path_, variant_))
    names = a['variants'][vi][2]
    for f in fields:
        if f not in names:
            raise Missing('field %s.%s' % (path_, f))
    return ('adt', path_, vi, tuple(fields.get(n, T('opaque', path_, n)) for n in names))


def field(p, v, name):
    """field of an abstract struct value"""
    while v[0] == 'guard':
        v = v[1]
    if v[0] == 'adt':
        a = p.adts[v[1]]
        names = a['variants'][v[2]][2]
        if name in names:
            return v[3][names.index(name)]
        raise Missing('field %s.%s' % (v[1], name))
    if v[0] == 'ov':
        for k, x in v[2]:
            if k == ('f', name):
                return x
        return field(p, v[1], name)
    return T('fld', v, name)


def variant(p, v):
    if v[0] == 'adt':
        return p.variant_name(v[1], v[2])
    return None


def seq(*xs):
    return ('seq', tuple(('e', x) for x in xs))


def elems(v):
    """explicit elements of a seq, or None"""
    if v[0] == 'seq' and all(s[0] == 'e' for s in v[1]):
        return [s[1] for s in v[1]]
    return None


def dvariant(p, st, term):
    """the variant recorded in the facts for an opaque enum term, or None"""
    for (k, f) in st.facts.items():
        if isinstance(k, tuple) and len(k) == 4 and k[0] == 't' and k[1] == 'discr' and k[2] == term and f[0] == 'i':
            vi = p.variant_of_discr(k[3], f[1])
            return p.variant_name(k[3], vi)
    return None


def is_ok(v):
    return v[0] == 'adt' and v[1] == RES and v[2] == 0


def is_err(v):
    return v[0] == 'adt' and v[1] == RES and v[2] == 1


def is_some(v):
    return v[0] == 'adt' and v[1] == OPT and v[2] == 1


def is_none(v):
    return v[0] == 'adt' and v[1] == OPT and v[2] == 0


# ---------------------------------------------------------------------------
# functions kept as units when analysing their callers (each has its own analysis);
# anything else that is local, such as an extracted helper, is followed.
UNITS = {
    'workspace::Workspace::open', 'workspace::Workspace::discover', 'workspace::Workspace::root',
    'options::Options::new', 'config::Config::read_tree_config', '<config::Config as std::default::Default>::default',
    'output::load_previously_caught', 'visit::Discovered::remove_previously_caught', 'list::list_files', 'list::list_mutants',
    'output::OutputDir::new', 'output::OutputDir::write_previously_caught', 'output::OutputDir::open_debug_log',
    'lab::test_mutants', 'outcome::LabOutcome::exit_code', 'shard::Shard::select', 'in_diff::diff_filter',
    'workspace::PackageFilter::explicit', 'interrupt::install_handler', '<Cargo as clap::CommandFactory>::command',
}


def is_console(path):
    return path.startswith('console::') or path.startswith('<console::')


class Tracer(Monitor):
    """records the calls selected by pred in order, as part of the partition key (no loops!)"""

    def __init__(self, pred):
        self.pred = pred

    def on_call(self, st, c):
        if self.pred(c.path, c.short):
            if len(st.mon or ()) > 60:
                raise Cap('too many recorded events')
            st.mon = (st.mon or ()) + ((c.path if c.local else c.short, c.mats(st), c.span),)
        return None


_main_cache = {}


def parts(ck, *fs):
    """independent parts of a check: one that cannot be followed does not silence the others"""
    import traceback
    for f in fs:
        try:
            f(ck)
        except Missing as e:
            print('UNDECIDED property=%s: anchor missing: %s' % (ck.pid, e))
            ck.unsure('anchor missing: %s' % e)
        except Cap as e:
            ck.unsure('analysis cap in %s: %s' % (f.__name__, e))
        except Exception as e:
            traceback.print_exc()
            ck.unsure('%s gave up: %r' % (f.__name__, e))


class Only:
    """a check that takes over some of the obligations (by key) of an analysis made for another property"""

    def __init__(self, ck, keys):
        self._ck = ck
        self._keys = re.compile(keys)

    def __getattr__(self, name):
        return getattr(self._ck, name)

    def expect(self, cond, key, *a, **kw):
        if self._keys.match(key):
            self._ck.expect(cond, key, *a, **kw)

    def bad(self, key, *a, **kw):
        if self._keys.match(key):
            self._ck.bad(key, *a, **kw)

    def good(self, what=None):
        pass

    def floor(self, *a):
        pass


OUTPUTS = ('io::_print', 'Write::write_all', 'Write::write_fmt', 'Write::write_str')


def stdout_text(e):
    """the text an event puts on standard output, or None"""
    if e[0] == 'io::_print':
        return e[1][0]
    if e[0] in OUTPUTS and len(e[1]) > 1 and has_call(e[1][0], ('io::stdout', 'stdio::stdout')):
        return e[1][1]
    return None


def has_call(t, names):
    return isinstance(t, tuple) and bool(t) and (t[0] == 't' and len(t) > 1 and t[1] in names or any(has_call(x, names) for x in t if isinstance(x, tuple)))


def analyse_main(ck, models=None, opaque=lambda q: False, skip=()):
    """all partitions of main(), with the unit functions left symbolic (except those in skip)"""
    from graph import WRITES
    pred = lambda path, sh: path in UNITS or sh in OUTPUTS or sh is not None and WRITES.match(sh)
    ip, outs = ck.run('main', opaque=lambda q: q in UNITS and q not in skip or is_console(q) or q.startswith('mutant::Mutant::') and q not in skip or opaque(q), monitor=Tracer(pred), models=models)
    return ip, outs


def called(st, name):
    return [e for e in (st.mon or ()) if e[0] == name]


def fact_eval(t, env):
    """value of a term under a valuation of its leaves; None when not determined"""
    if t in env:
        return env[t]
    k = t[0]
    if k in ('i', 'b', 's', 'ch', 'f'):
        return t[1]
    if k != 't':
        return None
    op = t[1]
    a = [fact_eval(x, env) if isinstance(x, tuple) else x for x in t[2:]]
    if op == 'and':
        if any(x is False for x in a):
            return False
        return True if all(x is True for x in a) else None
    if op == 'or':
        if any(x is True for x in a):
            return True
        return False if all(x is False for x in a) else None
    if any(x is None for x in a):
        return None
    try:
        return {'not': lambda x: not x, 'eq': lambda x, y: x == y, 'lt': lambda x, y: x < y, 'add': lambda x, y: x + y,
                'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'rem': lambda x, y: x % y, 'div': lambda x, y: x // y,
                'band': lambda x, y: x & y if not isinstance(x, bool) else x and y, 'bor': lambda x, y: x | y if not isinstance(x, bool) else x or y,
                'bxor': lambda x, y: x ^ y, 'max': lambda x, y: max(x, y), 'min': lambda x, y: min(x, y)}[op](*a)
    except (KeyError, TypeError, ZeroDivisionError):
        return None


def facts_hold(facts, env):
    """False if the facts contradict the valuation, True if all are implied, None if some are about other things"""
    res = True
    for t, c in facts.items():
        if t[0] == 'ne':
            v = fact_eval(t[1], env)
            if v is None:
                res = None
            elif any(x[1] == v for x in c):
                return False
        else:
            v = fact_eval(t, env)
            if v is None:
                res = None
            elif is_const(c) and v != c[1]:
                return False
    return res


class OnceTracer(Tracer):
    """records the first occurrence of every distinct selected call (finite in loops)"""

    def on_call(self, st, c):
        if self.pred(c.path, c.short):
            e = (c.path if c.local else c.short, c.mats(st), c.span)
            if e not in (st.mon or ()):
                if len(st.mon or ()) > 60:
                    raise Cap('too many recorded events')
                st.mon = (st.mon or ()) + (e,)
        return None


# ---------------------------------------------------------------------------
# numbers: durations (as seconds), floats and integers under a valuation of the leaves

def fdiv(x, y):
    if y:
        return x / y
    return float('nan') if not x or x != x else float('inf') if x > 0 else float('-inf')


def num(p, t, env):
    """value of a numeric or boolean term under a valuation; None when the term is not understood"""
    import math
    if t in env:
        return env[t]
    k = t[0]
    if k in ('i', 'b', 'f'):
        try:
            return float(t[1]) if k == 'f' else t[1]
        except ValueError:
            return None
    if k == 'adt' and t[1] == OPT and len(t[3]) == 1:
        return num(p, t[3][0], env)
    if k == 'adt' and t[1].endswith('time::Duration') and len(t[3]) == 2:
        s, n = num(p, t[3][0], env), t[3][1]
        n = num(p, n[3][0] if n[0] == 'adt' and n[3] else n, env)
        return None if s is None or n is None else s + n / 1e9
    if k != 't':
        return None
    op = t[1]
    if op == 'sum' and len(t) == 3 and t[2][0] in ('seq', 'it') and all(x[0] == 'e' for x in t[2][1]):
        xs = [num(p, x[1], env) for x in t[2][1]]
        return None if None in xs else sum(xs)
    a = [num(p, x, env) if isinstance(x, tuple) else x for x in t[2:]]
    if op == 'and' and any(x is False for x in a):
        return False
    if op == 'or' and any(x is True for x in a):
        return True
    if any(x is None for x in a):
        return None
    sh = op.rsplit('::', 2)
    sh = '::'.join(sh[-2:]) if '::' in op else op
    same = lambda x: x
    table = {'Duration::from_secs_f64': same, 'Duration::from_secs': same, 'Duration::as_secs_f64': same, 'Duration::from_millis': lambda x: x / 1e3,
             'Duration::from_secs_f32': same, 'Duration::as_secs': lambda x: math.floor(x), 'Duration::as_millis': lambda x: math.floor(x * 1e3), 'Duration::mul_f64': lambda x, y: x * y,
             'Duration::as_secs_f32': same, 'valid_secs': lambda x: 0 <= x < 1.8e19, 'f64::is_finite': lambda x: math.isfinite(x), 'f64::is_nan': lambda x: math.isnan(x),
             'f64::is_infinite': lambda x: math.isinf(x), 'f64::is_sign_negative': lambda x: x < 0, 'f64::is_sign_positive': lambda x: x >= 0, 'f64::is_normal': lambda x: x != 0 and math.isfinite(x),
             'f64::ceil': lambda x: math.ceil(x - 1e-9) if math.isfinite(x) else x, 'f64::floor': lambda x: math.floor(x + 1e-9) if math.isfinite(x) else x, 'f64::round': lambda x: math.floor(x + .5) if math.isfinite(x) else x, 'f64::max': max, 'f64::min': min, 'f64::trunc': lambda x: int(x),
             'not': lambda x: not x, 'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y,
             'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: fdiv(x, y) if isinstance(x, float) or isinstance(y, float) else x // y,
             'rem': lambda x, y: x % y, 'max': max, 'min': min, 'cast': same, 'and': lambda *x: all(x), 'or': lambda *x: any(x),
             'Duration::saturating_mul': lambda x, y: x * y, 'Duration::saturating_sub': lambda x, y: max(0, x - y), 'Duration::checked_mul': lambda x, y: x * y,
             'Duration::saturating_add': lambda x, y: x + y}
    f = table.get(sh)
    try:
        return f(*a) if f else None
    except (TypeError, ZeroDivisionError, ValueError, OverflowError):
        return None


def num_facts(p, facts, env):
    """False if the facts contradict the valuation, None if some are not understood, else True"""
    res = True
    for t, c in facts.items():
        if t[0] == 'ne':
            v = num(p, t[1], env)
            if v is None:
                res = None
            elif any(x[1] == v for x in c if is_const(x)):
                return False
            continue
        v = num(p, t, env)
        if v is None:
            res = None
        elif is_const(c) and v != c[1]:
            return False
    return res
