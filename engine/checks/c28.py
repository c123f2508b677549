"""Bad input gives an error, not a crash."""
import re
from vlib import *
from graph import Graph
from interp import short_name

EXPLANATION = ('Call-graph and type-based effect analysis: every function reachable from main is searched for operations that panic on data from outside: unwrap or expect of a Result whose error type '
               'reports outside data or the operating system (I/O, anyhow, UTF-8, path, TOML, JSON, Rust syntax, regex, glob, cargo metadata, number, environment and diff errors), unwrap or expect of an Option '
               'coming directly from a question about outside text (its UTF-8 form, a separator or prefix found in it, a value of a given kind, the exit code of a process), conversion of an unchecked number to a '
               'Duration, slicing of text at an unchecked byte offset, printing with print! or by clap_complete straight to standard output, and library functions known to panic for some texts. For each unwrap the value is traced back through moves, references and adapters to the call that made it.')
ASSUMPTIONS = ('panics by arithmetic overflow, by indexing of lists and by explicit assertions about internal state are outside this rule; text written by the logging library is UTF-8',)
MIN_OBLIGATIONS = 30

OUTSIDE = re.compile(r'(std::io::Error|anyhow::Error|Utf8Error|FromPathError|FromPathBufError|toml(_edit)?::\w+::Error|toml::de::Error|serde_json::Error|syn::Error|regex::Error|globset::Error|cargo_metadata::Error|'
                     r'ParseIntError|ParseFloatError|ParseBoolError|ParseCharError|VarError|std::ffi::OsString|ignore::Error|walkdir::Error|patch::ParseError|strum::ParseError|TryFromFloatSecsError|nix::\w+|Errno|clap::Error|LexError|FromHexError|SystemTimeError)')
# what makes values that cannot fail on outside data
OWN = re.compile(r'^(serde_json::(to_\w+|value::to_value)|value::to_value|ser::to_\w+)$')
QUESTION = re.compile(r'^((OsStr|Path|Utf8Path|CStr|OsString)::(to_str|into_string)|ExitStatus(Ext)?::(code|signal)|str::(split_once|rsplit_once|strip_prefix|strip_suffix|find|rfind)|env::var_os|Value::(as_str|as_array|as_table|as_bool|as_integer|get)|'
                      r'Map::get|Table::get|str::parse)$')
GUARD = re.compile(r'(starts_with|ends_with|contains|is_some|is_none|matches|is_char_boundary|char_indices|find|is_finite|is_nan|is_sign_negative)$')
PASS = re.compile(r'(as_ref|as_deref|as_mut|cloned|copied|map|inspect|map_err|with_context|context|clone|to_owned|as_deref_mut|inspect_err|and_then|or_else|by_ref)$')
SECS = re.compile(r'^Duration::(from_secs_f64|from_secs_f32|mul_f64|div_f64|mul_f32)$')

# library functions that panic for some texts
PANICS = {'Patch::from_multiple': 'patch 0.7 panics on a hunk header with a number above 2^64', 'Patch::from_single': 'patch 0.7 panics on a hunk header with a number above 2^64'}


def calls(p, inst):
    """[(destination local, function instance or None, path, operands, span)]"""
    out = []
    rb = p.raw_bodies[inst]
    for blk in rb['blocks']:
        t = blk[1]
        if blk[2] or t[0] != 'call':
            continue
        f = t[1]
        if f[0] == 'k' and f[1][0] == 'fn':
            ty = p.types[f[1][1]]
            i = ty.get('i')
            path = p.path(i) if i is not None else ty.get('p')
            out.append((t[3], i, path, t[2], t[5]))
    return out


def moves(p, inst):
    """local -> [operands it is made from] by plain assignments"""
    out = {}
    for blk in p.raw_bodies[inst]['blocks']:
        if blk[2]:
            continue
        for s in blk[0]:
            if s[0] == '=' and len(s[1]) == 1:
                r = s[2]
                if r[0] == 'use' and r[1][0] in ('m', 'p', 'c'):
                    out.setdefault(s[1][0], []).append(r[1][1][0])
                elif r[0] == 'ref':
                    out.setdefault(s[1][0], []).append(r[1][0])
                elif r[0] == 'cast' and r[2][0] in ('m', 'p', 'c'):
                    out.setdefault(s[1][0], []).append(r[2][1][0])
                elif r[0] == 'use':
                    out.setdefault(s[1][0], []).append(('const',))
    return out


def sources(p, inst, op, cs, mv):
    """short names of the calls an operand comes from, through moves and adapters"""
    if op[0] == 'k':
        return {'const'}
    made = {}
    for d, i, path, args, span in cs:
        if len(d) == 1:
            made.setdefault(d[0], []).append((path, args))
    out, seen, work = set(), set(), [op[1][0]]
    while work:
        l = work.pop()
        if l == ('const',) or l in seen:
            out |= {'const'} if l == ('const',) else set()
            continue
        seen.add(l)
        if l not in made and l not in mv:
            out.add('local')
        work += mv.get(l, [])
        for path, args in made.get(l, []):
            sh = short_name(path)[0]
            if PASS.search(sh) and args and args[0][0] != 'k':
                work.append(args[0][1][0])
            else:
                out.add(sh)
    return out


def bounds(p, inst, op, cs, mv):
    """what the ends of a range are made from: short names of calls, 'const' or 'local'"""
    if op[0] == 'k':
        return set()
    aggs = {}
    for blk in p.raw_bodies[inst]['blocks']:
        for s in blk[0] if not blk[2] else ():
            if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'agg':
                aggs.setdefault(s[1][0], []).append(s[2][2])
    out, seen, work = set(), set(), [op[1][0]]
    while work:
        l = work.pop()
        if l == ('const',) or l in seen:
            continue
        seen.add(l)
        work += mv.get(l, [])
        for ops in aggs.get(l, []):
            for o in ops:
                out |= {'const'} if o[0] == 'k' else sources(p, inst, o, cs, mv)
    return out


def check(ck):
    p = ck.p
    g = Graph(p)
    reach, _ = g.reach([ck.fn('main')])
    local = [i for i in reach if i in p.raw_bodies and not p.path(i).startswith(('std::', 'core::', 'alloc::', '<std::'))]
    n = 0
    for i in sorted(local, key=p.path):
        me = p.path(i)
        if re.search(r'clap::|_serde::|serde::', me):
            continue  # generated code
        ck.functions.add(me)
        cs = mv = None
        for j, path, span in g.refs(i):
            if path is None:
                continue
            sh = short_name(path)[0]
            where = p.span_text(span) if span is not None else None
            if span is not None and any(m.startswith('tracing') for m in p.macros(span)):
                continue
            if re.match(r'Result::(unwrap|expect)$', sh):
                args = [p.types[a]['s'] for a in p.insts[j]['args'] if isinstance(a, int)] if j is not None else []
                n += 1
                if len(args) < 2 or not OUTSIDE.search(args[1]):
                    ck.good('%s: %s of %s' % (me, sh, args[1:2]))
                    continue
                cs = cs or calls(p, i)
                mv = mv or moves(p, i)
                src = set()
                for d, k, q, ops, sp in cs:
                    if sp == span and q == path and ops:
                        src |= sources(p, i, ops[0], cs, mv)
                if src and all(OWN.match(x) for x in src):
                    ck.good('%s: %s of %s' % (me, sh, sorted(src)))
                elif ' as std::io::Write>::' in me and src <= {'str::from_utf8'} and src:
                    ck.good('%s: text from the logging library' % me)
                elif 'FromPathError' in args[1] and re.search(r'Workspace::open$', me):
                    ck.good('%s: the starting directory is given as UTF-8' % me)
                else:
                    ck.bad('unwrap:%s:%s' % (me, args[1]), '%s does %s on a result whose error is %s (made by %s): bad input would be a panic, not an error' % (me, sh.split('::')[1], args[1], ', '.join(sorted(src)) or 'something'), where)
            elif re.match(r'Option::(unwrap|expect)$', sh):
                n += 1
                cs = cs or calls(p, i)
                mv = mv or moves(p, i)
                src = set()
                for d, k, q, ops, sp in cs:
                    if sp == span and q == path and ops:
                        src |= sources(p, i, ops[0], cs, mv)
                asks = sorted(x for x in src if QUESTION.match(x))
                if not asks:
                    ck.good('%s: %s of %s' % (me, sh, sorted(src)))
                elif any(GUARD.search(short_name(q)[0]) and short_name(q)[0] not in asks for d, k, q, ops, sp in cs):
                    ck.unsure('%s: %s of %s after a test' % (me, sh, asks))
                else:
                    ck.bad('option:%s:%s' % (me, asks[0]), '%s does %s on what %s gives: when there is none this is a panic, not an error' % (me, sh.split('::')[1], asks[0]), where)
            elif sh in PANICS:
                n += 1
                cs = cs or calls(p, i)
                if any(re.search(r'catch_unwind|from_str_radix|str::parse|is_ascii_digit|is_numeric', q or '') for d, k, q, ops, sp in cs):
                    ck.unsure('%s: %s after a test' % (me, sh))
                else:
                    ck.bad('panics:%s' % sh, '%s gives text from outside to %s: %s, so a bad diff ends in a panic, not an error' % (me, sh, PANICS[sh]), where)
            elif sh == 'io::_print':
                n += 1
                ck.bad('print:' + me, '%s uses print!, which panics when standard output is closed or full' % me, where)
            elif sh in ('generator::generate', 'clap_complete::generate') and j is not None:
                n += 1
                cs = cs or calls(p, i)
                mv = mv or moves(p, i)
                src = set()
                for d, k, q, ops, sp in cs:
                    if sp == span and q == path and ops:
                        src |= sources(p, i, ops[-1], cs, mv)
                if src & {'io::stdout', 'stdio::stdout', 'Stdout::lock', 'io::stderr', 'File::create', 'BufWriter::new', 'LineWriter::new'}:
                    ck.bad('print:generate', '%s lets clap_complete write straight to %s, which panics when that fails' % (me, ', '.join(sorted(src))), where)
                else:
                    ck.good('%s: completions generated into memory' % me)
            elif SECS.match(sh):
                n += 1
                cs = cs or calls(p, i)
                mv = mv or moves(p, i)
                src, direct = set(), False
                for d, k, q, ops, sp in cs:
                    if sp == span and q == path and ops:
                        direct = True
                        src |= sources(p, i, ops[-1], cs, mv)
                if src == {'const'} and direct:
                    ck.good('%s: %s of a constant' % (me, sh))
                elif me.startswith(('console::', '<console::')):
                    ck.good('%s: an estimate shown on the screen' % me)
                elif any(re.search(r'is_finite|is_nan|is_sign_negative', q or '') for d, k, q, ops, sp in cs):
                    ck.unsure('%s: %s after a test' % (me, sh))
                else:
                    ck.bad('secs:%s' % me, '%s makes a Duration of an unchecked number: a negative, infinite or enormous one is a panic, not an error' % me, where)
            elif sh.endswith('Index::index') or re.search(r'Index<.*>::index$', path):
                args = [p.types[a]['s'] for a in p.insts[j]['args'] if isinstance(a, int)] if j is not None else []
                full = path + ' ' + ' '.join(args)
                if not re.search(r'std::ops::Range|RangeTo|RangeFrom', full) or not re.search(r'\bstr\b|String as', full) or 'Vec<T' in path:
                    ck.good('%s indexes %s' % (me, args[:2]))
                    continue
                n += 1
                cs = cs or calls(p, i)
                mv = mv or moves(p, i)
                ends = set()
                for d, k, q, ops, sp in cs:
                    if sp == span and q == path and len(ops) > 1:
                        ends |= bounds(p, i, ops[1], cs, mv)
                names = [short_name(q)[0] for d, k, q, ops, sp in cs if q]
                # a bound that is a number of bytes, whatever the text is: that it is not too long does not make it a boundary
                fixed = {x for x in ends if x == 'const' or re.search(r'(::|^)(min|max|clamp|saturating_sub)$', x)}
                asked = [x for x in names if GUARD.search(x) or re.search(r'floor_char_boundary|is_ascii|::get$', x)]
                if fixed and not asked:
                    ck.bad('slice:%s' % me, '%s cuts text at a number of bytes (%s): where that is not a character boundary this is a panic' % (me, ', '.join(sorted(ends))), where)
                elif asked or any(x.endswith('::len') for x in names):
                    ck.unsure('%s: slices text after a test' % me)
                else:
                    ck.bad('slice:%s' % me, '%s slices text at a byte offset that may not be a character boundary' % me, where)
    ck.floor('operations that may panic', n, 30)
