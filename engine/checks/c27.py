"""Listing is side-effect free and lists what a run would test."""
from vlib import *
from graph import Graph, WRITES, SPAWNS
import mainx
from mainx import *

EXPLANATION = ('Every partition of main: the list handed to the listing and the list handed to the test run are built by the same steps from the same options; no partition that lists creates an output directory. '
               'Call-graph effect analysis: nothing reachable from the functions used before and during listing writes, creates, renames or removes a file, or runs anything but cargo locate-project/metadata. '
               'The listing itself is computed symbolically for explicit lists and must show every mutant exactly once, in order.')
MIN_OBLIGATIONS = 40
LM = 'list::list_mutants'
LF = 'list::list_files'
TEST = 'lab::test_mutants'


def check(ck):
    p = ck.p
    ip, outs = partitions(ck)
    where = ck.where(ck.fn('main'))
    n = 0
    called_units = set()
    for k, s, v in outs:
        evs = s.mon or ()
        names = [e[0] for e in evs]
        lst = arg_fact(p, s, 'list')
        lsf = arg_fact(p, s, 'list_files')
        listing = LM in names or LF in names
        if lst or lsf or listing:
            for e in evs:
                if e[0] in (TEST, 'output::OutputDir::new', 'output::OutputDir::write_previously_caught', 'output::OutputDir::open_debug_log') or WRITES.match(e[0]):
                    ck.bad('effect:' + e[0], 'when listing, %s is called' % e[0], p.span_text(e[2]))
            called_units |= {x for x in names if x in UNITS}
            ck.good()
        if (lst or lsf) and k == 'ret' and is_ok(ip.mat(s, v)) and not arg_fact(p, s, 'version') and arg_fact(p, s, 'completions') is not True:
            ck.expect(listing, 'no-listing', 'with --list%s main returns without listing anything' % ('-files' if lsf else ''), where)
        if listing:
            # the text goes to standard output
            pr = [stdout_text(e) for e in evs if stdout_text(e) is not None]
            f = LM if LM in names else LF
            ck.expect(any(mention_call(a, f) for a in pr), 'printed', 'the listing is not printed to standard output', where)
        for e in evs:
            w = p.span_text(e[2])
            if e[0] == LF:
                t = e[1][0]
                base = base_of(t)
                ck.expect(base is not None and base[1] == DISC, 'files-base', '--list-files shows %s' % pp(t, p)[:120], w)
                ck.expect(lsf is not False, 'files-unasked', 'files are listed without --list-files', w)
            if e[0] not in (LM, TEST):
                continue
            n += 1
            if e[0] == LM:
                ck.expect(lst is True, 'list-unasked', 'mutants are listed although --list is %s' % lst, w)
            else:
                ck.expect(lst is False and lsf is False, 'test-when-listing', 'mutants are tested although --list is %s and --list-files is %s' % (lst, lsf), w)
            ls, base = layers(e[1][0])
            got = [x[0] for x in ls]
            for opt_, layer in (('iterate', REM), ('in_diff', DIFF), ('shard', SEL)):
                f = arg_fact(p, s, opt_)
                c = got.count(layer)
                tag = '%s, --%s %s' % ('--list' if e[0] == LM else 'test run', opt_.replace('_', '-'), {True: 'given', False: 'not given', None: 'not examined'}[f])
                if f is None:
                    ck.bad('unexamined:%s:%s' % (opt_, e[0]), '%s: the list of mutants does not depend on it' % tag, w)
                else:
                    ck.expect(c == (1 if f else 0), 'layer:%s:%s' % (opt_, e[0]), '%s: %s applied %d times' % (tag, layer, c), w, tag)
            for x in ls:
                if x[0] == DIFF:
                    ck.expect(mention_call(x[1], 'fs::read_to_string') and mentions_field(x[1], 'in_diff'), 'diff-text', 'the diff used is not the text of the --in-diff file: %s' % pp(x[1], p)[:100], w)
                elif x[0] not in (REM, SEL, 'mutants'):
                    ck.bad('step:' + x[0], '%s: the list of mutants is changed by %s' % (e[0], x[0]), w)
            ck.expect(base[0] == 't' and base[1] == DISC, 'base', 'the mutants are not those discovered: %s' % pp(base, p)[:100], w)
    ck.floor('uses of the list in main', n, 4)
    effects(ck, called_units)
    shown(ck)


def mention_call(t, name):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 't' and len(t) > 1 and t[1] == name:
        return True
    return any(mention_call(x, name) for x in t if isinstance(x, tuple))


def base_of(t):
    while t[0] == 't' and t[1] in ('fld', 'as', 'upd'):
        t = t[3] if t[1] == 'upd' else t[2]
    return t if t[0] == 't' else None


def effects(ck, units):
    p = ck.p
    g = Graph(p)
    roots = [i for u in units for i in p.find(u)]
    insts, ext = g.reach(roots, stop=is_console)
    for i in insts:
        ck.functions.add(p.path(i))
    n = 0
    for sh, path, span, i in ext:
        n += 1
        w = p.span_text(span) if span is not None else None
        if WRITES.match(sh):
            ck.bad('write:%s:%s' % (sh, p.path(i)), 'listing can reach %s: %s' % (sh, g.chain(i)), w)
        elif SPAWNS.match(sh) and sh != 'MetadataCommand::exec':
            # only cargo locate-project
            commands(ck, i, w)
        else:
            ck.good()
    ck.count('external calls reachable when listing', n)


def commands(ck, inst, w):
    """the commands run inside one function are cargo queries"""
    p = ck.p
    found = []

    def cut(ip, st, c):
        found.append(ip.mat(st, c.args[0]))
        return None
    try:
        ck.run(inst, {}, models={'Command::output': cut, 'Command::spawn': cut, 'Command::status': cut})
    except Cap as e:
        ck.unsure('commands of %s: %s' % (p.path(inst), e))
        return
    for v in found:
        words = strings(v)
        ok_ = any(x in ('locate-project', 'metadata', 'read-manifest', 'version', '--version') for x in words) and not any(x in ('build', 'test', 'check', 'run', 'fetch', 'update', 'clean', 'generate-lockfile') for x in words)
        ck.expect(ok_, 'spawn:' + p.path(inst), 'listing can run a command other than a cargo query: %s' % pp(v, p)[:200], w, 'listing runs %s' % words)


def strings(t):
    out = []
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 's':
            return [t[1]]
        for x in t:
            out += strings(x)
    return out


def shown(ck):
    p = ck.p
    ms = [T('mutant', ('i', k)) for k in range(3)]
    NAME = 'mutant::Mutant::name'
    STY = 'mutant::Mutant::to_styled_string'
    DIF = 'mutant::Mutant::diff'
    MC = 'mutant::Mutant::mutated_code'
    from cmdx import overlay, typed_args
    inst = ck.fn(LM)
    where = ck.where(inst)
    for n in (0, 1, 3):
        for json_ in (FALSE, TRUE):
            for diffs in (FALSE, TRUE):
                o = overlay(p, 'options', 'options::Options', emit_json=json_, emit_diffs=diffs, show_line_col=T('linecol'))
                ip, outs = ck.run(inst, typed_args(ck, inst, [('Options', o), ('Mutant', seq(*ms[:n]))]), opaque=lambda q: q in (NAME, STY, DIF, MC) or is_console(q) or 'Colors' in q)
                for k, s, v in outs:
                    if k != 'ret':
                        continue
                    v = ip.mat(s, v)
                    tag = '%d mutants json=%s diffs=%s' % (n, json_ == TRUE, diffs == TRUE)
                    if json_ == TRUE:
                        got = order_of(v, ms, 'serde_json::to_value') or order_of(v, ms, None)
                        if n == 0:
                            continue
                        if got is None or not got:
                            ck.unsure('%s: %s' % (tag, pp(v, p)[:160]))
                            continue
                        if diffs == FALSE:
                            ck.expect(got == ms[:n], 'json', '%s: the json lists mutants %s' % (tag, [m[2][1] for m in got]), where, tag)
                        else:
                            ck.expect(list(dict.fromkeys(got)) == ms[:n], 'json', '%s: the json lists mutants %s' % (tag, [m[2][1] for m in got]), where, tag)
                        continue
                    parts = list(v[1]) if v[0] == 'cat' else [v]
                    got = []
                    okshape = True
                    for x in parts:
                        if x[0] == 't' and x[1] in (NAME, STY):
                            got.append(('n', x[2], x[3] if len(x) > 3 else None))
                        elif x[0] == 't' and x[1] == DIF:
                            got.append(('d', x[2], None))
                        elif x[0] == 's':
                            got.append(('s', x[1], None))
                        else:
                            okshape = False
                    if not okshape:
                        ck.unsure('%s: %s' % (tag, pp(v, p)[:160]))
                        continue
                    ck.expect([g[1] for g in got if g[0] == 'n'] == ms[:n], 'names', '%s: the names listed are %s' % (tag, pp(v, p)[:160]), where, tag)
                    ck.expect([g[1] for g in got if g[0] == 'd'] == (ms[:n] if diffs == TRUE else []), 'diffs', '%s: the diffs listed are %s' % (tag, pp(v, p)[:160]), where)
                    for a, g in enumerate(got):
                        if g[0] == 'n':
                            ck.expect(a + 1 < len(got) and got[a + 1][0] == 's' and got[a + 1][1].startswith('\n'), 'newline', '%s: a name is not followed by a newline' % tag, where)
                            ck.expect(g[2] == T('linecol'), 'linecol', '%s: names ignore the line and column option: %s' % (tag, pp(v, p)[:120]), where)
    # files
    inst = ck.fn(LF)
    where = ck.where(inst)
    fs = [mk(p, 'source::SourceFile', tree_relative_path=T('path', ('i', k))) for k in range(3)]
    for n in (0, 1, 3):
        o = overlay(p, 'options', 'options::Options', emit_json=FALSE)
        ip, outs = ck.run(inst, typed_args(ck, inst, [('Options', o), ('SourceFile', seq(*fs[:n]))]), opaque=lambda q: q.endswith('to_slash_path'))
        for k, s, v in outs:
            v = ip.mat(s, v)
            if any(x[0] in ('each', 'some') for x in segments(v)):
                ck.unsure('the list of files is %s' % pp(v, p)[:160])
                continue
            got = list(dict.fromkeys(occurrences(v, [T('path', ('i', k2)) for k2 in range(3)])))
            dup = v[0] == 'cat' and sum(1 for x in v[1] if occurrences(x, [T('path', ('i', 0))])) > 1
            ck.expect(not dup, 'files-twice', 'a file is listed twice: %s' % pp(v, p)[:160], where)
            ck.expect(got == [T('path', ('i', k2)) for k2 in range(n)], 'files', 'of %d files, listed: %s' % (n, pp(v, p)[:160]), where, '%d files' % n)
    names = ('src/lib.rs', 'a/src/lib.rs', 'a/src/main.rs', 'b/src/main.rs', 'b/src/b/mod.rs', 'src/lib.rs.rs')
    fs = [mk(p, 'source::SourceFile', tree_relative_path=('s', x), is_top=T('top', ('s', x))) for x in names]
    ip, outs = ck.run(inst, typed_args(ck, inst, [('Options', o), ('SourceFile', seq(*fs))]), models={'to_slash_path': lambda ip, st, c: None})
    for k, s, v in outs:
        v = ip.mat(s, v)
        if v[0] != 's' or s.facts:
            ck.unsure('list of constant files: %s' % pp(v, p)[:160])
            continue
        ck.expect(v[1] == ''.join(x + '\n' for x in names), 'files-const', 'of the files %s, listed: %s' % (', '.join(names), v[1].split('\n')), where, 'constant files')


def segments(t):
    if isinstance(t, tuple):
        if t and t[0] in ('each', 'some'):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from segments(x)


def occurrences(t, ms):
    if t in ms:
        return [t]
    out = []
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                out += occurrences(x, ms)
    return out


def order_of(v, ms, call):
    return occurrences(v, ms)
