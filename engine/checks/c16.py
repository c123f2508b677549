"""The same tree gives the same list in the same order."""
import re
from vlib import *
from graph import Graph
from interp import short_name
from labx import lab, muts, TM
import mainx

EXPLANATION = ('Effect analysis over the call graph: no function from which the list of files and mutants is made (everything reachable from main except the running of tests, the console and the output directory) iterates over a hash table or hash set into an ordered collection or a visitor '
               'without sorting, reads a directory in the order of the file system, draws random numbers, asks for the time or the process, or collects results from threads in the order of completion. '
               'And on every partition of a run that does not ask for shuffling the mutants are listed and run in the order in which they were found; shuffling happens exactly when asked for.')
ASSUMPTIONS = ['the crates used for parsing, globs, diffs and cargo metadata are deterministic']
MIN_OBLIGATIONS = 20

HASHED = re.compile(r'(HashMap|HashSet|hash_map|hash_set|IndexMap_)')
ITER = re.compile(r'^(HashMap|HashSet)::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|difference|union|intersection|symmetric_difference|extract_if)$')
INTO = re.compile(r'IntoIterator::into_iter$')
SORT = re.compile(r'(sort|sorted|sort_\w+|sorted_\w+|sort_unstable\w*)$')
SINK = re.compile(r'^(Vec::(push|extend|append|insert|extend_from_slice)|Extend::extend|VecDeque::(push_back|push_front|extend)|String::(push|push_str)|Iterator::(collect|next|find|find_map|for_each|fold|last|nth|position|min_by_key|max_by_key)|Itertools::(collect_vec|join)|Write::\w+)$')
RANDOM = re.compile(r'^(fastrand::\w+|rand::\w+|Rng::\w+|SystemTime::now|process::id|thread_rng|RandomState::new|ThreadRng::\w+|StdRng::from_entropy)$')
DIRS = re.compile(r'^(fs::read_dir|Utf8Path::read_dir(_utf8)?|Path::read_dir|WalkDir::new|WalkBuilder::(new|build)|glob::glob)$')
THREADS = re.compile(r'^(thread::(spawn|scope)|Scope::spawn|Builder::spawn|rayon::\w+|ParallelIterator::\w+|WalkBuilder::build_parallel)$')


def targets(p, j):
    return ' '.join(p.types[a]['s'] for a in p.insts[j]['args'] if isinstance(a, int)) if j is not None else ''


def family(g, p, i):
    """the function and the closures defined in it"""
    base = re.sub(r'::\{closure.*', '', p.path(i))
    return [k for k in p.raw_bodies if p.path(k) == base or p.path(k).startswith(base + '::{closure')]


def check(ck):
    p = ck.p
    g = Graph(p)
    stop = lambda path: path == TM or path.startswith(('console::', '<console::', 'output::', '<output::', 'lab::', 'process::', 'build_dir::', 'copy_tree::')) or is_console(path)
    reach, _ = g.reach([ck.fn('main')], stop=stop)
    n = 0
    for i in sorted(reach, key=p.path):
        me = p.path(i)
        if i not in p.raw_bodies or re.search(r'clap::|_serde::|serde::|^<?std::|^<?core::|^<?alloc::', me) or me.startswith(('console::', 'output::')):
            continue
        n += 1
        ck.functions.add(me)
        fam = None
        for j, path, span in g.refs(i):
            if path is None or span is not None and any(m.startswith('tracing') for m in p.macros(span)):
                continue
            sh = short_name(path)[0]
            where = p.span_text(span) if span is not None else None
            hashed = ITER.match(sh) and sh.startswith('Hash') or INTO.search(sh) and re.match(r'<?&?(\'\w+ )?(mut )?(std::collections::)?(hash_map::|hash_set::)?Hash(Map|Set)<', path + ' ' if path.startswith('<') else targets(p, j))
            kind = 'hash order' if hashed else 'randomness' if RANDOM.match(sh) else 'the order of the file system' if DIRS.match(sh) else 'the order of completion of threads' if THREADS.match(sh) else None
            if kind is None:
                continue
            if fam is None:
                refs = [(jj, q) for k in family(g, p, i) for jj, q, s in g.refs(k) if q]
                fam = [short_name(q)[0] for jj, q in refs]
                sorts = any(SORT.search(x) for x in fam) or any(re.search(r'BTree(Set|Map)', targets(p, jj)) and short_name(q)[0] in ('Iterator::collect', 'Extend::extend', 'FromIterator::from_iter') for jj, q in refs) or any(x.startswith('BTree') and x.endswith('::insert') for x in fam)
                sinks = any(SINK.match(x) and not (x == 'Iterator::collect') for x in fam if x != 'Iterator::next') or \
                    any(short_name(q)[0] == 'Iterator::collect' and re.search(r'Vec|String', targets(p, jj)) for jj, q in refs)
            if kind == 'randomness':
                ck.bad('random:%s' % me, '%s, which takes part in making the list of mutants, calls %s' % (me, sh), where)
            elif sorts:
                ck.unsure('%s: %s, but something is sorted there' % (me, sh))
            elif sinks:
                ck.bad('order:%s:%s' % (me, sh), '%s, which takes part in making the list of mutants, depends on %s (%s) and nothing is sorted' % (me, kind, sh), where)
            else:
                ck.unsure('%s: %s' % (me, sh))
        ck.good('%s: no order-dependent source' % me)
    ck.count('functions from which the list is made', n)
    order(ck)


def order(ck):
    p = ck.p
    where = ck.where(ck.fn(TM))
    for sh in (FALSE, TRUE):
        for jobs, base, n in ((1, 'Skip', 3), (None, 'Skip', 2), (1, 'Run', 2), (2, 'Skip', 2)):
            ip, paths = lab(ck, jobs, n, baseline=base, shuffle=sh, faults=False)
            for k, s, v, evs in paths:
                names = [e[0] for e in evs]
                ran = [e[2] for e in evs if e[0] == 'run' and variant(p, e[2]) == 'Mutant']
                if not ran:
                    continue
                if sh == FALSE:
                    ck.expect('shuffle' not in names, 'shuffled', 'mutants are shuffled though --no-shuffle was given', where, 'not shuffled, %s jobs' % jobs)
                    got = [field_of(x) for x in ran]
                    want = muts(n)
                    if any(x is None for x in got):
                        ck.unsure('mutants run')
                        continue
                    if (jobs or 1) == 1:
                        ck.expect(got == want[:len(got)], 'run-order', 'without shuffling the mutants are not run in the order of the list: %s' % [pp(x, p) for x in got], where, 'order of running, %s jobs' % jobs)
                    for e in evs:
                        if e[0] == 'list' and e[1] is not None and elems(e[1]) is not None:
                            ck.expect(elems(e[1]) == want, 'list-order', 'without shuffling mutants.json is not in the order of the list', where, 'order of mutants.json')
                else:
                    got = [field_of(x) for x in ran]
                    ck.expect('shuffle' in names or n < 2 or got != muts(n)[:len(got)] or len(got) < 2, 'not-shuffled', 'mutants are not shuffled though it was asked for', where, 'shuffled, %s jobs' % jobs)


def field_of(sc):
    return sc[3][0] if sc[0] == 'adt' and sc[3] else None
