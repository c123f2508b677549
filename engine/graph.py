"""Call graph of the local code: which external functions can be reached from which functions.
Calls through external generic code into trait impls of local types are over-approximated:
an external call instantiated with a local type reaches all trait methods of that type."""
import re

from mir import short
from interp import short_name


class Graph:
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.impls = {}
        for i in p.raw_bodies:
            path = p.path(i)
            if path.startswith('<') and ' as ' in path:
                ty = re.sub(r'<.*', '', path[1:].split(' as ')[0].lstrip('&').replace('mut ', '').strip())
                self.impls.setdefault(ty, []).append(i)
        self.local_adts = [a for a in p.adts if a in self.impls]

    def refs(self, inst):
        """[(kind, instance or path, span)] of every function mentioned in a body"""
        if inst in self.memo:
            return self.memo[inst]
        p = self.p
        out = []
        rb = p.raw_bodies.get(inst)
        for blk in rb['blocks'] if rb else ():
            if blk[2]:
                continue  # cleanup
            for s in blk[0]:
                self.scan(s, s[-1] if isinstance(s[-1], int) else None, out)
            t = blk[1]
            self.scan(t, t[5] if t[0] == 'call' else None, out)
        self.memo[inst] = out
        return out

    def scan(self, x, span, out):
        if not isinstance(x, list):
            return
        if len(x) >= 2 and x[0] == 'fn' and isinstance(x[1], int):
            ty = self.p.types[x[1]]
            if ty.get('ctor'):
                return
            i = ty.get('i')
            out.append((i, ty.get('p') if i is None else self.p.path(i), span))
            return
        if len(x) >= 2 and x[0] in ('fnptr', 'closure') and isinstance(x[1], int):
            out.append((x[1], self.p.path(x[1]), span))
        for y in x:
            self.scan(y, span, out)

    def reach(self, roots, stop=lambda path: False):
        """(set of local instances, [(short name, full path, span, caller, chain)]) reachable from the roots"""
        p = self.p
        seen = {}
        ext = []
        work = [(r, None) for r in roots]
        while work:
            i, par = work.pop()
            if i in seen:
                continue
            seen[i] = par
            for j, path, span in self.refs(i):
                if span is not None and any(m.startswith('tracing') for m in p.macros(span)):
                    continue
                if j is not None and j in p.raw_bodies:
                    if not stop(path):
                        work.append((j, i))
                    continue
                ext.append((short_name(path)[0], path, span, i))
                full = path + ' ' + ' '.join(p.types[a]['s'] for a in p.insts[j]['args'] if isinstance(a, int)) if j is not None else path
                for a in self.local_adts:
                    if a in (full or ''):
                        for k in self.impls[a]:
                            if not stop(p.path(k)) and not re.search(r' as (std::fmt|serde|std::cmp|std::clone|std::hash|clap|std::default)', p.path(k)):
                                work.append((k, i))
        self.parent = seen
        return set(seen), ext

    def chain(self, i):
        out = []
        while i is not None and len(out) < 30:
            out.append(self.p.path(i))
            i = self.parent.get(i)
        return ' <- '.join(out)


WRITES = re.compile(r'^(fs::(write|copy|rename|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|set_permissions|hard_link|soft_link)|File::(create|create_new|options|set_len|set_permissions)|OpenOptions::\w+|'
                    r'fs::symlink|unix::symlink|tempfile::\w+|TempDir::\w+|NamedTempFile::\w+|Builder::(tempdir|tempfile|tempdir_in|tempfile_in)|FileExt::(lock|try_lock)\w*|DirBuilder::\w+|Utf8Path::(write|create_dir)\w*)$')
SPAWNS = re.compile(r'^(Command::(spawn|output|status|exec)|CommandExt::exec|MetadataCommand::exec)$')
