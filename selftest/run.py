#!/usr/bin/env python3
"""Development self-test: apply small source edits to a scratch copy of /repo and see which
checks fire (broken edits) and that they stay quiet (equivalent edits).
   run.py [--only NAME] [--prop C04] [--all-checks]
Scratch: /tmp/selftest (a copy of /repo and a build directory), removed by --clean."""
import os, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from edits import EDITS
SCR = '/tmp/selftest'


def setup(k):
    d = '%s/%d' % (SCR, k)
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        shutil.rmtree(d + '/repo/target', ignore_errors=True)
        if os.path.isdir('/verif/build'):
            subprocess.run(['cp', '-a', '/verif/build', d + '/build'], check=True)
    else:
        subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/repo/']) if shutil.which('rsync') else None
    return d


def apply(repo, edits):
    for f, old, new in edits:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) < 1:
            raise SystemExit('edit text not found in %s: %r' % (f, old[:60]))
        t = t.replace(old, new, 1)
        open(p, 'w').write(t)


def restore(repo):
    for root, dirs, files in os.walk('/repo/src'):
        for f in files:
            src = os.path.join(root, f)
            dst = os.path.join(repo, os.path.relpath(src, '/repo'))
            a = open(src, 'rb').read()
            if not os.path.exists(dst) or open(dst, 'rb').read() != a:
                open(dst, 'wb').write(a)


def one(k, item, allchecks):
    name, prop, edits = item
    d = setup(k)
    restore(d + '/repo')
    apply(d + '/repo', edits)
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/build', VERIF_EVIDENCE=d + '/evidence')
    checks = allchecks if (prop is None or ALL) else [prop]
    res = []
    for c in checks:
        r = subprocess.run(['timeout', '600', 'python3', '/verif/engine/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res.append((c, r.returncode, r.stdout))
    restore(d + '/repo')
    return name, prop, res


def main():
    global ALL
    args = sys.argv[1:]
    if '--clean' in args:
        shutil.rmtree(SCR, ignore_errors=True)
        return
    ALL = '--all-checks' in args
    verbose = '-v' in args
    items = EDITS
    if '--only' in args:
        n = args[args.index('--only') + 1]
        items = [e for e in items if n in e[0]]
    if '--names' in args:
        n = args[args.index('--names') + 1].split(',')
        items = [e for e in items if e[0] in n]
    if '--prop' in args:
        n = args[args.index('--prop') + 1].split(',')
        items = [e for e in items if e[1] in n]
    if '--quiet-only' in args:
        items = [e for e in items if e[1] is None]
    man = json.load(open('/verif/MANIFEST.json')) if os.path.exists('/verif/MANIFEST.json') else {'checks': []}
    allchecks = [c['property'] for c in man['checks']] or sorted(f[:-3].upper() for f in os.listdir('/verif/engine/checks') if f[0] == 'c' and f[1:3].isdigit())
    if '--checks' in args:
        allchecks = args[args.index('--checks') + 1].split(',')
    import queue, threading
    q = queue.Queue()
    for i in items:
        q.put(i)
    out = []
    lock = threading.Lock()

    def work(k):
        while True:
            try:
                it = q.get_nowait()
            except queue.Empty:
                return
            try:
                name, prop, res = one(k, it, allchecks)
            except SystemExit as e:
                print('EDIT-ERROR', it[0], e)
                continue
            with lock:
                fired = [c for c, rc, o in res if rc == 1 and 'VIOLATION property=' in o]
                errs = [(c, rc) for c, rc, o in res if rc not in (0, 1) or (rc == 1 and 'VIOLATION' not in o)]
                if prop is None:
                    st = 'ok-quiet' if not fired and not errs else 'FALSE-ALARM'
                else:
                    st = 'caught' if prop in fired else 'MISSED'
                print('%-12s %-40s %s fired=%s %s %s' % (st, name, prop, fired, errs or '', 'undecided=%s' % [c for c, rc, o in res if ' 0 undecided' not in o and 'undecided' in o] if prop is None else ''))
                if verbose or st == 'FALSE-ALARM' or errs:
                    for c, rc, o in res:
                        if rc != 0 or verbose:
                            print('\n'.join('      ' + l[:300] for l in o.splitlines()[-8:]))
                sys.stdout.flush()
                out.append(st)
    n = min(int(os.environ.get('J', '6')), len(items))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    from collections import Counter
    print(Counter(out))


main()
