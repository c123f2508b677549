#!/usr/bin/env python3
"""Make and confirm planted bugs.  seed.py [ID ...] [--jobs N] [--nocheck]
From seeds.py writes /verif/seeded/<id>/ (patch.diff, demo.sh, lib.sh, meta.json) after confirming in a scratch copy that the
change builds, that the stable tests pass with it, that the demo fails with it and passes without it; then runs the check of the property."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS, LIB
SCR = '/tmp/seedwork'
import threading
LOCK = threading.Lock()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', INSTA_UPDATE='no')
for k in ('RUST_BACKTRACE', 'RUST_LOG', 'CARGO_TARGET_DIR'):
    ENV.pop(k, None)


def sh(cmd, cwd, timeout=1200, env=ENV):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def prep(k):
    d = '%s/%d' % (SCR, k)
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    sh(['git', 'checkout', '-q', '--', '.'], d + '/repo')
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', d + '/repo')
    for root, dirs, files in os.walk('/repo/src'):
        for f in files:
            src = os.path.join(root, f)
            dst = os.path.join(d, 'repo', os.path.relpath(src, '/repo'))
            if open(src, 'rb').read() != open(dst, 'rb').read():
                shutil.copyfile(src, dst)
    return d


def build(repo):
    return sh('cargo test --workspace --no-run --locked --offline', repo)


def demo(d, sid, text):
    dd = d + '/demo-' + sid
    shutil.rmtree(dd, ignore_errors=True)
    os.makedirs(dd)
    open(dd + '/demo.sh', 'w').write(text)
    open(dd + '/lib.sh', 'w').write(LIB)
    try:
        rc, out = sh(['bash', dd + '/demo.sh'], d + '/repo', 300, dict(os.environ))
    except subprocess.TimeoutExpired:
        rc, out = 124, 'timeout'
    shutil.rmtree(dd, ignore_errors=True)
    return rc, out


def one(k, s):
    sid = s['id']
    d = prep(k)
    repo = d + '/repo'
    log = []
    rc, out = build(repo)
    if rc:
        return sid, False, 'clean build failed ' + out[-500:]
    rc, out = demo(d, sid, s['demo'])
    if rc != 0:
        return sid, False, 'demo fails on the clean tree: %d %s' % (rc, out[-1500:])
    for f, old, new in s['edits']:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return sid, False, 'edit text occurs %d times in %s: %r' % (t.count(old), f, old[:80])
        open(p, 'w').write(t.replace(old, new))
    rc, diff = sh(['git', 'diff'], repo)
    rc, out = build(repo)
    if rc:
        return sid, False, 'build failed ' + out[-1500:]
    rc, out = demo(d, sid, s['demo'])
    if rc == 0:
        return sid, False, 'demo passes with the bug: ' + out[-1500:]
    dout = out
    if '--notest' not in sys.argv:
        sh('rm -f target/nextest/default/junit.xml', repo)
        rc, out = sh('timeout -k 20 780 cargo nextest run --workspace --no-fail-fast --locked --offline --test-threads 4 --tool-config-file vp:/opt/vp/nextest/config.toml', repo)
        sh(['python3', '/opt/vp/results.py', d + '/res.json', 'junit:' + repo + '/target/nextest/default/junit.xml'], repo)
        res = json.load(open(d + '/res.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        bad = sorted(stable & set(res['failed']))
        if bad:
            return sid, False, 'stable tests fail: %s' % bad[:8]
        if len(stable & set(res['passed'])) < 250:
            return sid, False, 'only %d stable tests ran: %s' % (len(stable & set(res['passed'])), out[-800:])
    # the check
    bd = d + '/vbuild'
    if not os.path.isdir(bd) and os.path.isdir('/verif/build'):
        subprocess.run(['cp', '-a', '/verif/build', bd], check=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=bd, VERIF_EVIDENCE=d + '/evidence')
    rc, out = sh(['timeout', '600', 'python3', '/verif/engine/check.py', s['property']], '/verif', 700, env)
    caught = rc == 1
    sd = '/verif/seeded/' + sid
    os.makedirs(sd, exist_ok=True)
    open(sd + '/patch.diff', 'w').write(diff)
    open(sd + '/demo.sh', 'w').write(s['demo'])
    open(sd + '/lib.sh', 'w').write(LIB)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(sd + '/meta.json', 'w'), indent=1)
    sh(['git', 'checkout', '-q', '--', '.'], repo)
    return sid, True, ('CAUGHT' if caught else 'MISSED rc=%d' % rc) + ' by %s: %s' % (s['property'], out.strip().split('\n')[0][:160]) + '\n      demo: ' + dout.strip().split('\n')[-1][:160]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    todo = [s for s in SEEDS if (s['id'] in ids if ids else not os.path.isdir('/verif/seeded/' + s['id']))]
    n = min(3, len(todo)) or 1
    groups = [todo[i::n] for i in range(n)]

    def work(k):
        for s in groups[k]:
            try:
                r = one(k, s)
            except Exception as e:
                r = (s['id'], False, repr(e))
            if r[1]:
                with LOCK:
                    rp = HERE + '/seed-results.json'
                    d = json.load(open(rp)) if os.path.exists(rp) else {}
                    d[r[0]] = {'property': s['property'], 'caught': r[2].startswith('CAUGHT'), 'report': r[2].split('\n')[0].split(': ', 1)[-1]}
                    json.dump(d, open(rp, 'w'), indent=1, sort_keys=True)
            print(r[0], 'OK' if r[1] else 'REJECTED', r[2], flush=True)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(work, range(n)))


main()
