"""Anchors survive renaming: a local function, type or field that the analyses refer to by name and that is gone is looked
up among the names that are new, by its shape (signature and callees; fields and their types), and given its old name back."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, 'anchors.json')


def fn_prints(d):
    ty = [t['s'] if t else '' for t in d['types']]
    tp = [t.get('p', '') if t else '' for t in d['types']]
    out = {}
    for b in d['bodies']:
        i = d['insts'][b['id']]
        if not i['local'] or '{closure' in i['path'] or i['path'] in out:
            continue
        callees = set()
        txt = json.dumps(b['blocks'])
        for m in re.finditer(r'\["fni?", (\d+)', txt):
            k = int(m.group(1))
            if k < len(tp) and tp[k]:
                callees.add(tp[k])
        out[i['path']] = {'sig': [ty[x] for x in b['locals'][:b['argc'] + 1]], 'callees': sorted(callees)[:60], 'blocks': len(b['blocks'])}
    return out


def adt_prints(d):
    return {a['path']: [[v[0], v[2], v[3]] for v in a['variants']] for a in d['adts'] if a and a.get('local')}


def similarity(a, b):
    x, y = set(a['callees']), set(b['callees'])
    j = len(x & y) / len(x | y) if x | y else (1.0 if abs(a['blocks'] - b['blocks']) <= 1 else 0.0)
    return 0.6 * j + (0.4 if a['sig'] == b['sig'] else 0.2 if sorted(a['sig']) == sorted(b['sig']) else 0.0)


def canon(d, notes=None):
    try:
        ref = json.load(open(FILE))
    except OSError:
        return d
    notes = notes if notes is not None else []
    adts = adt_prints(d)
    ren = []
    gone = [p for p in ref['adts'] if p not in adts]
    new = [p for p in adts if p not in ref['adts']]
    for p in gone:
        c = [q for q in new if adts[q] and len(adts[q]) == len(ref['adts'][p]) and [v[1] for v in adts[q]] == [v[1] for v in ref['adts'][p]]
             and (len(adts[q]) == 1 or [v[0] for v in adts[q]] == [v[0] for v in ref['adts'][p]])]
        if len(c) == 1:
            ren.append((c[0], p))
    if ren:
        txt = json.dumps(d)
        for q, p in ren:
            notes.append('type %s is read as %s' % (q, p))
            txt = re.sub(r'(?<![\w:])' + re.escape(q) + r'(?!\w)', lambda m: p, txt)
        d = json.loads(txt)
        adts = adt_prints(d)
    # fields
    allf = {}
    for p, vs in adts.items():
        for v in vs:
            for f in v[1]:
                allf.setdefault(f, set()).add(p)
    for p, vs in ref['adts'].items():
        now = adts.get(p)
        if now is None or len(now) != len(vs):
            continue
        for k, (v, w) in enumerate(zip(vs, now)):
            lost = [(f, t) for f, t in zip(v[1], v[2]) if f not in w[1]]
            more = [(f, t) for f, t in zip(w[1], w[2]) if f not in v[1]]
            for f, t in lost:
                c = [g for g, u in more if u == t]
                if len(c) == 1 and len([1 for f2, t2 in lost if t2 == t]) == 1 and len(allf[c[0]]) == 1:
                    g = c[0]
                    notes.append('field %s.%s is read as %s' % (p, g, f))
                    txt = json.dumps(d)
                    txt = re.sub(r'(\["f", \d+, )"%s"' % re.escape(g), lambda m: m.group(1) + '"%s"' % f, txt)
                    d = json.loads(txt)
                    for a in d['adts']:
                        if a and a['path'] == p:
                            a['variants'][k][2] = [f if x == g else x for x in a['variants'][k][2]]
    fns = fn_prints(d)
    gone = [p for p in ref['fns'] if p not in fns]
    new = [p for p in fns if p not in ref['fns']]
    if gone and new:
        pairs = sorted(((similarity(ref['fns'][p], fns[q]), p, q) for p in gone for q in new), reverse=True)
        used = set()
        for s, p, q in pairs:
            if s < 0.55 or p in used or q in used:
                continue
            used |= {p, q}
            notes.append('function %s is read as %s' % (q, p))
            for i in d['insts']:
                if i and (i['path'] == q or i['path'].startswith(q + '::{closure')):
                    i['path'] = p + i['path'][len(q):]
            for t in d['types']:
                if t and t.get('p') == q and t['k'] == 'fndef':
                    t['p'] = p
    return d


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    import extract
    d = extract.dump()
    with open(FILE, 'w') as f:
        json.dump({'adts': adt_prints(d), 'fns': fn_prints(d)}, f, indent=0, sort_keys=True)
    fp = fn_prints(d)
    print(len(fp), sum(1 for x in fp.values() if x['callees']))
