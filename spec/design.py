#!/usr/bin/env python3
"""Writes DESIGN.md."""
import collections, importlib, json, os, re, sys, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V + '/engine', V + '/engine/checks', V + '/selftest']
from props import PROPS, NA
from edits import EDITS

def wrap(s, ind=''):
    return '\n'.join(textwrap.wrap(s, 150, initial_indent=ind, subsequent_indent=' ' * len(ind), break_long_words=False, break_on_hyphens=False))

out = [open(HERE + '/design_head.md').read().rstrip(), '', '## Properties']
res = json.load(open(V + '/selftest/seed-results.json')) if os.path.exists(V + '/selftest/seed-results.json') else {}
res = {k: v for k, v in res.items() if os.path.isdir(V + '/seeded/' + k)}
byprop = collections.defaultdict(list)
for k, v in sorted(res.items()):
    byprop[v['property']].append('%s%s' % (k, '' if v['caught'] else ' (missed)'))
edits = collections.defaultdict(list)
for n, p, e in EDITS:
    edits[p].append(n)
for p in sorted(PROPS, key=lambda p: p['id']):
    m = importlib.import_module(p['id'].lower())
    out += ['', '### %s: %s' % (p['id'], p['title']), '', wrap(p['statement']), '']
    out += [wrap('How: ' + m.EXPLANATION, '- ')]
    note = p['note'].split('undecided in the evidence. ', 1)[-1].strip()
    ass = list(getattr(m, 'ASSUMPTIONS', ()))
    out += [wrap('Bounds and trust: ' + note + (' Assumes: ' + '; '.join(ass) + '.' if ass else ''), '- ')]
    out += [wrap('Why not tests: ' + p['why'], '- ')]
    out += [wrap('Code: ' + ', '.join('%s (%s)' % (b, a) for a, b in p['mech']), '- ')]
    if byprop[p['id']]:
        out += [wrap('Planted bugs: ' + ', '.join(byprop[p['id']]), '- ')]
    out += [wrap('Self-test: %d breaking edits' % len(edits[p['id']]), '- ')]
out += ['', '## Not claimed', '']
for p in NA:
    out += [wrap('%s, %s: %s' % (p['id'], p['title'], p['reason']), '- ')]
out += ['', '## Findings in cargo-mutants', '', wrap('Found by the checks on the tree as it was, shown against the real program, and repaired by "fix:" commits in /repo (all stable tests pass with them), or recorded in known_findings.txt:'), '']
for l in open(V + '/known_findings.txt'):
    if l.strip() and not l.startswith('#'):
        out += [wrap(l.strip(), '- ')]
out += ['', '## Planted bugs', '', wrap('Each was written from the statement of a property and the code, confirmed in a scratch copy by selftest/seed.py (builds, stable tests pass, the demonstration passes without and fails with it), and kept in seeded/.'), '',
        '| bug | property | caught | report |', '|---|---|---|---|']
for k, v in sorted(res.items()):
    out.append('| %s | %s | %s | %s |' % (k, v['property'], 'yes' if v['caught'] else 'no', v['report'].replace('|', '/')[:140] if v['caught'] else ''))
out += ['', '## Self-test', '', wrap('selftest/edits.py has %d small edits that break a property (each must be reported by its check) and %d refactorings that keep the behaviour (all checks must stay quiet); selftest/run.py applies them one by one to a scratch copy. They are for development only; no check reads them.' % (sum(1 for e in EDITS if e[1]), sum(1 for e in EDITS if not e[1])))]
out += ['', open(HERE + '/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(out), 'paragraphs')
