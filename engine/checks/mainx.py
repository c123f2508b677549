"""Partitions of main, decoded: which options hold, which list of mutants reaches listing or testing."""
from vlib import *

ARGS = None
REM = 'visit::Discovered::remove_previously_caught'
SEL = 'shard::Shard::select'
DIFF = 'in_diff::diff_filter'
DISC = 'workspace::Workspace::discover'
LOAD = 'output::load_previously_caught'
_memo = {}


def partitions(ck):
    if 'm' not in _memo:
        _memo['m'] = analyse_main(ck)
    return _memo['m']


def arg_fact(p, st, name):
    """True/False (or None) for a flag or Option field of the command-line arguments in a partition"""
    for t, c in st.facts.items():
        if t[0] == 't' and t[1] == 'fld' and t[-1] == name and c[0] == 'b' and is_args(t[2]):
            return c[1]
        if t[0] == 't' and t[1] == 'discr' and t[2][0] == 't' and t[2][1] == 'fld' and t[2][-1] == name and is_args(t[2][2]):
            return dvariant(p, st, t[2]) == 'Some'
    return None


def is_args(t):
    """the value parsed from the command line"""
    while t[0] == 't' and t[1] in ('fld', 'as'):
        t = t[2]
    return t[0] == 't' and t[1] == 'Parser::try_parse'


def layers(t):
    """(list of layers from the outside in, innermost term): the steps that made up a list of mutants"""
    out = []
    while t[0] == 't':
        if t[1] == 'fld' or t[1] == 'as':
            if t[1] == 'fld' and t[3] == 'mutants':
                out.append(('mutants',))
            t = t[2]
        elif t[1] == 'upd':
            out.append((t[2],) + t[4:])
            t = t[3]
        elif t[1] == SEL:
            out.append((SEL, t[2]))
            t = t[3]
        elif t[1] == DIFF:
            out.append((DIFF, t[3]))
            t = t[2]
        else:
            break
    return out, t


def field_of_args(t, name):
    return t[0] == 't' and mentions_field(t, name)


def mentions_field(t, name):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 't' and len(t) >= 4 and t[1] == 'fld' and t[3] == name and is_args(t[2]):
        return True
    return any(mentions_field(x, name) for x in t if isinstance(x, tuple))
