"""All partitions of running one scenario, as event sequences (shared by several checks)."""
from vlib import *

ROS = "lab::Worker::<'_>::run_one_scenario"
RC = 'cargo::run_cargo'
START = 'output::OutputDir::start_scenario'
ADD = 'output::OutputDir::add_scenario_outcome'
CODE = 'mutant::Mutant::mutated_code'
DIFF = 'mutant::Mutant::diff'
WDIFF = 'output::ScenarioOutput::write_diff'
OLR = 'output::ScenarioOutput::open_log_read'
OPQ = {'span::Span::extract', RC, START, ADD, CODE, DIFF, WDIFF, OLR}
WRITERS = ('fs::write', 'fs::copy', 'fs::rename', 'fs::remove_file', 'fs::remove_dir_all', 'File::create', 'File::create_new', 'OpenOptions::open', 'io::write')


class ScenTracer(Tracer):
    def __init__(self):
        super().__init__(lambda path, sh: path in OPQ or sh in WRITERS or (sh in ('Write::write_all', 'Write::write_fmt') and 'io::Write' in path))


def scenario(ck, kind):
    """[(kind, state, value, events)] for a baseline ('B') or a mutant ('M')"""
    p = ck.p
    SC = 'scenario::Scenario'
    sc = mk(p, SC, 'Baseline') if kind == 'B' else ('adt', SC, [v[0] for v in p.adts[SC]['variants']].index('Mutant'), (T('mutant'),))
    inst = ck.fn(ROS)
    # arguments by type, so that their order and names do not matter
    given = {}
    b = p.body(inst)
    for i in range(b.argc):
        ty = p.types[b.locals[i + 1]]
        while ty['k'] == 'ref':
            ty = p.types[ty['t']]
        s = ty['s']
        if 'lab::Worker' in s or s.startswith('Worker'):
            given[i] = T('worker')
        elif s.endswith('Scenario'):
            given[i] = sc
        elif s.endswith('PackageSelection'):
            given[i] = T('packages')
        elif s.endswith('Timeouts'):
            given[i] = T('timeouts')
    ip, outs = ck.run(inst, given, opaque=lambda q: q in OPQ or is_console(q), monitor=ScenTracer())
    return ip, [(k, s, ip.mat(s, v), list(s.mon or ())) for k, s, v in outs]


def mutant_term():
    return T('mutant')


SRC = T('fld', T('fld', T('mutant'), 'source_file'), 'code')
REL = T('fld', T('fld', T('mutant'), 'source_file'), 'tree_relative_path')
BD = T('fld', T('worker'), 'build_dir')
TARGET = T('join', T('fld', BD, 'path'), REL)
