"""Writes /verif/MANIFEST.json."""
import json

T = 'deterministic simulation with fault injection: seeded search over {}'
NOTE = ('Seeded random exploration of simulated executions of the real '
        'library code ({}); not exhaustive. Assumes preemption at '
        'source-line granularity, and trusts the simulated primitives and '
        '{}.')
REF = 'the eager NumPy reference'
RUN = '/opt/venv/bin/python -B check.py run {} --tier {}'

CHECKS = [
    ('C01', 'thread schedules, source latencies, chunk limits and '
     'expressions, against an eager NumPy reference',
     'expressions x schedules x latencies x chunk limits', REF),
    ('C02', 'chunk boundaries, masks, schedules and latencies of the '
     'statistics, against a NumPy reference',
     'statistics x chunk boundaries x schedules', REF),
    ('C03', 'schedules and chunk limits of joint evaluations with sharing, '
     'against a NumPy reference', 'shared expression sets x schedules', REF),
    ('C04', 'fault positions (reads, operators, allocations, thread starts) '
     'and schedules; outcome is an exception or the right value',
     'fault sequences x schedules x expressions', REF),
    ('C05', 'schedules, sharing patterns and fault positions; deadlock and '
     'step-bound detection by the simulated scheduler',
     'fault sequences x schedules x expressions',
     'the deadlock detection of the scheduler'),
    ('C06', 'schedules and fault positions; after the call the simulation '
     'runs on until no thread can move, and none may be left',
     'fault sequences x schedules x expressions',
     'the thread bookkeeping of the scheduler'),
    ('C07', 'interleavings (down to source lines) of several concurrent '
     'callers, with faults, against a NumPy reference',
     'interleavings of 2-4 callers', REF),
    ('C08', 'sessions of failing and interrupted evaluations followed by '
     'good ones', 'histories with faults and interrupts', REF),
    ('C09', 'sessions in which callers overwrite their results, with '
     'schedules and faults; byte comparison of the sources',
     'histories x schedules x faults', REF),
    ('C10', 'histories of building, copying, inspecting, saving and '
     'evaluating expressions by 1-2 callers', 'histories x schedules', REF),
    ('C11', 'histories of building, indexing and evaluating; the log of '
     'every simulated source read is compared with an element-wise '
     'dependency model', 'histories x chunk limits x schedules',
     'the element-wise dependency model in sim/props.py'),
    ('C12', 'schedules with stalled workers and slow consumers; the '
     'read log is checked for size and for run-ahead at every step',
     'expressions x schedules x stalls', 'the bounds stated in DESIGN.md'),
    ('C13', 'schedules and sharing patterns; every element read is counted '
     'by the simulated sources', 'sharing patterns x schedules',
     'the consistency rule stated in DESIGN.md'),
    ('C14', 'schedules of saves, by 1-2 callers, to a logged simulated '
     'target', 'expressions x chunk limits x schedules', REF),
    ('C15', 'crash points, failed and torn writes, failed reads and '
     'allocations during a save, followed by another save',
     'fault sequences x schedules', REF),
    ('C16', 'task orders and worker counts of a simulated Dask cluster',
     'expressions x task orders x chunk limits',
     REF + ' and the simulated cluster'),
    ('C17', 'task orders, lost workers, duplicated and retried tasks of a '
     'simulated Dask cluster', 'fault sequences x task orders',
     REF + ' and the simulated cluster'),
    ('C18', 'histories which swap the current engine between and during '
     'evaluations', 'histories x schedules x faults', REF),
]

PURE = ('A pure function of its inputs: no schedule, time, I/O, fault or '
        'history can affect it, so deterministic simulation has nothing to '
        'decide. {}')
NA = [
    ('N01', 'Wrong selections that reach an evaluation are seen by C01, C10 '
     'and C11.'),
    ('N02', 'Declared shape and dtype are compared with the result in every '
     'evaluation of C01-C18; the rest needs input testing.'),
    ('N03', 'Broadcast operands are part of the programs of C01, but the '
     'rules themselves are input to output functions.'),
    ('N04', 'Rejection happens while building, before anything is '
     'scheduled.'),
    ('N05', 'Key groups that lose or repeat keys are seen by C16.'),
]

doc = {
    'version': 1,
    'setup_cmd': 'mkdir -p evidence replays',
    'checks': [
        {'property': pid, 'quick_cmd': RUN.format(pid, 'quick'),
         'thorough_cmd': RUN.format(pid, 'thorough'),
         'technique': T.format(what), 'level': 'exploration',
         'level_note': NOTE.format(dims, trust)}
        for pid, what, dims, trust in CHECKS],
    'not_applicable': [
        {'property': pid, 'reason': PURE.format(more)} for pid, more in NA],
    'notes': 'No hooks in /repo: the seams are threading, queue, time, the '
             'data sources and targets, the dask get function and module '
             'globals, all replaced from /verif/sim.'
}
with open('/verif/MANIFEST.json', 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
