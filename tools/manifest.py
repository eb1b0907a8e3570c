#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, importlib.machinery, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ld = importlib.machinery.SourceFileLoader('check', ROOT + '/check'); spec = importlib.util.spec_from_loader('check', ld)
check = importlib.util.module_from_spec(spec); ld.exec_module(check)

TECH = {
 'arena':  'deterministic simulation: seeded operation histories with injected allocation and constructor failures against a reference model',
 'file':   'deterministic simulation: simulated kernel (files, faults, other processes, crashes) under seeded schedules against a reference model',
 'space':  'deterministic simulation: seeded operation histories with injected copy, callback and allocation failures against a painter\'s model',
 'cont':   'deterministic simulation: seeded operation histories of interleaved users with injected failures against reference containers',
 'errata': 'deterministic simulation: seeded report lifecycles with injected allocation failures against a reference model',
 'writer': 'deterministic simulation: seeded writer histories with space and memory running out at chosen points, simulated clock, against a reference renderer',
 'text':   'deterministic simulation: seeded clients of text data behind a simulated kernel with torn, damaged and failing storage, against an independent parser and reference model',
 'view':   'deterministic simulation: seeded senders and receivers over breaking connections with memory failure, and histories of operations on views and spans, against an independent model of the text or memory',
 'scale':  'deterministic simulation: seeded storage service over a faulty network with crashes, and histories of operations among scales, against exact arithmetic',
 'thread': 'deterministic simulation: seeded thread scheduler over compiler-instrumented accesses with happens-before race detection and single-thread reference',
}
NOTE = {
 'arena':  'Random search over seeds with a reference model; real library code under AddressSanitizer; malloc family replaced at link time. Shows the presence of errors, not their absence.',
 'file':   'Random search over seeds; the real library and real libstdc++ run, every system call they make is answered by a simulated kernel (trusted to represent Linux for the calls used).',
 'space':  'Random search over seeds with a reference model over a small domain, AddressSanitizer and allocation ledger.',
 'cont':   'Random search over seeds with reference containers, AddressSanitizer and allocation ledger.',
 'errata': 'Random search over seeds with a reference model, AddressSanitizer and allocation ledger.',
 'writer': 'Random search over seeds with an independent reference renderer, guard bytes and AddressSanitizer; clock and allocation are simulated.',
 'text':   'Random search over seeds with an independent reading of the documented text forms; storage is simulated; AddressSanitizer.',
 'view':   'Random search over seeds with an offset model of every view and span and an independent reading of numbers; text and data in memory of exactly their size under AddressSanitizer.',
 'scale':  'Random search over seeds with every value kept exactly in 128 bits; the set of scales and counter types is fixed at compile time.',
 'thread': 'Random search over thread schedules at the granularity of instrumented accesses; accesses inside uninstrumented C library functions are seen only for the wrapped ones.',
}
NA = {}
checks, na = [], []
for line in open(ROOT + '/properties.jsonl'):
    p = json.loads(line)['id']
    if p in NA: na.append(dict(property=p, reason=NA[p])); continue
    g = check.group_of(p)
    if not all(os.path.exists(ROOT + '/sim/' + s) for s in check.GROUPS[g][1]):
        na.append(dict(property=p, reason='Check not built yet.')); continue
    checks.append(dict(property=p, quick_cmd='./check ' + p, thorough_cmd='./check %s --tier thorough' % p, technique=TECH[g], level='exploration', level_note=NOTE[g]))
hooks = dict(guard='none', enable='No hooks: the seams are system calls, link-time wrapping of the C library and compiler instrumentation.', source_commits=[])
json.dump(dict(version=1, setup_cmd='./check --build', hooks=hooks, checks=checks, not_applicable=na,
     notes='Checks share one driver (./check) and one simulation core (sim/sim.cc); see DESIGN.md.'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
