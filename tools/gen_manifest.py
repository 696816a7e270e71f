#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = 'path-sensitive abstract interpretation of MIR compared with an audited reference model'
RULES = {
    'C01': 'panic obligations (asserts, overflow, unwrap, slicing) discharged by abstract interpretation of MIR; ' + DIFF,
    'C02': 'preconditions of unchecked operations as obligations of the abstract interpretation; ' + DIFF,
    'C03': 'loop-progress rule over abstract states at loop heads; ' + DIFF,
    'C04': 'call-graph cycle rule (every parser cycle passes the depth guard); ' + DIFF,
    'C05': 'effect rule over the call graph (who allocates nodes, who appends output); ' + DIFF,
    'C07': 'error-flow rule: every path with a failed fallible call returns Err; ' + DIFF,
    'C08': 'dependence rule: no parser path condition or operand depends on the flags; ' + DIFF,
    'C11': 'effect analysis of the call graph from the entry points (statics, I/O, time, addresses, randomness)',
    'C19': 'bracket-balance analysis of the printers\' path summaries; ' + DIFF,
    'C21': 'kind analysis of storage, handle and view tables; ' + DIFF,
}
NOTE = ('Every path (up to the unrolling depth reported in the evidence) of every function that decides the property is summarised '
        'from MIR and compared with the audited model in /verif/reference; a difference that no caller can observe is discounted. '
        'Trusts: the model, the library summaries, the frame assumptions listed in DESIGN.md. A deliberate change of the documented '
        'behaviour needs the model updated.')
NA = {
    'N01': 'needs the Microsoft tool as oracle; no source-level statement of its output exists, so no static argument can decide agreement with it',
    'N02': 'running time depends on run-time sizes of shared sub-trees and of the output; no sound static bound in reach (only termination and fixed caps are claimed, C03 and C05)',
    'N03': 'false of the code as designed: numbers wrap modulo 2^64 as in LLVM\'s demangler; nothing to decide statically beyond what C17 states',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + RULES.get(i, DIFF), 'level': 'other', 'level_note': NOTE})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'No hooks in /repo. Each check builds a small rustc driver (driver/) and dumps the MIR of /repo and of reference/ in a scratch directory it removes.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
