#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
tech = {
 'C01': 'random circuits, print/parse round trip against the generating model',
 'C02': 'random texts from an independent writer, parsed and compared with the generating model',
 'C03': 'random circuits, printed text read by an independent reader',
 'C04': 'mutated texts, parse/print/parse/print fixpoint',
 'C05': 'fuzzing (noise, token soup, mutations, deep nesting) with complete traversal of accepted circuits',
 'C06': 'fault injection into valid texts, differential against an independent reader',
 'C07': 'metamorphic: random layouts of one circuit',
 'C08': 'random scoping structures, positive and negative resolution against a model',
 'C09': 'random expressions, types compared with an independent statement of the width rules',
 'C10': 'random expressions, flow compared with an independent statement of the rules',
 'C11': 'random type pairs and triples, reference predicates and algebraic laws',
 'C12': 'random type pairs, reference join and algebraic laws',
 'C13': 'random entities, types compared with a reference model',
 'C14': 'random trees, multiset comparison of queries with a reference traversal',
 'C15': 'model-based random stepping sequences over module streams',
 'C16': 'random chunking, interruption and failure injection in readers, differential',
 'C17': 'single-line fault injection with known position',
 'C18': 'random literals of any magnitude and notation against big integer arithmetic',
 'C19': 'stateful model-based testing of name contexts',
 'C20': 'random strings, escape/unescape round trip and independent decoder',
 'C21': 'model-based random builder sequences',
 'C23': 'random pairs of trees and types, comparison against a reference comparison; copies altered',
 'C24': 'random interleavings over several circuits, model and repetition as oracle',
 'C25': 'random expressions over user-defined references, differential against entities and the rule oracle',
 'C22': 'boundary-biased random numbers at every numeric place of the grammar',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
exe = os.path.join(here, 'harness/target/release/fav-harness')
have = {l.split()[0] for l in subprocess.check_output([exe, 'list'], text=True).splitlines()}
note = ('Generated-input search only: the property held on every case explored (case counts, a stated rule of non-triviality and '
        'samples are in the evidence). Trusts the harness\'s own model, writer, reader and rule oracles, which share no code with the library.')
checks = []
na = []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': f'/verif/run.sh check {i}', 'thorough_cmd': f'/verif/run.sh check {i}',
                       'technique': 'property-based testing: ' + tech[i], 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': '/verif/run.sh build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. known_findings.txt lists open and repaired defects. Replay: /verif/run.sh replay <file>.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
