#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C17': 'property-based concurrent histories with a linearizability oracle, plus single-thread reference model',
 'C25': 'grammar-based generation of patterns and inputs, differential against a reference matcher',
 'C26': 'grammar-mutation and coverage-guided fuzzing of arbitrary byte patterns under address sanitizer',
 'C11': 'generated inputs with an ordering + permutation oracle',
 'C29': 'generated life of a process (fork + exec): model-based histories on static objects before, in and after main',
 'C30': 'generated multi-threaded histories against per-thread models, under a happens-before race detector',
 'C31': 'generated programs (sequences of includes, uses and values passed between source files), compiled, linked and run',
 'C32': 'generated constant expressions, each asserted to have the value a model outside the library gives, judged by the compiler',
 'C33': 'generated operation histories with counted item operations and allocator requests, against growth bounds',
 'C28': 'generated types, differential against the language\'s own type queries',
 'C21': 'generated operands against a scalar reference', 'C22': 'generated operands: algebraic laws and reference matrices', 'C23': 'generated and exhaustive small operands against wide-integer reference',
}
DEF = 'stateful model-based property testing (generated operation histories against a reference model, shrinking), coverage-guided in the thorough tier'
checks, na = [], []
for l in open(R + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if os.path.exists(f'{R}/harness/{i}.cpp'):
        checks.append({'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough', 'evidence_file': f'evidence/{i}.json',
          'technique': TECH.get(i, DEF), 'level': 'exploration',
          'level_note': 'Random and coverage-guided search of generated cases against an explicit oracle, built from the working tree under address and undefined-behaviour sanitizers; establishes no absence beyond the cases counted in the evidence file. Trusts the compiler, the sanitizer runtimes and the reference model in harness/.'})
    else: na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
 'notes': 'No hooks in /repo are needed; all checks compile the public headers and private sources of the working tree.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'not applicable')
