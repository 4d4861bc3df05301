"""Write MANIFEST.json from the check modules present."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
TECH = {
 'C01': 'property-based testing: enumerated nesting shapes and random structured programs, differential against a big-step reference interpreter',
 'C02': 'property-based testing and fuzzing: enumerated operator chains, random trees rendered to text, token soup, differential against an independent parser',
 'C03': 'property-based testing: operator x type matrix and random effect-logging expression trees, differential against a reference evaluator; alias metamorphic relation',
 'C04': 'property-based testing: random call/scope histories with colliding names, differential against a reference interpreter',
 'C05': 'fuzzing with invariant oracles: operators, library functions, host functions and mutated programs under any globals',
 'C06': 'fuzzing: token-level and mutation-based script text against a reference line parser, fault injection with predicted positions, metamorphic prepending, enumerated caret elision',
 'C07': 'property-based testing: enumerated and random structured programs with label/schema/lint invariants on the lowered model',
 'C08': 'property-based testing: enumerated and random jump-level models, differential against a reference jump interpreter',
 'C09': 'property-based testing: every limit of random programs with includes, callbacks and data expressions, differential against a counting reference',
 'C10': 'property-based testing: metamorphic layout transformations, model equality',
 'C11': 'property-based testing: order axioms over all pairs and triples of a value pool plus random values, reference comparison and consumers',
 'C12': 'property-based testing: metamorphic int/float substitution over every library function and operator',
 'C13': 'property-based testing: bit-pattern numbers through number-text-number round trips, near-miss number texts',
 'C14': 'property-based testing: JSON round trip against an independent encoder and standard parser, enumerated short strings',
 'C15': 'stateful model-based testing: random library call histories over an aliased pool against reference list/dict/str models',
 'C16': 'property-based testing: calendar arithmetic and ISO round trips under many time zones against a proleptic-Gregorian reference and zoneinfo',
 'C17': 'property-based testing: random include trees on a virtual file system against an independent resolver, injected fetch and syntax faults',
 'C18': 'property-based testing: purity and exact-warning oracles, metamorphic edits suggested by warnings',
 'C19': 'property-based testing: random tables against relational reference functions, CSV round trip',
 'C20': 'property-based testing: enumerated and random line pairs through the shipped include, reconstruction invariants',
}
ids = sorted(i for i in TECH if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')))
RANDOM = 'Generated-input exploration: no proof. Trusts the reference models under ref/, the generators under gen/ and CPython; '
checks = []
for i in ids:
    src = open(os.path.join(V, 'checks', i.lower() + '.py'), encoding='utf-8').read()
    checks.append({
        'property': i,
        'quick_cmd': f'/opt/venv/bin/python check.py {i}',
        'thorough_cmd': f'/opt/venv/bin/python check.py {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': TECH[i],
        'level': 'exploration',
        'level_note': RANDOM + 'bounds, case counts and assumptions are in the evidence file and in DESIGN.md.'
    })
doc = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
       'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in TECH if i not in ids]}
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(doc, fh, indent=1)
    fh.write('\n')
