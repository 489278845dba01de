"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plans import PLANS, RULES, _COMMON

TECH = {
    'C01': 'property-based testing: generated and mutated documents against a reference parser, coverage-guided fuzzing, exhaustive sweeps of short texts',
    'C02': 'fuzzing with guard pages, metamorphic placement, AddressSanitizer',
    'C03': 'property-based testing against a reference prefix recogniser, coverage-guided',
    'C04': 'property-based testing on generated nestings, sweep over depths and shapes',
    'C05': 'property-based round trips, exhaustive over code points and lengths',
    'C06': 'property-based round trips and fuzzing',
    'C07': 'property-based testing against a reference printer',
    'C08': 'property-based testing with injected stream faults',
    'C09': 'property-based testing against exact decimal arithmetic, metamorphic respelling',
    'C10': 'property-based round trips against exact decimals, sweep over exponents',
    'C11': 'property-based testing against exact arithmetic, exhaustive over f32',
    'C12': 'property-based testing against exact decimal comparison',
    'C13': 'property-based testing at type boundaries',
    'C14': 'property-based testing against exact arithmetic',
    'C15': 'stateful model-based testing with colliding hashes, AddressSanitizer',
    'C16': 'stateful model-based testing',
    'C17': 'property-based testing over differently built pairs',
    'C18': 'stateful model-based testing of pairs, AddressSanitizer',
    'C19': 'stateful fuzzing under a checking allocator, AddressSanitizer and Miri',
    'C20': 'property-based generation of programs, compiled and run',
    'C21': 'property-based testing over generated Rust values',
    'C22': 'metamorphic scaling test on counted work',
    'C23': 'property-based concurrent reads, ThreadSanitizer, read-only memory',
    'C24': 'stateful model-based testing of iterators',
    'C25': 'stateful model-based testing of index paths',
    'C26': 'property-based testing of predicates and accessors',
    'C27': 'property-based testing of user-written generators against a reference renderer, with injected faults',
    'C28': 'property-based testing of formatting with injected sink faults',
    'C29': 'property-based testing against exact decimals, metamorphic negation',
    'C30': 'property-based testing of deep values on small stacks',
    'C32': 'property-based testing with a counting allocator and address comparison',
    'C33': 'property-based testing with injected panics at every callback, checking allocator',
    'C34': 'property-based testing of nested calls against models',
    'C35': 'stateful model-based testing of generators',
    'C36': 'property-based concurrent histories, ThreadSanitizer',
    'C37': 'property-based testing on a compiled 32-bit target and interpreted 32-bit and big-endian ones',
    'C38': 'property-based testing with large inputs against a model',
    'C31': 'metamorphic scaling test on counted work',
}
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s quick' % p,
        'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': TECH[p],
        'level': PLANS[p].get('level', 'exploration'),
        'level_note': RULES[p].replace(_COMMON, '') + ' Holds on what was generated; trusts the model in /verif/harness and the compiler.',
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 check.py --build',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo. Genuine defects found were repaired; see KNOWN_FINDINGS.md.',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
