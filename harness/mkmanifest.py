# writes ../MANIFEST.json (run by hand; committed)
import json, os
H = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, '..', 'properties.jsonl'))]
MB = 'model-based stateful property testing of generated operation histories plus bounded exhaustive enumeration, with shrinking'
FI = 'model-based stateful property testing with fault injection at every throw point (elements, allocator, source iterators), with shrinking'
T = {i: MB for i in ids}
for i in ('C09', 'C10', 'C11', 'C12', 'C13', 'C18'):
    T[i] = FI
T['C10'] = FI.replace('with shrinking', 'with an accounting allocator (stateful, minimal and class-type-pointer variants) as oracle, with shrinking')
T['C14'] = MB.replace('model-based', 'identity-tracking model-based')
T['C15'] = MB + '; oracle: exact counts of element operations and allocations against documented bounds'
T['C16'] = 'differential property testing of the space-optimized buffer against the model of the plain one over generated histories, with shrinking'
T['C19'] = 'model-based property testing of iterator validity in debug builds over generated histories with iterator pools, with shrinking'
T['C20'] = 'generated misuse search (every documented precondition, on enumerated and random states, against its legal neighbour) plus model-based histories in debug builds'
T['C22'] = 'property testing on write-protected buffers, and randomized multi-threaded schedules under ThreadSanitizer compared with per-thread models'
T['C24'] = 'model-based property testing with boundary-value generation of capacities and counts over sparse storage'
T['C25'] = 'generated programs: random element types (composed features), operations and build settings, compiled and run on random histories against a reference sequence, with shrinking of the failing program'
L = {i: 'exploration' for i in ids}
for i in ('C09', 'C10', 'C11', 'C12', 'C13', 'C18'):
    L[i] = 'fault_enumeration'
N = {i: 'Generated histories are sampled; all single operations on all small states (capacity up to the stated bound) are enumerated. Holds for the element and allocator types generated.' for i in ids}
for i in ('C09', 'C10', 'C11', 'C12', 'C13', 'C18'):
    N[i] = 'Every throw point of every enumerated single operation on small states is injected in turn; longer histories get one random fault per operation. Holds for the element and allocator types generated.'
N['C22'] = 'Writes are detected at page granularity on generated states and const operations; thread schedules are those that occurred, judged by happens-before race detection.'
N['C24'] = 'Capacity and count classes around the 8-, 16-, 32- and 64-bit limits are generated; a few cases really hold more than 2^32 elements.'
N['C25'] = 'A program that must compile and behave is generated from about 70 type features and ready-made types and 50 operations; type designs outside the generator are not covered.'
N['C20'] = 'Each listed misuse is generated on enumerated small and random states; misuse forms outside the list are not covered.'
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'technique': T[i], 'level': L[i], 'level_note': N[i]} for i in ids],
     'not_applicable': [],
     'notes': 'No hooks are needed: the harnesses compile /repo/include directly. Replay a reported case with: python3 check.py --replay FILE. Repaired defects are in known_findings.txt.'}
json.dump(m, open(os.path.join(H, '..', 'MANIFEST.json'), 'w'), indent=1)
