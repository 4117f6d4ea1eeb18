import json
T={
'C01':'seeded simulation of interleaved clients under a simulated allocator, refinement against a map model',
'C02':'seeded scheduling of many suspended iterations with injected callback panics, order and once-only checked per step against a model',
'C03':'seeded mutation histories under a simulated allocator, the dense views checked against a model after every step',
'C04':'seeded histories with injected constructor, destructor and callback panics, conservation checked on a ledger of every value',
'C05':'fault injection of panics into every user call of mutating operations, atomicity checked against before/after models',
'C06':'simulated arena allocator (placement, relocation, reuse, poison, guard pages) under seeded histories, memory discipline monitored as invariant',
'C07':'fault injection of refused allocations at seeded points, allocation-failure handler as oracle',
'C08':'seeded boundary-key histories and refused requests over every tree configuration, refinement against a map model',
'C09':'seeded long churn histories, bound on the simulated heap of each container as invariant',
'C10':'seeded histories with injected panics, node bitmaps of every level checked against the model',
'C11':'seeded histories on default-lookup containers with injected panics, refinement against a model with one default value',
'L01':'seeded interleaved readers of binary set operations, refinement against set algebra on maps',
'L02':'seeded interleaved readers of multi-source operations with failing source iterators, refinement against a model',
'L03':'fault injection of panics in user callbacks, calls counted against the model at each request',
'L04':'seeded interleaved cursor walks checked step by step against keyed lookup of the model',
'L05':'seeded materializations followed by seeded histories, refinement against an insertion-built model',
'L06':'fault injection of panics at every callback of a materialization, ledger, heap and sources checked after it',
'L07':'seeded random expression trees over shared sources, refinement against evaluation on maps',
'B01':'seeded histories of interleaved clients of bit blocks and queues with broken-off and panicking traversals, refinement against a set model',
'N04':'seeded histories on large contents; simulated time is the number of edges, loads and stores executed inside of the library, and its bound per operation (a function of shape and of nodes to visit in the model) is checked at every step',
'R01':'seeded thread and task schedules of readers (in steps and inside callbacks), each answer compared with the model of the reader alone',
}
TRUST=('Sampling: evidence, not proof. Runs the whole library unmodified; trusts the reference models, the simulated allocator and value type of /verif/sim '
 'and the compiler. The quick tier runs the build with debug assertions and overflow checks on the plain bit operations; the thorough tier adds an '
 'optimized build with bit-manipulation and SIMD instructions.')
X={'C07':' Each run ends in a child process at the refusal; only refusals routed through alloc::handle_alloc_error count as reported.',
'C06':' Out-of-bounds reads are seen through guard pages and poison: a read that stays in the same page of the arena and is not used is not seen.',
'C09':' The bound used is a constant factor of the model (see DESIGN.md), not the exact footprint.',
'N04':' Uses the instrumented build only. The bound is about ten times what the current tree needs per visited node; growth that stays below it (a logarithm, say) is not seen. Time inside the allocator and bytes moved by memcpy are not counted.',
'R01':' Real threads are used one at a time under the simulator\'s schedule (baton passing), so data races on plain memory are visible only through their effects at switch points.'}
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
checks=[{'property':p,'quick_cmd':f'python3 check.py {p}','thorough_cmd':f'python3 check.py {p} --tier thorough','evidence_file':f'evidence/{p}.json',
 'technique':'deterministic simulation: '+T[p],'level':'exploration','level_note':TRUST+X.get(p,'')} for p in props if p in T]
NA={
'N02':'A pure function of one integer; no nondeterminism to simulate. Its role at the API boundary (refusing keys out of range) is decided by C08.',
'N03':'Compile-time evaluation and pure functions of their arguments; no schedule, fault or history. Their use in tree levels is exercised by every check.',
}
assert set(props)==set(T)|set(NA),set(props)^(set(T)|set(NA))
m={'version':1,'setup_cmd':'python3 check.py --setup','checks':checks,'not_applicable':[{'property':p,'reason':NA[p]} for p in props if p in NA],
'notes':'No hooks in /repo: allocator, value types, callbacks and source iterators are seams the library already has. known-findings.txt lists repaired defects.'}
json.dump(m,open('MANIFEST.json','w'),indent=1)
