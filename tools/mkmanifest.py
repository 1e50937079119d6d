#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GV = 'value-graph dataflow analysis over MIR compared with the specified value graph'
GVN = 'Every path of the compiled MIR of the functions is merged into one gated value graph (joins at postdominators, loops summarised as maps/searches), which is compared case by case with the specified value. Trusts the models of std functions and the recognition of loop shapes; constructs outside the models are reported as undecided in the evidence and never alarm.'
AV = 'trace monitor (typestate) over the gated value graph of the async state machines MIR'
AVN = 'The futures are analysed as the state machines the compiler generates: every poll path of the entry point (tokio, rustls and tracing modelled by their documented meaning, each call a trace event) is merged into one gated value graph, and a monitor automaton follows the event trace on every path and compares payloads and results with the specified ones. Trusts those models; constructs outside them are reported as undecided and never alarm.'
PX = 'abstract interpretation of MIR over symbolic text positions (difference bounds, absence intervals, character classes)'
PXN = 'Every loop of the parser is solved to a fixpoint over an abstract domain of positions in an arbitrary text of arbitrary length: linear and difference constraints between positions, which characters are absent from which interval, which characters stand at which position. Each obligation must hold in every abstract state that reaches it. What the joined states do not prove is classified with trace partitioning (bounded disjuncts instead of joins); only a state described exactly by a witness text alarms, anything else is reported as undecided. Trusts the models of std and vector intrinsics.'
CHECKS = {
 'C01': (PX + '; value-graph panic obligations of every typed conversion, classified by constant replay', 'proof', PXN + ' Panic edges of the typed conversions are obligations of the value graph; one is a violation only if the analysis reaches it again with the message fields held at constants the path condition suggests.'),
 'C03': (PX, 'proof', PXN),
 'C04': (PX + '; scan of every unsafe operation in MIR; finite table of the transmuted levels', 'proof', PXN + ' Every unsafe operation of the crate must be one of those analysed. The aarch64 and AVX-512 vector types are not compiled on this target; their use is not covered.'),
 'C12': ('value-graph analysis of the derived and manual serde implementations composed with an opaque data model (what is written is read back)', 'proof', GVN + ' The writer and reader are the crate harness-ser, whose every method is opaque; values of std and chrono and of the other serialisable types of the crate are leaves. Two readers: entries in order with borrowed text, entries in reverse order with transient text.'),
 'C13': (PX, 'proof', PXN),
 'C15': (AV, 'proof', AVN),
 'C16': (AV, 'proof', AVN),
 'C17': (AV, 'proof', AVN),
 'C18': (AV + ', loop closed by an arbitrary-iteration argument', 'proof', AVN + ' The unlimited loop is decided for an arbitrary iteration, limits 0 to 3 by following the loop.'),
 'C19': ('information-flow (taint) analysis over the value graph with logging enabled, plus a scan of every reader of the token field in MIR', 'proof', AVN),
 'C20': (AV + ', plus a call-graph deny-list of certificate-bypassing APIs', 'proof', AVN),
 'C21': (AV, 'proof', AVN),
 'C22': (AV, 'proof', AVN),
 'C27': (AV, 'proof', AVN),
 'C28': (AV, 'proof', AVN),
 'C02': (GV, 'proof', GVN),
 'C05': (GV, 'proof', GVN),
 'C06': (GV, 'proof', GVN),
 'C07': (GV, 'proof', GVN),
 'C08': (GV, 'proof', GVN),
 'C09': (GV, 'proof', GVN),
 'C10': (GV, 'proof', GVN),
 'C11': (GV, 'proof', GVN),
 'C23': ('effect analysis over the call graph of the monomorphic MIR, with a walk over the types handed out', 'proof', 'Functions without a body in the dump are judged by crate and path: core, alloc, smallvec, chrono and hashbrown are taken to be free of effects except for the listed sources (clock, environment, threads, locks, I/O, logging, random seeds).'),
 'C24': ('type-level witnesses: the crate and a crate of Send/Sync/exposure/absence assertions are type-checked under every combination of features', 'proof', 'Decided by rustc over the current source: 16 combinations, those with simd also for both vector widths (24 builds), type-checked with a witness function per type and per client future. Presence is shown by use, absence by an ambiguity trick (a name brought in by two globs cannot be used; two impls make a call ambiguous). Only x86-64 is installed.'),
 'C25': (GV, 'proof', GVN),
 'C31': (GV, 'proof', GVN + ' What the wrapped errors of other crates print is opaque: their text is required to occur, whatever it is.'),
 'C32': (GV + '; ' + PX, 'proof', GVN),
 'C33': (AV + ' with a suspension possible at every await, plus a call-graph deny-list of reads that drop what they have read', 'proof', AVN),
 'C26': ('typestate over the trace of process and file events in the value graph of the task runner from `main`', 'proof', 'Loops over commands are unrolled three rounds and, beyond that, judged for an arbitrary round from an arbitrary state. Outside crates (argp, anyhow) are opaque: parsing the command line yields any command. What the external programs do is not part of the property.'),
}
NA = {
 'C29': 'a bound on running time on real hardware; no static argument over the source bounds throughput, and there is no cost specification to compare with',
 'C30': "the oracle is Twitch's server, which is neither in the source nor reachable; only agreement with the documented tag table is decidable, and that is C08/C09",
}
PENDING = 'check not built yet'
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py full', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}', 'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'other' if l == 'proof' else l, 'level_note': n})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), [x['property'] for x in m['not_applicable']])
