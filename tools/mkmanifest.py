#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification (own condition generator over go/ssa, z3 and cvc5), bounded replay on the compiled package'
BASE = ('Every obligation generated from the current source is discharged for all inputs, unbounded. Trusted: gover, go/ssa, the solvers, the contracts '
        'assumed for standard library calls; integers are mathematical; termination is not proved. ')
NOTES = {
 'C01': 'Sequential behaviour of every XCache method over any state satisfying the representation invariant.',
 'C02': 'Expiry by TTL, expiration and validator in XCache.Get; clock is a non-decreasing ghost value.',
 'C03': 'Capacity and recency order of XCache, LRU removal.',
 'C04': 'Clean and Verify: removed set and returned count. For Clean with expired entries and a positive percentage the exact number of removed unexpired entries is only cross-checked by the bounded oracle.',
 'C05': 'Lock discipline of every XCache method: guarded accesses, balanced locks on return and panic, representation invariant at every release, user callback without lock, removal of judged entries only. Configuration fields (ID, Maxitems, Expire, Validator) are assumed to be set before sharing.',
 'C06': 'XDataset.Get/Set/Del and Get of both collections. What a nested interface value answers is an arbitrary function of the state of memory; stored interface values do not wrap nil pointers.',
 'C07': 'Every typed getter of XDataset over any value found. Float and narrowing conversions, fmt.Sprint and time.Unix are uninterpreted functions shared by code and contract.',
 'C08': 'Every method of both collections; elements are arbitrary non-nil implementations of XDatasetDef whose reading methods change nothing.',
 'C09': 'The four Clone methods: kind, freshness, keys or order, every nested value replaced by what its own Clone returned. That a nested foreign Clone is itself a copy is its own contract, not proved here.',
 'C10': 'NewXDataset and NewXDatasetCollection with their mutual recursion (each uses the contract of the other; termination on cyclic maps is not claimed).',
 'C11': 'Lock discipline of every XDatasetTS and XDatasetCollectionTS method (panics of the wrapped data included), and XDatasetTS answering exactly what the wrapped data answers. Pop and Shift may panic only when the collection was empty when the lock was taken.',
 'C12': 'Every XLanguage accessor over any table whose two maps exist and differ.',
 'C13': 'LoadString, LoadXMLString, the file variants and the constructors. Lines are those of bufio.Scanner; XML decoding is an assumed function of the text and the field tags, reading a file an assumed function of its name.',
 'C14': 'Lock discipline of every XLanguage method: guarded accesses, no panic, balanced locks.',
 'C15': 'LoadString (compile inlined), LoadFile and the two constructors: tokens, top level, every section, ids, father, error exactly on bad nesting. Assumed: matches of a pattern are a function of pattern and text, and each match of this pattern is of exactly one of the nine kinds and fills its groups (axioms in contracts/compile.gspec); which texts match which kind is cross-checked by the bounded scanner only. Reading a file is an assumed function of its name.',
 'C16': 'GetTemplate against a recursive lookup along the enclosing templates, AddTemplate with its frame.',
 'C17': 'Execute and injector against a recursive definition of the rendering over abstract data. The private scope list is a ghost stack (assumed: the list behaves as a stack, which C08 proves); reading the data is a function of its state; counters change no collection and no emptiness of a value; all templates are compiled. Termination is not proved.',
 'C18': 'Execute and injector: no panic, nothing of any template written, data changed only as the counters of the loops say. Same assumptions as C17.',
 'C19': 'Clone of templates and elements, recursively through its own contract; templates without nil sub templates. Termination is not proved.',
 'C20': 'String, GoString and GetXML of data sets, collections and language tables: the pieces are exactly one per entry (a bag defined key by key over the map), sorted, joined. Assumed of sort.Strings: the result is a permutation determined by the pieces; fmt prints a value as a function of its state.',
}
NA = {}
import sys
props = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks = [{'property': p, 'quick_cmd': f'bash check.sh {p}', 'thorough_cmd': f'bash check.sh {p}', 'technique': T, 'level': 'proof', 'level_note': BASE + NOTES[p]} for p in props if p in NOTES]
na = [{'property': p, 'reason': NA.get(p, 'contracts for these functions are not written yet')} for p in props if p not in NOTES]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. The conditions are generated from /repo/v2 on every run; see DESIGN.md.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
open(R + '/MANIFEST.json', 'a').write('\n')
