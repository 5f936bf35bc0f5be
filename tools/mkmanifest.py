"""Writes MANIFEST.json from the table below."""
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = 'contract-based deductive verification of the compiled code (own VC generator on LLVM IR, z3)'
PROOF = ('Every obligation generated from the current sources is discharged for all inputs; loops are either run to their '
         'end on every path or cut by inferred inductive invariants. Trusts clang, the generator and z3. ')
CLAIMS = {
    'C04': PROOF + 'Arbitrary capacity, fill and position; one operation from an arbitrary state, so every history by induction.',
    'C05': PROOF + 'Oracle: an HTML writer automaton in ghost state; any source, any well-formed token array, any attribute and tag names; the highlighter by contract (C01).',
    'C06': PROOF + 'Oracle: Table 3-7 written out in the harness.',
    'C07': PROOF + 'Oracle: inverse functions and the definition of UTF-8 encoding forms.',
    'C08': PROOF + 'Oracle: the published list; path lookup uses the contract of ulight_get_lang, proved separately.',
    'C09': PROOF + 'Every pair of the 256 type values is covered; the set of named types is taken mechanically from ulight.h.',
    'C10': PROOF + 'Highlighters are assumed not to touch the state; their calls are counted by ghost state.',
    'C11': PROOF + 'Sets built from texts are covered up to three characters (bounded); everything else for all values.',
    'C12': PROOF + 'Oracle: Unicode 15.1 tables derived independently of the code (python unicodedata plus the 15.1 changes).',
    'C13': PROOF + 'Any text, any signs, bases, separator and flags; lists of prefixes, exponent separators and suffixes of at most two entries (bounded); the base suffix by contract (any length, base 1 to 36). One known finding.',
    'C14': PROOF + 'Any text; std::from_chars by its standard contract; integer values are taken modulo 2^64; the layout of character sets is proved by C11.',
    'C17': PROOF + 'emit of Highlighter_Base and of the C/C++ highlighter from an arbitrary state; Lua, whose emit is a local lambda, over a fixed text only (bounded); calls of the highlighters by contract.',
    'C18': PROOF + 'The inner buffer is flushed from any state; the embedded highlighter by contract (any tokens, any status); script and style elements of HTML in any spelling; what delimits their bodies by contract.',
}
MOD = ('Proof for every source text of json, jsonc, llvm, ebnf, tex and diff: %s, function by function over inferred contracts. '
       'The other 17 languages are outside the reach of the verifier and are exercised by a bounded, coverage-guided stand-in '
       '(texts of at most 400 bytes, a fixed number of executions), which is never counted as proved.')
CLAIMS['C01'] = ('other', MOD % 'every token that is emitted is asserted to be non-empty, inside the source and behind the one before it')
CLAIMS['C02'] = ('other', MOD % 'every assertion, library check, memory access, division and shift is an obligation')
CLAIMS['C03'] = ('other', MOD % 'every loop and every cycle of calls has a measure that decreases')
CLAIMS['C15'] = ('exploration', 'Bounded, nothing is proved: the function works on heap-allocated tables and library algorithms outside the reach of the generator. '
                 'Every pattern of equal lines up to seven lines on each side, and long sequences, are executed and judged by the definition.')
CLAIMS['C16'] = ('other', 'Proved for every text and all options, function by function: positions and texts of events in order inside the source, balanced entries and exits, '
                 'no internal failure, termination, the rules of escape sequences. Bounded (texts up to six characters, generated documents): that exactly JSON is accepted, the exact events, lines of positions.')
LATER = 'not claimed yet: machinery under construction'
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3-vt -c "import z3, networkx"', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIMS:
        lv, note = ('proof', CLAIMS[i]) if isinstance(CLAIMS[i], str) else CLAIMS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3-vt -m dv.check ' + i, thorough_cmd='python3-vt -m dv.check ' + i,
                                evidence_file='evidence/%s.json' % i, technique=T, level=lv, level_note=note))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, LATER)))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
