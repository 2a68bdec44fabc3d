#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
NA = {}
TECH = ("Symbolic execution of the compiled generated code: the macro expands each definition of the corpus, rustc lowers "
        "harnesses over it to LLVM IR, a symbolic executor for that IR turns each into bit-vector terms with the whole "
        "state and all arguments symbolic, and Z3 decides equivalence with a reference model written from the documentation; "
        "counterexamples are replayed natively in dev and release builds before they are reported.")
TECH20 = ("Symbolic execution of the macro itself: the macro crate's sources, with syn, quote and proc-macro2, are compiled to one "
          "LLVM module and executed on the text of definitions whose digits and letters are symbolic; every path is explored, "
          "and on each Z3 decides that the verdict (accepted, or a compile_error) and the emitted layout constants are the documented "
          "ones for every text on that path; counterexamples are compiled against the real crate before they are reported.")
NOTE = {
    'C20': 'Every text of each definition template; definitions matching no template, the wording of messages and what rustc itself rejects in the generated code are not covered.',
    'C07': 'One inductive step of every mutating operation from an arbitrary state; covers histories of any length.',
    'C09': 'Every start and length in range is a separate symbolic query for small backings; sampled in-range pairs plus symbolic out-of-range ones for large backings (bounds in the evidence).',
    'C13': 'Two-run non-interference query over two symbolic states that agree on readable bits.',
    'C14': 'Reachability of every panic call, with overflow checks compiled in, for every generated method.',
    'C18': 'core::fmt builders replaced by recording stubs: the list of names and the bytes of each value are the observation, not the final text.',
    'C21': 'The meaning of the remaining methods is decided by the solver; presence and absence of items is decided by compiling probe code next to it.',
    'C23': 'The crate is rebuilt with each chosen feature set (five in quick, 17 in thorough, besides the documented but ineffective features of the `bitfields` crate, an open known finding); presence and absence of items is decided by compiling probe code.',
    'C24': 'The harnesses are const fns in a no_std crate: rustc accepts them only if everything they call is const and core-only; what they compute is decided by the solver for all inputs.',
    'C22': 'Equivalence of two generated implementations, no reference model involved.',
}
LEVELS = {}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"',
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in NA:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
        continue
    m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i,
                        'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                        'technique': TECH20 if i == 'C20' else TECH,
                        'level': 'model_checking' if i == 'C20' else 'translation_validation',
                        'level_note': NOTE[i] if i == 'C20' else NOTE.get(i, '') + (' ' if i in NOTE else '') +
                        'All inputs of every definition in the corpus; definitions outside the corpus are not covered.'})
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json')
open(out, 'w').write(json.dumps(m, indent=1) + '\n')
