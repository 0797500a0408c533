import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech={
 'fn':"contract-based deductive verification (Verus) of the mechanically extracted functions",
}
T={
"C01":"Verus: implicit obligations (bounds, overflow, callee and unsafe preconditions, termination) and range clauses of every function's contract",
"C02":"Verus: output-prefix well-formedness clauses of every decoder's contract, and the precondition of from_utf8_unchecked",
"C03":"Verus: exactness postcondition and loop invariants of every encoder",
"C04":"Verus: early-stop postcondition of every encoder",
"C05":"Verus: error postcondition of every encoder",
"C06":"Verus: exactness postcondition and loop invariants of every decoder",
"C07":"Verus: early-stop postcondition of every decoder",
"C08":"Verus: error-start postcondition of every decoder",
"C09":"Verus: induction over every history of calls, from the encoders' contracts, which are proved in the same run",
"C10":"Verus: induction over every history of calls, from the decoders' contracts, which are proved in the same run",
"C11":"Verus: UTF-8/16/32 contracts plus lemmas that tie their step functions to the Unicode definitions",
"C12":"Verus: single-byte contracts over the published mappings; table constants by complete evaluation",
"C13":"Verus: Big5 contracts over the published index; table constants by complete evaluation",
"C14":"Verus: Shift JIS contracts over the published index; table constants by complete evaluation",
"C15":"Verus: round-trip lemma over the encode and decode contracts; table inversion by complete evaluation",
"C16":"Verus: round-trip lemma over the decode and encode contracts; table inversion by complete evaluation",
"C17":"Verus: error-extent postcondition of every decoder",
}
note=("For all inputs, buffer lengths and flags: every obligation generated from the text of the functions in /repo is discharged by Verus/Z3 on each run. "
"Trusted: Verus, Z3, rustc, the syntactic extractor, the assumed contracts of core functions (contracts/shims.rs), the frozen published mappings (spec/). "
"A function the verifier cannot take (after a refactoring) is decided by the bounded exploration instead and reported as bounded, not proved.")
m={"version":1,"setup_cmd":"python3 check.py setup",
 "checks":[{"property":p["id"],"quick_cmd":"python3 check.py run %s"%p["id"],"thorough_cmd":"python3 check.py run %s --tier thorough"%p["id"],
   "evidence_file":"evidence/%s.json"%p["id"],"technique":T[p["id"]],"level":"proof","level_note":note} for p in props],
 "not_applicable":[],
 "notes":"See DESIGN.md. No hooks are needed: the functions are extracted from the source, and the engine uses the public API."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
