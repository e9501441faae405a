#!/usr/bin/env python3
# Development tool: writes MANIFEST.json.
import json
NA = {}
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
note = ('Bounded symbolic execution of the real code: the repository\'s generator is built from the working tree and run over the corpus of declarations, '
 'and the generated methods together with the run-time library, fastjson and jwriter are executed from Go SSA with symbolic documents and values; z3 decides every '
 'branch and every assertion within the bounds (collections up to 2 elements, 3 in the thorough tier; strings up to 2 or 3 characters; one member ranges over everything while the others are ordinary, absent or zero). '
 'Counterexamples are reported only after the compiled code reproduces them. Trusted: the engine, its models of the fastjson scanner (document level), strconv, time, base64 and uuid texts, sync.Pool; declarations outside the corpus are not covered.')
gnote = ('Bounded symbolic execution of the generator itself: parser, analysis and code construction (the repository\'s generator package with go/parser, go/ast, go-ast) are executed from Go SSA on source files whose '
 'characters are partly symbolic, over a virtual file system with symbolic map order; z3 decides every branch and every assertion about the syntax tree that is printed. Counterexamples are reported only after the compiled generator reproduces them on real files. '
 'Trusted: the engine, go/printer, the stand-in for the file system; the bounds are those in the quantifier of the property.')
GEN = ('C22', 'C23', 'C24')
checks = []
for p in props:
    if p in NA: continue
    checks.append({'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough',
      'technique': 'symbolic execution of the generator from Go SSA, assertions about its output decided by z3' if p in GEN else 'symbolic execution of the generated code and its run-time library from Go SSA, assertions decided by z3',
      'level': 'model_checking', 'level_note': gnote if p in GEN else note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
  'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()]}, open('/verif/MANIFEST.json', 'w'), indent=1)
