#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NA = {
 'P40': "The numerical libraries (QLD, LSSOL, Quadprog, LexLS) are external and absent from this sandbox (sources and binaries), so their algorithms "
        "cannot be encoded. What TVM passes to them is decided by P32, against stand-in declarations of their interfaces.",
}
checks, na = [], []
for p in props:
  i = p['id']
  if i in NA:
    na.append({'property': i, 'reason': NA[i]})
  elif os.path.exists(f'{root}/harness/{i}.cpp') or glob.glob(f'{root}/harness/{i}_*.cpp'):
    note = "Every path of the real code (LLVM IR of /repo's current sources) within the bounds is executed symbolically; Z3 decides each branch and obligation."
    j = f'{root}/harness/{i}.json'
    if os.path.exists(j):
      b = json.load(open(j)).get('bounds')
      if b: note += ' Bounds: ' + (b if isinstance(b, str) else '; '.join(b) if isinstance(b, list) else '; '.join(f'{k}: {v}' for k, v in b.items()))
    checks.append({'property': i,
      'quick_cmd': f'python3 bin/symtvm.py check {i}',
      'thorough_cmd': f'python3 bin/symtvm.py check {i} --tier thorough',
      'technique': 'symbolic execution of the compiled code (LLVM IR) with SMT solving (Z3), counterexamples replayed natively',
      'level': 'model_checking', 'level_note': note})
  else:
    na.append({'property': i, 'reason': 'No check built yet.'})
json.dump({'version': 1, 'setup_cmd': 'python3 bin/symtvm.py setup', 'checks': checks, 'not_applicable': na},
  open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
