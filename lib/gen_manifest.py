"""Write MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.join(here, '..')
rows = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NA = props.NOT_APPLICABLE
checks = []
for r in rows:
    i = r['id']
    if i in NA:
        continue
    P = props.PROPS[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s quick' % i,
        'thorough_cmd': 'python3 check.py %s thorough' % i,
        'technique': 'bounded symbolic execution of the compiled LLVM IR with z3 deciding every branch and assertion; counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Every input within the bounds: %s. Outside: %s. Trusts rustc, LLVM, z3 and the executor in engine/ (completed paths are sampled and run natively on every check).' % (P['bounds'], P['outside']),
    })
json.dump({
    'version': 1,
    'setup_cmd': 'bash lib/setup.sh',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'No hooks: every property is decided through public API. Defects found and repaired are listed in known-findings.txt.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
