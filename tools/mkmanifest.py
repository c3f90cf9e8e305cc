#!/usr/bin/env python3
"""writes MANIFEST.json from the list of implemented checks"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import glob
src = '\n'.join(open(f).read() for f in sorted(glob.glob(os.path.join(V, 'lib', 'checks*.py'))))
have = re.findall(r"^@prop\('(C\d+)'\)", src, re.M)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
DEF = ('z3 verdict over all values within the stated length bounds, on LLVM IR regenerated by clang from the current headers for the SSE2, SSE4.1, AVX and portable builds; '
       'counterexamples are replayed on the g++ build before they are reported. Trusts clang\'s front end, our IR executor (sampled against the native build on every run) and z3. NEON/AltiVec not covered.')
NOTE_P = {
 'C19': 'Length n is symbolic (all 32-bit values allowed by the precondition) for loops the summariser recognises; other calls fall back to bounded lengths. ' + DEF,
}
TECH = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'notes.py')) else None
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [], 'notes': 'Run as python3-vt check.py <id> quick|thorough. See DESIGN.md.'}
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': TECH.get(i, 'bounded symbolic execution of the real headers (LLVM IR) with z3 verdict per obligation; native replay of counterexamples'),
                            'level': 'model_checking', 'level_note': NOTE_P.get(i, DEF)})
    else: m['not_applicable'].append({'property': i, 'reason': 'no check built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', [x['property'] for x in m['not_applicable']])
