import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification: function contracts on the LLVM IR of the real C++ source, loop invariants inferred, obligations discharged by z3'
NOTE = {
 'B01': 'Every registered kernel is verified against its elementwise contract for all lengths, strides and aliasings (no bound). Floating arithmetic is uninterpreted (same operations on same operands); clang IR, the VC generator, intrinsic semantics and z3 are trusted. Kernels are also run concretely against NumPy (bounded).',
 'B02': 'As B01: all registered comparison kernels, all lengths, strides, operand aliasings; comparison table contents are property I01.',
 'B03': 'As B01: all registered exact one-operand kernels; floor/ceil/trunc/rint/sqrt are the same uninterpreted function in code and contract (hardware rounding-mode immediates are decoded).',
}
exec(open(os.path.join(ROOT, 'dev', 'notes.py')).read()) if os.path.exists(os.path.join(ROOT, 'dev', 'notes.py')) else None
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = globals().get('NA', {})
LEVEL = globals().get('LEVEL', {})
TECH = globals().get('TECH', {})
checks = []
for i in ids:
    if i in NOTE:
        checks.append(dict(property=i, quick_cmd='python3-vt -m vf.check %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt -m vf.check %s' % i, evidence_file='evidence/%s.json' % i,
                           technique=TECH.get(i, T), level=LEVEL.get(i, 'proof'), level_note=NOTE[i]))
m = dict(version=1, setup_cmd='python3-vt -m vf.setup', hooks=dict(guard='none', enable='no hooks: the checks build the unmodified sources', source_commits=[]), checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, 'not claimed yet: the contracts for this property are still being built')) for i in ids if i not in NOTE],
         notes='See DESIGN.md. All repairs of genuine defects are fix: commits in /repo, listed in known-findings.txt.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
