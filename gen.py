#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE, NA_PROPS
here = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the LLVM IR of the library compiled from /repo (own executor: SMT solver z3 plus exact finite-domain decision procedure), counterexamples replayed on the native build'
with open(here + '/properties.jsonl', 'w') as f:
    for i, p in sorted({**PROPS, **NA_PROPS}.items()):
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = [{'property': i, 'quick_cmd': f'python3 /verif/check.py {i} quick', 'thorough_cmd': f'python3 /verif/check.py {i} thorough', 'evidence_file': f'evidence/{i}.json',
           'technique': TECH, 'level': 'model_checking', 'level_note': 'every value of the symbolic inputs within the stated bounds; ' + p['qtext']} for i, p in sorted(PROPS.items())]
json.dump({'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE.items()],
           'hooks': {'guard': 'cfg(verif_low_memory)', 'enable': 'RUSTFLAGS="--cfg verif_low_memory" (build_ir.sh, profile lowmem)', 'source_commits': ['d8df4b2']}, 'notes': 'See DESIGN.md.'}, open(here + '/MANIFEST.json', 'w'), indent=1)

# the per-property part of DESIGN.md
import re, glob
DOC = {}
for f in sorted(glob.glob(here + '/harness/src/*.rs')):
    for m in re.finditer(r'((?:^///.*\n)+)(?:#\[.*\]\n)*pub fn (\w+)\(', open(f).read(), re.M):
        DOC[m.group(2)] = re.sub(r'\s+', ' ', re.sub(r'^/// ?', '', m.group(1), flags=re.M)).strip()
def lines(cfgs):
    seen = {}
    for c in cfgs: seen.setdefault(c['harness'], []).append(c)
    for h, cs in seen.items():
        doc = re.split(r'(?:[.;] |; )?(?:params? |\b\d: |\b\d\.\.\d |\b\d speeds)', DOC.get(h, ''))[0].strip(' .,(:;')
        yield f"- `{h}`" + (f" ({doc})" if doc else '') + ': ' + ' / '.join(c['bounds'] + (f" [{c['profile']}]" if c['profile'] != 'release' else '') for c in cs)
out = []
for i, p in sorted(PROPS.items()):
    out += [f"### {i} {p['title']}", '', f"Why not by tests: {p['why']} Anchors: " + '; '.join(f'{a} ({b})' for a, b in p['mech']) + '.', '', 'Quick, harness assertions over symbolic inputs (all values within):', *lines(p['quick']), '',
            f"Thorough: {len(p['thorough'])} configurations, deeper on the same harnesses" + (', also with debug assertions and overflow checks compiled in' if any(c['profile'] == 'checked' for c in p['thorough']) else '') + '.', '']
d = open(here + '/DESIGN.md').read()
a, b = '<!-- properties: written by gen.py -->', '<!-- end of properties -->'
d = d[:d.index(a) + len(a)] + '\n\n' + '\n'.join(out) + '\n' + d[d.index(b):]
open(here + '/DESIGN.md', 'w').write(d)
