#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props_meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_meta import PROPS, NA, HOOK  # noqa
HOOK_COMMITS = ['af36b73']


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for pid, p in PROPS.items():
            f.write(json.dumps(dict(
                id=pid, title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             observe_at=['public C++ API of e_float, compared with an independent oracle (MPFR at higher precision, exact integers, or a model)'],
                             hook_needed=HOOK))) + '\n')
    checks, na = [], []
    for pid, p in PROPS.items():
        if pid in NA:
            na.append(dict(property=pid, reason=NA[pid]))
            continue
        checks.append(dict(
            property=pid, quick_cmd=f'python3 run.py {pid} quick', thorough_cmd=f'python3 run.py {pid} thorough',
            evidence_file=f'evidence/{pid}.json',
            technique=p.get('technique', 'property-based testing: generated inputs with shrinking against a high-precision reference (MPFR)'),
            level='exploration',
            level_note=p['note'] or 'Generated-input search, no proof of absence. Trusts the oracle (MPFR/GMP system libraries at more than twice the precision, exact integer arithmetic) and the decoder of the stored value; the back ends and digit counts covered are listed in the evidence.'))
    m = dict(version=1, setup_cmd='python3 run.py --setup',
             hooks=dict(guard='E_FLOAT_VERIF_HOOKS', enable='compile /repo sources with -DE_FLOAT_VERIF_HOOKS (run.py does; optional -DE_FLOAT_VERIF_DIGITS10=n)', source_commits=HOOK_COMMITS),
             checks=checks, not_applicable=na,
             notes='props_meta.py is the source of properties.jsonl and MANIFEST.json (tools/gen.py). Checks build into /verif/build (ignored by git), keyed by content hash of /repo and harness sources.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


main()
