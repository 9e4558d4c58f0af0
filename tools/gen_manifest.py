import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/vc')
import props
T = 'contract-based deductive verification of the compiled headers (own VC generator over LLVM IR, rely/guarantee contracts, z3)'
N = json.load(open(H + '/tools/notes.json'))
allp = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=[], not_applicable=[])
for p in allp:
    if p in props.PROPS:
        m['checks'].append(dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                                evidence_file='evidence/%s.json' % p, technique=T, level='proof', level_note=N.get(p, N['default'])))
    else:
        m['not_applicable'].append(dict(property=p, reason='contracts for this part are under construction'))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
