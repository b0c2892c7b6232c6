"""writes MANIFEST.json from the jobs and rules that exist"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
import jobs, rules
from notes import TECH, NOTE, NA
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
have = set()
for j in jobs.J: have |= set(j.props)
for r in rules.RULES: have |= set(r.props)
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if i not in have: na.append(dict(property=i, reason='no check has been built for it')); continue
    checks.append(dict(property=i, quick_cmd='bash check.sh ' + i, thorough_cmd='bash check.sh ' + i, evidence_file='evidence/%s.json' % i,
                       technique=TECH.get(i, TECH['*']), level='other', level_note=NOTE.get(i, NOTE['*'])))
m = dict(version=1, setup_cmd='bash tools/build.sh', checks=checks, not_applicable=na,
         notes='No hooks are used: the analysis reads the source as it is. Reference definitions are in spec/, the analyser in sa/, the clang based exporter in tools/astx.cc.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
