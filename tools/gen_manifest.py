#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
# property -> what its check enumerates
CLAIMED = {}
exec(open(here + '/tools/claims.py').read())
NA = {
}
TECH = {
 '': 'stateless model checking of the real code under a controlled scheduler with exhaustive, deviation-bounded enumeration of interleavings, inputs and environment faults',
 'C26': 'exhaustive enumeration of a bounded grammar of service definitions (the states) and of the calls on each (the transitions), executed on the real generator, compiler and runtime',
 'C30': 'exhaustive enumeration of a bounded grid of command lines and of all behaviours of the peer out of an alphabet (every cut of its answer), executed on the tools as built from the tree',
 'C27': 'exhaustive enumeration of a bounded grid of configurations and of all actions of a network attacker (every byte and record of the exchange), executed on the real code with real crypto/tls over loopback TCP',
}
checks = []
for p in props:
    i = p['id']
    if i not in CLAIMED:
        continue
    race = i == 'C24'
    arg = ' race' if race else ''
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} quick{arg}',
        'thorough_cmd': f'./check.sh {i} thorough{arg}',
        'evidence_file': f'evidence/{i}.json',
        'technique': TECH.get(i, TECH['']),
        'level': 'model_checking',
        'level_note': CLAIMED[i],
    })
na = []
for p in props:
    if p['id'] not in CLAIMED:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
m = {
 'version': 1,
 'setup_cmd': './build.sh plain && ./build.sh race',
 'checks': checks,
 'not_applicable': na,
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
