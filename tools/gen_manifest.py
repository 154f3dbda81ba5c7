#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'property-based testing: '
CLAIMS = {
 'C01': (T + 'generated pairs, triples and streams; algebraic laws, round trips, independent decoder', 'All 65,536 pairs are covered for text and binary form in every run; order laws and stream positions are sampled.'),
 'C02': (T + 'generated inputs run through the real wdt_gen_stats binary against a reference counter', 'Sampled inputs up to about 600 kB; the program is built with AddressSanitizer.'),
 'C03': (T + 'generated flag/model combinations run through the real wdt_gen_files binary; size, isolation and run-twice oracles', 'Sampled configurations up to 150 kB of output; thread schedules are whatever the machine produces.'),
 'C04': (T + 'chain validity predicate and frequency oracle over the output of the real wdt_gen_files binary', 'Sampled models; frequencies use a tolerance of 6 sigma plus 3 percent.'),
 'C05': (T + 'round trips, reference codec, boundary buffers under AddressSanitizer', 'Sampled values biased to bit-length boundaries, all truncation/too-small positions of sampled values.'),
}
try:
    exec(open(V + '/tools/claims.py').read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = globals().get('NA', {})
m = {
 'version': 1,
 'setup_cmd': 'python3 tools/setup.py',
 'checks': [],
 'not_applicable': [],
 'notes': 'No hooks in /repo are needed: the checks compile /repo\'s sources as they are against /verif/shim (stand-in for folly). See DESIGN.md.',
}
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, note = CLAIMS[i][:2]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --thorough',
                                evidence_file=f'evidence/{i}.json', technique=t,
                                level=CLAIMS[i][2] if len(CLAIMS[i]) > 2 else 'exploration', level_note=note))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'Applicable to this family; the harness is not finished in this revision.')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
