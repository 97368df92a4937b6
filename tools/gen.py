#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from data.py and the harnesses that exist."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from data import PROPS
NA = {'C30': 'The part of the native backend that serves requests (gRPC services, pipeline parts, context values, XES and bxes reading, clustering, colours) is written against Rust crates '
             '(tonic, prost, tokio streams, quick-xml, bxes, linfa, ndarray) that are not in the offline cache, so it can neither be built nor encoded and a counterexample could not be '
             'replayed. The algorithms below it, which need none of these crates, are decided by C36 and the following properties.'}
RTECH = ('Concolic symbolic execution of the real Rust source, compiled with a symbolic type for event classes and names, with z3 deciding every '
         'comparison and every assertion')
TECH = 'Concolic symbolic execution of the real Python source with z3 deciding every branch and assertion'
NOTE = ('Bounded: holds for every value of the symbolic inputs (names, characters, numbers, flags, choices) in each stated shape; the '
        'bounds and the configurations that were not finished are in the evidence. Every path witness is replayed on the unmodified code. '
        'Trusts z3, the CPython proxies for int/str/bool and the models of library calls named in the evidence.')
RNOTE = ('Bounded: holds for every value of the symbolic classes, names and bounds in each stated shape and for the explored hash seeds; the bounds are in the evidence. Every path witness is replayed '
         'on the natively compiled code. Trusts z3, rustc, the symbolic element type put in place of u64 / String and the stand-ins for missing crates, which the code decided here does not use. '
         'If a change makes the symbolic build impossible, the values are decided by the solver up to their order and the native build runs once per ordering.')


def three(text):
    """at most three sentences"""
    parts = re.split(r'\.\s+(?=[A-Z])', text)
    return '. '.join(parts[:2] + ['; '.join([parts[2]] + [x[0].lower() + x[1:] for x in parts[3:]])]) if len(parts) > 3 else text


with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        p['statement'] = three(p['statement'])
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'props', i + '.py')):
        rust = p['anchors']['files'][0].endswith('.rs')
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': RTECH if rust else TECH, 'level': 'other',
                       'level_note': RNOTE if rust else NOTE})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
import jsonschema
for x in PROPS:
    jsonschema.validate(x, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    assert len(x['title']) <= 80, x['id']
jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'n/a')
