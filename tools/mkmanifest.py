#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = ('Every recorded call of the real code is checked by TLC to be a step of the TLA+ specification with the specified outcome; '
        'the calls are drawn at random (seeded) from families of type definitions, values, options and histories made for this property. '
        'Trusted: what Python itself does with scalars (equality, hash, str, int(x), Path(x)...), given to TLC as facts with each trace; '
        'TLC; the encoder of values and types. Nothing is claimed about inputs outside the families.')
EXTRA = {'C19': ' Threads are scheduled deterministically at line granularity; the schedules are sampled, not enumerated.'}
m = dict(version=1, setup_cmd='./setup.sh', checks=[
    dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='./check.sh ' + i, technique='TLA+ specification of the library, checked with TLC (the properties are theorems about it); histories enumerated by TLC replayed on the real code; '
         'traces recorded from the real code validated against it by TLC', level='model_checking', level_note=NOTE + EXTRA.get(i, ''))
    for i in ids], not_applicable=[], notes='No hooks: the library is a function library, its public API is all the checks use. DESIGN.md describes the specification.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
