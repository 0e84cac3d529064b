#!/usr/bin/env python3
"""writes MANIFEST.json from the plan"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plan import PLAN

SEQ = {'C01', 'C02', 'C03', 'C04', 'C14'}
T_SEQ = 'runtime monitoring: instrumented real code on generated histories, judged by trace monitors and a reference interpreter'
T_MT = 'runtime monitoring: instrumented real code under a controlled scheduler and virtual clock, event logs judged by the property\'s monitor'
m = dict(
    version=1,
    setup_cmd='python3 check.py setup',
    checks=[
        dict(property=p, quick_cmd='python3 check.py ' + p,
             thorough_cmd='python3 check.py %s thorough' % p,
             technique=T_SEQ if p in SEQ else T_MT,
             level='exploration',
             level_note='holds on the executions observed (counts in the evidence file); trusts the std facade of vrt/ and the monitors')
        for p in sorted(PLAN)],
    not_applicable=[],
    notes='No hooks in /repo: the checks instrument a copy of /repo/src (tools/instrument.py). DESIGN.md describes the rest.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
