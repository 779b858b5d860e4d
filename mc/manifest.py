#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has scenarios in zz/harness."""
import json, re, glob, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
have = set()
for f in glob.glob(here + '/zz/harness/*.go'):
    have |= set(re.findall(r'reg\("(C\d\d)"', open(f).read()))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
sched = "stateless model checking of the implementation: all thread schedules within a deviation bound, happens-before state caching, race-detector passes"
inp = "explicit-state enumeration: the implementation is run on every input of a bounded space and compared with a reference model"
both = "explicit-state enumeration of inputs against a reference model, plus all thread schedules of the implementation within a deviation bound"
env = "stateless model checking of the implementation: all peer/network/disk behaviours and schedules of bounded scenarios"
tech = {'C01': inp, 'C02': inp, 'C03': inp, 'C04': inp, 'C05': both, 'C06': sched, 'C07': both, 'C08': both, 'C09': sched, 'C10': both,
        'C11': sched, 'C12': inp, 'C13': inp, 'C14': sched, 'C15': both, 'C16': both, 'C17': env + " with crash and fault injection", 'C18': env, 'C19': env, 'C20': sched,
        'C21': inp, 'C22': sched, 'C23': sched, 'C24': sched, 'C25': both, 'C26': inp, 'C27': both, 'C28': inp, 'C29': both, 'C30': both, 'C31': inp}
checks, na = [], []
for p in props:
    if p['id'] in have:
        checks.append({
            "property": p['id'],
            "quick_cmd": "mc/check.sh %s --tier quick" % p['id'],
            "thorough_cmd": "mc/check.sh %s --tier thorough" % p['id'],
            "evidence_file": "evidence/%s.json" % p['id'],
            "technique": tech[p['id']],
            "level": "model_checking",
            "level_note": "Exhaustive within the bounds written in the evidence file (scenario list, deviation bounds, input spaces); runs the real code rebuilt from /repo with scheduler, channels, locks, clock, sockets, files and map order replaced by controlled shims. Trusts the shims to have the documented semantics, and data-race freedom between scheduling points (checked by the race-detector passes).",
        })
    else:
        na.append({"property": p['id'], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "mc/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: checks build an instrumented copy of the working tree in a scratch directory. Replay a reported violation with: mc/check.sh replay <file>."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
