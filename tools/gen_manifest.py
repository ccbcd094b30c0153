#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine_props, other_props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
ENGINE = ('TLA+ engine machine (Adapton.tla) model-checked with TLC against the from-scratch oracle (Scratch.tla, Monitor.tla); '
          'TLC-enumerated and random histories run in the real engine and trace-validated with TLC (Trace.tla)')
TECH = dict({p: ENGINE for p in list(engine_props.PROPS) + list(engine_props.SPECIAL)}, **other_props.TECH)
NOTE = {'engine': 'Every history up to a bound of small program families is explored on the specification and replayed in the real engine; '
                  'random larger programs and histories are validated against the specification. Bounded and sampled, not a proof. Trusted: TLC, '
                  'the harness interpreter (harness/src/eng.rs) that executes program instructions through the public interface.'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                       'technique': TECH[i], 'level': 'model_checking', 'level_note': other_props.NOTE.get(i, NOTE['engine'])})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
