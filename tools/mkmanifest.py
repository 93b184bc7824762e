"""Source of MANIFEST.json (run: python3 tools/mkmanifest.py). A property is claimed when checks/<id>.py exists."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
SCHED = 'stateless model checking of the real code: exhaustive deviation-bounded thread schedules under a controlled scheduler'
SEQ = 'exhaustive bounded enumeration of operation sequences on the real code against a reference model'
FAULT = 'exhaustive fault injection at every step of bounded histories of the real code'
TECH = {
    'C01': SCHED + '; ' + SEQ, 'C02': SCHED + '; ' + SEQ, 'C03': SCHED + '; ' + SEQ, 'C04': SCHED + '; ' + SEQ,
    'C05': FAULT + '; ' + SCHED, 'C13': SEQ + '; ' + SCHED, 'C14': SEQ + '; ' + SCHED, 'C16': SCHED, 'C17': SCHED + '; ' + FAULT,
    'C18': SEQ + '; ' + FAULT, 'C19': FAULT, 'C25': FAULT + '; ' + SCHED,
    'C10': SEQ + '; ' + SCHED, 'C11': SEQ + '; ' + SCHED, 'C12': SEQ + '; ' + SCHED, 'C26': SEQ + '; ' + SCHED, 'C27': SEQ + '; ' + SCHED, 'C30': SEQ + '; ' + SCHED, 'C31': SEQ + '; ' + SCHED,
}
NOTE = ('Exhaustive within the bounds listed in the evidence (participants, deviation bound, alphabets, depths), executed on the real '
        'code of /repo through its public API; nothing is claimed beyond the bounds. Trusts the interpreter, the standard '
        'library and the cooperative primitives of mc/sched.py.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH.get(i, SEQ), level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='The check is not built yet.'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks replace blocking primitives before importing polog.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
