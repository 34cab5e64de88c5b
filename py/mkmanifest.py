"""Writes /verif/MANIFEST.json from registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, user
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLC validation of recorded executions against the TLA+ specification (generated programs'
checks = []
for pid, c in sorted(registry.CHECKS.items()):
    t = T + (', programs enumerated by TLC from ' + ', '.join(sorted(set(user.FAM[e[0]][0] for e in c['enum']))) if c.get('enum') else '') + (', systematic schedule search' if c.get('dfs') else ', randomised schedules and networks') + ')' + (' and TLC model checking of ' + ', '.join(sorted(set(m['cfg'].split('_')[0] for m in c['models']))) if c.get('models') else '')
    checks.append(dict(property=pid, quick_cmd='python3 py/check.py %s quick' % pid, thorough_cmd='python3 py/check.py %s thorough' % pid, technique=t, level=c['level'],
                       level_note=c.get('note', 'Real library code on a model MPI runtime; every event of every run must be a step of the specification in spec/ (TLC). Bounded by the generated programs (up to 6 processes usually and up to 40 in some, small allocations) and schedules explored.')))
json.dump(dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=getattr(registry, 'NOT_APPLICABLE', [])), open(V + '/MANIFEST.json', 'w'), indent=1)
