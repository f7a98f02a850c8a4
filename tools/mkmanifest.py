"""Writes /verif/MANIFEST.json from the registered checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo']
from mon import registry  # noqa: E402

NOTE = ('Exploration: every execution of the stated workload is judged by an oracle that shares no code with the '
        'library (%s). Random but reproducible from VERIF_SEED; a run in which a required situation was not reached '
        'is inconclusive, not a pass. Trusts the oracle, CPython, networkx and the stated domain (DESIGN.md).')
checks = []
for pid, cls in sorted(registry.all_checks().items()):
    checks.append({'property': pid, 'quick_cmd': './check %s --tier quick' % pid,
                   'thorough_cmd': './check %s --tier thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid, 'technique': cls.technique, 'level': cls.level,
                   'level_note': NOTE % cls.rule.split(';')[0].replace('a case is ', 'case: ')})
doc = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': [],
       'notes': 'No hooks in /repo: every monitor works through the public interface (plus a wrapper put around '
                'sklearn\'s predict inside the check process for C06).'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
