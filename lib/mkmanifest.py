"""Writes MANIFEST.json from the list below."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
CH = []
NA = []


def check(pid, cmd, technique, note, level='model_checking', thorough=True):
    c = {'property': pid, 'quick_cmd': 'VERIF_TIER=quick python3 ' + cmd, 'technique': technique, 'level': level, 'level_note': note}
    if thorough:
        c['thorough_cmd'] = 'VERIF_TIER=thorough python3 ' + cmd
    CH.append(c)


exec(open(os.path.join(D, 'manifest_text.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(D, '..', 'properties.jsonl'))]
done = {c['property'] for c in CH}
for i in ids:
    if i not in done:
        NA.append({'property': i, 'reason': REASONS.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': SETUP, 'hooks': {'guard': 'none', 'enable': 'no hook is needed: the checks run the unmodified programs', 'source_commits': []},
     'checks': CH, 'not_applicable': NA, 'notes': NOTES}
with open(os.path.join(D, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(CH), 'checks', len(NA), 'not applicable')
