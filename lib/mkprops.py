"""Writes properties.jsonl (kept as Python so that the long strings stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe, hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': state,
                          'observe_at': observe, 'hook_needed': hook}})


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_text.py')).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
