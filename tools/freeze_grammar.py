"""Used once, to write down models/grammar.txt: the productions of rpc2x.y (after its errors were repaired), one per line, as
`lhs : symbols`, with ?XXX where an elidable terminator XXX is missing.  Error productions are left out.  The checks read
only the frozen file, never rpc2x.y."""
import re, sys
src = open(sys.argv[1]).read().split('%%', 1)[1]
src = src.replace('/* Empty */', '')
src = re.sub(r'/\* ET ([A-Za-z]+) \*/', r' ?\1 ', src)
src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
src = re.sub(r'\{[^{}]*\}', ' {} ', src, flags=re.S)
out = []
for rule in src.split(';'):
    if ':' not in rule:
        continue
    lhs, rhs = rule.split(':', 1)
    lhs = lhs.strip()
    for alt in rhs.split('|'):
        syms = alt.split()
        if 'error' in syms or '{}' in syms or 'IMPOSSIBLE_TOKEN' in syms:
            continue
        out.append((lhs, syms))
# drop unused nonterminals
prods = {}
for l, s in out:
    prods.setdefault(l, []).append(s)
reach, todo = set(), ['text']
while todo:
    n = todo.pop()
    if n in reach:
        continue
    reach.add(n)
    for s in prods[n]:
        todo += [x for x in s if x in prods]
for l, s in out:
    if l in reach:
        print(l, ':', *s)
