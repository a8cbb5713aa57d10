"""Expands models/bnf.txt (EBNF) to a context-free grammar.  mode 'strict': every elidable terminator is required;
'elide': each may be missing."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))


def load(mode):
    rules = {}
    n = [0]

    def fresh(alts):
        n[0] += 1
        name = '@%d' % n[0]
        rules[name] = alts
        return name

    def parse(s):
        toks = re.findall(r'\.\.\.|[\[\]()|&#/]|[A-Za-z0-9-]+', s)
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else None

        def alt():
            out = [andor()]
            while peek() == '|':
                pos[0] += 1
                out.append(andor())
            return [x for y in out for x in y]

        def andor():
            parts = [cat()]
            while peek() == '&':
                pos[0] += 1
                parts.append(cat())
            if len(parts) == 1:
                return [parts[0]]
            syms = [p[0] if len(p) == 1 else fresh([p]) for p in parts]
            # at least one of them, in order
            res = []
            for m in range(1, 1 << len(syms)):
                res.append([syms[i] for i in range(len(syms)) if m >> i & 1])
            return res

        def cat():
            out = []
            while peek() not in (None, '|', '&', ']', ')'):
                out.append(item())
            return out

        def item():
            t = toks[pos[0]]
            pos[0] += 1
            if t == '[':
                a = alt()
                assert toks[pos[0]] == ']'
                pos[0] += 1
                if peek() == '...':
                    pos[0] += 1
                    x = fresh(a)
                    r = fresh(None)
                    rules[r] = [[], [r, x]]
                    return r
                return fresh(a + [[]])
            if t == '(':
                a = alt()
                assert toks[pos[0]] == ')'
                pos[0] += 1
                x = fresh(a)
            elif t == '#':
                return '@free'
            elif t == '/':
                x = toks[pos[0]]
                pos[0] += 1
                seq = [x]
                if toks[pos[0]] == '#':
                    seq.append('@free')
                    pos[0] += 1
                assert toks[pos[0]] == '/'
                pos[0] += 1
                return fresh([seq] if mode == 'strict' else [seq, []])
            else:
                x = t
            if peek() == '...':
                pos[0] += 1
                r = fresh(None)
                rules[r] = [[x], [r, x]]
                return r
            return x
        a = alt()
        assert pos[0] == len(toks), s
        return a
    for line in open(os.path.join(HERE, 'bnf.txt')):
        line = line.strip()
        if not line or line[0] == '#':
            continue
        l, r = line.split(' = ', 1)
        rules[l] = parse(r)
    rules['@free'] = [[], ['@free', 'free']]
    return rules


def dump(mode, path):
    rules = load(mode)
    nts = {x: i for i, x in enumerate(['text'] + sorted(k for k in rules if k != 'text'))}
    terms = sorted({s for a in rules.values() for r in a for s in r if s not in rules})
    ti = {t: i for i, t in enumerate(terms)}
    with open(path, 'w') as f:
        f.write('%d %d %d\n' % (len(nts), len(terms), sum(len(a) for a in rules.values())))
        f.write(' '.join(terms) + '\n')
        for l, a in rules.items():
            for r in a:
                f.write('%d %d %s\n' % (nts[l], len(r), ' '.join(str(nts[s]) if s in nts else str(-1 - ti[s]) for s in r)))


if __name__ == '__main__':
    import sys
    dump(sys.argv[1], sys.argv[2])
