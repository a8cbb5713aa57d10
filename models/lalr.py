"""LALR(1) tables of the frozen grammar (models/grammar.txt), made by bison, and a parser driven by them.

strict=False: all productions; a shift/reduce conflict is decided for the shift, i.e. a terminator is supplied only where the
next word cannot be taken otherwise.  strict=True: the productions without an elided terminator only."""
import os, re, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))


def productions(strict=False):
    out = []
    for line in open(os.path.join(HERE, 'grammar.txt')):
        line = line.split('#')[0].strip()
        if not line:
            continue
        lhs, rhs = line.split(':', 1)
        syms = rhs.split()
        if strict and any(s[0] == '?' for s in syms):
            continue
        out.append((lhs.strip(), syms))
    # an alternative that nothing can derive (its nonterminal lost all its alternatives) goes too
    while True:
        have = {l for l, _ in out}
        keep = [(l, s) for l, s in out if all(x in have or not is_nt(x) for x in s)]
        if len(keep) == len(out):
            return out
        out = keep


def is_nt(s):
    return s[0] != '?' and (s[0].islower() or s.endswith('_seq'))


class Tables:
    def __init__(self, strict=False):
        self.prods = productions(strict)
        self.terms = sorted({s for _, r in self.prods for s in r if s[0] != '?' and not is_nt(s)})
        y = '%token ' + ' '.join(self.terms) + '\n%expect-rr 0\n%start s0\n%%\ns0 : text ;\n'
        for l, r in self.prods:
            y += '%s : %s ;\n' % (l, ' '.join(x for x in r if x[0] != '?'))
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'g.y')
            open(p, 'w').write(y)
            r = subprocess.run(['bison', '-Wno-conflicts-sr', '--xml=' + d + '/g.xml', '-o', d + '/g.c', p],
                               stderr=subprocess.PIPE)
            if r.returncode:
                raise RuntimeError(r.stderr.decode())
            root = ET.parse(d + '/g.xml').getroot()
        # rule 0: $accept, rule 1: s0 : text, rule i+2: prods[i]
        self.rules = {}
        for ru in root.iter('rule'):
            n = int(ru.get('number'))
            self.rules[n] = (ru.find('lhs').text, [s.text for s in ru.find('rhs').findall('symbol')])
        for i, (l, r) in enumerate(self.prods):
            assert self.rules[i + 2] == (l, [x for x in r if x[0] != '?']), (self.rules[i + 2], l, r)
        aut = root.find('automaton')
        n = len(aut.findall('state'))
        self.action = [None] * n
        self.default = [None] * n
        self.goto = [None] * n
        self.items = [None] * n
        for st in aut.findall('state'):
            k = int(st.get('number'))
            act, gt = {}, {}
            for t in st.find('actions').find('transitions').findall('transition'):
                (act if t.get('type') == 'shift' else gt)[t.get('symbol')] = int(t.get('state'))
            dflt = None
            reds = st.find('actions').find('reductions')
            for r in reds.findall('reduction'):
                if r.get('enabled') != 'true':
                    continue
                ru = -1 if r.get('rule') == 'accept' else int(r.get('rule'))
                if r.get('symbol') == '$default':
                    dflt = ru
                else:
                    act[r.get('symbol')] = ('r', ru)
            self.action[k], self.default[k], self.goto[k] = act, dflt, gt
        self.len = {n: len(r) for n, (l, r) in self.rules.items()}
        self.lhs = {n: l for n, (l, r) in self.rules.items()}

    def parse(self, toks, trace=None, tree=False):
        """toks: list of terminals (with markers), or of (terminal, leaf).  Returns None when accepted (or the tree), else the
        index of the token refused.  trace: a set that collects (state, lookahead)."""
        stack = [0]
        vals = []
        i, n = 0, len(toks)
        leafs = tree
        while True:
            s = stack[-1]
            t = toks[i] if i < n else '$end'
            if leafs and i < n:
                t, leaf = t
            if trace is not None:
                trace.add((s, t))
            a = self.action[s].get(t)
            if a is None:
                d = self.default[s]
                if d is None:
                    return i
                a = ('r', d)
            if a.__class__ is int:
                if t == '$end':
                    return vals[0] if tree else None
                stack.append(a)
                if tree:
                    vals.append(leaf)
                i += 1
            else:
                r = a[1]
                if r == -1:
                    return vals[0] if tree else None
                k = self.len[r]
                if tree:
                    ch = vals[len(vals) - k:]
                    del vals[len(vals) - k:]
                    if r >= 2:
                        node, j = [], 0
                        for x in self.prods[r - 2][1]:
                            if x[0] == '?':
                                node.append(('?', x[1:]))
                            else:
                                if ch[j] is not None:
                                    node.append(ch[j])
                                j += 1
                        vals.append((self.lhs[r], node))
                    else:
                        vals.append(ch[0])
                if k:
                    del stack[-k:]
                stack.append(self.goto[stack[-1]][self.lhs[r]])


if __name__ == '__main__':
    import time
    for st in (False, True):
        t = time.time()
        T = Tables(st)
        print(st, len(T.prods), len(T.action), len(T.terms), time.time() - t)
