"""Enumerates traces of the LALR model (models/lalr.py) and writes models/corpus_{elide,strict}.txt.gz: sequences of word classes
with the model's verdict (1 accepted, 0 refused).

 1. every production in up to 10 shortest contexts, every production nested at every place of every production;
 2. from every prefix class (top DEPTH states of the parser's stack after a word is shifted) every word class as the next word,
    completed with the rest of a known sentence, so that every reachable (parser state, next word) pair is exercised.
Run by hand when the model changes; the checks replay the files."""
import collections, gzip, multiprocessing, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import gram
import markers as M

HERE = os.path.dirname(os.path.abspath(__file__))
key = lambda y: (len(y), y)


def rules_in_context(strict, deep=False):
    T = gram.tables(strict)
    prods = T.prods
    by = collections.defaultdict(list)
    for i, (l, r) in enumerate(prods):
        by[l].append(i)
    K, KC = 4, 10
    Y = {n: set() for n in by}

    def silent(s):
        return s[0] == '?' or s.startswith('PRIVATE_')

    def best(s):
        return [()] if silent(s) else sorted(Y[s], key=key)[:K] if s in by else [(s,)]
    ch = True
    while ch:
        ch = False
        for l, r in prods:
            acc = [()]
            for s in r:
                acc = sorted({a + b for a in acc for b in best(s)}, key=key)[:K]
            for a in acc:
                if a not in Y[l]:
                    b = sorted(Y[l], key=key)[:K]
                    if len(b) < K or key(a) < key(b[-1]):
                        Y[l].add(a)
                        ch = True
    Y = {n: sorted(Y[n], key=key) for n in Y}

    def my(s, k=0):
        return () if silent(s) else Y[s][min(k, len(Y[s]) - 1)] if s in by else (s,)

    def seq(ss, k=0):
        return sum((my(x, k) for x in ss), ())
    C = collections.defaultdict(set)
    C['text'].add(((), ()))
    ckey = lambda c: (len(c[0]) + len(c[1]), c)

    def top(n, k=KC):
        return sorted(C[n], key=ckey)[:k]
    ch = True
    while ch:
        ch = False
        for l, r in prods:
            for (L, R) in top(l, 3):
                for p, s in enumerate(r):
                    if s not in by:
                        continue
                    for k in (0, 1):
                        c = (L + seq(r[:p], k), seq(r[p + 1:], k) + R)
                        if c not in C[s]:
                            t = top(s)
                            if len(t) < KC or ckey(c) < ckey(t[-1]):
                                C[s].add(c)
                                ch = True
    if deep:
        return embeddings(prods, by, Y, my, seq, top)
    S = set()
    for l, r in prods:
        cs = top(l)
        for ci, (L, R) in enumerate(cs):
            for k in range(2 if ci > 2 else K):
                S.add(L + seq(r, k) + R)
        for p, s in enumerate(r):
            if s in by:
                for j in by[s]:
                    for (L, R) in cs[:3]:
                        for k in (0, 1):
                            S.add(L + seq(r[:p]) + seq(prods[j][1], k) + seq(r[p + 1:]) + R)
    return sorted(filter(word_level, S), key=key)


def embeddings(prods, by, Y, my, seq, top):
    """every nonterminal embedded in itself 2 to 24 times, in its six shortest ways"""
    ckey = lambda c: (len(c[0]) + len(c[1]), c)
    S = set()
    for n in by:
        C = collections.defaultdict(set)
        for i in by[n]:
            r = prods[i][1]
            for p, s in enumerate(r):
                if s in by:
                    C[s].add((seq(r[:p]), seq(r[p + 1:])))
        ch = True
        while ch:
            ch = False
            for l in list(C):
                if l == n:
                    continue
                for (L, R) in sorted(C[l], key=ckey)[:6]:
                    for i in by[l]:
                        r = prods[i][1]
                        for p, s in enumerate(r):
                            if s in by:
                                c = (L + seq(r[:p]), seq(r[p + 1:]) + R)
                                if c not in C[s]:
                                    t = sorted(C[s], key=ckey)[:6]
                                    if len(t) < 6 or ckey(c) < ckey(t[-1]):
                                        C[s].add(c)
                                        ch = True
        for (L, R) in sorted((c for c in C[n] if c[0] + c[1]), key=ckey)[:6]:
            for (L0, R0) in top(n, 1):
                for k in (2, 3, 4, 6, 8, 12, 16, 24):
                    S.add(L0 + L * k + my(n) + R * k + R0)
    return sorted(filter(word_level, S), key=key)


def states_after_words(T, classes, depth):
    """for each word, the top `depth` states once it is shifted; None if refused"""
    m = M.mark(list(classes))
    stack, i, out = [0], 0, []
    while True:
        s = stack[-1]
        t = m[i] if i < len(m) else '$end'
        a = T.action[s].get(t)
        if a is None:
            if T.default[s] is None:
                return None, out
            a = ('r', T.default[s])
        if a.__class__ is int:
            if t == '$end':
                return True, out
            stack.append(a)
            if not t.startswith('PRIVATE_'):
                out.append(tuple(stack[-depth:]))
            i += 1
        else:
            if a[1] == -1:
                return True, out
            k = T.len[a[1]]
            if k:
                del stack[-k:]
            stack.append(T.goto[stack[-1]][T.lhs[a[1]]])


def word_level(c):
    """False when the word level would not hand just these classes to the grammar (indicators hang on other words)"""
    for a, b in zip(c, c[1:]):
        if b in gram.LEAD_ONLY and a not in gram.LEAD_ONLY:
            return False
        if a in ('UI', 'CAI') and b in ('NAI', 'CAI'):
            return False
    return True


_g = {}
# runs of words that the parser takes together (it looks ahead over them); tried after every prefix like single words
MULTI = [tuple(x.split()) for x in """PA MOI|PA ROI|PA MAI|PA PA MOI|PA BY|BY PA|BY MOI|BY ROI|BY MAI|BU MOI|PA BOI|BY BOI
NA KU|NAhE BO|NAhE PU|NAhE BAI|SE BAI|BAI NAI|PU NAI|PU ZI|PU ZEhA|FAhA VA|MOhI FAhA|FEhE ROI|FEhE TAhE|PA ROI NAI|ZAhO NAI|BAI KI|PU KI|PU CAhA|PU KU|BAI KU|PU JA PU|PU JOI PU|BAI JA BAI
A BO|A KE|A NAI|A NAI BO|A NAI KE|A PU BO|A PU KE|A BAI BO|NA A|SE A|NA SE A|NA A BO|SE A KE
JA BO|JA KE|JA NAI|JA NAI BO|JA PU BO|JA PU KE|NA JA|SE JA|NA SE JA|NA JA BO
JOI BO|JOI KE|JOI NAI|JOI NAI BO|JOI PU BO|JOI PU KE|SE JOI|SE JOI BO|BIhI BO|BIhI KE|SE BIhI|BIhI NAI|GAhO BIhI GAhO|GAhO SE BIhI NAI GAhO|GAhO BIhI GAhO BO|GAhO BIhI GAhO KE|GAhO BIhI|BIhI GAhO
GIhA BO|GIhA KE|GIhA NAI|GIhA NAI BO|GIhA PU BO|GIhA PU KE|GIhA BAI BO|NA GIhA|SE GIhA|NA SE GIhA|NA GIhA BO|SE GIhA KE
I BO|I JA|I JA BO|I JA NAI|I JOI|I JOI BO|I PU BO|I JA PU BO|I NA JA|I SE JA|I NA SE JA BO|I GAhO BIhI GAhO|NIhO BO|I A|I GIhA
GA NAI|SE GA|JOI GI|SE JOI GI|GAhO BIhI GAhO GI|BIhI GI|PU GI|BAI GI|SE BAI GI|PU JA PU GI|PU JOI PU GI|JA GI|GUhA NAI|SE GUhA|GI NAI|PU NAI GI
ZIhE BO|PEhE JA|PEhE JOI|CO KE|KE BO|GOI KU|BO KE|LAhE BO|FIhO BO""".replace('\n', '|').split('|')]


def _expand(arg):
    strict, cls, pre, rest = arg
    T, rem = _g['T'], _g['rem']
    res = []
    for t in [(c,) for c in gram.CLASSES] + _g['multi']:
        if t[0] in gram.LEAD_ONLY and pre and not all(c in gram.LEAD_ONLY for c in pre):
            continue
        p = pre + t
        ok, sts = states_after_words(T, p, 1)
        found = None
        if ok or len(sts) == len(p):
            cands = ([()] if ok else []) + rem.get(sts[-1], []) + [rest, rest[1:]]
            for c in cands:
                if gram.parse_classes(p + c, strict) is None:
                    found = p + c
                    break
        if found:
            res.append((1, found))
        if not found or rest:
            # the continuation that makes a wrongly taken word go unnoticed
            for q in ([p] if not strict else []) + [p + rest]:
                if q != found:
                    res.append((int(gram.parse_classes(q, strict) is None), q))
    return res


def build(strict, depth, limit=None):
    T = gram.tables(strict)
    out = {}
    acc = []
    for s in rules_in_context(strict):
        ok = gram.parse_classes(s, strict) is None
        out[s] = int(ok)
        if ok:
            acc.append(s)
    acc.sort(key=key)
    rem = collections.defaultdict(set)
    pre = {(): ((), ())}
    for s in acc:
        _, sts = states_after_words(T, s, depth)
        assert len(sts) == len(s), s
        for i, st in enumerate(sts):
            r = rem[st[-1:]]
            r.add(s[i + 1:])
            pre.setdefault(st, (s[:i + 1], s[i + 1:]))
    _g['T'] = T
    _g['multi'] = MULTI if depth == 1 else []
    _g['rem'] = {k: sorted(x, key=key)[:6] for k, x in rem.items()}
    print('strict' if strict else 'elide', 'accepted', len(acc), 'of', len(out), 'prefix classes', len(pre), flush=True)
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for r in pool.imap(_expand, [(strict, c, a, b) for c, (a, b) in pre.items()], 4):
            for ok, s in r:
                if word_level(s):
                    out[s] = ok
    return out


def coverage(out, strict):
    tr = set()
    for s in out:
        gram.parse_classes(s, strict, tr)
    return tr


def write(name, out):
    lines = sorted('%d %s' % (ok, ' '.join(s)) for s, ok in out.items())
    with gzip.GzipFile(os.path.join(HERE, '..', 'models', 'corpus_%s.txt.gz' % name), 'wb', mtime=0) as f:
        f.write('\n'.join(lines).encode() + b'\n')


if __name__ == '__main__':
    if sys.argv[1:] == ['deep']:
        for strict in (False, True):
            S = rules_in_context(strict, True)
            out = {c: int(gram.parse_classes(c, strict) is None) for c in S}
            print('deep', len(out), sum(out.values()))
            write(('strict' if strict else 'elide') + '_deep', out)
        sys.exit()
    depth = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    name = sys.argv[2] if len(sys.argv) > 2 else ''
    for strict in (False, True):
        out = build(strict, depth)
        if depth == 1:
            tr = coverage(out, strict)
            print('  sequences', len(out), 'accepted', sum(out.values()), '(state, word) pairs', len(tr), 'states', len({a for a, _ in tr}))
        else:
            print('  sequences', len(out), 'accepted', sum(out.values()))
        write(('strict' if strict else 'elide') + name, out)
