"""C06 grammar acceptance and C07 structure: replays the traces of the LALR model (models/corpus_*.txt.gz) against jbofihe."""
import gzip, itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v
import gram
import shape
import lexmodel as L

MODELS = os.path.join(v.VERIF, 'models')


def corpus(name):
    with gzip.open(os.path.join(MODELS, 'corpus_%s.txt.gz' % name), 'rt') as f:
        for line in f:
            ok, _, s = line.rstrip('\n').partition(' ')
            yield int(ok), tuple(s.split())


def variant(c):
    """which word of each class is written: varies with the sequence, the same in every run"""
    h = 0
    for x in c:
        for ch in x:
            h = (h * 31 + ord(ch)) & 0xffff
    return h


def text_of(c):
    return gram.text(gram.words_for(c, variant(c)))


# ------------------------------------------------------------------------------------------------------------- C06
def c06(binary, dic):
    chk = v.Check('C06')
    env = {'JBOFIHE_DICTIONARY': dic}

    def judge(exp, r):
        if r.timeout:
            return 'no answer'
        if exp and r.code != 0:
            return 'refused (exit %s), the grammar accepts it' % r.code
        if not exp and r.code not in (1, 2):
            return 'exit %s, the grammar refuses it' % r.code
        if not exp and 'SYNTAX ERROR' not in r.etext() and 'Unrecognizable' not in r.etext() and 'Missing selbri' not in r.etext():
            return 'refused without a message'
        return None

    def work(cases):
        s = v.server(binary, env)
        bad = []
        for opts in ([], ['-re']):
            sel = [c for c in cases if bool(opts) == c[0]]
            txt = [text_of(c[2]) for c in sel]
            for c, t, r in zip(sel, txt, s.batch([(opts, t) for t in txt])):
                why = judge(c[1], r)
                if why and judge(c[1], s.run(opts, t)):
                    bad.append((' '.join(opts + [t.strip()]), why, ' '.join(c[2])))
        return len(cases), sum(c[1] for c in cases), sum(len(c[2]) + 1 for c in cases), bad

    def gen():
        seen = set()
        # every sequence of up to two word classes, both ways
        for n in (0, 1, 2):
            for c in itertools.product(gram.CLASSES, repeat=n):
                if any(x in gram.LEAD_ONLY and not all(y in gram.LEAD_ONLY for y in c[:i]) for i, x in enumerate(c)):
                    continue
                leaves = gram.words_to_leaves(gram.words_for(c, variant(c)))
                for strict in (False, True):
                    m = gram.marked(leaves)
                    ok = gram.tables(strict).parse([t for t, _ in m]) is None
                    seen.add((strict, c))
                    yield strict, int(ok), c
        for strict in (False, True):
            for name in ('', '_deep', '_d2'):
                for ok, c in corpus(('strict' if strict else 'elide') + name):
                    if (strict, c) not in seen:
                        if name != '_d2':
                            seen.add((strict, c))
                        yield strict, ok, c
    if v.THOROUGH:
        import importlib.util
        spec = importlib.util.spec_from_file_location('gen_corpus', os.path.join(v.VERIF, 'tools', 'gen_corpus.py'))
        G = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(G)

        def deep():
            yield from gen()
            for strict in (False, True):
                for s, ok in G.build(strict, 3).items():
                    yield strict, ok, s
        source = deep()
    else:
        source = gen()
    for n, a, tr, bad in v.pmap(work, source, 500):
        chk.add('traces_validated_against_impl', n)
        chk.add('accepted', a)
        chk.add('transitions', tr)
        for text, why, cl in bad:
            if not chk.known(text):
                chk.violation('%r: %s' % (text, why), {'cmd': 'jbofihe', 'text': text, 'classes': cl, 'why': why})
    chk.cov['states'] = len(gram.tables(False).action) + len(gram.tables(True).action)
    for ok, c in itertools.islice(corpus('elide'), 40000, 80000, 8000):
        chk.sample({'text': text_of(c).strip(), 'accepted': bool(ok)})
    chk.assumptions = ['states = states of the two LALR automata of the frozen grammar (models/grammar.txt), with elidable terminators and without',
                       'every class of prefix (top two parser states) is followed by every word class; one to three continuations each',
                       'the strict automaton was checked against the published EBNF (models/bnf.txt) by Earley recognition of every strict trace (tools/check_model.py)',
                       'one word stands for its class; which one varies over the traces (C13 checks the class of every cmavo)']
    return chk


# ------------------------------------------------------------------------------------------------------------- C07
ELIDABLE = {'BEhO', 'BOI', 'CU', 'DOhU', 'FEhU', 'GEhU', 'KEI', 'KEhE', 'KU', 'KUhE', 'KUhO', 'LIhU', 'LOhO', 'LUhU', 'MEhU',
            'NUhU', 'SEhU', 'TEhU', 'TOI', 'TUhU', 'VAU', 'VEhO'}


def closed(c):
    """the sequence with every elided terminator written out, by the model"""
    t = gram.tables(False).parse([(x, x) if not x.startswith('PRIVATE') else (x, None) for x in gram.M.mark(list(c))], tree=True)
    out = []

    def go(n):
        if isinstance(n, str):
            out.append(n)
        elif n[0] == '?':
            out.append(n[1])
        else:
            for k in n[1]:
                go(k)
    go(t)
    return tuple(out)


def se_groups(text, err):
    """-se report -> list of (first (line, col), last (line, col) or None, alternatives: list of kept word lists)"""
    res = []
    blocks = re.split(r'\n\s*\n', text)
    for b in blocks:
        m = re.match(r"You could omit the word '(.*)' \(at line (\d+) col (\d+)\)", b)
        if m:
            res.append((m.group(1).split(), (int(m.group(2)), int(m.group(3))), [[]]))
            continue
        m = re.match(r"You could omit (?:both|all) the words '(.*)'\s+\(from line (\d+) col (\d+) to line \d+ col \d+\)", b)
        if m:
            res.append((m.group(1).split(), (int(m.group(2)), int(m.group(3))), [[]]))
            continue
        m = re.match(r"The words '(.*)'\s+\(from line (\d+) col (\d+) to line \d+ col \d+\)\s+could be safely reduced to", b)
        if m:
            alts = [x.split() for x in re.findall(r'Pattern \d+ :(.*)', b)]
            if not alts:
                x = re.search(r'could be safely reduced to(?: the pattern)?[ :]*(.*)', b)
                alts = [x.group(1).replace("'", ' ').split()]
            res.append((m.group(1).split(), (int(m.group(2)), int(m.group(3))), alts))
    return res


def c07(binary, dic):
    chk = v.Check('C07')
    env = {'JBOFIHE_DICTIONARY': dic}

    def shapes(words, strict=False):
        t = gram.tree(words, strict)
        return {k: shape.model(t, *k) for k in ((False, False), (False, True), (True, False), (True, True))}

    def get(kind, r):
        if r.code != 0:
            return 'exit %s' % r.code
        try:
            return shape.from_tree(r.text()) if kind == 't' else shape.from_brackets(r.text())
        except ValueError as e:
            return 'unreadable: %s' % e

    def norm(s):
        return s.replace("la'o gy foo gy", 'zoi gy foo gy')

    RUNS = [(['-t', '-ie'], 't', (True, False)), ([], 'b', (False, True)), (['-ie'], 'b', (True, True)), (['-tf'], 't', (False, False))]

    def work(cases):
        s = v.server(binary, env)
        bad, runs = [], 0
        el = [c for st, c in cases if not st]
        if el:
            ws = [gram.words_for(c, variant(c)) for c in el]
            sh = [shapes(w) for w in ws]
            for opts, kind, key in RUNS:
                for c, w, m, r in zip(el, ws, sh, s.batch([(opts, gram.text(w)) for w in ws])):
                    runs += 1
                    g = get(kind, r)
                    if norm(g) != norm(m[key]) and norm(get(kind, s.run(opts, gram.text(w)))) != norm(m[key]):
                        bad.append((' '.join(opts + [gram.text(w).strip()]), 'structure %s, expected %s' % (g, m[key])))
            # the closed text
            cs = [(c, closed(c), w, m) for c, w, m in zip(el, ws, sh)]
            texts = []
            for c, k, w, m in cs:
                # words: those of the text, with the terminators put in
                texts.append(gram.text(m[(True, False)].replace('(', ' ').replace(')', ' ').lower().split()))
            for (c, k, w, m), t, r in zip(cs, texts, s.batch([(['-re', '-t'], t) for t in texts])):
                runs += 1
                want = m[(True, False)].lower()
                g = get('t', r)
                if norm(g) != norm(want) and norm(get('t', s.run(['-re', '-t'], t))) != norm(want):
                    bad.append(('-re ' + t.strip(), 'structure %s with the terminators written out, expected %s (from %r)' % (
                        g, want, gram.text(w).strip())))
            # what -se says of the closed text
            # (the report lists every minimal pattern: their number is exponential in the nesting)
            short = [t for t in texts if len(t.split()) <= 40]
            for t, r in zip(short, s.batch([(['-se'], t) for t in short])):
                runs += 1
                w = t.replace('.', ' ').split()
                bb = judge_se(w, r)
                if bb and judge_se(w, s.run(['-se'], t)):
                    bad += bb[:3]
            # and once more with an indicator on one of the terminators
            var = []
            for (c, k, w, m), t in zip(cs, texts):
                if len(t.split()) > 40:
                    continue
                w = t.replace('.', ' ').split()
                at = [i for i, x in enumerate(w) if L.CMAVO.get(x, ('',))[0] in ELIDABLE]
                if at:
                    i = at[variant(c) % len(at)] + 1
                    w = w[:i] + ['ui'] + w[i:]
                    if gram.tree(w) is not None:
                        var.append(w)
            for w, r in zip(var, s.batch([(['-se'], gram.text(w)) for w in var])):
                runs += 1
                bb = judge_se(w, r)
                if bb and judge_se(w, s.run(['-se'], gram.text(w))):
                    bad += bb[:3]
        st = [c for x, c in cases if x]
        if st:
            ws = [gram.words_for(c, variant(c)) for c in st]
            sh = [shapes(w, True) for w in ws]
            for c, w, m, r in zip(st, ws, sh, s.batch([(['-re', '-t'], gram.text(w)) for w in ws])):
                runs += 1
                g = get('t', r)
                if norm(g) != norm(m[(True, False)]) and norm(get('t', s.run(['-re', '-t'], gram.text(w)))) != norm(m[(True, False)]):
                    bad.append(('-re ' + gram.text(w).strip(), 'structure %s, expected %s' % (g, m[(True, False)])))
            ws = [w for w in ws if len(w) <= 60]
            for w, r in zip(ws, s.batch([(['-se'], gram.text(w)) for w in ws])):
                runs += 1
                bb = judge_se(w, r)
                if bb and judge_se(w, s.run(['-se'], gram.text(w))):
                    bad += bb[:3]
        return len(cases), runs, bad

    def judge_se(w, r):
        text = gram.text(w)
        base = gram.tree(w)
        if base is None or r.code != 0:
            return [('-se ' + text.strip(), 'exit %s' % r.code)]
        def norm_cu(x):     # cu only separates: written or not, the grouping is the same
            return x.replace(' cu ', ' ')
        want = norm_cu(shape.model(base, True, False).lower())
        # positions of the words
        pos, col = [], 1
        for x in text.split():
            pos.append(col)
            col += len(x) + 1
        out = []
        for words, (line, c0), alts in se_groups(r.text(), ''):
            if c0 not in pos or w[pos.index(c0):pos.index(c0) + len(words)] != words:
                out.append(('-se ' + text.strip(), 'words %s are not at column %d' % (words, c0)))
                continue
            i = pos.index(c0)
            for a in alts[:60]:
                w2 = w[:i] + a + w[i + len(words):]
                t2 = gram.tree(w2)
                got = 'refused' if t2 is None else norm_cu(shape.model(t2, True, False).lower())
                if got != want:
                    out.append(('-se ' + text.strip(), 'says %s may be reduced to %s, but then the structure is %s instead of %s' % (words, a, got, want)))
        return out

    def gen():
        for ok, c in corpus('elide' if not v.THOROUGH else 'elide_d2'):
            if ok:
                yield False, c
        for ok, c in corpus('strict' if not v.THOROUGH else 'strict_d2'):
            if ok:
                yield True, c
        for st in (False, True):
            for ok, c in corpus('strict_deep' if st else 'elide_deep'):
                if ok:
                    yield st, c
    for n, runs, bad in v.pmap(work, gen(), 300):
        chk.add('traces_validated_against_impl', n)
        chk.add('executions', runs)
        for text, why in bad:
            if not chk.known(text):
                chk.violation('%r: %s' % (text, why), {'cmd': 'jbofihe', 'text': text, 'why': why})
    chk.cov['states'] = len(gram.tables(False).prods)
    chk.cov['transitions'] = chk.cov['executions']
    for ok, c in itertools.islice(corpus('elide'), 90000, 120000, 5000):
        if ok:
            w = gram.words_for(c, variant(c))
            chk.sample({'text': gram.text(w).strip(), 'structure': shape.model(gram.tree(w), True)})
    return chk


if __name__ == '__main__':
    fn = {'C06': c06, 'C07': c07}[sys.argv[1]]
    b = v.start_build()
    gram.tables(False), gram.tables(True)
    d = v.finish_build(b)
    fn(d + '/jbofihe', d + '/smujmaji.dat').finish()
