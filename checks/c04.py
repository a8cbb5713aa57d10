"""C04 erasure and C05 quotation and word binding: every sequence of words over small alphabets, up to a length, against
the reference model of the word level (models/lexmodel.py); plus sweeps over every cmavo."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v
import lexmodel as L
import treeparse as T

EMPH = "ba'e before the nai or intensifier of an indicator"

# multi-word items of the alphabets
ITEMS = {'Z': ['zoi', 'gy', 'mi', 'si', 'gy'], 'Q': ["la'o", 'xy', 'foo', 'xy'], 'Z0': ['zoi', 'gy', 'gy']}


def classify(w):
    if w in L.CMAVO:
        return ('CMV', w)
    if w[-1] in 'aeiou':
        return ('BRV', w)
    return ('CMN', w)


def expected(items, drop=False):
    """-> ('code', exit status) when the text is refused, else ('list', before, after)"""
    words = []
    for it in items:
        words += ITEMS.get(it, [it])
    try:
        toks = L.words_to_tokens(words, classify)
    except L.LexError as e:
        return ('code', e.code), words
    try:
        after = L.tokens_after(toks, drop)
    except L.LexError as e:
        return ('code', e.code), words
    lead, groups = [], []
    for d in after:
        if 'words' in d:
            lead += d['words']
        elif L.selmao(d['t']) == 'FAhO':
            break
        else:
            groups.append(d['bahe'] + [d['t'][1]] + [w for i in d['ind'] for w in i])
    return ('list', [L.show(t) for t in toks], [L.show(d['t']) for d in after], lead, groups), words


def text_of(words):
    return ' '.join(w + '.' if w not in L.CMAVO and w[-1] not in 'aeiou' else w for w in words) + '\n'


def judge(exp, r):
    if r.timeout:
        return 'no answer'
    if exp[0] == 'code':
        if r.code != exp[1] or 'unexpected error' in r.etext():
            return 'exit %s, expected %s' % (r.code, exp[1])
        return None
    got = L.parse_listing(r.text())
    if got is None:
        return 'no token list (exit %s, %s)' % (r.code, r.etext()[:200].strip())
    if got[0] != exp[1]:
        return 'words read %s, expected %s' % (got[0], exp[1])
    if got[1] != exp[2]:
        return 'words left %s, expected %s' % (got[1], exp[2])
    return None


def judge_tree(exp, r):
    """the attachment of emphasis and indicators, as the tree shows it (only for texts that parse)"""
    if r.timeout:
        return 'no answer'
    if exp[0] == 'code' or r.code != 0:
        return None
    try:
        got = T.groups(T.parse(r.text()))
    except ValueError as e:
        return 'unreadable tree: %s' % e
    lead, groups = list(exp[3]), exp[4]
    i = 0
    while lead and i < len(got):
        if got[i] != lead[:len(got[i])]:
            return 'attached %s, expected %s then %s' % (got, exp[3], exp[4])
        del lead[:len(got[i])]
        i += 1
    if lead or got[i:] != groups:
        return 'attached %s, expected %s then %s' % (got, exp[3], exp[4])
    return None


def run(pid, spaces, binary, dic, trees=False):
    chk = v.Check(pid)

    def work(cases):
        s = v.server(binary, {'JBOFIHE_DICTIONARY': dic})
        prep = [expected(c) for c in cases]
        res = s.batch([(['-k'], text_of(w)) for _, w in prep])
        bad, known, outcomes, trans, parsed = [], [], set(), 0, 0
        for c, (exp, words), r in zip(cases, prep, res):
            outcomes.add(str(exp[0]) if exp[0] == 'code' else '|'.join(exp[2]))
            trans += len(words)
            why = judge(exp, r)
            if why:
                r2 = s.run(['-k'], text_of(words))      # replay before reporting
                if judge(exp, r2):
                    bad.append((text_of(words).strip(), why))
        if trees:
            for c, (exp, words), r in zip(cases, prep, s.batch([(['-tf'], text_of(w)) for _, w in prep])):
                parsed += r.code == 0
                why = judge_tree(exp, r)
                if why and judge_tree(exp, s.run(['-tf'], text_of(words))):
                    if judge_tree(expected(c, True)[0], r) is None:
                        known.append((EMPH, text_of(words).strip(), why))
                    else:
                        bad.append((text_of(words).strip(), why))
        return len(cases), trans, outcomes, bad, parsed, known

    seen = set()

    def gen():
        for sp in spaces:
            for c in sp():
                if c not in seen:
                    seen.add(c)
                    yield c
    out = set()
    for n, tr, outcomes, bad, parsed, known in v.pmap(work, gen()):
        chk.add('traces_validated_against_impl', n)
        chk.add('transitions', tr)
        out |= outcomes
        if trees:
            chk.add('trees_compared', parsed)
        for key, text, why in known:
            if not chk.known(key):
                bad.append((text, why))
        for text, why in bad:
            if not chk.known(text):
                chk.violation('%r: %s' % (text, why), {'cmd': 'jbofihe -k', 'stdin': text, 'why': why})
    chk.cov['states'] = len(out)
    for c in list(seen)[:3] + list(itertools.islice(seen, 5000, 5003)):
        e, w = expected(c)
        chk.sample({'text': text_of(w).strip(), 'expected': e[1] if e[0] == 'code' else e[2]})
    chk.assumptions = ['states = distinct token sequences the model predicts; transitions = words fed',
                       'the alphabet has one or two words per way the word level can treat a word, plus every cmavo in sweeps']
    return chk


def seqs(alpha, n, m=0):
    def g():
        for k in range(m, n + 1):
            yield from itertools.product(alpha, repeat=k)
    return g


REPS = {}
for w, (s, _) in L.CMAVO.items():
    REPS.setdefault(s, []).append(w)
SPECIAL = {'zoi', "la'o", 'zo', "lo'u", "fa'o"}


def sweep_si():
    for w in L.CMAVO:
        if w in SPECIAL:
            continue
        yield ('mi', w, 'si', 'do')
        yield ('mi', 'klama', w, 'si', 'si', 'do')
        yield ('zo', w, 'si', 'si', 'do')
        yield ('zo', w, 'si', 'do')
        yield ('zo', w, 'si', 'si', 'si')


def sweep_sa():
    for s1, w1 in REPS.items():
        for s2, w2 in REPS.items():
            a, b = w1[0], w2[-1]
            if a in SPECIAL or b in SPECIAL or s1 in ('ZEI', 'BU') or s2 in ('ZEI', 'BU', 'SI'):
                continue
            yield ('klama', a, 'blanu', 'sa', b, 'djan')
    for w in L.CMAVO:
        if w in SPECIAL or w in ('zei', 'bu'):
            continue
        yield ('klama', 'mi', w, 'blanu', 'sa', w, 'do')
        yield (w, 'ci', w, 'blanu', 'sa', w)


def sweep_su():
    for w in L.CMAVO:
        if w in SPECIAL or w in ('zei', 'bu'):
            continue
        yield ('klama', w, 'blanu', 'su', 'do')
        yield ('klama', w, "ni'o", 'blanu', w, 'djan', 'su', 'do')
        yield ('mi', w, 'su', 'su', 'do')


def c04(binary, dic):
    full = ['si', 'mi', 'sa', 'su', 'klama', 'zo', 'le', 'do', 'djan', "lo'u", "le'u", 'Z', "ni'o", 'lu', 'to', "tu'e", 'Q']
    sp = [seqs(full, 5 if v.THOROUGH else 4),
          seqs(['si', 'zo', 'mi', "lo'u", "le'u", 'Z'], 7 if v.THOROUGH else 6),
          seqs(['sa', 'mi', 'le', 'klama', 'do'], 7 if v.THOROUGH else 6),
          seqs(['su', 'mi', "ni'o", 'lu'], 8 if v.THOROUGH else 6),
          seqs(['si', 'sa', 'su', 'mi', 'le'], 7 if v.THOROUGH else 6),
          seqs(['si', 'mi', 'Z'], 9 if v.THOROUGH else 8),
          sweep_si, sweep_sa, sweep_su]
    return run('C04', sp, binary, dic)


def sweep_bind():
    for w in L.CMAVO:
        if w in SPECIAL:
            continue
        for c in (('zo', w), ('mi', 'zo', w, 'do'), ("lo'u", w, 'mi', "le'u"), ("lo'u", 'mi', w, "le'u", 'do'),
                  (w, 'zei', 'klama'), ('klama', 'zei', w), ('mi', 'klama', 'zei', w, 'zei', 'blanu', 'do'),
                  (w, 'bu'), ('mi', w, 'bu', 'do'), (w, 'bu', 'bu'), ("ba'e", w, 'do'), ('mi', 'za\'e', w),
                  ('mi', w, 'nai'), ('mi', w, 'cai', 'nai', 'do'), ('mi', 'ui', w, 'do'), ('mi', w, 'do')):
            yield c


def inserts():
    """sentences of the grammar model with an indicator or ba'e put in after every word: once for every three neighbouring
    word classes (two before, one after), twice over when thorough"""
    import gzip
    import gram
    rows = []
    with gzip.open(os.path.join(v.VERIF, 'models', 'corpus_elide.txt.gz'), 'rt') as f:
        for line in f:
            c = line.split()
            if c[0] == '1':
                rows.append(c[1:])
    rows.sort(key=len)
    seen = set()
    for n, c in enumerate(rows):
        for i in range(len(c) + 1):
            key = (tuple(c[max(0, i - 2):i]), tuple(c[i:i + 1])) if not v.THOROUGH else (tuple(c[max(0, i - 2):i]), tuple(c[i:i + 2]))
            if key in seen:
                continue
            seen.add(key)
            a, b = gram.words_for(c[:i], n), gram.words_for(c[i:], n)
            for x in (['ui'], ["ba'e"], ['ui', 'nai'], ["se'i", 'ui']):
                yield tuple(a + x + b)


def c05(binary, dic):
    full = ['mi', 'zo', "lo'u", "le'u", 'zei', 'bu', "ba'e", 'ui', 'nai', 'cai', "fu'e", 'klama', 'djan', 'Z', 'Q', 'si', 'Z0']
    sp = [seqs(full, 5 if v.THOROUGH else 4),
          seqs(['mi', 'zei', 'bu', "ba'e", 'zo'], 7 if v.THOROUGH else 6),
          seqs(['mi', 'zo', "lo'u", "le'u", 'Z'], 7 if v.THOROUGH else 6),
          seqs(['mi', 'ui', 'nai', 'cai', "fu'e", "ba'e"], 7 if v.THOROUGH else 5),
          sweep_bind, inserts]
    return run('C05', sp, binary, dic, True)


if __name__ == '__main__':
    d = v.build()
    fn = {'C04': c04, 'C05': c05}[sys.argv[1]]
    fn(d + '/jbofihe', d + '/smujmaji.dat').finish()
