"""C17: function words are glossed as the dictionary says for the context they are in; logical connectives by their truth function.

Every word of every class in the contexts of its class, every tense, modal, attitudinal and connective with every negation, conversion and intensity is
put in every context; the entry that the dictionary (read as in C03) has for it is what jbofihe must show after the words."""
import itertools, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import v
import lujvo as L
import c03, c08

M = os.path.join(v.VERIF, 'models')
TENSE = [('@TERM', 'mi broda %s do'), ('@NOUN', 'lo %s broda cu brode'), ('@SELBRI', 'mi %s broda'), ('@LINK', 'mi broda .i %s bo do brode'),
         ('@LINK', 'mi broda gi\'e %s bo brode'), ('@JAI', 'lo jai %s broda cu brode'), ('@TERM', 'do broda mi %s do do'), ('@NOUN', 'lo %s broda be do cu broda'),
         ('@SELBRI', '%s ku mi broda'), ('@SELBRI', '%s broda'), ('@LINK', 'mi .e %s bo do broda'), ('@LINK', 'mi broda ja %s bo brode'), ('@SELBRI', 'lo nu mi %s broda cu brode'),
         ('@NOUN', 'mi broda lo re %s brode'), ('@TERM', 'mi broda be %s do'),
         ('@LINK', '.i %s bo mi broda'), ('@LINK', 'mi broda .i je %s bo do brode'), ('@LINK', 'mi broda gi\'e %s ke brode ke\'e'), ('@LINK', 'mi .e %s ke do ke\'e broda'),
         ('@LINK', 'mi broda joi %s ke brode ke\'e'), ('@LINK', 'mi broda joi %s bo brode'), ('@SELBRI', '%s tu\'e mi broda tu\'u'), ('@SELBRI', 'mi broda sei mi %s broda'),
         ('@SELBRI', '%s ke ge mi broda gi do brode ke\'e'), ('@TERM', '%s nu\'i mi do nu\'u broda')]
# a class and where its words may stand
PLAIN = {'KOhA': ['%s broda', 'mi broda %s'], 'LE': ['mi broda %s brode', '%s broda cu broda'], 'LA': ['mi broda %s brode', '%s djan. broda'], 'COI': ['%s djan.', 'mi broda %s do'], 'NOI': ['mi %s broda cu brode'],
         'NA': ['mi %s broda'], 'NAhE': ['mi %s broda', 'lo %s broda cu broda'], 'LAhE': ['mi broda %s do'], 'FA': ['mi broda %s do', '%s mi broda'], 'CAhA': ['mi %s broda', 'lo %s broda cu brode'],
         'CUhE': ['mi %s broda'], 'BY': ['mi broda %s', '%s broda'], 'CO': ['mi broda %s brode'], 'BE': ['mi broda %s do'], 'SEI': ['mi broda %s broda se\'u'], 'NIhO': ['%s mi broda', 'mi broda %s do broda'],
         'ZOhU': ['mi %s do broda'], 'LUhI': ['%s do broda'], 'LI': ['mi broda %s re'], 'TO': ['mi broda %s do toi'], 'DOI': ['%s djan.'],
         'BIhI': ['mi %s do broda'], 'JOI': ['mi %s do broda', 'mi broda %s brode'], 'CEI': ['mi broda %s broda'], 'KE': ['mi %s broda ke\'e'], 'BEhO': ['lo broda be do %s cu broda'], 'CU': ['mi %s broda'],
         'KU': ['lo broda %s broda'], 'PEhO': [], 'ZIhE': ['mi poi broda %s noi brode cu broda'], 'GOhA': [], 'ME': [], 'LAU': [], 'MAI': [], 'I': ['mi broda %s do broda'], 'VUhO': ['mi .e do %s noi broda cu brode'],
         'GOI': ['mi %s do cu broda'], 'NUhI': ['%s mi do nu\'u broda'], 'CEhE': ['mi %s do broda'], 'PEhE': [], 'TUhE': ['%s mi broda tu\'u'], 'FAhO': [], 'KI': [], 'ZEhA': ['mi %s broda', 'mi broda %s do'],
         'VEhA': ['mi %s broda', 'mi broda %s do'], 'VIhA': ['mi %s broda'], 'ZI': ['mi %s broda'], 'MOhI': ['mi %s ri\'u broda'], 'FIhO': ['mi broda %s brode fe\'u do'], 'SOI': ['mi broda %s do'],
         'NUhA': [], 'BOI': [], 'VAU': ['mi broda %s'], 'KEhE': ['mi ke broda %s'], 'KEI': ['lo nu broda %s cu broda'], 'LUhU': ['la\'e do %s broda'], 'KUhO': ['mi noi broda %s broda'],
         'GEhU': ['mi pe do %s broda'], 'DOhU': ['coi do %s'], 'TOI': ['mi broda to do %s'], 'SEhU': ['mi broda sei broda %s'], 'TUhU': ['tu\'e mi broda %s'], 'TEI': [], 'BEI': ['mi broda be do %s mi']}
TRUE = {'a': 'TTTF', 'e': 'TFFF', 'o': 'TFFT', 'u': 'TTFF'}
BETWEEN = ('[is, does]', '[of]', '(of)', '[type-of]')


def look(*ks):
    for k in ks:
        if k in DICT:
            return DICT[k]


def truth(f, neg1, se, neg2):
    """TT TF FT FF: the value of the compound for every value of its halves"""
    if f == 'i':
        return 'QQQQ'
    o = ''
    for a, b in ((1, 1), (1, 0), (0, 1), (0, 0)):
        x, y = a ^ neg1, b ^ neg2
        if se:
            x, y = y, x
        o += TRUE[f][{(1, 1): 0, (1, 0): 1, (0, 1): 2, (0, 0): 3}[x, y]]
    return o


def gen():
    """(text, words, glosses they may have, which of the places where the words stand)"""
    # plain words
    for w, cl in sorted(CMAVO.items()):
        for t in PLAIN.get(cl, []):
            yield t % w, [w], look(w), 0
    # numbers: digit by digit, or together
    pa = [w for w, cl in sorted(CMAVO.items()) if cl == 'PA']
    for w in pa:
        yield 'li %s boi broda' % w, [w], look(w), 0
        yield 'mi broda %s lo broda' % w, [w], look(w), 0
    for w, m in itertools.product(pa, [w for w, cl in sorted(CMAVO.items()) if cl == 'MOI']):
        g = look(w + m)
        yield 'mi %s%s' % (w, m), [w, m] if g else [m], g or look(m), 0
    # tenses
    pu, zi = [[w for w, cl in sorted(CMAVO.items()) if cl == c] for c in ('PU', 'ZI')]
    for (ctx, t), p, nai, z in itertools.product(TENSE, pu, ('', 'nai'), [''] + zi):
        ws = [x for x in (p, nai, z) if x]
        yield t % ' '.join(ws), ws, look(''.join(ws) + ctx, ''.join(ws)) or ' '.join(look(x) or '?' for x in ws), 0
    for w, cl in sorted(CMAVO.items()):
        if cl in ('FAhA', 'VA', 'ZAhO'):
            for ctx, t in TENSE:
                yield t % w, [w], look(w + ctx, w), 0
    for (ctx, t), n, r in itertools.product(TENSE, [''], [w for w, cl in sorted(CMAVO.items()) if cl in ('TAhE', 'CAhA')]):
        yield t % r, [r], look(r + ctx, r), 0
    for (ctx, t), n, nai in itertools.product([x for x in TENSE if 'lo re' not in x[1]], pa, ('', 'nai')):
        ws = [n, 'roi'] + ([nai] if nai else [])
        g = look(''.join(ws) + ctx, ''.join(ws))
        yield t % ' '.join(ws), ws if g else ['roi'], g or look('roi'), 0
    # two tenses: each is glossed on its own
    order = ['ZI', 'PU', 'ZEhA', 'TAhE', 'ZAhO', 'VA', 'FAhA', 'VEhA', 'VIhA', 'CAhA']
    some = {c: [w for w, cl in sorted(CMAVO.items()) if cl == c] for c in order}
    if not v.THOROUGH:
        some = {c: ws[:3] if c != 'PU' else ws for c, ws in some.items()}
    ctxs = ('PU', 'ZAhO', 'VA', 'FAhA', 'TAhE')
    for i, c1 in enumerate(order):
        for c2 in order[i + 1:] + (['PU'] if c1 == 'PU' else []):
            if (c1, c2) in (('PU', 'ZI'),):
                continue
            for a, b in itertools.product(some[c1], some[c2]):
                for ctx, t in TENSE:
                    for j in ('', 'je'):
                        x = ' '.join(q for q in (a, j, b) if q)
                        yield t % x, [a], look(a + ctx, a) if c1 in ctxs else look(a), 0
                        if not j and (c1, c2) == ('ZEhA', 'PU'):
                            continue  # within the interval
                        if a != b:
                            yield t % x, [b], look(b + ctx, b) if c2 in ctxs else look(b), 0
    # a tense or modal that connects: said where the second half begins
    for w, cl in sorted(CMAVO.items()):
        if cl in ('PU', 'ZAhO', 'FAhA', 'VA'):
            yield '%s gi mi broda gi do brode' % w, ['gi'], look(w + '@CONNECT', w), 1
        elif cl == 'BAI':
            yield '%s gi mi broda gi do brode' % w, ['gi'], look(w), 1
        elif cl == 'JOI':
            yield '%s gi mi broda gi do brode' % w, ['gi'], look(w), 1
            yield '%s gi mi gi do broda' % w, ['gi'], look(w), 1
    # modals
    for w, cl in sorted(CMAVO.items()):
        if cl == 'BAI':
            for q in ('', 'se', 'te', 've', 'xe'):
                for ctx, t in TENSE:
                    x = (q + ' ' + w).strip()
                    k = q + w
                    g = look(k + '@JAI') if ctx == '@JAI' else look(k)
                    if g is None:
                        g = look(w)
                        g = g + ' (CONV?)' if g else '?'
                    yield t % x, x.split(), g, 0
    # attitudinals
    for w, cl in sorted(CMAVO.items()):
        if cl[:2] == 'UI':
            for nai, cai in itertools.product(('', ' nai'), ('', 'cai', 'sai', "ru'e", "cu'i", "ru'e nai", 'sai nai', 'cai nai', 'pei')):
                k = look(cai.replace(' ', ''))
                g = look(w + nai.strip())
                g = '{%s%s..}' % (k + ' ' if cai else '', g) if g is not None and (k or not cai) else None
                for t in ('mi %s broda', '%s mi broda', 'mi broda %s'):
                    if g is not None:
                        yield t % (w + nai + ' ' + cai).strip(), [w + nai.strip()] + ([cai.replace(' ', '')] if cai else []), g, 0
    # logical connectives
    for f, na, se, nai in itertools.product('aeoui', ('', 'na'), ('', 'se'), ('', 'nai')):
        tr = truth(f, na != '', se != '', nai != '')
        for a, ts in ((f if f != 'i' else 'ji', ['mi %s do broda', 'mi broda do %s mi', 'mi %s ke do ke\'e broda', 'mi %s bo do broda', 'lo broda %s lo brode cu broda', 'li pa %s re broda']), ('j' + f if f != 'i' else "je'i", ['mi broda %s brode', 'mi broda .i %s do brode', 'mi broda %s bo brode', 'mi broda %s ke brode ke\'e', 'lo broda %s brode cu broda', 'mi ba %s pu broda']),
                      ("gi'" + f, ['mi broda %s brode', 'mi broda do %s brode mi', 'mi broda %s ke brode ke\'e', 'mi broda %s bo brode'])):
            ws = [x for x in (na, se, a, nai) if x]
            for t in ts:
                yield t % ' '.join(ws), ws, look(tr + '@AFTER'), 0
        for a, ts in (('g' + f if f != 'i' else "ge'i", ['%s mi broda %s do brode', '%s mi %s do broda', 'mi %s broda %s brode', 'mi broda %s do %s mi']), ("gu'" + f, ['mi %s broda %s brode', 'lo %s broda %s brode cu broda'])):
            one = [x for x in (se, a, 'nai' if na else '') if x]
            two = ['gi'] + (['nai'] if nai else [])
            for t in ts:
                x = t % (' '.join(one), ' '.join(two))
                yield x, one, look(tr + '@GE'), 0
                yield x, two, look(tr + '@GI'), 0


def invented():
    """a dictionary with an entry of its own for everything that could be looked up"""
    ks = []
    by = lambda *cs: [w for w, cl in sorted(CMAVO.items()) if cl in cs]
    ks += [w for w in CMAVO]
    ctx = ['@TERM', '@NOUN', '@SELBRI', '@LINK', '@CONNECT', '@JAI']
    for w in by('PU', 'FAhA', 'VA', 'ZAhO', 'TAhE'):
        ks += [w + c for c in ctx]
    for p, nai, z in itertools.product(by('PU'), ('', 'nai'), [''] + by('ZI')):
        if (p + z) not in ('puzu', 'bavi'):
            ks += [p + nai + z + c for c in ctx[::1 if nai else 2]] + ([p + nai + z] if z != 'za' else [])
    for n in by('PA'):
        ks += [n + 'roi' + c for c in ctx] + [n + 'roi', n + 'roinai'] + [n + m for m in by('MOI')]
    for w in by('BAI'):
        ks += [q + w for q in ('se', 'te', 've')] + [q + w + '@JAI' for q in ('', 'se', 'xe')]
    for w in by('UI'):
        ks.append(w + 'nai')
    ks += [x + 'nai' for x in ("ru'e", 'sai', 'cai', 'pei')]
    for n in range(16):
        ks += [''.join('FT'[n >> k & 1] for k in range(4)) + c for c in ('@AFTER', '@GE', '@GI')]
    ks += ['QQQQ' + c for c in ('@AFTER', '@GE', '@GI')]
    return ''.join('%s:e%d\n' % (k, i) for i, k in enumerate(dict.fromkeys(ks)))


def work(cases):
    out = []
    which, cases = cases[0][0], [c[1] for c in cases]
    sv = v.server(BIN, {'JBOFIHE_DICTIONARY': DATS[which]})
    rs = sv.batch([(['-H'], t + '\n') for t, *_ in cases])
    refused = 0
    for (t, ws, want, n), r in zip(cases, rs):
        if r.code == 1 and 'SYNTAX ERROR' in r.text() + r.etext():
            refused += 1
            out.append((t, 'refused'))
            continue
        if r.code != 0:
            out.append((t, 'exit status %s: %s' % (r.code, r.etext()[:80])))
            continue
        try:
            ev = [e for e in c08.html(r.text()) if e[0] in 'wg']
        except c08.Bad as e:
            out.append((t, str(e)))
            continue
        words = [(i, x) for i, e in enumerate(ev) if e[0] == 'w' for x in e[1].replace('.', '').split()]
        k = next(itertools.islice((k for k in range(len(words)) if [x for _, x in words[k:k + len(ws)]] == ws), n, None), None)
        if k is None:
            out.append((t, 'the words %s are not in the output' % ' '.join(ws)))
            continue
        i, j = words[k][0], words[k + len(ws) - 1][0]
        got = ' | '.join(e[1].strip() for e in ev[i:j + 1] if e[0] == 'g' and e[1].strip() not in BETWEEN)
        if j + 1 < len(ev) and ev[j + 1][0] == 'g' and ev[j + 1][1].strip() not in BETWEEN:
            got += ev[j + 1][1].strip()
        if norm(got) != norm(want or ''):
            out.append((t, '%s is glossed %r, expected %r' % (' '.join(ws), got, want)))
    return len(cases), refused, out


def norm(x):
    return re.sub(r'\s+', ' ', x).strip()


def main():
    global BIN, DATS, DICT, CMAVO
    ck = v.Check('C17')
    b = v.start_build()
    L.lib(v.scratch())
    d = v.finish_build(b)
    BIN, dat = d + '/jbofihe', d + '/smujmaji.dat'
    DICT = {}
    for f in ('gismu_cmavo.dict', 'extradict', 'places.dat', 'patterns'):
        c03.add(DICT, open(os.path.join(d, f), encoding='latin-1').read())
    CMAVO = dict(l.split()[:2] for l in open(M + '/cmavo.txt') if l[0] != '#')
    src = invented()
    p = v.scratch() + '/invented'
    open(p, 'w').write(src)
    subprocess.run([d + '/smujajgau', p + '.dat', p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
    DATS = {'real': dat, 'invented': p + '.dat'}
    real = DICT
    cases = [('real', c) for c in gen()]
    DICT = c03.add({}, src)
    cases += [('invented', c) for c in gen()]
    parts = [[c for c in cases if c[0] == name] for name in DATS]
    for n, ref, bad in (x for part in parts for x in v.pmap(work, part, 200)):
        ck.add('traces_validated_against_impl', n)
        for t, why in bad:
            if not ck.known(t):
                ck.violation('jbofihe -H <<< %r: %s' % (t, why), {'cmd': 'jbofihe -H', 'stdin': t + '\n', 'why': why})
    ck.cov['states'] = len(CMAVO)
    ck.cov['transitions'] = ck.cov['traces_validated_against_impl']
    ck.sample({'text': 'mi na.a nai do broda', 'gloss of na .a nai': real['FTTT@AFTER']})
    ck.assumptions += ['the dictionary sources in the tree are what the dictionary is to say', 'classes of words frozen in models/cmavo.txt']
    ck.finish()


if __name__ == '__main__':
    main()
