"""C16: the gloss of a brivla is what the dictionary entry for its place means in the context of the word.

Words of the dictionary and dictionaries made for the purpose (every class of entry, every ending of the gloss, every
override) are put in every context and every conversion; the reference model models/gloss.py says the gloss."""
import itertools, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import v
import lujvo as L
import c03, c08, gloss
from gloss import NOUN, VERB, QUAL, TAG

CONV = {1: [''], 2: ['se '], 3: ['te '], 4: ['ve '], 5: ['xe ']}
CONV2 = {p: [] for p in range(1, 6)}
for _n in range(3):
    for _q in itertools.product(('se', 'te', 've', 'xe'), repeat=_n):
        _pl = [0, 1, 2, 3, 4, 5]
        for _s in reversed(_q):
            _s = gloss.SE[_s]
            _pl[1], _pl[_s] = _pl[_s], _pl[1]
        CONV2[_pl[1]].append(''.join(x + ' ' for x in _q))
FA = {1: 'fa', 2: 'fe', 3: 'fi', 4: 'fo', 5: 'fu'}
# every place for a brivla and what it is there
CONTEXTS = [(NOUN, 'lo %s cu broda'), (VERB, 'mi cu %s'), (QUAL, 'lo %s broda cu brode'), (QUAL, 'mi cu %s broda')]
MORE = [(NOUN, 'la %s ku broda'), (NOUN, 'lo broda %s cu brode'), (NOUN, 'lo %s be do be\'o cu broda'), (NOUN, 'mi broda lo re %s'), (NOUN, 'lo broda bo %s cu brode'),
        (VERB, 'mi broda %s'), (VERB, 'lo broda poi %s ku\'o cu brode'), (VERB, 'lo nu %s kei cu broda'), (VERB, 'mi broda gi\'e %s'), (VERB, 'ge mi broda gi do %s'),
        (VERB, 'mi pu %s do'), (VERB, 'mi broda bo %s'), (VERB, '%s'), (VERB, 'mi na %s'), (VERB, 'mi broda .i do %s'), (VERB, 'mi ke %s ke\'e'), (VERB, 'lu %s li\'u broda'),
        (QUAL, 'lo ke %s broda ke\'e brodi cu brode'), (QUAL, 'mi %s brode brodi'),
        (QUAL, 'mi brode %s brodi'), (NOUN, 'lo broda pe lo %s ku brodo'), (QUAL, 'lo na\'e %s broda cu brode'), (NOUN, 'lo na\'e %s cu brode')]
# {c}: where the conversion goes, when that is not right before the word
MORE += [(NOUN, 'lo {c}ke broda %s ke\'e cu brode'), (NOUN, 'lo {c}ke broda bo %s ke\'e cu brode'), (NOUN, 'lo {c}na\'e %s cu broda'), (NOUN, 'lo {c}ke na\'e ke broda %s ke\'e ke\'e cu broda'),
         (NOUN, 'lo broda {c}ke brode %s ke\'e cu brodi'), (NOUN, 'lo {c}ke %s ja broda ke\'e cu broda'), (VERB, 'mi {c}ke broda ke brode %s ke\'e ke\'e'), (VERB, 'mi {c}na\'e ke broda %s ke\'e'),
         (QUAL, 'lo {c}na\'e %s broda cu brode'), (QUAL, 'mi {c}na\'e %s broda'), (VERB, 'mi gu\'e %s gi broda'), (VERB, 'mi gu\'e broda gi %s'), (VERB, 'mi %s co broda'), (VERB, 'mi broda co %s'),
         (QUAL, 'mi brodo co %s broda'), (NOUN, 'lo %s ja broda cu brode'), (VERB, 'mi broda ja %s'), (NOUN, 'lo broda ja ke brode %s ke\'e cu brodi'),
         (VERB, 'lo jai gau %s cu broda'), (VERB, 'mi jai gau {c}ke broda %s ke\'e'), (NOUN, 'mi broda lo %s be do bei mi'), (VERB, 'lo nu mi %s cu broda'), (NOUN, 'lo se broda be lo %s cu broda')]


# ------------------------------------------------------------------------------------------------------------- families
ENDS = ['run', 'make', 'bus', 'buzz', 'fox', 'church', 'city', 'boy', 'tie', 'see', 'e', 'y', 'x', 'by', 'ch', 'h', 'have* trouble', 'send* to', 'put* in', 'look* at', 'agree* with',
        'go* through', 'be* into', 'tie*/knot', 'man* or boy*/girl', 'carry* on', 'a b c', 'kiss* it', 'take* make', '2*3', 'be*x', 'wish']
OVER = ['', 'n', 'v', 'q', 't', 'nv', 'nt', 'nq', 'nvqt']


ALPHA = 'abcdefghijklmnopqrstuvwxyz'
# every letter at the end and before y, e and h, before a * and at the end
LETTERS = ['g' + a + b for a in ALPHA for b in ('', 'y', 'e', 'h')] + ['g' + a + b + '* on' for a in ALPHA for b in ('', 'y', 'e', 'h')]


def invented():
    """every class x every ending x every set of overrides, spread over the places of words that no other source knows"""
    src, use = [], []
    C = 'bcdfgjklmnprstvxz'
    names = (a + b + c for a in ('bro', 'bla', 'bri', 'blo', 'cro', 'cri', 'cla', 'fro', 'fra', 'kra', 'kri', 'kla', 'gra', 'gri') for b in C for c in 'aiu')
    cells = itertools.chain(itertools.product('ADSPRIE', ENDS, OVER), itertools.product('AD', LETTERS, ['']), itertools.product('I', LETTERS[:104], ['']))
    last = None
    while True:
        w = next(names)
        n = 0
        for p in range(1, 6):
            c = next(cells, None)
            if c is None:
                break
            k, x, ov = c
            if k in 'PSR' and '*' in x:
                x = x.replace('*', '')
            src.append('%s%d:%s;%s' % (w, p, k, x))
            for o in ov:
                src.append('%s%d%s:%s' % (w, p, o, {'n': 'special nouns', 'v': 'special-ing', 'q': 'special', 't': 'in special'}[o] if len(x) % 2 else 'D;odd ' + o))
            n = p
        if n:
            use.append((w, n))
            if n == 5:
                last = w
        if n < 5:
            break
    # redirections, and a word without places
    for i in range(5):
        w = next(names)
        for p in range(1, 6):
            src.append('%s%d:@%s%d' % (w, p, last, 1 + (p + i) % 5))
        src.append('%s3n:own noun' % w)
        use.append((w, 5))
        last = w if i < 4 else last
    w = next(names)
    src.append(w + ':only a head')
    use.append((w, 5))
    return src, use


def fam_invented(dic):
    src, use = invented()
    for w, n in use:
        for p in range(1, n + 1):
            for conv in CONV2[p]:
                for c, t in CONTEXTS:
                    yield w, conv, p, c, t
            yield w, '', p, TAG, '%%s %s mi' % FA[p]
    for w, n in use[::17] if not v.THOROUGH else use:
        for p in range(1, n + 1):
            for conv in (CONV[p][0], CONV2[p][-1]):
                for c, t in MORE:
                    yield w, conv, p, c, t


def fam_words(dic):
    """every word of the dictionary, every place that it has, every context"""
    ws = sorted({m[1] for m in (re.match(r"([a-z']{5,})(\d[nvqt]?)?$", k) for k in dic) if m and re.match("[bcdfgjklmnprstvxz]", m[1])})
    for w in ws:
        if not (w in GISMU or c03.canon(w)):
            continue
        for p in range(1, 6):
            if '%s%d' % (w, p) not in dic and p > 1:
                continue
            for conv in (CONV[p] if not v.THOROUGH else CONV2[p]):
                for c, t in CONTEXTS + (MORE if v.THOROUGH else []):
                    yield w, conv, p, c, t
            yield w, '', p, TAG, '%%s %s mi' % FA[p]


def fam_patterns(dic):
    """every pattern of the dictionary on words of every class, alone and within another, with conversions"""
    pats = sorted({re.sub(r'\d[nvqt]?$', '', k[2:]) for k in dic if k[0] == '*'})
    reps = {}
    for w in sorted(GISMU):
        k = tuple(dic.get('%s%d' % (w, p), ' ')[:1] for p in range(1, 6))
        if w in L.RAFSI:
            reps.setdefault(k, w)
    words = sorted(reps.values())
    if not v.THOROUGH:
        words = sorted(set(words[::4]) | {'klama', 'barda', 'tavla', 'nanmu', 'djacu'})
    for pat in pats:
        fix = pat.strip('+').split('+')
        for w in words:
            combos = [[w], ['se', w]] if w != 'klama' and not v.THOROUGH else [[w], ['se', w], ['te', w], ['ve', w], ['barda', w], ['nu', w]]
            for x in combos:
                cs = [fix + x if pat[-1] == '+' else x + fix]
                if pat[0] == '+':
                    cs.append(x + ['se'] + fix)
                elif w == 'klama':
                    cs.append(['se'] + fix + x)
                for comps in cs:
                    for lj in form(comps):
                        for p in range(1, 6):
                            for c, t in CONTEXTS:
                                yield lj, CONV[p][0], p, c, t
                            yield lj, '', p, TAG, '%%s %s mi' % FA[p]


def fam_parts(dic):
    """compounds that nothing decides, glossed word by word; borrowings with a word in front"""
    reps = {}
    for w in sorted(GISMU):
        k = tuple(dic.get('%s%d' % (w, p), ' ')[:1] for p in range(1, 6))
        if w in L.RAFSI and len(L.RAFSI[w]) > 1:
            reps.setdefault(k[:2] if not v.THOROUGH else k[:3], w)
    words = sorted(reps.values())
    for comps in itertools.chain(itertools.product(words, repeat=2), itertools.product(words[::4], repeat=3), itertools.product(words[::3], ('se', 'te'), words[::3])):
        for lj in form(list(comps)):
            for p in (1, 2, 3):
                for c, t in CONTEXTS:
                    yield lj, CONV[p][0], p, c, t
                yield lj, '', p, TAG, '%%s %s mi' % FA[p]
    # conversions within a lujvo
    for w, n in itertools.product(['klama', 'cusku', 'bevri', 'benji'] if not v.THOROUGH else words, (1, 2) if not v.THOROUGH else (1, 2, 3)):
        for q in itertools.product(('se', 'te', 've', 'xe'), repeat=n):
            for comps in ([*q, w], ['barda', *q, w], [*q, w, 'barda'], [*q, w, 'se', 'klama']):
                for lj in form(comps):
                    for p in range(1, 6):
                        for c, t in CONTEXTS[:3]:
                            yield lj, CONV[p][0], p, c, t
                        yield lj, '', p, TAG, '%%s %s mi' % FA[p]
    for g in sorted(GISMU) if v.THOROUGH else sorted(GISMU)[::3]:
        if g[:4] == 'brod':
            continue  # five words
        w = g[:4] + ('r' if g[3] != 'r' else 'n') + 'spageti'
        if L.ref(w).split(':')[1].strip().replace('/', '') == w and L.ref(w).startswith('fu'):
            for p in (1, 2):
                for c, t in CONTEXTS:
                    yield w, CONV[p][0], p, c, t


_form = {}


def form(comps):
    """one way to write the lujvo, that reads back as the components"""
    k = '+'.join(comps)
    if k not in _form:
        _form[k] = []
        for rs in itertools.product(*[[r for r in (L.RAFSI.get(c, []) + ([c[:4], c] if len(c) == 5 else [])) if not ((i == len(comps) - 1) and not r[-1] in 'aeiou')
                                       and not (len(r) == 5 and i < len(comps) - 1)] for i, c in enumerate(comps)]):
            for glue in itertools.product(('', 'y', 'r', 'n'), *[('', 'y')] * (len(comps) - 2)):
                w = ''.join(r + g for r, g in itertools.zip_longest(rs, glue, fillvalue=''))
                if L.kind(w) >= 0 and L.ref(w).split(':')[1].strip() == w and c03.canon(w) == k:
                    _form[k] = [w]
                    return [w]
    return _form[k]


# ------------------------------------------------------------------------------------------------------------ the verdict
def put(t, conv, w):
    return t.replace('{c}', conv) % w if '{c}' in t else t % (conv + w)


def work(cases):
    out, runs, want = [], [], []
    skipped = 0
    which = cases[0][0]
    dat, dic = DICTS[which]
    for _, (w, conv, p, c, t) in cases:
        try:
            g = gloss.gloss(dic, w, p, c, c03.canon)
        except gloss.Unknown:
            skipped += 1
            continue
        runs.append((['-H'], put(t, conv, w) + '\n'))
        want.append((w, p, c, g))
    sv = v.server(BIN, {'JBOFIHE_DICTIONARY': dat})
    rs = sv.batch(runs) if runs else []
    for (a, t), (w, p, c, g), r in zip(runs, want, rs):
        if r.code != 0:
            out.append((t, 'exit status %s: %s' % (r.code, r.etext()[:80])))
            continue
        try:
            ev = c08.html(r.text())
        except c08.Bad as e:
            out.append((t, str(e)))
            continue
        if c == TAG:
            got = [x[1] for x in ev if x[0] == 't']
            ok = '%s%d (%s)' % (w, p, g) in got
            exp = '%s%d (%s)' % (w, p, g)
        else:
            i = [k for k, x in enumerate(ev) if x[0] == 'w' and x[1] == w]
            got = [ev[k + 1][1] if k + 1 < len(ev) and ev[k + 1][0] == 'g' else '' for k in i]
            ok, exp = got == [g] , g
        if not ok and not same(exp, got):
            out.append((t, 'gloss %r, expected %r' % (got, exp)))
    return len(runs), skipped, out


def same(exp, got):
    n = lambda s: re.sub(r'\s+', ' ', s).strip()
    return n(exp) in [n(x) for x in got]


def main():
    global BIN, DICTS, GISMU
    ck = v.Check('C16')
    b = v.start_build()
    L.lib(v.scratch())
    d = v.finish_build(b)
    BIN = d + '/jbofihe'
    real = {}
    for f in ('gismu_cmavo.dict', 'extradict', 'places.dat', 'patterns'):
        c03.add(real, open(os.path.join(d, f), encoding='latin-1').read())
    GISMU = {k for k in real if re.fullmatch(r'[bcdfgjklmnprstvxz]([aeiou][bcdfgjklmnprstvxz]{2}|[bcdfgjklmnprstvxz][aeiou][bcdfgjklmnprstvxz])[aeiou]', k)}
    src = ''.join(s + '\n' for s in invented()[0])
    p = v.scratch() + '/invented'
    open(p, 'w').write(src)
    subprocess.run([d + '/smujajgau', p + '.dat', p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
    DICTS = {'real': (d + '/smujmaji.dat', real), 'invented': (p + '.dat', c03.add({}, src))}
    ck.cov['entries'] = sum(len(x[1]) for x in DICTS.values())
    for name, fam in (('invented', fam_invented), ('real', fam_words), ('real', fam_patterns), ('real', fam_parts)):
        if len(sys.argv) > 1 and fam.__name__ not in sys.argv[1:]:
            continue
        for n, sk, bad in v.pmap(work, ((name, c) for c in fam(DICTS[name][1])), 200):
            ck.add('traces_validated_against_impl', n)
            ck.add('texts_' + fam.__name__[4:], n)
            ck.add('not_decided_by_the_dictionary', sk)
            for t, why in bad:
                if not ck.known(t.strip()):
                    ck.violation('jbofihe -H (%s dictionary) <<< %r: %s' % (name, t, why), {'cmd': 'jbofihe -H', 'stdin': t, 'dictionary': name, 'why': why})
    ck.cov['states'] = ck.cov['entries']
    ck.cov['transitions'] = ck.cov['traces_validated_against_impl']
    ck.sample({'text': 'lo te klama broda cu brode', 'gloss': 'origin-ish'})
    ck.assumptions += ['the table in the manual of smujajgau and in translate.c says what the entries mean', 'glosses that no entry or pattern decides are C14']
    ck.finish()


if __name__ == '__main__':
    main()
