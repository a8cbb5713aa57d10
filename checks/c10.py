"""C10: every sumti is labelled with the place of the selbri that it fills.

Families of abstract texts are enumerated exhaustively within bounds; the reference model models/places.py says them and
works out which place of which selbri every sumti fills, and the labels that the parser prints are compared with it."""
import collections, html, itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v
from places import Text, Ambiguous

SUMTI = "ko'a ko'e ko'i ko'o ko'u fo'a fo'e fo'i fo'o fo'u mi do ti ta tu da de di ri ra ru vo'a vo'e ko mi'o do'o ma'a mi'a".split()
GISMU = 'klama cadzu bajra tavla dunda citka barda blanu gerku mlatu prenu nanmu ninmu zdani'.split()
FAS = ['fa', 'fe', 'fi', 'fo', 'fu']


def number(kinds, n=0):
    """terms of those kinds, with sumti of their own"""
    out = []
    for k in kinds:
        if k in ('na ku', 'pu ku', 'ca ku'):
            out.append(('other', k))
        elif k.endswith('ku'):
            out.append((k[:-3], 'ku'))
        else:
            out.append((k, SUMTI[n % len(SUMTI)]))
            n += 1
    return out


# ----------------------------------------------------------------------------------------------------------- the families
def fam_terms(th):
    """all sequences of terms before and after a selbri"""
    for kinds, top in ((['', 'fa', 'fe', 'fi', 'fo', 'fu'], 6 if th else 5), (['', 'fe', 'fi', 'bai', 'na ku', "fi'a", 'pu', 'pu ku'], 4 if th else 3)):
        for n in range(top + 1):
            for q in itertools.product(kinds, repeat=n):
                for k in range(n + 1):
                    ts = number(q)
                    yield (None, ts[:k], ('bt', ('w', 'klama'), ts[k:]))
    for n in range(4, 19):
        for k in range(0, n + 1):
            ts = number([''] * n)
            yield (None, ts[:k], ('bt', ('w', 'klama'), ts[k:]))


def leaf(i):
    return ('w', GISMU[i])


def units(i, n, th):
    """selbri made of n makings-up, the words numbered from i; gives (selbri, next number)"""
    if n == 0:
        yield leaf(i), i + 1
        return
    for s, j in units(i, n - 1, th):
        for w in ('se', 'te', 've', 'xe') if th or n < 3 else ('se', 'te'):
            yield ('se', w, s), j
        yield ('ke', s), j
        yield ('jai', s), j
        yield ('jaitag', 'gau', s), j
        yield ('nahe', "na'e", s), j
        for ks in (('',), ('fi',), ('', ''), ('fe', 'fo'), ('fo', ''), ('bai', ''), ('fa',)) if th or n < 2 else (('',), ('fi', ''), ('fa',)):
            yield ('link', s, number(ks, 12 + j)), j
        yield ('na', 'na', s), j
        yield ('pu', 'pu', s), j
    for m in range(n):
        for a, j in units(i, m, th):
            for b, k in units(j, n - 1 - m, th):
                for op in ('tanru', 'bo', 'je', 'jebo', 'jeke', 'gu', 'co', 'cei'):
                    if op != 'cei' or b[0] in ('w', 'link'):
                        yield (op, a, b), k


PATTERNS = [(('',), ('', '', '')), ((), ('', '', '')), (('', ''), ('',)), (('fi',), ('fa', '')), ((), ('fo', '', 'fa')), (('fai',), ('', '')), (('bai', ''), ('fai', '')), (('fe', ''), ('fa',))]


def fam_selbri(th):
    """all selbri of a number of makings-up, among several arrangements of sumti"""
    for n in range(0, 4 if th else 3):
        for s, _ in units(0, n, th and n < 3):
            for pre, post in PATTERNS if n < 3 or not th else PATTERNS[:4]:
                ts = number(pre + post)
                yield (None, ts[:len(pre)], ('bt', s, ts[len(pre):]))
    if not th:
        for s, _ in units(0, 3, False):
            for pre, post in PATTERNS[:1] + PATTERNS[5:6]:
                ts = number(pre + post)
                yield (None, ts[:len(pre)], ('bt', s, ts[len(pre):]))
    # every kind of unit
    inner = (None, number([''], 15), ('bt', leaf(5), number([''], 16)))
    for u in [('nu', w, inner) for w in ('nu', 'ka', 'du\'u', 'ni', 'jei', "li'i", "si'o", 'za\'i', "pu'u", "zu'o", "mu'e", "su'u")] + [('me', "ko'e")] + \
            [('moi', n, m) for n in ('pa', 'pa re', 'by', 'ci') for m in ('moi', 'mei', "si'e", "cu'o", "va'e")] + \
            [('nua', o) for o in ("su'i", "vu'u", "pi'i")] + [('w', g) for g in ("go'i", "co'e", 'mo', "go'a", "bu'a", 'du', "nei")] + \
            [('zei', x) for x in ('klama zei cadzu', 'mi zei do', 'klama zei mi zei do')] + [('w', x) for x in ('brodabroda', 'jbobau', "selkla", "spageti")] :
        for wrap in (lambda u: u, lambda u: ('se', 'te', u), lambda u: ('link', u, number(['', 'fo'], 18)), lambda u: ('tanru', leaf(1), u), lambda u: ('tanru', u, leaf(1)),
                     lambda u: ('jaitag', 'gau', u), lambda u: ('je', u, leaf(1)), lambda u: ('se', 'se', ('link', u, number([''], 18))), lambda u: ('co', leaf(1), u), lambda u: ('ke', u)):
            for pre, post in PATTERNS[:5]:
                ts = number(pre + post)
                yield (None, ts[:len(pre)], ('bt', wrap(u), ts[len(pre):]))


def tails(i, t, n, th):
    """bridi tails with n connections: (tail, next selbri, next sumti, level)"""
    ks = (['', ''], ['fi', ''], [])
    if n == 0:
        for k in ks[:2] if not th else ks:
            yield ('bt', leaf(i), number(k, t)), i + 1, t + len(k), 1
        if th:
            yield ('bt', ('se', 'se', leaf(i)), number([''], t)), i + 1, t + 1, 1
        yield ('bt', ('co', leaf(i), leaf(i + 1)), number([''], t)), i + 2, t + 1, 1
        return
    for m in range(n):
        for a, j, u, la in tails(i, t, m, th):
            for b, k, w, lb in tails(j, u, n - 1 - m, th):
                for shared in ([], ['']) if not th else ([], [''], ['fo', '']):
                    s = number(shared, w)
                    w2 = w + len(shared)
                    if la <= 3 and lb <= 2:
                        yield ('gihe', a, b, s), k, w2, 3
                    if la == 1 and lb <= 2:
                        yield ('gihebo', a, b, s), k, w2, 2
                    if la <= 3:
                        yield ('giheke', a, b, s), k, w2, 4
                    for h1, h2 in (([], []), ([''], ['']), (['fe'], [])):
                        h1, h2 = number(h1, w2), number(h2, w2 + 1)
                        yield ('gek', 'ge', (None, h1, a), (None, h2, b), s), k, w2 + 2, 1
    for a, j, u, la in tails(i, t, n - 1, th):
        if a[0].startswith('gek'):
            yield ('gekna', a), j, u, 1
            yield ('gekke', a), j, u, 1


def fam_tails(th):
    """compound bridi: gi'e, gi'e bo, gi'e ke, ge gi, sharing sumti before and after"""
    for n in range(1, 4 if th else 3):
        for t, _, w, _ in tails(0, 0, n, th and n < 3):
            if w > len(SUMTI) - 3:
                continue
            for pre in ([], [''], ['', ''], ['fe'], ['bai', '']) if n < 2 or th and n < 3 else ([], ['']):
                yield (None, number(pre, w), t)


def wrapped(th):
    """contexts: functions of (bridi A) -> text function"""
    def a(bridi):
        return lambda t: t.bridi(bridi)

    def sumti(before, after):
        return lambda f: ((lambda t: (t.say(before), f(t), t.say(after))))
    return dict(
        nu=sumti('lo nu', 'kei ku'), lohe_nu=sumti("lo mlatu be lo^mlatu2 du'u", "kei ku be'o ku"), poi=sumti('lo gerku poi', "ku'o ku"), noi=sumti('da noi', "ku'o"),
        poipoi=sumti('lo gerku poi gerku vau ku\'o zi\'e poi', "ku'o ku"), lu=sumti('lu', "li'u"), lui=sumti('lu mi^barda1 barda i', "i mlatu li'u"),
        to=sumti('ti to', 'toi'), lahe=sumti("la'e lo nu", "kei ku lu'u"), ek=sumti("ti e lo nu", 'kei ku'), prenoi=sumti('lo nanmu be da^nanmu2 noi', "ku'o be'o ku"),
        la=sumti('la gerku poi', "ku'o ku"), re=sumti('re gerku poi', "ku'o"), pe=sumti('ti pe lo nu', "kei ku ge'u"), goi=sumti('ti goi lo nu', "kei ku ge'u"), me=sumti('lo me lo nu', "kei ku me'u ku"),
        joi=sumti('ti joi lo nu', 'kei ku'), ge=sumti('ge ti gi lo nu', 'kei ku'), nunu=sumti('lo nu lo^mlatu1 nu', 'kei ku cu mlatu kei ku'), li=sumti("li vei mo'e lo nu", "kei ku te'u ve'o lo'o"), lorel=sumti("lo poi", "ku'o gerku ku"))


# contexts that are not those of a sumti: words before and after the bridi
AROUND = [('', ''), ('i', ''), ('ni\'o', ''), ('mi^barda1 barda i', ''), ('', 'i mi^barda1 barda'), ('', "i je mlatu"), ('tu\'e', "tu'u"), ('gerku i je tu\'e', "tu'u"), ('i bai bo', ''), ('to', 'toi'), ('xu', ''),
          ('coi mi do\'u', ''), ('gerku i bo', ''), ('lo^gerku1 nu', 'kei ku cu gerku'), ("da'o", 'ui'), ('mi zo\'u', ''), ('mi do zo\'u ti zo\'u', ''),
          ('gerku to', 'toi'), ("ge gerku gi", ''), ("ge", 'gi gerku')]


def sei(pre, s):
    def f(t):
        t.say('ti')
        t.sei(pre, s)
    return f


def fam_contexts(th):
    """a bridi within another in every kind of place, both with sumti of their own"""
    ctx = wrapped(th)
    inner = [(None, number(p, 5), ('bt', s, number(q, 7))) for p, s, q in
             (([''], ('w', 'cadzu'), ['', '']), ([], ('se', 'se', ('w', 'cadzu')), ['']), (['fi'], ('tanru', ('w', 'bajra'), ('w', 'cadzu')), ['fa', ''])) +
             (((['', ''], ('co', ('w', 'bajra'), ('w', 'cadzu')), ['']), (['bai'], ('link', ('w', 'cadzu'), number([''], 12)), [''])) if th else ())]
    outer = ([''], ['', 'X', '']), (['X'], ['']), (['', 'X'], []), ([], ['X', '']), (['fe X'], ['fa']), ([], ['', 'fi X', '']), (['bai X'], ['', ''])
    for c in ctx.values():
        for b in inner:
            for pre, post in outer:
                def make(c, b):
                    return c(lambda t: t.bridi(b))

                def ts(ks, n):
                    out = []
                    for k in ks:
                        if k.endswith('X'):
                            out.append((k[:-1].strip(), make(c, b)))
                        else:
                            out.append(number([k], n)[0])
                            n += 1
                    return out
                yield (None, ts(pre, 0), ('bt', ('w', 'klama'), ts(post, 2)))
                if th or c in (ctx['nu'], ctx['poi'], ctx['lu']):
                    yield (None, ts(pre, 0), ('bt', ('tanru', ('link', ('w', 'tavla'), ts(['X'], 0)), ('se', 'te', ('w', 'klama'))), ts(post, 2)))
    for pre in ([], [''], ['', ''], ['fe'], ['', 'fo', ''], ['bai', '']):
        for n in (0, 1, 2):
            for s, _ in units(1, n, False):
                if s[0] not in ('na', 'pu') and not (n == 2 and len(pre) != 1):
                    yield (None, number([''], 15), ('bt', leaf(0), [('', sei(number(pre), s))] + number([''], 17)))
    # two deep
    for c in ctx.values():
        for d in ctx.values() if th else (ctx['nu'], ctx['poi'], ctx['me']):
            b0 = inner[0]
            b1 = (None, number([''], 3), ('bt', ('w', 'dunda'), [('', c(lambda t: t.bridi(b0)))] + number([''], 4)))
            yield (None, number([''], 0), ('bt', ('w', 'klama'), [('', d(lambda t, b1=b1: t.bridi(b1)))] + number([''], 2)))
    for i in range(len(AROUND)):
        for b in inner:
            yield i, b
        yield i, (None, number(['']), ('gihe', ('bt', ('w', 'klama'), number([''], 1)), ('bt', ('w', 'cadzu'), number([''], 2)), number([''], 3)))
    # linked sumti of a description or a vocative, where there is no bridi
    for before, after in (('lo', 'ku'), ('la', 'ku'), ('re', ''), ('lo re', 'ku'), ('coi', "do'u"), ("lo mi", 'ku'), ('sei', "se'u mi^mo1 mo"), ('lo', 'ku e ti'), ('la\'e lo', 'ku'), ('doi', ''), ('me lo', "ku me'u"),
                          ('ti pe lo', "ku ge'u"), ('ti ne lo', "ku")):
        for n in (0, 1, 2):
            for s, _ in units(0, n, False):
                if s[0] not in ('na',) and not (n == 2 and before not in ('lo', 'sei')):
                    yield (before, after), s


FAMILIES = (fam_terms, fam_selbri, fam_tails, fam_contexts)


def text_of(case):
    t = Text()
    if len(case) == 3:
        t.bridi(case)
    elif isinstance(case[0], int):
        a, b = AROUND[case[0]]
        t.say(a)
        t.bridi(case[1])
        t.say(b)
    else:
        (a, b), s = case
        t.say(a)
        t.selbri(s, 9 if a == 'sei' else 8)([], [], [])
        t.say(b)
    return t


# ------------------------------------------------------------------------------------------------------ reading the labels
TOKEN = re.compile(r'<SUB><FONT SIZE="-3">(\d+)</FONT></SUB>|<U><FONT SIZE=-1>(.*?)</FONT></U>|<B>(.*?)</B>', re.S)
LABEL = re.compile(r"jai\+<tag>1: \([^#]*#(\d+)\)|#(\d+)-([a-z']*)(\d+) \([^()]*\)|([a-z']+\d+)(?:\.\.)? \([^()]*\)")


LABELS = r"jai\+<tag>1|#\d+-[a-z']*\d+(?= ?\()|[a-z']+\d+(?:\.\.)?(?= ?\()"


def labels(text):
    """index of a word -> labels, for HTML output; None if it cannot be read"""
    n, marks, open_, span, words = 0, {}, {}, {}, []
    for m in TOKEN.finditer(text):
        if m[1]:
            k = int(m[1])
            if k in open_:
                span[k] = (open_[k], len(words))
            else:
                open_[k] = len(words)
        elif m[2] is not None:
            marks.setdefault(len(words), []).append(re.sub(r' ([,:])', r'\1', ' '.join(html.unescape(m[2]).split())))
        else:
            words += [w.lstrip('.') for w in html.unescape(m[3]).split()]
    out = {}
    for i, ls in marks.items():
        for l in ls:
            m = re.fullmatch(r'\[(.*):\]', l)
            if not m:
                return None, words
            rest = m[1]
            while rest:
                e = LABEL.match(rest)
                if not e:
                    return None, words
                k = e[1] or e[2]
                name = ''
                if k:
                    a, b = span.get(int(k), (0, 0))
                    name = ' '.join(words[a:b])
                out.setdefault(i, []).append('jai+<tag>1 [%s]' % name if e[1] else '[%s]%s%s' % (name, e[3], e[4]) if e[2] else e[5])
                rest = rest[e.end():]
                if rest.startswith(', '):
                    rest = rest[2:]
                elif rest:
                    return None, words
    return out, words


def blocks(text):
    """the groups of labels in the order in which they stand in a HTML, plain or LaTeX output"""
    return [''.join(m.split()) for m in re.findall(r'\[([^\[\]]*?\S)\s*:\]', text)]


def plain_html(text):
    return html.unescape(re.sub(r'<(?:/?(?:U|B|FONT|I)\b[^<>]*|SUB><FONT SIZE="-3">\d+</FONT></SUB)>', '', text))


def plain_latex(text):
    return re.sub(r'\\textsl\{\\footnotesize\{\}|[}~$]', '', text).replace('\\#', '#')


def norm(d):
    return {i: sorted(l) for i, l in d.items() if l}


def work(cases):
    sv = v.server(os.path.join(BUILD, 'jbofihe'), {'JBOFIHE_DICTIONARY': '/nonexistent'})
    todo = cases
    texts = [(' '.join(t.w) + '\n').encode() for t in todo]
    res = sv.batch([(['-H'], x) for x in texts])
    plain = sv.batch([(['-x'], x) for x in texts])
    latex = sv.batch([(['-l'], x) for x in texts])
    cols = sv.batch([(['-x', '-b', '-w', '60000'], x) for x in texts])
    out, refused = [], 0
    for t, x, r, p, l, q in zip(todo, texts, res, plain, latex, cols):
        if r.code != 0:
            # (whether a text is accepted is C04 and C05)
            refused += 1
            if os.environ.get('C10_REFUSED'):
                print('REFUSED', x[:200])
            continue
        got, words = labels(r.text())
        want = norm(t.label)
        if got is None:
            out.append((x, 'labels that cannot be read', r.text()[-600:]))
        elif words != t.w:
            out.append((x, 'other words', ' '.join(words)))
        elif norm(got) != want:
            i = min(i for i in set(got) | set(want) if norm(got).get(i) != want.get(i))
            out.append((x, 'the sumti at word %d (%s) is labelled %s, it is %s' % (i + 1, ' '.join(t.w[i:i + 2]), norm(got).get(i, []), want.get(i, [])),
                        str(norm(got))))
        else:
            h = blocks(plain_html(r.text()))
            b = [sorted(x for x in re.findall(LABELS, o)) for o in (' '.join(h), q.text())]
            for what, o, bad in (('plain', p, lambda o: blocks(o) != h), ('LaTeX', l, lambda o: blocks(plain_latex(o)) != h),
                                 ('columns of plain', q, lambda o: b[0] != b[1])):
                if o.code != 0 or bad(o.text()):
                    out.append((x, 'other labels in %s output' % what, o.text()[-900:]))
                    break
    return len(todo), refused, sum(len(norm(t.label)) for t in todo), out


def main():
    global BUILD
    ck = v.Check('C10')
    BUILD = v.build()
    fams = [f for f in FAMILIES if len(sys.argv) < 2 or f.__name__ in sys.argv[1:]]

    def gen():
        for f in fams:
            n = 0
            for c in f(v.THOROUGH):
                try:
                    yield text_of(c)
                    n += 1
                except Ambiguous:
                    ck.add('skipped_ambiguous', 1)
            ck.cov['texts_' + f.__name__[4:]] = n
    bad = 0
    refused = 0
    for n, ref, labs, o in v.pmap(work, gen(), 100):
        ck.add('traces_validated_against_impl', n - ref)
        ck.add('labels', labs)
        refused += ref
        for x, w, got in o:
            key = '%s: %s' % (x.decode().strip(), w)
            if not ck.known(key):
                bad += 1
                if bad <= 20:
                    ck.violation(key, {'text': x.decode(), 'why': w, 'got': got, 'cmd': 'JBOFIHE_DICTIONARY=/nonexistent jbofihe -H'})
        if bad > 300:
            break
    ck.cov['texts_refused'] = refused
    ck.cov['states'] = ck.cov['transitions'] = ck.cov['traces_validated_against_impl']
    ck.sample({'cmd': 'jbofihe -H', 'stdin': 'mi cu se klama be ti be\'o do vau'})
    ck.assumptions += ['texts in which a place would be filled twice are left out', 'models/places.py states the rules of the language',
                       'texts that the parser refuses are left to C04 and C05']
    ck.finish()


if __name__ == '__main__':
    main()
