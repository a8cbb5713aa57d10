"""Accepted texts taken from the traces of the grammar model: a set that covers every run of n neighbouring word classes
that occurs in any accepted trace (shortest traces first)."""
import gzip, os
import gram

_H = os.path.dirname(os.path.abspath(__file__))


def accepted(n=3, name='elide'):
    rows = []
    with gzip.open(os.path.join(_H, 'corpus_%s.txt.gz' % name), 'rt') as f:
        for line in f:
            c = line.split()
            if c[0] == '1':
                rows.append(tuple(c[1:]))
    rows.sort(key=len)
    seen = set()
    for c in rows:
        p = ('^',) + c + ('$',)
        ks = {p[i:i + m] for m in range(1, n + 1) for i in range(len(p) - m + 1)}
        if not ks <= seen:
            seen |= ks
            yield c


def variant(c):
    h = 0
    for x in c:
        for ch in x:
            h = (h * 31 + ord(ch)) & 0xffff
    return h


def words(c):
    return gram.words_for(c, variant(c))


# constructs with one hole: (what it is, [(kind of hole)...]) - S sumti, B selbri, F bridi, T text; s, b: the shortest filling
HOLES = [('S', x) for x in (
    "lo S broda ku", "lu'a S lu'u", "na'e bo S lu'u", "S joi do", "do joi S", "ge S gi do", "ge do gi S",
    "S pe do ge'u", "do pe S ge'u", "lo broda ku goi S ge'u", "do ne S ge'u zi'e poi broda ku'o", "do noi broda ku'o zi'e pe S ge'u", "do poi B ku'o", "do voi F ku'o",
    "lo B ku", "la B ku", "lo pa B ku", "lo se B ku", "lo nu F kei ku", "lo broda be S be'o ku", "lo broda be do bei S be'o ku", "lo broda be fi S be'o ku",
    "tu'a S lu'u", "lu T li'u", "S vu'o noi broda ku'o", "do e ke S ke'e", "do ji nai S", "S e bo do", "re S", "lo re S", "lo B pe S ge'u ku", "lo broda ku poi B ku'o",
    "lo pu B ku", "lo na'e B ku", "lo me S me'u ku", "li mo'e S te'u", "li ni'e B te'u", "lo do poi B ku'o broda ku", "lo S pe do ge'u broda ku", "pa lo B ku", "le vi B ku",
    "lo broda ku ui e S", "le do re B ku", "S to T toi", "S sei B se'u")]
HOLES += [('B', x) for x in (
    "se B", "na'e B", "ke B ke'e", "B bo broda", "broda bo B", "B co broda", "broda co B", "B joi broda", "broda je nai B", "gu'e B gi broda", "gu'e broda gi B",
    "nu F kei", "su'u F kei", "jai bai B", "jai B", "me S me'u", "broda be S be'o", "B be S be'o", "na'e ke B ke'e", "B cei broda", "broda B", "B broda", "brodi broda B",
    "pa moi", "B je bo broda", "broda je ke B ke'e", "te ke B ke'e", "nu ja ka F kei", "broda be fa S bei fo do be'o", "broda be bai S be'o", "nu F kei bo broda",
    "xe jai B", "nu'a su'i", "broda be S noi B ku'o be'o")]
HOLES += [('F', x) for x in (
    "S cu B", "mi cu B", "mi S cu B", "B", "mi B S", "mi pu B S do", "mi na B S", "mi cu B gi'e broda vau", "mi broda gi'e B S vau", "mi broda gi'e nai ke B S vau ke'e",
    "ge F gi mi broda", "ge mi broda gi F", "mi ge B vau gi broda vau S vau", "S zo'u F", "pu ku F", "fi S B", "mi bai S cu B", "mi B bai S", "na ku S cu B",
    "mi B fo S fe do", "S ce'e do broda", "nu'i S ce'e do nu'u pe'e je nu'i do ce'e mi nu'u broda", "mi broda to T toi do", "mi broda sei B se'u do", "mi broda gi'e bo B S vau",
    "mi B gi'e broda S vau do", "mi broda soi S se'u", "doi S do'u mi broda", "coi B do'u mi broda", "mi broda xi vei mo'e S te'u ve'o", "S ba'e B ui nai",
    "mi ca lo nu F kei ku B", "pu gi F gi mi broda", "mi broda S vau ui")]
HOLES += [('T', x) for x in (
    "F", ".i F", "F .i mi broda", "mi broda .i F", "mi broda .i je bo F", "mi broda .i je ba bo F", "ni'o F", "tu'e T tu'u", "S", "be S be'o", "S zo'u", "ge S gi do",
    "mi broda .i ja tu'e T tu'u", "F .i ja nai mi broda", ".i je F", "pa mai F", "bai S", "ni'o pa mo'o F ni'o T", "noi B ku'o", "mi pe'a B")]
FILL = {'S': 'ti', 'B': 'klama', 'F': 'mi klama', 'T': 'mi klama'}


def nested(depth, top='T', chain=()):
    """every chain of constructs, one within another, up to a depth: texts, as lists of words"""
    for kind, x in HOLES:
        if kind != top:
            continue
        ps = x.split()
        at = [i for i, p in enumerate(ps) if p in FILL]
        if depth <= 1 or not at:
            yield [p for q in ps for p in FILL.get(q, q).split()]
            continue
        for k in at:
            for inner in nested(depth - 1, ps[k]):
                yield [w for i, p in enumerate(ps) for w in (inner if i == k else FILL.get(p, p).split())]
