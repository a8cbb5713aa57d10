"""Reference model of the word level of Lojban text, above morphology and below the grammar: quotation (zoi, la'o, zo,
lo'u...le'u), erasure (si, sa, su), binding (zei, ba'e, bu) and indicators.  Written from the order of operations in the
published preparser rules (grammar.300, steps 2a-2h) and the tool's manual, as plain list rewriting.

A token is a tuple (kind, text) with kind in
  CMV cmavo, BRV brivla, CMN name, ZOI, ZO, LOhU, ZEI, BU, BKN (half erased quotation; text = words still to erase).
"""
import os

CMAVO = {}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cmavo.txt')) as f:
    for line in f:
        if not line.startswith('#'):
            w, s, ss = line.split()
            CMAVO[w] = (s, ss)


def selmao(tok):
    return CMAVO[tok[1]][0] if tok[0] == 'CMV' else None


class LexError(Exception):
    """The text is refused at this level: .code is the exit status, .msg a word that the message contains."""

    def __init__(self, code, msg):
        self.code, self.msg = code, msg


def words_to_tokens(words, classify):
    """words: written words, each a single Lojban word.  Takes zoi/la'o quotations out.  classify(word) -> token."""
    out, i = [], 0
    while i < len(words):
        w = words[i]
        if w in ('zoi', "la'o"):
            if i + 1 >= len(words):
                raise LexError(3, 'zoi')
            d = words[i + 1]
            j = i + 2
            while j < len(words) and words[j] != d:
                j += 1
            if j >= len(words):
                raise LexError(3, 'zoi')
            out.append(('ZOI', ' '.join(words[i + 2:j]), w, d))
            i = j + 1
        else:
            out.append(classify(w))
            i += 1
    return out


def text_of(tok):
    k = tok[0]
    if k in ('CMV', 'BRV', 'CMN'):
        return tok[1]
    if k == 'ZOI':
        return 'zoi+"%s"' % tok[1]
    if k == 'ZO':
        return 'zo+' + tok[1]
    if k == 'ZEI':
        return tok[1]
    if k == 'BKN':
        return '<Defective erasure>'
    if k == 'LOhU':
        return "lo'u-%s-le'u" % tok[1]
    raise AssertionError(k)


def zo_lohu(toks):
    """zo quotes the next word; lo'u ... le'u quotes everything up to the first le'u."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if selmao(t) == 'ZO':
            if i + 1 >= len(toks):
                raise LexError(1, 'ZO')
            out.append(('ZO', toks[i + 1][1]))
            i += 2
        else:
            out.append(t)
            i += 1
    toks, out, i = out, [], 0
    while i < len(toks):
        t = toks[i]
        if selmao(t) == 'LOhU':
            j = i + 1
            while j < len(toks) and selmao(toks[j]) != 'LEhU':
                j += 1
            if j >= len(toks):
                raise LexError(1, 'LOhU')
            out.append(('LOhU', ' '.join(text_of(x) for x in toks[i + 1:j])))
            i = j + 1
        else:
            out.append(t)
            i += 1
    return out


WORDS = {'ZOI': 4, 'ZO': 2, 'LOhU': 3}


def si(toks):
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        i += 1
        if selmao(t) != 'SI' or not out:
            out.append(t)
            continue
        victim = out.pop()
        left = victim[1] if victim[0] == 'BKN' else WORDS.get(victim[0], 1)
        left -= 1
        if left:
            out.append(('BKN', left))
    return out


def sa(toks):
    out = []
    for i, t in enumerate(toks):
        if selmao(t) == 'SA' and i + 1 < len(toks):
            nxt = toks[i + 1]
            while out:
                y = out.pop()
                if y[0] == nxt[0] and selmao(y) == selmao(nxt):
                    break
        else:
            out.append(t)
    return out


def su(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if selmao(t) == 'SU':
            if i + 1 < len(toks) and selmao(toks[i + 1]) == 'SU':
                out = []
                i += 1
            else:
                while out:
                    if selmao(out.pop()) in ('NIhO', 'LU', 'TUhE', 'TO'):
                        break
        else:
            out.append(t)
        i += 1
    return out


def zei(toks):
    """word (zei word)+ becomes one word.  zei at the start or the end of the text is refused."""
    out, i = [], 0
    bad = False
    while i < len(toks):
        t = toks[i]
        if selmao(t) != 'ZEI':
            out.append(t)
            i += 1
            continue
        if i == 0:
            bad = True
            out.append(t)
            i += 1
            continue
        parts = [out.pop()]
        j = i
        while j < len(toks) and selmao(toks[j]) == 'ZEI':
            if j + 1 >= len(toks):
                bad = True
                break
            parts.append(toks[j + 1])
            j += 2
        if bad:
            break
        out.append(('ZEI', ' zei '.join(text_of(p) for p in parts)))
        i = j
    if bad:
        raise LexError(3, 'zei')
    return out


# From here on a token is a dict {'t': token, 'bahe': [words], 'ind': [indicators]}

def bahe(toks):
    out, pend = [], []
    for i, t in enumerate(toks):
        if selmao(t) == 'BAhE' and i + 1 < len(toks) and selmao(toks[i + 1]) != 'FAhO':
            pend.append(t[1])
        else:
            out.append({'t': t, 'bahe': pend, 'ind': []})
            pend = []
    return out


def bu(toks):
    out = []
    for d in toks:
        if selmao(d['t']) == 'BU':
            if not out:
                raise LexError(3, 'bu')
            y = out.pop()
            k = y['t'][0]
            if k == 'ZO':
                w = 'zo' + y['t'][1]
            elif k == 'BU':
                w = y['t'][1] + '.bu'
            elif k == 'ZOI':
                w = y['t'][1]
            else:
                w = text_of(y['t'])
            out.append({'t': ('BU', w), 'bahe': y['bahe'] + d['bahe'], 'ind': []})
        else:
            out.append(d)
    return out


IND = {'UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO'}


def indicators(toks, drop=False):
    """Indicator words, UI and CAI with an optional nai, intensifier and further nai, hang on the word before them; those at
    the very start of the text stay where they are.  drop: variant that loses emphasis on such a nai or intensifier."""
    def b(d):
        return [] if drop else d['bahe']
    items, i = [], 0
    while i < len(toks):
        d = toks[i]
        i += 1
        if selmao(d['t']) in IND:
            words = d['bahe'] + [d['t'][1]]
            def nxt(s):
                return i < len(toks) and selmao(toks[i]['t']) == s
            suffix = selmao(d['t']) in ('UI', 'CAI')
            if suffix and nxt('NAI'):
                words = words + b(toks[i]) + ['nai']
                i += 1
            if suffix and nxt('CAI'):
                words = words + b(toks[i]) + [toks[i]['t'][1]]
                i += 1
                if nxt('NAI'):
                    words = words + b(toks[i]) + ['nai']
                    i += 1
            items.append({'t': d['t'], 'words': words, 'isind': True})
        else:
            items.append(d)
    out, lead = [], True
    for d in items:
        if d.get('isind') and not lead:
            out[-1]['ind'].append(d['words'])
        elif d.get('isind'):
            out.append({'t': d['t'], 'bahe': [], 'ind': [], 'words': d['words']})
        else:
            lead = False
            out.append(d)
    return out


def erase(toks):
    return su(sa(si(zo_lohu(toks))))


def tokens_after(toks, drop=False):
    """The tokens that the grammar sees."""
    return indicators(bu(bahe(zei(erase(toks)))), drop)


def show(tok):
    """The line that the token listing prints."""
    k = tok[0]
    return {'CMV': 'CMV : %s', 'BRV': 'BRV : %s', 'CMN': 'CMN : %s', 'ZOI': 'ZOI : %s', 'ZO': 'ZO  : %s',
            'LOhU': 'LOhU  : %s', 'ZEI': 'ZEI : %s', 'BU': 'BU : %s', 'BKN': 'BKN : (broken erasure)%.0s'}[k] % (tok[1],)


def parse_listing(text):
    """-> (before, after) lists of listing lines, markers left out; None if the listing is not there"""
    a, sep, b = text.partition('------------------------------\nToken list after preprocessing\n\n')
    if not sep:
        return None
    b, sep, rest = b.partition('------------------------------\n')
    if not sep:
        return None
    before = norm(a.partition('Token list before preprocessing\n\n')[2])
    return before, norm(b)


def norm(s):
    out = []
    for line in s.splitlines():
        if line.startswith('MAR : '):
            continue
        if line.startswith('CMV : '):
            line = line.partition(' [')[0]
        out.append(line)
    return out
