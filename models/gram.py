"""The grammar level of the reference model: words -> tokens (lexmodel) -> markers -> LALR parse of the frozen grammar."""
import lexmodel as L
import markers as M
import lalr

REPS = {}
for _w, (_s, _) in L.CMAVO.items():
    REPS.setdefault(_s, []).append(_w)
COMPOSITE = {'ZO': ['zo', 'mi'], 'LOhU': ["lo'u", 'mi', 'klama', "le'u"], 'ZOI': ['zoi', 'gy', 'foo', 'gy'],
             'ZEI': ['mi', 'zei', 'klama'], 'BU': ['a', 'bu']}
BRIVLA = ['klama', 'broda', 'blanu', 'barda']
CMENE = ['djan', 'meris']
NOT_GRAMMAR = {'SI', 'SA', 'SU', 'BAhE', 'ZOI', 'ZO', 'LOhU', 'LEhU', 'ZEI', 'BU', 'FAhO'}
_T = {}


def tables(strict=False):
    if strict not in _T:
        _T[strict] = lalr.Tables(strict)
    return _T[strict]


def tok_class(tok):
    k = tok[0]
    return L.CMAVO[tok[1]][0] if k == 'CMV' else {'BRV': 'BRIVLA', 'CMN': 'CMENE', 'BKN': 'GARBAGE'}.get(k, k)


def classify(w):
    if w in L.CMAVO:
        return ('CMV', w)
    if w[-1] in 'aeiou':
        return ('BRV', w)
    return ('CMN', w)


def words_to_leaves(words):
    """-> list of (class, dict) as the grammar sees them; raises LexError"""
    after = L.tokens_after(L.words_to_tokens(words, classify))
    return [(tok_class(d['t']), d) for d in after]


def marked(leaves):
    m = M.mark(leaves, key=lambda t: t[0])
    out = []
    for t in m:
        if isinstance(t, str):
            out.append((t, None))
        elif t[0] == 'FAhO':
            break
        else:
            out.append(t)
    return out


def words_for(classes, n=0):
    """written words for a list of word classes; n varies the choice among the words of a class"""
    out = []
    for i, c in enumerate(classes):
        if c in COMPOSITE:
            out += COMPOSITE[c]
        elif c == 'BRIVLA':
            out.append(BRIVLA[(i + n) % len(BRIVLA)])
        elif c == 'CMENE':
            out.append(CMENE[(i + n) % len(CMENE)])
        else:
            r = REPS[c]
            out.append(r[(i + n) % len(r)])
    return out


def text(words):
    return ' '.join(w + '.' if w not in L.CMAVO and w[-1] not in 'aeiou' else w for w in words) + '\n'


def parse_classes(classes, strict=False, trace=None):
    """None when accepted, else the index of the marked token refused"""
    m = M.mark(list(classes))
    return tables(strict).parse(m, trace)


def tree(words, strict=False):
    """parse tree, or None when refused"""
    r = tables(strict).parse(marked(words_to_leaves(words)), tree=True)
    return None if isinstance(r, int) else r


CLASSES = sorted((set(REPS) - NOT_GRAMMAR) | set(COMPOSITE) | {'BRIVLA', 'CMENE'})
LEAD_ONLY = {'UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO'}      # indicators: hang on the word before except at the start
