"""Reference lujvo making, written from the rules of the reference grammar (ch. 4): which rafsi, which hyphens, which score.
The rafsi list is models/rafsi.txt."""
import ctypes, itertools, os, subprocess

M = os.path.dirname(os.path.abspath(__file__))
RAFSI = {}
for _line in open(os.path.join(M, 'rafsi.txt')):
    _w, _, _r = _line.strip().partition(':')
    RAFSI[_w] = _r.split()
WORDS = sorted(RAFSI)
V, C = 'aeiou', 'bcdfgjklmnprstvxz'
INITIAL = set("bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr sf sk sl sm sn sp sr st tc tr ts "
              "vl vr xl xr zb zd zg zm zv".split())
_lib = None


def lib(scratch):
    """compiles the reference morphology; call once before forking"""
    global _lib
    so = os.path.join(scratch, 'lujvo_lib.so')
    subprocess.run(['g++', '-O2', '-shared', '-fPIC', '-o', so, os.path.join(M, 'lujvo_lib.cc')], check=True)
    _lib = ctypes.CDLL(so)
    _lib.lujvo_kind.argtypes = [ctypes.c_char_p]
    _lib.morph_ref.argtypes = [ctypes.c_char_p]
    _lib.morph_ref.restype = ctypes.c_char_p


def kind(s):
    return _lib.lujvo_kind(s.encode())


def ref(s):
    return _lib.morph_ref(s.encode()).decode()


def shape(r):
    return ''.join('V' if c in V else 'C' if c in C else c for c in r)


def permissible(a, b):
    if a == b:
        return False
    voiced, unvoiced = 'bdgvjz', 'ptkfcsx'
    if (a in voiced and b in unvoiced) or (a in unvoiced and b in voiced):
        return False
    if a in 'cjsz' and b in 'cjsz':
        return False
    return a + b not in ('cx', 'kx', 'xc', 'xk', 'mz')


def rafsi_of(word, last, long=False, brod=False):
    """(the rafsi usable there, brod was suppressed)"""
    short = RAFSI[word]
    if last:
        l = [r for r in short if r[-1] in V]
        if (long or not l) and len(word) == 5:
            l.append(word)
        return l, False
    l = list(short)
    sup = False
    if (long or not l) and len(word) == 5:
        if word[:4] != 'brod' or brod:
            l.append(word[:4])
        else:
            sup = True
    return l, sup


def hyphens(rs):
    g = [''] * (len(rs) - 1)
    for i in range(len(g)):
        a, b = rs[i], rs[i + 1]
        if len(a) == 4 and "'" not in a:
            g[i] = 'y'
        elif a[-1] in C and (not permissible(a[-1], b[0]) or (a[-1] + b[:2]) in ('ntc', 'nts', 'ndj', 'ndz')):
            g[i] = 'y'
    s = shape(rs[0])
    if s in ('CVV', "CV'V"):
        if not (len(rs) == 2 and shape(rs[1]) == 'CCV'):
            g[0] = 'n' if rs[1][0] == 'r' else 'r'
    elif s == 'CVC' and not g[0]:
        rest = rs[0][2] + ''.join(r + h for r, h in zip(rs[1:], g[1:] + ['']))
        if kind(rest) == 0:
            g[0] = 'y'
    return g


def join(rs, g):
    return ''.join(r + h for r, h in zip(rs, list(g) + ['']))


R_VALUE = {'CVCCV': 1, 'CVCC': 2, 'CCVCV': 3, 'CCVC': 4, 'CVC': 5, "CV'V": 6, 'CCV': 7, 'CVV': 8}


def score(rs, g):
    w = join(rs, g)
    h = sum(1 for x in g if x)
    return 1000 * len(w) - 500 * w.count("'") + 100 * h - 10 * sum(R_VALUE[shape(r)] for r in rs) - \
        sum(1 for r in rs for c in r if c in V)


def forms(words, long=False, brod=False):
    """list of (score, lujvo, has brod) for the words, None if a word has no rafsi there"""
    opts = [rafsi_of(w, i == len(words) - 1, long, brod)[0] for i, w in enumerate(words)]
    if not all(opts):
        return None
    res = []
    for rs in itertools.product(*opts):
        g = hyphens(rs)
        res.append((score(rs, g), join(rs, g), 'brod' in rs))
    return res


LIMIT, SHOWN = 65536, 8


def expected(words, flags):
    """(exit status, text before the list, list of (mark, score, word) sorted, number shown, text after, stderr)"""
    long, brod, quiet = 'l' in flags, 'b' in flags, 'q' in flags
    words = [w.lower().replace('h', "'") for w in words]
    for w in words:
        if w not in RAFSI:
            return 1, '', [], 0, '', 'Cannot use component [%s] in forming lujvo.\n' % w
    out = ''
    opts, sup = [], False
    for i, w in enumerate(words):
        o, s = rafsi_of(w, i == len(words) - 1, long, brod)
        opts.append(o)
        sup |= s
    note = 'Note: The rafsi "brod" was suppressed. Use "-b" to force it.\n'
    if words and 'R' not in flags:
        out += 'Possible rafsi for input words%s:\n' % ('' if long else ' (avoiding long rafsi)')
        for w, o in zip(words, opts):
            out += '%-5s:  ' % w + ''.join('%-5s ' % r for r in o) + (' /!\\' if 'brod' in o else '') + ('' if o else '<NONE> ') + '\n'
    bad = [i for i, o in enumerate(opts) if not o]
    if bad:
        i = bad[-1]
        return 1, out, [], 0, note if sup and not quiet else '', \
            'No matching rafsi available for component [%s] at position %d.\n' % (words[i], i + 1)
    if len(words) < 2:
        return 1, out, [], 0, '', 'Not enough components for lujvo (need at least 2).\n'
    if 'S' not in flags:
        out += '---------------------\n' + ('  Score  Lujvo\n' if 'A' not in flags else ' Score  Lujvo\n') + '---------------------\n'
    elif 'R' not in flags:
        out += 'List of lujvo:\n'
    l = sorted(forms(words, long, brod))
    best = l[0][0]
    lst = []
    for s, w, b in l:
        lst.append((('!' if b else '*' if s == best else ' '), s, w))
    n = len(l) if 'a' in flags else min(len(l), SHOWN)
    post = ''
    if n < len(l) and not quiet:
        post += '(%d lujvo hidden, use "-a" to see all)\n' % (len(l) - n)
    err = ''
    if any(b for _, _, b in l):
        err = 'Warning: The rafsi "brod" is ambigious!\nIt could stand for "broda", "brode", "brodi", "brodo" or "brodu".\n'
    elif sup and not quiet:
        post += note
    return 0, out, lst, n, post, err
