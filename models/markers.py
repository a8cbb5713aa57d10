"""Lookahead markers: the grammar of Lojban is not LALR(1); where a decision needs more than one word of lookahead a marker is
put in front of (or around) the construct.  This model states which, on lists of selma'o names:

  stag        START_TENSE .. END_TENSE around the longest simple-tense-modal
  jek, joik   START_.. END_.. around it;  ek, gihek, guhek, gek: START_.. before it
  a connective followed by [stag] BO or KE gets a .._BO or .._KE marker before it (not after I or a tense)
  I [jek|joik] [stag] BO: I_BO;  I jek|joik without BO: I_JEKJOIK
  number before MAI, ROI, MOI: NUMBER_..;   NAhE BO: NAhE_BO;   NA KU: NA_KU
"""
import re

_C = {n: chr(0xA1 + i) for i, n in enumerate(
    'BAI BU BY CAhA CUhE FAhA FEhE FOI KI LAU MOhI NAhE NAI PA PU ROI SE TAhE TEI VA VEhA VIhA ZAhO ZEhA ZI'.split())}


def _rx(s):
    return re.sub(r'[A-Z][A-Za-z]*', lambda m: _C[m.group()], s).replace(' ', '')


NUMBER = _rx('PA (PA|BY|BU|LAU|FOI|TEI)*')
IPROP = '(%s|%s|%s%s)' % (_rx('TAhE NAI?'), _rx('ZAhO NAI?'), NUMBER, _rx('ROI NAI?'))
TIME = '(?=.)' + _rx('ZI? (PU NAI? ZI?)* (ZEhA (PU NAI?)?)?') + IPROP + '*'
SPACE = ('(?=.)' + _rx('VA? (FAhA NAI? VA?)*') + '((?=.)' + _rx('((VEhA VIhA?|VIhA) (FAhA NAI?)?)?') + '(' + _rx('FEhE')
         + IPROP + ')*)?' + _rx('(MOhI FAhA NAI? VA?)?'))
TS = '(%s(%s)?|%s(%s)?)' % (TIME, SPACE, SPACE, TIME)


def _simple():
    import itertools
    ki = _rx('KI?')
    na = _rx('NAhE?')
    return re.compile('(%s|%s|%s|%s)' % (
        na + _rx('SE? BAI NAI?') + ki,
        na + '(?=.)' + TS + '?' + _rx('CAhA?') + ki,
        _rx('KI'), _rx('CUhE')))


SIMPLE = _simple()
_cache = {}


def is_simple(s):
    r = _cache.get(s)
    if r is None:
        m = SIMPLE.fullmatch(s)
        # at least one of time, space, CAhA, KI alone
        r = _cache[s] = bool(m) and s not in (_C['NAhE'], _C['NAhE'] + _C['KI'])
    return r


def mark(toks, key=lambda t: t):
    """toks: list of tokens; key gives the selma'o.  Returns the list with markers ('PRIVATE_..' strings) put in."""
    out = []
    i, n = 0, len(toks)
    while i < n:
        s = ''
        j = i
        while j < n and key(toks[j]) in _C:
            s += _C[key(toks[j])]
            j += 1
        for k in range(len(s), 0, -1):
            if is_simple(s[:k]):
                out += ['PRIVATE_START_TENSE'] + toks[i:i + k] + ['PRIVATE_END_TENSE']
                i += k
                break
        else:
            out.append(toks[i])
            i += 1
    L = [t if isinstance(t, str) and t.startswith('PRIVATE_') else t for t in out]

    def K(i):
        if 0 <= i < len(L):
            t = L[i]
            return t if isinstance(t, str) and t.startswith('PRIVATE_') else key(t)
        return None

    def conn(sel, name, na, end):
        i = 0
        while i < len(L):
            if K(i) == sel:
                y = i - 1
                if K(y) == 'SE':
                    y -= 1
                if na and K(y) == na:
                    y -= 1
                L.insert(y + 1, 'PRIVATE_START_' + name)
                i += 1
                if end:
                    y = i + 1
                    if K(y) == 'NAI':
                        y += 1
                    if sel == 'BIhI' and K(y) == 'GAhO':
                        y += 1
                    L.insert(y, 'PRIVATE_END_' + name)
            i += 1
    conn('JA', 'JEK', 'NA', True)
    conn('GIhA', 'GIHEK', 'NA', False)
    conn('A', 'EK', 'NA', False)
    conn('GUhA', 'GUHEK', None, False)
    # JOI and BIhI in one pass, left to right
    i = 0
    while i < len(L):
        k = K(i)
        if k in ('JOI', 'BIhI'):
            y = i - 1
            if K(y) == 'SE':
                y -= 1
            if k == 'BIhI' and K(y) == 'GAhO':
                y -= 1
            L.insert(y + 1, 'PRIVATE_START_JOIK')
            i += 1
            y = i + 1
            if K(y) == 'NAI':
                y += 1
            if k == 'BIhI' and K(y) == 'GAhO':
                y += 1
            L.insert(y, 'PRIVATE_END_JOIK')
        i += 1

    def back(i, name):
        while K(i) != 'PRIVATE_START_' + name:
            i -= 1
            if i < 0:
                return None
        return i
    # gek
    i = 0
    while i < len(L):
        k = K(i)
        if k == 'GA':
            y = i - 1
            if K(y) == 'SE':
                y -= 1
            L.insert(y + 1, 'PRIVATE_START_GEK')
            i += 1
        elif k == 'GI':
            if K(i - 1) == 'PRIVATE_END_TENSE':
                z = back(i - 1, 'TENSE')
                while True:
                    y = z - 1
                    nm = {'PRIVATE_END_JOIK': 'JOIK', 'PRIVATE_END_JEK': 'JEK'}.get(K(y))
                    if nm:
                        y2 = back(y, nm) - 1
                        if y2 >= 0 and K(y2) == 'PRIVATE_END_TENSE':
                            z = back(y2, 'TENSE')
                            continue
                    break
                L.insert(z, 'PRIVATE_START_GEK')
                i += 1
            elif K(i - 1) == 'PRIVATE_END_JOIK':
                z = back(i - 1, 'JOIK')
                if z is not None:
                    L.insert(z, 'PRIVATE_START_GEK')
                    i += 1
        i += 1

    def skip(i):
        """over a jek or joik"""
        for nm in ('JEK', 'JOIK'):
            if K(i) == 'PRIVATE_START_' + nm:
                while K(i) != 'PRIVATE_END_' + nm:
                    i += 1
                return i + 1
        return None

    def look(x):
        """what follows [stag]: BO, KE or neither; and where"""
        while K(x) == 'PRIVATE_START_TENSE':
            while K(x) != 'PRIVATE_END_TENSE':
                x += 1
            x += 1
            y = skip(x)
            if y is None:
                break
            if K(y) != 'PRIVATE_START_TENSE':
                return None, x
            x = y
        return (K(x) if K(x) in ('BO', 'KE') else None), x
    # I
    i = 0
    while i < len(L):
        if K(i) == 'I':
            z = skip(i + 1)
            w, nx = look(z if z is not None else i + 1)
            if w == 'BO':
                L.insert(i, 'PRIVATE_I_BO')
                nx += 1
            i = nx
        else:
            i += 1
    i = 0
    while i < len(L):
        if K(i) == 'I' and K(i - 1) != 'PRIVATE_I_BO' and K(i + 1) in ('PRIVATE_START_JEK', 'PRIVATE_START_JOIK'):
            L.insert(i, 'PRIVATE_I_JEKJOIK')
            i += 1
        i += 1

    def over(i, sel):
        """over [NA] [SE] sel [NAI]"""
        i += 1
        if K(i) == 'NA':
            i += 1
        if K(i) == 'SE':
            i += 1
        assert K(i) == sel
        i += 1
        return i + 1 if K(i) == 'NAI' else i

    def kebo(name, end):
        i = 0
        while i < len(L):
            if K(i) == 'PRIVATE_START_' + name:
                if name in ('JEK', 'JOIK') and i > 0 and K(i - 1) in ('I', 'PRIVATE_END_TENSE'):
                    i += 1
                    continue
                w, nx = look(end(i))
                if w:
                    L.insert(i, 'PRIVATE_%s_%s' % (name, w))
                    nx += 1
                i = nx
            else:
                i += 1
    kebo('JEK', skip)
    kebo('EK', lambda i: over(i, 'A'))
    kebo('JOIK', skip)
    kebo('GIHEK', lambda i: over(i, 'GIhA'))
    for sel in ('MAI', 'ROI', 'MOI'):
        i = 0
        while i < len(L):
            if K(i) == sel:
                y = i - 1
                while K(y) in ('PA', 'BU', 'BY', 'LAU', 'TEI', 'FOI'):
                    y -= 1
                if y < i - 1:
                    L.insert(y + 1, 'PRIVATE_NUMBER_' + sel)
                    i += 1
            i += 1
    i = 0
    while i < len(L):
        if K(i) == 'NAhE' and K(i + 1) == 'BO':
            L.insert(i, 'PRIVATE_NAhE_BO')
            i += 1
        i += 1
    i = 0
    while i < len(L):
        if K(i) == 'NA' and K(i + 1) == 'KU':
            L.insert(i, 'PRIVATE_NA_KU')
            i += 1
        i += 1
    return L
