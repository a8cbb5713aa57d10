"""C15: the word glosser (cmafihe) shows every word once and in order, with its class and the gloss of the dictionary.

Sequences of words of every kind, separated in every way, are enumerated; a reference model written from the manual gives, for
the dictionary that the sources say, what every format must show.  The dictionary of the model is that of C03."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import v
import lujvo as L
import c03

M = os.path.join(v.VERIF, 'models')
WIDTHS = (1, 20, 79) if not v.THOROUGH else (0, 1, 7, 20, 33, 79, 80, 81, 200, 1000)


# ------------------------------------------------------------------------------------------------------------ the model
def pieces(t):
    """a run of cmavo -> its pieces: a piece starts at a consonant, at y, at a pause and at the beginning"""
    return [p.lstrip('.') for p in re.findall(r"\.*(?:[bcdfgjklmnprstvxz]|y)?[aeiou']*|\.*[aeiou][aeiou']*", t) if p.strip('.')]


def run_gloss(t, pre):
    """longest known first; pauses stay between words"""
    out = []
    for part in [p for p in t.split('.') if p]:
        ps = pieces(part)
        i = 0
        while i < len(ps):
            for j in range(len(ps), i, -1):
                w = DICT.get(pre + ''.join(ps[i:j]))
                if w is not None:
                    out.append(w)
                    i = j
                    break
            else:
                out.append('?')
                i += 1
    return re.sub('^ +(?=.)', '', ' '.join(out)) if out and not out[0] else ' '.join(out)


def glossed(item):
    """-> events: ('w', word, class, gloss), ('p', text in parentheses), ('f', not understood)"""
    kind, t = item
    if kind == 'cmavo':
        x = t.lstrip('.')
        if DICT.get(x) is not None:
            return [('w', t, DICT.get('+' + x, ''), DICT[x])]
        return [('w', t, run_gloss(t, '+'), run_gloss(t, ''))]
    if kind == 'stop':
        return glossed(('cmavo', t[:-1])) + [('f', '.')]
    if kind == 'brivla':
        return [('w', t, 'BRIVLA', DICT.get(t, '?'))]
    if kind == 'cmene':
        return [('w', t, 'CMENE', '')]
    if kind == 'paren':
        return [('p', x) for x in re.findall(r'[()\[\]]|[^()\[\]]+', t)]
    return [('f', t)]


def expected(ev, fmt, width):
    """standard output and standard error"""
    o, err = [], ''.join('This fell through [%s]\n' % e[1] for e in ev if e[0] == 'f')
    if fmt == '':
        for e in ev:
            o.append('%s <%s> [%s] ' % (e[1], e[2], e[3]) if e[0] == 'w' else '(%s) ' % e[1] if e[0] == 'p' else '\n' if e[0] == 'n' else '')
        return ''.join(o) + '\n', err
    if fmt == '-l':
        for e in ev:
            o.append(('\\begin{tabular}[t]{l}\\textbf{\\footnotesize %s}\\\\\n\\textrm{\\footnotesize %s}\\\\\n\\textit{\\footnotesize %s}\n'
                      '\\end{tabular}\n\\rule{0in}{1.0\\baselineskip}' % e[1:]) if e[0] == 'w' else
                     '\\textrm{\\footnotesize %s}' % e[1] if e[0] == 'p' else '\n\n' if e[0] == 'n' else '')
        return '\\begin{document}\n' + ''.join(o) + '\\end{document}\n\n\n', err
    rows = ['', '', '']

    def flush():
        if rows[0]:
            o.append(''.join(r + '\n' for r in rows) + '\n')
        rows[:] = ['', '', '']

    def block(a, b, c):
        w = max(len(a), len(b), len(c)) + 1
        if len(rows[0]) + w > width:
            flush()
        for i, x in enumerate((a, b, c)):
            rows[i] += x.ljust(w)
    for e in ev:
        if e[0] == 'w':
            block(e[1], e[2], e[3])
        elif e[0] == 'p':
            block('(', '(', '('), block(e[1], '', ''), block(')', ')', ')')
        elif e[0] == 'n':
            flush()
            o.append('\n')
    flush()
    return ''.join(o) + '\n', err


FORMATS = [('', 0), ('-l', 0), ('-b', 80)] + [('-b', w) for w in WIDTHS]


def work(cases):
    sv = v.server(BIN, {'JBOFIHE_DICTIONARY': DAT})
    runs, want = [], []
    for t, ev, fmts in cases:
        for f, w in (FORMATS if fmts else FORMATS[:1]):
            runs.append((([f] if f else []) + (['-w', str(w)] if f == '-b' and w != 80 else []), t))
            want.append(expected(ev, f, w))
    bad = []
    for i in range(0, len(runs), 200):
        rs = sv.batch(runs[i:i + 200])
        for (a, t), (o, e), r in zip(runs[i:i + 200], want[i:i + 200], rs):
            got = r.text()
            if '-l' in a:
                got = got[got.find('\\begin{document}'):]
            why = 'exit status %s' % r.code if r.code != 0 else 'shows %r, expected %r' % cut(got, o) if got != o else \
                'reports %r, expected %r' % cut(r.etext(), e) if r.etext() != e else None
            if why:
                bad.append((' '.join(['cmafihe'] + a), t, why))
    return len(runs), bad


def cut(a, b):
    i = next((i for i, (p, q) in enumerate(itertools.zip_longest(a, b)) if p != q), 0)
    return a[max(0, i - 30):i + 60], b[max(0, i - 30):i + 60]


# ------------------------------------------------------------------------------------------------------------- families
ITEMS = [('cmavo', x) for x in ('mi', 'lonu', '.ui', '.uinai', "a'o", "mi.ui.a", "xu'u", "mixu'udo", 'by', 'fe\'u', 'y')] + \
        [('brivla', x) for x in ('klama', 'broda', 'brolu')] + [('cmene', x) for x in ('djan', '.djan.', 'meris', 'meryn.')] + \
        [('paren', x) for x in ('(foo bar)', '[]', '(a (b [c]) mi)')] + [('lost', x) for x in ('5', '!', 'Zz')] + [('stop', 'do.')]
SEPS = [' ', '\n', '\n\n', '\t \t', '\r\n', ' \n \n', '\n\n\n\n', '\r\n\r\n']


def text_of(items, seps, tail):
    t, ev = '', []
    for k, it in enumerate(items):
        if k:
            t += seps[k - 1]
            if re.fullmatch(r'(\r?\n){2,}', seps[k - 1]):
                ev.append(('n',))
        t += it[1]
        ev += glossed(it)
    return t + tail, ev


def gen(ck):
    n = 0
    S3 = SEPS[:3] if not v.THOROUGH else SEPS
    for items in itertools.product(ITEMS, repeat=1):
        for tail in ('', '\n', ' '):
            yield text_of(items, (), tail) + (True,)
    for items in itertools.product(ITEMS, repeat=2):
        for s in SEPS:
            yield text_of(items, (s,), '\n') + (True,)
    for items in itertools.product(ITEMS if v.THOROUGH else ITEMS[:2] + ITEMS[5:8] + ITEMS[11:12] + ITEMS[14:19] + ITEMS[21:], repeat=3):
        for s in itertools.product(S3, repeat=2):
            yield text_of(items, s, '\n') + (True,)
    # every cmavo, alone, and in runs
    cm = sorted(CMAVO)
    for a in cm:
        for w in (a, '.' + a) if a[0] in 'aeiou' else (a,):
            yield text_of([('cmavo', w)], (), '\n') + (True,)
        yield text_of([('cmavo', 'mi' + a if a[0] not in "aeiouy" else 'mi.' + a), ('cmavo', a + 'do')], (' ',), '\n') + (False,)
    some = cm if v.THOROUGH else cm[::6] + ['by', 'a', 'i', 'nai', "a'o"]
    for a in cm:
        for c in some:
            for w in ((a + c, a + '.' + c) if c[0] not in 'aeiouy' else (a + '.' + c,)):
                if re.search(r"\.[^aeiouy]", w):
                    continue
                yield text_of([('cmavo', w)], (), '\n') + (False,)
    # every gismu with a gloss
    for g in GISMU:
        yield text_of([('brivla', g)], (), '\n') + (True,)
        yield text_of([('cmavo', 'lo'), ('brivla', g), ('brivla', g)], ('\n', ' '), '') + (False,)
    # long lines
    for k in (5, 30, 200):
        for it in ITEMS:
            yield text_of([it] * k, (' ',) * k, '\n') + (True,)


def main():
    global BIN, DAT, DICT, CMAVO, GISMU
    ck = v.Check('C15')
    b = v.start_build()
    L.lib(v.scratch())
    d = v.finish_build(b)
    BIN, DAT = d + '/cmafihe', d + '/smujmaji.dat'
    DICT = {}
    for f in ('gismu_cmavo.dict', 'extradict', 'places.dat', 'patterns'):
        c03.add(DICT, open(os.path.join(d, f), encoding='latin-1').read())
    CMAVO = [l.split()[0] for l in open(M + '/cmavo.txt') if l[0] != '#']
    GISMU = sorted(k for k in DICT if re.fullmatch(r'[bcdfgjklmnprstvxz]([aeiou][bcdfgjklmnprstvxz]{2}|[bcdfgjklmnprstvxz][aeiou][bcdfgjklmnprstvxz])[aeiou]', k))
    texts = 0
    for n, bad in v.pmap(work, gen(ck), 100):
        ck.add('traces_validated_against_impl', n)
        for cmd, t, why in bad:
            key = '%s | %s' % (cmd, t)
            if not ck.known(key):
                ck.violation('%s <<< %r: %s' % (cmd, t[:100], why), {'cmd': cmd, 'stdin': t, 'why': why})
    ck.cov['states'] = len(DICT)
    ck.cov['transitions'] = ck.cov['traces_validated_against_impl']
    ck.cov['cmavo'], ck.cov['gismu'] = len(CMAVO), len(GISMU)
    ck.sample({'cmd': 'cmafihe -b -w 20', 'stdin': 'mi.ui.a klama\n\n(foo bar) djan'})
    ck.assumptions += ['the glosses of compounds that are not in the dictionary are C14', 'words with commas or capitals are not claimed',
                       'the dictionary sources in the tree are what the dictionary is to say']
    ck.finish()


if __name__ == '__main__':
    main()
