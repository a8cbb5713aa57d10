"""C11: layout does not change the parse, and reported positions are true.

Words are enumerated, and every layout of them within bounds: what stands between two words (spaces, line ends, pauses, comments,
reply marks, nothing where Lojban allows that), before the first and after the last, digits or number words.  The run on the
plain layout (single spaces, one line, number words) is the reference: exit status, output and messages must be the same once
positions are replaced by the word they point at.  On the plain layout, every position must be where the word named begins."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v
import texts

DIGIT = dict(zip("no pa re ci vo mu xa ze bi so".split(), '0123456789'))
DIGIT["pi'e"] = ':'
GAPS = ['\n', '\t', '.', '  ', ' \n ', '\n\n', ' .', '. ', '...', '(x)', ' (lo mi) ', '((a\n) 1:\n .(b c))', '>', '\n> ', '(\n)', ' ()\n(2)\t',
        ' .(a).\n\n\n.']
LEAD = ['', '\n', '.', '(c)', '> ', '\n\n  (a\nb) ']
TRAIL = ['', '\n', '.', ' ', ' (c)', '\n\n', '\t.']
POS = re.compile(r'line (\d+),? (?:col|column) (\d+)')
NAMED = re.compile(r"^  (\S.*?)(?: \[\w+\])? \(line (\d+), col (\d+)\)$", re.M)
NAMED2 = re.compile(r"(?:word '|cmavo \[)(.*?)['\]] at line (\d+) column (\d+)")
BESIDE = re.compile(r" *([^\w\s'.,]) *")
OPTS = ('-k', '-ie')


def cmavo(w):
    return len(w) > 1 and w[-1] in 'aeiou' and w[0] not in 'aeiouy' and not re.search('[bcdfgjklmnprstvxz].*[bcdfgjklmnprstvxz]', w)


def joinable(a, ad, b, bd):
    """may word a be written right before word b?  (ad, bd: written as a digit)"""
    return ad or bd or (cmavo(a) and cmavo(b))


def build(words, dig, lead, gaps, trail):
    """-> text, start offset of every word"""
    t, starts = lead, []
    for i, w in enumerate(words):
        starts.append(len(t))
        t += DIGIT[w] if dig[i] else w
        t += gaps[i] if i < len(gaps) else ''
    return t + trail, starts


def mapped(out, text, starts, words, dig, flat=False):
    """the text with positions replaced by words; positions that are in no word are left.  flat: line breaks are blanks, or nothing
    beside brackets (the text formats keep the text's own line breaks)"""
    lines = [0]
    for i, c in enumerate(text):
        if c == '\n':
            lines.append(i + 1)

    def f(m):
        l, c = int(m.group(1)), int(m.group(2))
        if l > len(lines):
            return m.group(0)
        o = lines[l - 1] + c - 1
        for i, s in enumerate(starts):
            n = 1 if dig[i] else len(words[i])
            if s <= o < s + n:
                return '<word %d+%d>' % (i, o - s)
        return m.group(0)
    out = POS.sub(f, out)
    # a line on its own: some word begins there
    begin = {text.count('\n', 0, s) + 1 for s in starts}
    out = re.sub(r'at line (\d+)$', lambda m: 'at <line>' if int(m.group(1)) in begin else m.group(0), out, flags=re.M)
    return BESIDE.sub(r'\1', ' '.join(out.replace('<P>', ' ').split())) if flat else out


def plain_positions(words, r):
    """every named word must begin where it is said to begin"""
    text = ' '.join(words)
    for m in itertools.chain(NAMED.finditer(r.etext()), NAMED2.finditer(r.etext())):
        name, l, c = m.group(1), int(m.group(2)), int(m.group(3))
        if name.startswith('<'):
            continue
        w = name.split()[0]
        if w.endswith('.bu'):
            w = w[:-3]
        if l != 1 or not text[c - 1:].startswith(w):
            return 'line %d column %d given for "%s"' % (l, c, name)
    return None


ITEMS = [['mi'], ['klama'], ["lo'u", 'xu', 'klama', "le'u"], ['zoi', 'gy', 'ka', 're', 'gy'], ['zo', 'do'], ['a', 'bu'], ['a', 'bu', 'bu'],
         ['klama', 'zei', 'do'], ['broda', 'zei', 're', 'zei', 'mi'], ['.i'], ['re', 'ci'], ["pi'e", 'no'], ['lonu'], ['ladjan'], ['levi'],
         ['djan'], ['ui'], ['ba\'e', 'do'], ['si'], ['sa'], ['su'], ['xq'], ["xa'o'o"], ['mI'], ['mi,klama'], ['stalaiplas'], ['be'], ['ku'],
         ['lo', 'nu'], ["la'o", 'zoi', 'a', 'mi', 'zoi'], ["fu'e"], ['ni\'o'], ["fa'o"], ['sei'], ['levi', 'so'], ['doladjan'], ['ka\'u', 'nai']]


def sequences():
    """(words, full): full = all layouts with up to two unusual gaps"""
    tails = (['ku', 'ku'], ['cu'])
    for n in (1, 2):
        for seq in itertools.product(ITEMS, repeat=n):
            for tail in tails[:2 if n == 1 else 1]:
                yield sum(seq, []) + tail, n == 1 or v.THOROUGH
    core = [ITEMS[i] for i in ((0, 1, 3, 4, 5, 7, 9, 10, 12, 13, 18, 20, 21, 28) if not v.THOROUGH else range(len(ITEMS)))]
    for seq in itertools.product(core, repeat=3):
        yield sum(seq, []) + ['ku', 'ku'], None


def layouts(words, full, few=False):
    n = len(words)
    nod = [False] * n
    alld = [w in DIGIT for w in words]
    plain = [' '] * (n - 1)
    quoted = 'zoi' in words or "la'o" in words

    def gapset(dig, i):
        return GAPS + ([''] if (dig[i] or dig[i + 1] or not quoted) and joinable(words[i], dig[i], words[i + 1], dig[i + 1]) else [])
    for dig in ([nod, alld] if any(alld) else [nod]):
        for g in GAPS if not few else GAPS[few % 5::5]:      # the same gap everywhere
            yield dig, '', [g] * (n - 1), ''
        yield dig, '', [('' if '' in gapset(dig, i) else ' ') for i in range(n - 1)], ''
        for i in range(n - 1):
            gs = gapset(dig, i)
            for k, g in enumerate(gs):
                if few and (k + i + few) % 6:
                    continue
                x = list(plain)
                x[i] = g
                yield dig, '', x, ''
                if full:
                    for j in range(i + 1, n - 1):
                        for h in gapset(dig, j):
                            y = list(x)
                            y[j] = h
                            yield dig, '', y, ''
        if not few:
            for a, z in itertools.product(LEAD, TRAIL):
                yield dig, a, plain, z


def work(cases):
    sv = v.server(BIN, {'JBOFIHE_DICTIONARY': DIC})
    n = 0
    bad = []
    npos = 0
    for words, full, few, opts in cases:
        nod = [False] * len(words)
        t0, s0 = build(words, nod, '', [' '] * (len(words) - 1), '')
        ls = list(layouts(words, full, few))
        rs = sv.batch([(list(opts), t0)] + [(list(opts), build(words, d, a, g, z)[0]) for d, a, g, z in ls])
        r0 = rs[0]
        n += len(rs)
        ref = (r0.code, mapped(r0.text(), t0, s0, words, nod, True), mapped(r0.etext(), t0, s0, words, nod))
        npos += len(POS.findall(r0.etext()))
        why = plain_positions(words, r0)
        if why or r0.code is None or r0.code < 0:
            bad.append((opts, t0, why or 'exit %s' % r0.code))
        for (d, a, g, z), r in zip(ls, rs[1:]):
            t, s = build(words, d, a, g, z)
            got = (r.code, mapped(r.text(), t, s, words, d, True), mapped(r.etext(), t, s, words, d))
            if got != ref:
                r = sv.run(list(opts), t)
                got = (r.code, mapped(r.text(), t, s, words, d, True), mapped(r.etext(), t, s, words, d))
                if got == ref:
                    continue
                k = 0 if got[0] != ref[0] else 1 if got[1] != ref[1] else 2
                if k == 0:
                    why = 'exit %s, with plain layout %s' % (got[0], ref[0])
                else:
                    x = next(((p, q) for p, q in itertools.zip_longest(got[k].split(' ' if k == 1 else '\n'), ref[k].split(' ' if k == 1 else '\n')) if p != q))
                    why = '%s has %r, with plain layout %r' % ('output' if k == 1 else 'messages', x[0], x[1])
                bad.append((opts, t, why))
    return n, npos, bad


def gen():
    for w, full in sequences():
        yield w, full, (1 + len(' '.join(w)) % 30 if full is None else 0), OPTS
    for k, c in enumerate(texts.accepted(3 if v.THOROUGH else 2)):
        ws = [x for x in ' '.join(texts.words(c)).split()]
        yield ws, False, 1 + k % 30, (('-x',), ('-t',), ('-tf', '-re'), ('-k', '-ie'), ('-H',), ())[k % 6]


def main():
    global BIN, DIC
    ck = v.Check('C11')
    d = v.build()
    BIN, DIC = d + '/jbofihe', d + '/smujmaji.dat'
    for n, npos, bad in v.pmap(work, gen(), 12):
        ck.add('traces_validated_against_impl', n)
        ck.add('positions_compared_on_the_plain_layout', npos)
        for opts, t, why in bad:
            if not ck.known(' '.join(opts) + '|' + t):
                ck.violation('jbofihe %s <<< %r: %s' % (' '.join(opts), t, why),
                             {'cmd': 'jbofihe ' + ' '.join(opts), 'stdin': t, 'why': why})
    ck.cov['states'] = len(GAPS) + len(LEAD) + len(TRAIL) + 1
    ck.cov['transitions'] = ck.cov['traces_validated_against_impl']
    ck.sample('re(x)ci ku')
    ck.assumptions += [
        'the plain layout (single spaces, number words) is the reference of every other layout; C01, C04 to C07 decide what is right on it',
        'separators: blank, tab, line feed, pause, comment, reply mark (>); a carriage return is not one in this program',
        'nothing may stand between two cmavo of consonant-initial form and beside a digit; other joinings are C01',
    ]
    ck.finish()


if __name__ == '__main__':
    main()
