"""C08: every output format shows every word of the text, once and in order.

Texts are enumerated (every run of word classes that the grammar allows, every cmavo, every brivla of the dictionary under every
conversion, every indicator shape, every markup character in every place it can stand in) and written in every format and at
several widths.  The HTML output is read back into a sequence of events (word, gloss, bracket, list of places); the words must be
those of the text, the brackets must nest, and every other format, read back the same way, must give the same events."""
import itertools, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v
import texts

WIDTHS = [1, 33, 600] if not v.THOROUGH else [1, 2, 7, 20, 33, 40, 79, 80, 120, 250, 511, 512, 600, 5000]


class Bad(Exception):
    pass


def letters(s):
    return re.sub("[^a-z']", '', s.lower())


# ------------------------------------------------------------------------------------------------- reading the formats back
SUB = r'<SUB><FONT SIZE="-3">(\d+)</FONT></SUB>'
HTML = re.compile(r'\s+|(?P<p><P><P>)|<B>(?P<w>[^<>]*)</B>|<I>(?P<g>[^<>]*)</I>|(?P<q><FONT SIZE=\+2>&quot;</FONT>)|(?P<la>&lt;-)'
                  r'|<U><FONT SIZE=-1>\[(?P<t>[^<>]*):\] </FONT></U>'
                  r'|(?P<o>\(|\[|\{|&lt;&lt;|&lt;)(?=' + SUB + r')|(?P<c>\)|\]|\}|&gt;&gt;|&gt;)(?=' + SUB + r')|(?P<sub>' + SUB + ')')
ENT = {'&amp;': '&', '&lt;': '<', '&gt;': '>'}
PAIR = {'(': ')', '[': ']', '{': '}', '<': '>', '<<': '>>', '/': '\\', '|': '|'}


def unhtml(s):
    def f(m):
        if m.group(0) not in ENT:
            raise Bad('a bare & in %r' % s)
        return ENT[m.group(0)]
    return re.sub(r'&(?:\w+;)?', f, s)


def scan(rx, t, handle):
    i = 0
    while i < len(t):
        m = rx.match(t, i)
        if not m or m.end() == i:
            raise Bad('not understood: %r' % t[i:i + 60])
        handle(m)
        i = m.end()


def html(out):
    m = re.fullmatch(r'<HTML>\n<HEAD>\n<TITLE>[^<]*</TITLE>\n<BODY>\n(.*)</BODY>\n', out, re.S)
    if not m:
        raise Bad('no HTML page: %r' % out[-60:])
    ev = []
    quote = [0]

    def handle(m):
        k = m.lastgroup
        for g in ('w', 'g', 't'):
            if m.group(g) is not None:
                ev.append((g, unhtml(m.group(g))))
                return
        if m.group('q'):
            ev.append(('s', '"'))
        elif m.group('la'):
            ev.append(('s', '<-'))
        elif m.group('o'):
            ev.append(['(', unhtml(m.group('o'))])
        elif m.group('c'):
            ev.append([')', unhtml(m.group('c'))])
        elif m.group('sub'):
            n = int(re.search(r'>(\d+)<', m.group('sub')).group(1))
            if not ev or not isinstance(ev[-1], list):
                raise Bad('a bracket number without a bracket')
            ev[-1] = (ev[-1][0], ev[-1][1], n)
    scan(HTML, m.group(1), handle)
    return ev


def nest(ev):
    st = []
    for e in ev:
        if e[0] == '(':
            st.append((PAIR[e[1]], e[2]))
        elif e[0] == ')':
            if not st or st[-1] != (e[1], e[2]):
                raise Bad('bracket %s%d closes %s' % (e[1], e[2], st[-1:]))
            st.pop()
    if st:
        raise Bad('bracket %s not closed' % (st[-1],))


def render_text(ev):
    """what -x must show, without blanks"""
    o = []
    for e in ev:
        o.append('/%s/' % e[1] if e[0] == 'g' else '[%s:]' % e[1] if e[0] == 't' else e[1])
    return re.sub(r'\s', '', ''.join(o))


def same_text(want, got):
    got = re.sub(r'\s', '', got)
    got = got.replace('``', '"').replace("''", '"')
    want = want.replace('``', '"').replace("''", '"')
    for a, b in itertools.zip_longest(want, got):
        if a != b and not (b == '^' and a in ('(', ')')):
            i = next(i for i, (p, q) in enumerate(itertools.zip_longest(want, got)) if p != q and not (q == '^' and p in ('(', ')')))
            raise Bad('text has %r, HTML %r' % (got[max(0, i - 15):i + 25], want[max(0, i - 15):i + 25]))


TEXCH = re.compile(r'\\textbackslash\{\}|\\[\^~]\{\}|\\[&${}%_#]|\$[<>]\$|.', re.S)


def untex(s, words):
    """a run of LaTeX text; words: everything is escaped in it (in glosses $ and \\ are left to the dictionary)"""
    def f(m):
        x = m.group(0)
        if x == '\\textbackslash{}':
            return '\\'
        if x[0] == '\\' and len(x) > 1:
            return x[1]
        if x[0] == '$' and len(x) == 3:
            return x[1]
        if x in '&%_#{}' or words and x in '$\\^~':
            raise Bad('a bare %s in LaTeX text %r' % (x, s))
        return x
    return TEXCH.sub(f, s)


# text between braces that are balanced but for escaped ones, to one level
IN = r'((?:[^{}\\]|\\textbackslash\{\}|\\[\^~]\{\}|\\.)*)'
LSUB = r'\{\}\$\^\{\\textit\{\\scriptsize (\d+)\}\}\$'
LO = {'(': '(', '[': '[', '\\{': '{', '$\\langle$': '<', '$\\lceil$': '(', '$\\lfloor$': '(', '{\\large{} $\\triangleleft$}': '<<', '\\TL{}': '<<'}
LC = {')': ')', ']': ']', '\\}': '}', '$\\rangle$': '>', '$\\rceil$': ')', '$\\rfloor$': ')', '{\\large{} $\\triangleright$}': '>>', '\\TR{}': '>>'}


def alt(d):
    return '|'.join(re.escape(x) for x in sorted(d, key=len, reverse=True))


LATEX = re.compile(r'(?P<sp>\s+)|(?P<vs>\\vspace\{[\d.]+ex\})|\\mbox\{\\textbf\{(?P<w>' + IN[1:-1] + r')\}\\/\}|\\textsl\{\\small\{\}(?P<g>' + IN[1:-1] + r')\}'
                   r'|(?P<la>\{\\reflectbox\{\\zd\\char233\}\})|(?P<q>``|\'\')|\\textsl\{\\footnotesize\{\}(?P<t>' + IN[1:-1] + r')\}'
                   r'|(?:(?P<o>' + alt(LO) + r')|(?P<c>' + alt(LC) + r'))(?P<sub>' + LSUB.replace('(\\d+)', '\\d+') + ')')


def latex(out):
    m = re.search(r'\\begin\{document\}\n(.*)\\end\{document\}\n$', out, re.S)
    if not m:
        raise Bad('no LaTeX document')
    ev = []

    def handle(m):
        if m.group('w') is not None:
            ev.append(('w', untex(m.group('w'), True)))
        elif m.group('g') is not None:
            ev.append(('g', untex(m.group('g'), False)))
        elif m.group('t') is not None:
            ev.append(('t', untex(m.group('t'), False)))
        elif m.group('la'):
            ev.append(('s', '<-'))
        elif m.group('q'):
            ev.append(('s', '"'))
        elif m.group('o'):
            ev.append(('(', LO[m.group('o')], int(re.findall(r'\d+', m.group('sub'))[-1])))
        elif m.group('c'):
            ev.append((')', LC[m.group('c')], int(re.findall(r'\d+', m.group('sub'))[-1])))
    scan(LATEX, m.group(1), handle)
    # the pieces of one list of places
    o = []
    for e in ev:
        if e[0] == 't' and e[1] == '[':
            o.append(['t', ''])
        elif e[0] == 't':
            if not o or not isinstance(o[-1], list):
                raise Bad('a place label outside a list')
            if e[1].strip('~ ') == ':]':
                o[-1] = tuple(o[-1])
            else:
                o[-1][1] += e[1]
        else:
            if o and isinstance(o[-1], list):
                raise Bad('a list of places is not closed')
            o.append(e)
    return o


def squeeze(ev):
    return [(e[0], re.sub(r'\s', '', e[1])) + tuple(e[2:]) for e in ev]


def columns(ev, latex=False):
    """the blocks that the block formats must show: [words, glosses, labels...]; brackets are blocks of their own in text"""
    cols = []
    cur = ['', '', []]

    def flush():
        if cur[0] or cur[1] or cur[2]:
            cols.append((cur[0].split(), re.sub(r'\s', '', cur[1]), cur[2]))
        cur[:] = ['', '', []]
    for e in ev:
        if e[0] == 'w':
            if cur[1]:
                flush()
            cur[0] += ' ' + e[1]
        elif e[0] in 'gs':
            if not latex and cols and cols[-1][0] in ('(', ')') and not (cur[0] or cur[1] or cur[2]):
                cols[-1] = cols[-1][:3] + (cols[-1][3] + re.sub(r'\s', '', e[1]),)     # is put beside the bracket
            else:
                cur[1] += ' ' + e[1]
        elif e[0] == 't':
            if cur[0] or cur[1]:
                flush()
            cur[2] = [re.sub(r'\s', '', e[1])]
        else:
            if cur[0] or cur[1] or (e[0] == '(' and cur[2] and not latex):
                flush()
            if latex:
                keep = cur[2]
                cols.append(e)
                cur[2] = keep
            else:
                flush()
                cols.append(e + ('',))
    flush()
    return cols


TEXTBR = {'(': [('(', '(', '('), (' /', '|', '|'), ('|', '|', ' \\')], ')': [(')', ')', ')'), ('\\', ' |', ' |'), (' |', ' |', '/')]}


def text_block(out, cols, width):
    """every block of lines must be some sequence of the next columns, each with one cell in each of its rows"""
    groups, cur = [], []
    for r in re.sub(r'\n-{60}\n', '\n\n', out).split('\n') + ['']:
        if r:
            cur.append(r)
        elif cur:
            groups.append(cur)
            cur = []
    starts = {0}
    furthest = None
    for g in groups:
        n = len(g[0])
        if any(len(r) != n for r in g):
            raise Bad('rows of different length: %r' % g)
        reach = {(i, 0, 0) for i in starts}
        todo, starts = list(reach), set()
        while todo:
            i, o, k = todo.pop()
            if o == n:
                starts.add(i)
                if n > width and k > 1:
                    raise Bad('a line of %d columns, width %d' % (n, width))
                continue
            if furthest is None or (i, o) > furthest[:2]:
                furthest = (i, o, g)
            if i < len(cols):
                for e in cells(g, o, cols[i]):
                    s = (i + 1, e, min(k + 1, 2))
                    if s not in reach:
                        reach.add(s)
                        todo.append(s)
        if not starts:
            i, o, g = furthest
            raise Bad('column %r shown as %r' % (cols[i] if i < len(cols) else None, [r[o:o + 30] for r in g]))
    if len(cols) not in starts:
        raise Bad('block output lacks %r' % (cols[max(starts)],))


def cells(g, o, c):
    """the ends that column c can have when it starts at o"""
    n = len(g[0])
    out = []
    if c[0] in ('(', ')'):
        for rows in TEXTBR.get(c[1], [(c[1],) * 3]):
            w = max(len(rows[0]), len(rows[1]), len(rows[2]), len(str(c[2]))) + 1
            for e in range(o + w, n + 1):
                if any(r[o + w:e].strip() for r in (g if not c[3] else g[:1] + g[2:])):
                    break
                if [re.sub(r'\s', '', r[o:e]) for r in g[:4]] == [rows[0].strip(), rows[1].strip() + c[3], rows[2].strip(), str(c[2])] and \
                        not any(r[o + 1:e].strip() for r in g[4:]):
                    out.append(e)
        return out
    labels = tags_of(c[2])
    word = ' '.join(c[0])
    for e in range(o + 1, n + 1):
        if g[0][o:e].rstrip() == word and re.sub(r'\s', '', g[1][o:e]) == c[1] and [re.sub(r'\s', '', r[o:e]) for r in g[2:] if r[o:e].strip()] == labels:
            out.append(e)
    return out


def tags_of(t):
    """['a1(x),b2(y)'] -> one entry a label"""
    if not t:
        return []
    out, d, cur = [], 0, ''
    for ch in t[0]:
        d += (ch in '([') - (ch in ')]')
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [x for x in out + [cur] if x]


BLOCK = re.compile(r'\s+|\\vspace\{[\d.]+ex\}|\\BT\[t\]\{l\}\{\\bf ' + IN.replace('(', '(?P<w>', 1) + r'\}\\\\\{\\it (?P<g>' + IN[1:-1].replace(')*', r'|\{\\reflectbox\{\\zd\\char233\}\})*') +
                   r')\}\\\\\[-3pt\](?P<t>(?:\{\\ISS\{\}' + IN.replace('(', '(?:', 1).replace('(?:(', '(?:(') + r'\}(?:\\\\\[-3pt\])?)+)\\ET'
                   r'|(?:(?P<o>' + alt(LO) + r')|(?P<c>' + alt(LC) + r'))\{\}\$\^\{\\IS\{(?P<n>\d+)\}\}\$')


def latex_block(out, cols):
    m = re.search(r'\\begin\{document\}\n\\small\n(.*)\\end\{document\}\n$', out, re.S)
    if not m:
        raise Bad('no LaTeX document')
    got = []

    def handle(m):
        if m.group('o'):
            got.append(('(', LO[m.group('o')], int(m.group('n'))))
        elif m.group('c'):
            got.append((')', LC[m.group('c')], int(m.group('n'))))
        elif m.group('w') is not None:
            g = '<-'.join(untex(x.replace('``', '"').replace("''", '"'), False) for x in m.group('g').split('{\\reflectbox{\\zd\\char233}}'))
            t = ''.join(untex(x, False) for x in re.findall(r'\{\\ISS\{\}' + IN + r'\}', m.group('t')))
            t = re.sub(r'\s', '', t)
            if t and not (t.startswith('[') and t.endswith(':]')):
                raise Bad('labels %r' % t)
            got.append((untex(m.group('w'), True).split(), re.sub(r'\s', '', g), [t[1:-2]] if t else []))
    scan(BLOCK, m.group(1), handle)
    if got != cols:
        i = next(i for i, (p, q) in enumerate(itertools.zip_longest(cols, got)) if p != q)
        raise Bad('LaTeX blocks have %r, HTML %r' % (got[i:i + 2], cols[i:i + 2]))


# ---------------------------------------------------------------------------------------------------------- the formats
LEAF = re.compile(r'^[| ]*\+-(CMAVO|ZOI|ZO|LOhU|ZEI|BU|BRIVLA|CMENE) *: (.*?)(?: \[\w+\])?$', re.M)


def tree_words(ws):
    """the words of a text, quotations without the words that open and close them"""
    p, o, i = ' '.join(ws).split(), [], 0
    while i < len(p):
        if p[i] in ('zoi', "la'o") and p[i + 1] in p[i + 2:]:
            j = p.index(p[i + 1], i + 2)
            o += p[i + 2:j]
            i = j
        elif p[i] == "lo'u":
            j = p.index("le'u", i)
            o += p[i + 1:j]
            i = j
        elif p[i] == 'zo':
            o.append(p[i + 1])
            i += 1
        elif p[i] != 'bu':
            o.append(p[i])
        i += 1
    return o


def default_words(out):
    return letters(re.sub(r"\(\d+|\)\d+", '', out))


def judge(ws, lead, runs, raw):
    """-> list of (key, why)"""
    bad = []
    t = ' '.join(ws)
    want = letters(t)
    h = runs['-H']
    if h.code != 0:
        return [('-H', 'exit %s: %s' % (h.code, h.etext()[:100]))]
    cols = None
    for k, r in runs.items():
        try:
            if r.code != 0:
                raise Bad('exit %s' % r.code)
            if k == '-H':
                ev = html(r.text())
                nest(ev)
                got = [e[1] for e in ev if e[0] == 'w']
                if raw:
                    if re.sub('[ .]', '', ''.join(got)) != re.sub('[ .]', '', t):
                        raise Bad('words %r' % got)
                elif letters(' '.join(got)) != want:
                    raise Bad('words %r' % got)
            elif k == '-x':
                same_text(render_text(ev), r.text())
            elif k == '-l':
                a, b = squeeze(ev), squeeze(latex(r.text()))
                if a != b:
                    i = next(i for i, (p, q) in enumerate(itertools.zip_longest(a, b)) if p != q)
                    raise Bad('LaTeX has %r, HTML %r' % (b[i:i + 2], a[i:i + 2]))
            elif k == '-l -b':
                latex_block(r.text(), columns(ev, True))
            elif k.startswith('-x -b'):
                cols = cols or columns(ev)
                text_block(r.text(), cols, int(k.split('-w')[1]) if '-w' in k else 79)
            elif k in ('', '-b'):
                if not raw and default_words(r.text()) != want:
                    got = default_words(r.text())
                    if got == want.replace('peinai', 'pei'):
                        bad.append(('default: pei nai shown as pei', 'words %r' % got))
                    else:
                        raise Bad('words %r' % got)
            else:
                got = letters(' '.join(x for _, x in LEAF.findall(r.text())))
                if not raw and got != letters(' '.join(tree_words(ws))):
                    raise Bad('leaves %r' % got)
        except Bad as e:
            bad.append((k, str(e)))
        if k == '-H' and bad:
            return bad
    return bad


FORMATS = ['-H', '', '-b', '-t', '-tf', '-x', '-l', '-l -b', '-x -b'] + ['-x -b -w%d' % w for w in WIDTHS]


def work(cases):
    bad = []
    n = rejected = 0
    for ws, lead, raw, env in cases:
        sv = v.server(BIN, {'JBOFIHE_DICTIONARY': env})
        t = ' '.join(ws) + '\n' if not lead else lead.join(ws) + '\n'
        rs = sv.batch([(f.split(), t) for f in FORMATS])
        n += len(rs)
        if raw is None and all(r.code in (1, 2) for r in rs):
            rejected += 1
            continue
        b = judge(ws, lead, dict(zip(FORMATS, rs)), raw)
        if b:
            rs = sv.batch([(f.split(), t) for f in FORMATS])
            b = judge(ws, lead, dict(zip(FORMATS, rs)), raw)
        bad += [(k, t, why) for k, why in b]
    return n, rejected, bad


# ---------------------------------------------------------------------------------------------------------- the texts
def fam_grammar(ck):
    for c in texts.accepted(3 if v.THOROUGH else 2):
        yield [w for w in texts.words(c)], '', False


def fam_indicators(ck):
    """every indicator shape after every kind of word"""
    ind = ['ui', 'ui nai', "ui cu'i nai", 'ui pei nai', 'ui pei', 'dai', 'xu nai', "ju'o cai"] + \
          ['%s %s%s' % (u, c, n) for u in ('.ui', "pe'i", 'ge\'e') for c in ('cai', 'sai', "ru'e", "cu'i", 'pei', 'nai cai', "nai ru'e", "nai pei") for n in ('', ' nai')]
    base = [['mi', 'klama', 'do'], ['lo', 'broda', 'cu', 'brode'], ["lu", "coi", "li'u", 'cusku'], ['la', 'djan', 'joi', 'do', 'citka'],
            ['.i', 'mi', "na'e", 'klama', 'gi\'e', 'citka'], ['li', 'pa', "su'i", 're', 'broda'], ['zo', 'do', 'cusku'], ['a', 'bu', 'broda'],
            ['zoi gy foo bar gy', 'cusku'], ['broda', 'zei', 'brode'], ["lo'u mi do le'u", 'cusku'], ['ge', 'mi', 'gi', 'do', 'broda']]
    for b in base:
        for i in range(len(b) + 1):
            for x in ind:
                if i and b[i - 1] in ('zo', 'zei') or i < len(b) and b[i] in ('bu', 'zei'):
                    continue
                yield b[:i] + x.split() + b[i:], '', False
        for i in range(len(b)):
            if b[i] not in ('bu', 'zei') and not (i and b[i - 1] in ('zei', 'zo')) and not (i + 1 < len(b) and b[i + 1] in ('bu', 'zei')):
                yield b[:i] + ["ba'e", b[i]] + b[i + 1:], '', False
                yield b[:i] + ["ba'e", b[i], 'ui'] + b[i + 1:], '', False


def fam_brivla(ck):
    """every brivla of the dictionary, in sumti, selbri and tanru, under every conversion, with every place filled"""
    ws = sorted({l.split(':')[0] for l in open(os.path.join(BUILD, 'gismu_cmavo.dict'), encoding='latin-1') if re.match(r'[bcdfgjklmnprstvxz]([aeiou][bcdfgjklmnprstvxz]{2}|[bcdfgjklmnprstvxz][aeiou][bcdfgjklmnprstvxz])[aeiou]:', l)})
    ck.cov['brivla'] = len(ws)
    for i, w in enumerate(ws):
        yield ['mi', w, 'do', 'ti', 'ta', 'tu'], '', False
        c = ('se', 'te', 've', 'xe')[i % 4]
        yield ['lo', c, w, 'cu', c, w, 'broda', 'fi', 'mi', 'fo', 'do'], '', False
        if v.THOROUGH:
            for c in ('se', 'te', 've', 'xe'):
                yield ['lo', w, 'be', 'fi', 'do', 'be\'o', c, w, 'cu', c, w, 'be', 'ti', 'bei', 'ta'], '', False


def fam_nested(ck):
    """every construct within every construct"""
    d = 3 if v.THOROUGH else 2
    for kind, pre, post in (('S', '', 'cu broda'), ('B', 'mi', ''), ('F', '', ''), ('T', '', '')):
        for ws in texts.nested(d, kind):
            yield pre.split() + ws + post.split(), '', None


def fam_layout(ck):
    """line breaks between the words, and long texts"""
    some = list(itertools.islice(texts.accepted(2), 0, None, 37))
    for c in some:
        ws = texts.words(c)
        if all(' ' not in w for w in ws):
            yield ws, '\n', False
            yield ws, ' \n\n ', False
    plain = [ws for ws in map(texts.words, texts.accepted(2)) if ws and ws[0] in ('mi', 'do', 'ti', 'lo', 'la', 'le', 'broda', 'klama', 'blanu', 'barda')
             and not {'sa', 'si', 'su', "lo'u", 'zoi', "la'o", 'zo', 'bu', "le'u"} & set(' '.join(ws).split())]
    for n in (40, 400):
        for k in range(0, len(plain) - n, n):
            yield [x for i, ws in enumerate(plain[k:k + n]) for x in ["ni'o"] + ws], '', False
    for n in (8, 31, 32, 33, 34, 40):
        yield ['mi', 'klama'] + ["gi'e", 'klama', 'vau'] * n, '', False     # many labels on one sumti
        yield ['mi'] + ['lo', 'broda', 'be'] * n + ['mi', 'klama'], '', False
        yield ['lo'] + ['broda'] * n + ['klama'], '', False
        yield ['zoi gy ' + 'x' * (n * 20) + ' gy', 'klama'], '', True
        yield ['la', 'a' * (n * 20) + 'n', 'klama'], '', True
        yield ['zoi gy ' + ' '.join(['foo'] * n) + ' gy', 'klama'], '', True


SPECIAL = '&<$%_#{}~^\\"\'`|@!?;/*+=-,[]'


def fam_special(ck):
    """every markup character where any character can stand: in quotations and their delimiters"""
    for a in SPECIAL:
        yield ['mi', 'cusku', 'zoi gy %s gy' % a], '', True
        yield ['mi', 'cusku', "la'o gy x%sy gy" % a, 'ui'], '', True
        yield ['zoi %s mi %s' % (a, a), 'broda'], '', True
        yield ['zoi gy %s%s gy' % (a, a), '.i', 'zoi gy b%sr gy' % a, 'cu', 'broda'], '', True
        for b in SPECIAL:
            yield ['zoi gy %s%s gy' % (a, b), 'broda'], '', True
            yield ['zoi gy x%s%s%sx %s gy' % (a, a, b, b), 'broda'], '', True


def special_dictionary():
    """glosses that hold markup characters ($ and \\ are LaTeX in glosses by intent)"""
    src = []
    marks = '&<>%_#{}^'
    for i, a in enumerate(marks):
        for j, b in enumerate(marks):
            w = '%s%sa' % (('bro', 'bla', 'bri', 'blo', 'cro', 'cri', 'cla', 'fro', 'fra')[i], 'bcdfgjklmnprstvxz'[j])
            for pl in range(1, 6):
                src.append('%s%d:x%s%sy%d %s' % (w, pl, a, b, pl, b))
    for w, g in (('mi', 'I & <me>'), ('do', '{you}'), ('klama1', 'go%er'), ('klama2', '<dest> #2'), ('klama3', 'a_b'), ('li', 'num#'), ('ui', 'ha & ha'),
                 ('nai', '<not>'), ('me1', 'x%d & <me>'), ('moi1', 'x%d <th>'), ('pa', '1^'), ('.i', '.<>'), ("ba'o", 'a{b}c'), ("ba'o@SELBRI", '[a & b]'),
                 ('se', 'c&'), ('nu1', '<event>'), ('jai', '&jai'), ('bai', 'by <force>'), ('gau', 'with & by'), ('ko\'a', 'it<1>')):
        src.append('%s:%s' % (w, g))
    p = os.path.join(v.scratch(), 'special.src')
    open(p, 'w', encoding='latin-1').write(''.join(s + '\n' for s in src))
    dic = os.path.join(v.scratch(), 'special.dat')
    subprocess.run([BUILD + '/smujajgau', dic, p], check=True, stdout=subprocess.DEVNULL)
    return dic, sorted({re.sub(r'\d$', '', s.split(':')[0]) for s in src if re.match(r'[bcf][rl][oai]\wa\d', s)})


def fam_glosses(ck, ws):
    for w in ws:
        if not re.fullmatch(r'[bcdfgjklmnprstvxz][aeiou][bcdfgjklmnprstvxz]{2}[aeiou]|[bcdfgjklmnprstvxz]{2}[aeiou][bcdfgjklmnprstvxz][aeiou]', w):
            continue
        yield ['mi', w, 'do', 'ti', 'ta', 'tu'], '', False
        yield ['lo', 'te', w, 'cu', 've', w, w], '', False
    for t in ("mi ba'o klama do ui nai", 'mi jai bai klama do', 'mi jai gau klama fai do', 'mi nu do klama kei', 'mi pa moi do ti', 'mi me li pa',
              "mi bai klama bai ko'a", 'mi se klama do .i mi ui cai', "mi klama do gi'e ba'o klama ti", 'ti pa moi ta .i ti jai klama', "lo me mi me'u cu broda ti",
              "lo pa moi cu pa moi ti", "mi nu'a su'i do ti", 'mi klama zei mi do', "mi go'i do ti"):
        yield t.split(), '', False


def gen(ck):
    for f in (fam_grammar, fam_indicators, fam_brivla, fam_nested, fam_layout, fam_special):
        n = 0
        if len(sys.argv) > 1 and f.__name__ not in sys.argv[1:]:
            continue
        for ws, lead, raw in f(ck):
            n += 1
            yield ws, lead, raw, BUILD + '/smujmaji.dat'
        ck.cov['texts_' + f.__name__[4:]] = n
    n = 0
    dic, ws = special_dictionary()
    for ws, lead, raw in itertools.chain(fam_glosses(ck, ws)):
        n += 1
        yield ws, lead, raw, dic
    ck.cov['texts_glosses'] = n


def main():
    global BIN, BUILD
    ck = v.Check('C08')
    BUILD = v.build()
    BIN = BUILD + '/jbofihe'
    for n, rejected, bad in v.pmap(work, gen(ck), 40):
        ck.add('traces_validated_against_impl', n)
        ck.add('not_grammatical', rejected)
        for k, t, why in bad:
            if not (ck.known(k) or ck.known(k + '|' + t)):
                ck.violation('jbofihe %s <<< %r: %s' % (k, t[:120], why), {'cmd': 'jbofihe ' + k, 'stdin': t, 'why': why})
    ck.cov['states'] = sum(x for k, x in ck.cov.items() if k.startswith('texts_'))
    ck.cov['transitions'] = ck.cov['traces_validated_against_impl']
    ck.cov['formats'] = len(FORMATS)
    ck.sample({'text': 'mi klama do', 'formats': FORMATS})
    ck.assumptions += ['the words are compared by their letters: pauses that the output adds are presentation',
                       'in glosses $ and \\ are left as they are in LaTeX by intent (translations can include escape sequences)']
    ck.finish()


if __name__ == '__main__':
    main()
