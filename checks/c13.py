"""C13 cmavo: every cmavo and every other string of its shape, alone, and every run of two cmavo (three around every word), in the
parser and in the word glosser, against the frozen word list."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v, lexmodel as L, lujvo, c04

M = os.path.join(v.VERIF, 'models')
WORDS = {}
for _l in open(os.path.join(M, 'cmavo.txt')):
    if _l.strip() and _l[0] != '#':
        _w, _c, _s = _l.split()
        WORDS[_w] = (_c, _s)
LABEL = re.compile(r'^  (\S+) \[(\S+)\] \(line \d+, col \d+\)', re.M)


def glue(ws):
    """the words as one run"""
    t = ws[0]
    for w in ws[1:]:
        t += ('.' if w[0] in 'aeiouy' else '') + w
    return t


def labels(r, text, stats):
    for w, c in LABEL.findall(r.etext() + r.text()):
        if w in WORDS:
            stats.add((w, c))
            if c != WORDS[w][1]:
                return '%s is shown as %s, expected %s' % (w, c, WORDS[w][1])
    return None


def unknown_word(r):
    return 'ad cmavo' in r.etext() or 'ecogni' in r.etext()


def main():
    b = v.start_build()
    lujvo.lib(v.scratch())
    d = v.finish_build(b)
    chk = v.Check('C13')
    env = {'JBOFIHE_DICTIONARY': d + '/smujmaji.dat'}
    seen = set()

    def report(text, why, tool='jbofihe'):
        if not chk.known('%s: %s' % (tool, text)):
            chk.violation('%s, %r: %s' % (tool, text, why), {'tool': tool, 'text': text, 'why': why})

    # ---- alone
    def alone(chunk):
        s = v.server(d + '/jbofihe', env)
        bad, st = [], set()
        for w in chunk:
            for t in ('%s kei', "zo'e %s kei", 'broda %s kei', 'broda vau vau %s'):
                t = t % w + '\n'
                r = s.run([], t)
                why = labels(r, t, st)
                if why:
                    bad.append((t, why))
                if unknown_word(r) or r.code not in (0, 1, 2, 3):
                    bad.append((t, 'exit %s: %s' % (r.code, r.etext()[:80])))
            # the words that act on the word level, by what they do there
            for ctx in (['mi', w, 'broda', 'kei'], [w, 'mi', 'kei'], ['broda', 'lo', w, 'mi', 'do']):
                exp, words = c04.expected(ctx)
                t = c04.text_of(words)
                why = c04.judge(exp, s.run(['-k'], t))
                if why:
                    bad.append((t, why))
        return len(chunk), st, bad
    n = 0
    for k, st, bad in v.pmap(alone, sorted(WORDS), 20):
        n += k
        seen |= st
        for t, why in bad:
            report(t.strip(), why)
    chk.cov['cmavo'] = n
    direct = {w for w, _ in seen}
    chk.cov['classes_named_by_the_parser'] = len(direct)
    left = sorted(set(WORDS) - direct)
    if {WORDS[w][0] for w in left} - {'BAhE', 'BU', 'FAhO', 'ZOI', 'LOhU', 'SA', 'SU', 'ZEI', 'ZO'} and not chk.viol:
        chk.violation('the parser never names %s' % left, {'words': left})

    # ---- all strings of the shape of a cmavo
    V, VV = 'aeiou', [a + b2 for a in 'aeiou' for b2 in 'aeiou']
    G = list(V) + VV
    def shapes():
        for c in [''] + list('bcdfgjklmnprstvxz'):
            for k in (1, 2, 3):
                if k == 3 and not v.THOROUGH:
                    gs = itertools.product(V, repeat=3)
                else:
                    gs = itertools.product(G, repeat=k)
                for g in gs:
                    yield c + "'".join(g)
            for y in ('y', "y'y", "y'e", "a'y", 'ya', 'iy', 'uy', 'ay', "y'y'y"):
                yield c + y
            for a in itertools.product(V, repeat=3):
                yield c + ''.join(a)

    def shape(chunk):
        s = v.server(d + '/jbofihe', env)
        bad, outcome = [], {}
        for w, r in zip(chunk, s.batch([(['-k'], w + '\n') for w in chunk])):
            ref = lujvo.ref(w)
            kind, _, rest = ref.partition(':')
            kind = kind.strip()
            if kind.startswith('cmavo'):
                parts = re.split(r'[+ ]+', rest.strip())
                unknown = [p for p in parts if p not in WORDS]
                if unknown:
                    outcome['unknown'] = outcome.get('unknown', 0) + 1
                    if r.code != 3 or 'Bad cmavo [%s]' % unknown[0] not in r.etext():
                        bad.append((w, 'exit %s %s, expected "Bad cmavo [%s]"' % (r.code, r.etext()[:80], unknown[0])))
                else:
                    outcome['known'] = outcome.get('known', 0) + 1
                    if 'ad cmavo' in r.etext() or 'ecogni' in r.etext():
                        bad.append((w, 'refused: ' + r.etext()[:80]))
                    elif ''.join(parts) != w:
                        bad.append((w, 'model error'))
                    elif parts[0] not in ('zoi', "la'o"):
                        got = L.norm(r.text().partition('Token list before preprocessing\n\n')[2].partition('-----')[0])
                        if got != ['CMV : ' + p for p in parts]:
                            bad.append((w, 'read as %s, expected %s' % (got, parts)))
            else:
                outcome['no cmavo'] = outcome.get('no cmavo', 0) + 1
                if kind.startswith('UNMATCHED') or kind.startswith('bad') or kind == '':
                    if r.code != 3:
                        bad.append((w, 'exit %s, expected to be unrecognisable' % r.code))
                elif 'CMV : ' in r.text():
                    bad.append((w, 'taken for a cmavo, expected ' + kind))
        return outcome, bad
    for oc, bad in v.pmap(shape, shapes(), 400):
        for k, x in oc.items():
            chk.add('shape_' + k.replace(' ', '_'), x)
        for w, why in bad:
            report(w, why)
    chk.cov['shapes'] = sum(chk.cov.get('shape_' + k, 0) for k in ('known', 'unknown', 'no_cmavo'))

    # ---- runs in the parser
    first = [w for w in sorted(WORDS) if WORDS[w][0] not in ('ZOI',)]
    ends = ['le', 'coi', "co'o", 'by', 'a', "u'i", 'ui', "ba'e", 'ku', "na'e"]

    def runs():
        for a in first:
            for b2 in sorted(WORDS):
                yield (a, b2)
        for w in first:
            for x in ends:
                for y in ends:
                    yield (x, w, y)
                    if v.THOROUGH:
                        yield (w, x, y)
                        yield (x, y, w)
        if v.THOROUGH:
            for t in itertools.product(ends, repeat=5):
                yield t

    def written(ws):
        """the run may be written together (by may not be followed by a consonant)"""
        got = []
        for t in glue(ws).split('.'):
            kind, _, rest = lujvo.ref(t).partition(':')
            if kind.strip() != 'cmavo(s)':
                return False
            got += re.split(r'[+ ]+', rest.strip())
        return got == list(ws)

    def parse(chunk):
        s = v.server(d + '/jbofihe', env)
        bad, st, ref = [], set(), 0
        cases = []
        for ws in chunk:
            if not written(ws):
                continue
            # zoi needs its delimiters
            tail = ' gy. mi gy' if ws[-1] in ('zoi', "la'o") else ' kei'
            cases.append((ws, glue(ws) + tail + '\n'))
        for (ws, t), r in zip(cases, s.batch([(['-k'], t) for _, t in cases])):
            why = labels(r, t, st)
            if not why and unknown_word(r):
                why = 'refused: ' + r.etext()[:80]
            if not why and r.code == 3 and 'preprocessing' not in r.text():
                ref += 1                # zei, bu, zoi without anything to act on: C05
            elif not why:
                got = L.norm(r.text().partition('Token list before preprocessing\n\n')[2].partition('-----')[0])
                want = ['CMV : ' + w for w in ws]
                if tail_zoi(ws):
                    want, got = want[:-1], got[:len(want) - 1]
                if got[:len(want)] != want:
                    why = 'read as %s' % got
            if why:
                bad.append((t, why))
        return len(cases), st, bad, ref

    def tail_zoi(ws):
        return ws[-1] in ('zoi', "la'o")
    named = set()
    for n, st, bad, ref in v.pmap(parse, runs(), 400):
        chk.add('runs_refused_by_the_word_level', ref)
        chk.add('runs_parsed', n)
        named |= st
        for t, why in bad:
            report(t.strip(), why)

    # ---- the word glosser: classes come from the word list; compounds are glossed by the longest entry
    plus, entries = {}, set()
    for f in ('gismu_cmavo.dict', 'extradict', 'places.dat', 'patterns'):
        for l in open(os.path.join(d, f), encoding='latin-1'):
            if ':' in l:
                entries.add(l.split(':')[0])
            if l[0] == '+':
                k, c = l[1:].rstrip('\n').split(':')[:2]
                plus[k] = c
    for w, (c, s) in WORDS.items():
        if plus.get(w) not in (c, s):
            report(w, 'the dictionary gives %r, the word list %s' % (plus.get(w), c), 'cmafihe')

    def classes(ws):
        """classes of a run, one word after the other, the longest entry first; an entry may hold a dot before a vowel"""
        out, i = [], 0
        t = glue(ws)
        pos = [0]
        for w in ws:
            pos.append(pos[-1] + len(w) + (1 if pos[-1] and w[0] in 'aeiouy' else 0))
        cut = set(pos)
        while i < len(t):
            for j in sorted(cut, reverse=True):
                if j > i and t[i:j] in plus:
                    out.append(plus[t[i:j]])
                    i = j
                    break
            else:
                return None
            if t[i:i + 1] == '.':
                i += 1
        return ' '.join(out)

    def gloss(chunk):
        s = v.server(d + '/cmafihe', env)
        bad = []
        ts = [glue(ws) for ws in chunk]
        r = s.run([], ' '.join(ts) + '\n')
        got = re.findall(r'(\S+) <([^<>]*)> \[', r.text())
        if r.code != 0 or [g[0] for g in got] != ts:
            k = next((i for i, (x, g) in enumerate(zip(ts, got + [('', '')] * len(ts))) if g[0] != x), 0)
            bad.append((ts[k], 'exit %s; shown as %r' % (r.code, got[k:k + 1])))
        else:
            for ws, t, (_, c) in zip(chunk, ts, got):
                want = classes(ws)
                # a run that is an entry of its own is glossed as one; only some of those entries have a class
                if c != want and not (c == '' and len(ws) > 1 and t in entries and '+' + t not in entries):
                    bad.append((t, 'class %r, expected %r' % (c, want)))
        return len(chunk), bad

    def gruns():
        for w in sorted(WORDS):
            yield (w,)
        for a in sorted(WORDS):
            for b2 in sorted(WORDS):
                if b2[0] not in 'aeiouy' and a[-1] != 'y':
                    yield (a, b2)
        for w in sorted(WORDS):
            for x in ends:
                for y in ends:
                    if w[0] not in 'aeiouy' and y[0] not in 'aeiouy' and x[-1] != 'y' and w[-1] != 'y':
                        yield (x, w, y)
    for n, bad in v.pmap(gloss, gruns(), 60):
        chk.add('runs_glossed', n)
        for t, why in bad:
            report(t, why, 'cmafihe')
    chk.cov['states'] = chk.cov['cmavo'] + chk.cov['shapes']
    chk.cov['transitions'] = chk.cov['runs_parsed'] + chk.cov['runs_glossed']
    chk.cov['traces_validated_against_impl'] = chk.cov['transitions'] + chk.cov['states']
    chk.assumptions.append('the word list frozen in models/cmavo.txt is the official one')
    chk.sample({'text': 'lemi kei', 'classes': [WORDS['le'][1], WORDS['mi'][1]]})
    chk.finish()


if __name__ == '__main__':
    main()
