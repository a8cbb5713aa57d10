"""C02 lujvo making: every word in both positions, every pair of rafsi shapes that can meet, sequences up to a depth, against
the rules; every form made is read back with the word tool."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v, lujvo as L


def cover(words, feats):
    """greedy cover of all features"""
    todo = set().union(*(feats[w] for w in words))
    res = []
    while todo:
        w = max(words, key=lambda x: (len(feats[x] & todo), x))
        res.append(w)
        todo -= feats[w]
    return res


def compare(words, flags, r):
    code, pre, lst, n, post, err = L.expected(words, flags)
    if r.code != code:
        return 'exit status %s, expected %s' % (r.code, code)
    if r.etext() != err:
        return 'error output %r, expected %r' % (r.etext()[:200], err)
    out = r.text()
    if not out.startswith(pre):
        return 'starts with %r, expected %r' % (out[:len(pre)], pre)
    body = out[len(pre):]
    if post and not body.endswith(post) or (not post and '"-' in body):
        return 'ends with %r, expected %r' % (body[-100:], post)
    lines = body[:len(body) - len(post)].split('\n')
    if lines[-1]:
        return 'last line %r not ended' % lines[-1]
    lines.pop()
    if len(lines) != n:
        return '%d forms listed, expected %d' % (len(lines), n)

    def fmt(m, s, w):
        if 'S' in flags:
            return w if 'A' in flags else '%s %s' % (m, w)
        return '%6d  %s' % (s, w) if 'A' in flags else '%s%6d  %s' % (m, s, w)
    # equal scores may come in any order
    groups = [list(g) for _, g in itertools.groupby(lst, key=lambda x: x[1])]
    i = 0
    for g in groups:
        got = lines[i:i + len(g)]
        exp = {}
        for x in g:
            exp[fmt(*x)] = exp.get(fmt(*x), 0) + 1
        for x in got:
            if not exp.get(x):
                return 'lists %r, expected one of %r' % (x, sorted(exp)[:4])
            exp[x] -= 1
        i += len(g)
        if i >= len(lines):
            break
    return None


def main():
    b = v.start_build()
    L.lib(v.scratch())
    d = v.finish_build(b)
    chk = v.Check('C02')
    W = L.WORDS
    G = [w for w in W if len(w) == 5]

    def nonfinal(w):
        return L.rafsi_of(w, False, True, True)[0]

    def final(w):
        return L.rafsi_of(w, True, True)[0]
    f1 = {w: {(L.shape(r), r[-1]) for r in nonfinal(w)} for w in W}
    f2 = {w: {(L.shape(r), r[:2], 0) for r in final(w)} | {(L.shape(r), r[:2], 1) for r in nonfinal(w)} for w in W}
    S1 = cover(W, f1)
    S2 = cover(W, f2)
    # one word per shape and last letter / first letter, for longer sequences
    g2 = {w: {(L.shape(r), r[0]) for r in final(w)} for w in W}
    S3 = cover(W, g2)
    one = {}          # words by the shape of their only short rafsi
    for w in W:
        s = tuple(sorted(L.shape(r) for r in L.RAFSI[w]))
        one.setdefault(s, []).append(w)
    cvc = {}
    for w in W:
        for r in L.RAFSI[w]:
            if L.shape(r) == 'CVC':
                cvc.setdefault((r[0], r[2]), w)
    first = {}
    for (a, z), w in sorted(cvc.items()):
        first.setdefault(z, w)
    clusters = {}
    for w in W:
        for r in L.RAFSI[w] + ([w] if len(w) == 5 else []):
            if L.shape(r[:3]) == 'CCV':
                clusters.setdefault(r[:2], w)
    chk.cov.update(words=len(W), rafsi=sum(len(x) for x in L.RAFSI.values()), first_shapes=sum(map(len, [set().union(*f1.values())])),
                   second_shapes=len(set().union(*f2.values())))

    def gen():
        al = ['-a', '-l']
        partners = sorted(set(S1[:10] + S3[:10]))
        for w in W:                                    # every word on both sides
            for p in partners:
                yield (w, p), 'alb'
                yield (p, w), 'alb'
            yield (w, 'broda'), ''
            yield ('bacru', w), ''
            yield ('bacru', w, 'klama'), ''
            yield ('klama', 'bacru', w), ''
            yield (w, w, w), ''
        for a in S1:                                   # every meeting of shapes
            for z in S2:
                yield (a, z), 'al'
                yield (a, z, 'bacru'), 'al'
        mids = sorted(set(cvc.values()))
        for a in first.values():                       # the first syllable must not fall off
            for m in mids:
                for z in (list(clusters.values())[::2] if not v.THOROUGH else clusters.values()):
                    yield (a, m, z), 'a'
        dep = [one[s][len(one[s]) // 2] for s in sorted(one)][:12]
        small = sorted(set(dep + list(first.values())[::3]))
        for n, ws in ((3, small + partners[:6]), (4, small[:12]), (5, dep[:6]), (6, dep[:4])):
            if v.THOROUGH:
                ws = ws + partners[:len(ws) // 3]
            for s in itertools.product(ws, repeat=n):
                yield s, 'a'
        cv = list(first.values())
        for a in cv:                                   # rows of CVC before something
            for m in itertools.product(cv[::2], repeat=2):
                for z in list(clusters.values())[::8] + ['nitcu', 'ti', 'klama']:
                    yield (a,) + m + (z,), 'a'
        # every set of options
        cases = [('klama', 'bacru'), ('broda', 'klama'), ('klama', 'broda'), ('broda',), ('klama',), (), ('tolci',), ('klama', 'ce'),
                 ('zgike', 'srera', 'klama'), ('brodu', 'brodi', 'brode'), ('brodo', 'zdani', 'zdani', 'zdani'), ('klama', 'xyz'),
                 ('KLAMA', "zI'O"), ('zohi', 'klama'), ('soho', 'soho'), ("so'o", 'ce', 'klama'), ('barda', 'cinki', 'bi')]
        for k in range(8):
            for fl in itertools.combinations('albSARq', k):
                for c in cases:
                    yield c, ''.join(fl)
        # long rows
        for n in (7, 8, 9, 10):
            yield ('klama', 'barda') * (n // 2) + ('klama',) * (n % 2), 'a'
        single = [w for w in G if len(L.RAFSI[w]) == 1]
        for n in list(range(11, 50)):
            yield tuple(single[:n]), 'a'
            yield ('bi',) * n, ''
            yield ('sedji',) * n, ''
            yield tuple(w for w in G if not L.RAFSI[w])[:n], 'a'

    def judge(chunk):
        srv = v.server(d + '/jvocuhadju')
        vl = v.server(d + '/vlatai')
        out = srv.batch([(['-' + f for f in fl] + list(ws), b'') for ws, fl in chunk])
        viol, nform, made = [], 0, {}
        for (ws, fl), r in zip(chunk, out):
            why = compare(ws, fl, r)
            if why:
                viol.append((ws, fl, why))
            if 'a' in fl and r.code == 0 and 'S' not in fl and 'A' not in fl:
                ws = tuple(w.lower().replace('h', "'") for w in ws)
                for line in r.text().split('\n'):
                    p = line[1:].split()
                    if len(p) == 2 and p[0].isdigit():
                        made[p[1]] = (ws, 'brod' in line and line[:1] == '!')
        made = list(made.items())
        if made:
            r = vl.run(['-el'], ''.join(w + '\n' for w, _ in made), 20000)
            lines = r.text().split('\n')
            if len(lines) != len(made) + 1:
                viol.append((('(vlatai)',), '', 'vlatai -el gave %d lines for %d words, status %s' % (len(lines) - 1, len(made), r.code)))
            for line, (w, (ws, br)) in zip(lines, made):
                nform += 1
                e = '%-25s : lujvo :  %s [%s]' % (w, w, '+'.join(ws))
                if line.rstrip() != e and not br:
                    viol.append((ws, 'al', 'makes %s, which the word tool reads as %r' % (w, line)))
                k = L.ref(w)
                if k != 'lujvo :  ' + w:
                    viol.append((ws, 'al', 'makes %s, which by the rules is %s' % (w, k)))
        return len(chunk), nform, viol
    seen = 0
    for c, nf, viol in v.pmap(judge, gen(), 300):
        chk.add('sequences_executed', c)
        chk.add('forms_read_back', nf)
        for ws, fl, why in viol:
            k = ' '.join(ws)
            if not chk.known(k):
                chk.violation('jvocuhadju %s: %s' % (' '.join(['-' + f for f in fl] + list(ws)), why),
                              {'cmd': 'jvocuhadju', 'args': ['-' + f for f in fl] + list(ws), 'why': why})
    # all forms or a warning: more combinations than the limit
    big = ('zgike', 'klama', 'barda', 'bridi', 'zdani', 'srera') * 3
    r = v.server(d + '/jvocuhadju').run(['-a', '-l'] + list(big), b'', 60000)
    n = 1
    for i, w in enumerate(big):
        n *= len(L.rafsi_of(w, i == len(big) - 1, True)[0])
    if n <= L.LIMIT or r.code != 0 or 'some possible lujvo' not in r.etext() or r.text().count('\n') < L.LIMIT:
        chk.violation('jvocuhadju -a -l %s: limit of combinations not reported' % ' '.join(big), {'args': ['-a', '-l'] + list(big)})
    for n in list(range(6, 40)) + [100, 400, 5000]:
        w = ('tolcitno' * 700)[:n]
        for ws in ([w], ['klama', w], [w, 'klama'], ['klama'] * 48 + [w]):
            r = v.server(d + '/jvocuhadju').run(ws)
            if r.code != 1 or r.out or r.etext() != 'Cannot use component [%s] in forming lujvo.\n' % w:
                chk.violation('jvocuhadju with a word of %d letters: status %s, %r' % (n, r.code, r.etext()[:100]), {'args': ws})
    rows = ['klama'] * 50
    r = v.server(d + '/jvocuhadju').run(rows)
    if r.code != 1 or 'Too many' not in r.etext():
        chk.violation('fifty words not refused', {'args': rows})
    chk.cov['states'] = chk.cov['words']
    chk.cov['transitions'] = chk.cov['sequences_executed']
    chk.cov['traces_validated_against_impl'] = chk.cov['sequences_executed'] + chk.cov['forms_read_back']
    for x in (('klama', 'bacru'), ('to\'e', 'mabru'), ('zgike', 'rafsi')):
        chk.sample({'words': x, 'forms': [(s, w) for s, w, _ in L.forms(x, True) or []][:6]})
    chk.assumptions = ['the rafsi list (models/rafsi.txt) is taken from the builder and agrees with the word tool\'s table',
                       'hyphens depend on the shapes and adjacent letters of the rafsi that meet, and for the tosmabru rule on the '
                       'whole word up to the depth explored', 'order among forms of equal score is free']
    chk.finish()


main()
