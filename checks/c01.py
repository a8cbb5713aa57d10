"""C01 morphology: every transition of the reference morphology (models/morph.hh), told apart by every ending that matters,
and every short string, against the word tool; one word per state and class against the parser."""
import gzip, itertools, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import v

M = os.path.join(v.VERIF, 'models')
POS = re.compile(r' at line \d+ column \d+')


def main():
    b = v.start_build(targets=('all',))
    run = os.path.join(v.scratch(), 'morph_run')
    subprocess.run(['g++', '-O2', '-pthread', '-I', M, '-o', run, os.path.join(M, 'morph_run.cc')], check=True)
    st = os.path.join(v.scratch(), 'states.txt')
    with gzip.open(os.path.join(M, 'morph_states.txt.gz')) as i, open(st, 'wb') as o:
        o.write(i.read())
    d = v.finish_build(b)
    chk = v.Check('C01')
    reps = os.path.join(v.scratch(), 'reps.txt')
    p = subprocess.run([run, d + '/vlatai', v.scratch(), st, '120' if v.THOROUGH else '20', '6' if v.THOROUGH else '5', reps],
                       stdout=subprocess.PIPE, encoding='latin-1')
    if p.returncode:
        v.die('morph_run ended with %d' % p.returncode)
    n = {}
    for line in p.stdout.split('\n'):
        k, _, x = line.partition(' ')
        if k == 'count':
            a, _, c = x.rpartition(' ')
            n[a] = int(c)
        elif k == 'diff':
            w, e, g = (x.split('\t') + ['', ''])[:3]
            chk.violation('%s: expected %r, got %r' % (w, e, g), {'cmd': 'vlatai', 'stdin': w + '\n', 'expected': e, 'got': g})
    chk.cov.update(states=n['states'], transitions=n['transitions'],
                   traces_validated_against_impl=n['transition_endings'] + n['two_step_endings'] + n['short_strings'])
    for k in ('endings', 'transition_endings', 'two_step_endings', 'short_strings', 'decorated_words', 'long_words', 'pieces',
              'representatives', 'differences'):
        chk.cov[k] = n[k]
    chk.cov['words_by_class'] = {k[6:]: c for k, c in n.items() if k.startswith('class:')}

    # the parser: the same words, joined and cut up, inside lo'u ... le'u
    rows = [line.rstrip('\n').split('\t') for line in open(reps, encoding='latin-1')]

    def judge(chunk):
        srv = v.server(d + '/jbofihe', {'JBOFIHE_DICTIONARY': d + '/smujmaji.dat'})
        cases, meta = [], []
        for w, r in chunk:
            k, _, rest = r.partition(' :  ')
            cult = 'cultural' in k
            dot = '.' if k == 'cmene' else ''
            if k.startswith('bad cmene') and 'breaks' not in k:
                continue
            bad = not rest or k.startswith('Bad') or 'uppercase' in k
            forms = [w + dot]
            if not bad:
                if k.startswith('bad'):
                    forms.append(rest.replace('+', ' ') + '.')
                else:
                    forms.append(rest.replace('/', '') + dot)
                    if ' ' in rest:
                        forms.append(rest.replace('/', '').replace(' ', '.\n.') + dot)
            for f in forms:
                cases.append((['-t'] + (['-cr'] if cult else []), "lo'u mi %s mi le'u\n" % f))
            if cult:
                cases.append((['-t'], "lo'u mi %s mi le'u\n" % w))
            meta.append((w, k, bad, forms, cult))
        out = srv.batch(cases)
        i = 0
        viol = []
        for w, k, bad, forms, cult in meta:
            rs = out[i:i + len(forms)]
            i += len(forms)
            r = rs[0]
            why = None
            unrec = ('Unrecognizable word' in r.etext()) or 'Invalid uppercase' in r.etext()
            if r.code not in (0, 3):
                why = 'exit status %s' % r.code
            elif bad and (r.code != 3 or not unrec):
                why = '%s, but accepted (exit status %s)' % (k, r.code)
            elif not bad and unrec and not k.startswith('bad'):
                why = '%s, but refused: %s' % (k, r.etext()[:100])
            elif not bad and not unrec and r.code and 'Bad cmavo' not in r.etext():
                why = 'exit status %s: %s' % (r.code, r.etext()[:100])
            else:
                for f, x in zip(forms[1:], rs[1:]):
                    if (x.code, x.text(), POS.sub('', x.etext())) != (r.code, r.text(), POS.sub('', r.etext())):
                        why = 'reads differently from %r: %r %r' % (f, (r.code, r.text(), r.etext()), (x.code, x.text(), x.etext()))
            if cult:
                if not bad and out[i].code != 3:
                    why = 'cultural rafsi accepted without -cr'
                i += 1
            if why:
                viol.append((w, why))
        return len(cases), viol
    for c, viol in v.pmap(judge, rows, 300):
        chk.add('parser_executions', c)
        for w, why in viol:
            if not chk.known(w):
                chk.violation('%s: %s' % (w, why), {'cmd': 'jbofihe -t', 'stdin': "lo'u mi %s mi le'u" % w, 'why': why})
    for w, r in rows[::len(rows) // 5]:
        chk.sample({'word': w, 'expected': r})
    chk.assumptions = ['the reference morphology follows the published rules, with this project\'s documented reading where they leave '
                       'a choice (fu\'ivla vowels, liberal cmavo forms, cultural rafsi)',
                       'an implementation with more than %d letter states beyond two letters of lookahead could hide a difference'
                       % n['states']]
    chk.finish()


main()
