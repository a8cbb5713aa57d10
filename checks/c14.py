"""C14 breaking lujvo down: every pair of rafsi and triples over representatives against the word they were made of; all forms
of the same words are glossed alike."""
import itertools, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v, lujvo as L

M = os.path.join(v.VERIF, 'models')
TEXT = "lo F ku fi'o F fe'u lo se F ku lo te F be fi lo ve F bei lo xe F be'o ku cu F F"
# entries for lujvo of these words, in one of their forms
ENTRIES = [("soirsai", 'sonci sanmi'), ("ci'ersai", 'ciste sanmi'), ("ta'urpa'i", 'taxfu prami'), ("selklama", 'se klama'),
           ("brivla", 'bridi valsi'), ("jbobau", 'lojbo bangu'), ("datni'i", 'drata nibli'), ("zu'erdji", 'zukte djica'),
           ("tolcitno", "to'e citno"), ("lojbaugri", 'logji bangu girzu'), ("bangyki'o", 'bangu kilto'), ("mamtypa'i", 'mamta prami')]


def norm(t, f):
    return re.sub(r'\s+', ' ', re.sub(r"(?<![a-z'])" + re.escape(f) + r"(?![a-z'])", 'W', re.sub(r'col \d+', 'col', t)))


def main():
    b = v.start_build()
    run = os.path.join(v.scratch(), 'luj_run')
    subprocess.run(['g++', '-O2', '-pthread', '-I', M, '-o', run, os.path.join(M, 'luj_run.cc')], check=True)
    L.lib(v.scratch())
    d = v.finish_build(b)
    chk = v.Check('C14')
    p = subprocess.run([run, d + '/vlatai', v.scratch(), os.path.join(M, 'rafsi.txt'), '1' if v.THOROUGH else '0'],
                       stdout=subprocess.PIPE, encoding='latin-1')
    if p.returncode:
        v.die('luj_run ended with %d' % p.returncode)
    n = {}
    for line in p.stdout.split('\n'):
        k, _, x = line.partition(' ')
        if k == 'count':
            a, _, c = x.rpartition(' ')
            n[a] = int(c)
        elif k == 'diff':
            w, e, g = (x.split('\t') + ['', ''])[:3]
            if not chk.known(w):
                chk.violation('%s: expected %r, got %r' % (w, e, g), {'cmd': 'vlatai -el', 'stdin': w + '\n', 'expected': e, 'got': g})
    chk.cov.update(rafsi_first=n['first'], rafsi_last=n['last'], unassigned=n['unassigned'], lujvo_broken_down=n['words'])

    # glosses: the shipped dictionary, and one with entries for whole lujvo
    dic = {'shipped': d + '/smujmaji.dat', 'lujvo': os.path.join(v.scratch(), 'lujvo.dat')}
    src = os.path.join(v.scratch(), 'lujvo.src')
    with open(src, 'w') as f:
        for i, (w, _) in enumerate(ENTRIES):
            for pl in range(1, 6):
                f.write('%s%d:%s;zz%d %d\n' % (w, pl, 'DSAPRI'[i % 6], i, pl))
            f.write('%s1n:zz%d noun\n' % (w, i))
    subprocess.run(['cp', dic['shipped'], dic['lujvo']], check=True)
    subprocess.run([d + '/smujajgau', dic['lujvo'], src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    P = ['klama', 'gasnu', 'barda', 'se', "to'e", 'mintu', 'cinki', 'te', 'zmadu', 'xadba', 'gusni', "na'e", 'klesi', 've', 'xe',
         "nu'o", 'carmi', 'jdika', 'mleca', 'rinka', 'cmalu', 'ke', 'nu', 'banli', 'drani', 'ckaji', 'simsa', 'brode', 'sutra', 'cfari']
    own = {w for w, _ in ENTRIES}

    def gen():
        for w, ws in ENTRIES:
            ws = tuple(ws.split())
            yield 'lujvo', ws
            for x in P[:12]:
                yield 'lujvo', ws + (x,)
                yield 'lujvo', (x,) + ws
        for i, w in enumerate(L.WORDS):
            for x in P[i % 5::5] if not v.THOROUGH else P:
                yield 'shipped', (w, x)
                yield 'shipped', (x, w)
        q = P if v.THOROUGH else P[:16]
        for t in itertools.product(q, repeat=3):
            yield 'shipped', t
        for t in itertools.product(P[:6] + P[-2:], repeat=4):
            yield 'shipped', t

    def judge(chunk):
        viol, n, dist = [], 0, 0
        for dn, ws in chunk:
            fs = [w for _, w, b in L.forms(ws, True) or () if not b]
            if len(fs) < 2:
                continue
            if len(fs) > 24:
                fs = fs[:12] + fs[-12:]
            env = {'JBOFIHE_DICTIONARY': dic[dn]}
            for tool, opt in (('jbofihe', ['-x']), ('cmafihe', [])):
                if tool == 'cmafihe' and dn == 'lujvo':
                    continue
                out = v.server(d + '/' + tool, env).batch([(opt, TEXT.replace('F', f)) for f in fs])
                n += len(out)
                seen = {}
                for f, r in zip(fs, out):
                    seen.setdefault((r.code, norm(r.text() + r.etext(), f)), []).append(f)
                dist += len(seen)
                if any(k[0] for k in seen):
                    viol.append((tool, ws, 'exit status %s for %s' % next((k[0], f[0]) for k, f in seen.items() if k[0])))
                elif len(seen) > 1:
                    a, b2 = list(seen.items())[:2]
                    i = next(i for i, (x, y) in enumerate(zip(a[0][1], b2[0][1])) if x != y)
                    viol.append((tool, ws, '%s is glossed ...%r, %s ...%r' % (
                        a[1][0], a[0][1][max(0, i - 40):i + 40], b2[1][0], b2[0][1][max(0, i - 40):i + 40])))
                elif dn == 'lujvo' and tuple(' '.join(ws).split()) in {tuple(w.split()) for _, w in ENTRIES} and \
                        'zz' not in next(iter(seen))[1]:
                    viol.append((tool, ws, 'the dictionary entry is not used'))
        return n, dist, viol
    for n, dist, viol in v.pmap(judge, gen(), 40):
        chk.add('texts_glossed', n)
        chk.add('glosses_distinct', dist)
        for tool, ws, why in viol:
            if not chk.known('%s: %s' % (tool, ' '.join(ws))):
                chk.violation('%s, lujvo of %s: %s' % (tool, ' '.join(ws), why), {'cmd': tool, 'text': TEXT, 'words': ws, 'why': why})
    chk.cov['states'] = chk.cov['rafsi_first'] + chk.cov['rafsi_last'] + chk.cov['unassigned']
    chk.cov['transitions'] = chk.cov['lujvo_broken_down']
    chk.cov['traces_validated_against_impl'] = chk.cov['lujvo_broken_down'] + chk.cov['texts_glossed']
    for x in (('klama', 'bacru'), ('se', 'klama')):
        chk.sample({'words': x, 'forms': [w for _, w, _ in L.forms(x, True) or []][:6]})
    chk.assumptions = ['the rafsi list (models/rafsi.txt) is trusted',
                       'rafsi of three and more places are explored over representatives of every shape and outer letter']
    chk.finish()


main()
