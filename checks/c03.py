"""C03 the compiled dictionary: from every reachable dictionary every source is added with smujajgau; lookups against a model."""
import itertools, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v, lujvo as L

M = os.path.join(v.VERIF, 'models')
SPACE = ' \t\n\v\f\r'
_canon = {}


def canon(w):
    """components of a lujvo written from the rafsi table, joined by +; None for anything else"""
    if w in _canon:
        return _canon[w]
    res = []
    if re.fullmatch("[a-z']+", w) and L.kind(w) >= 0:
        by = {}
        for k in L.WORDS:
            for r in L.RAFSI[k]:
                by[r] = k

        def rec(i, acc):
            if i == len(w):
                if len(acc) > 1:
                    res.append('+'.join(acc))
                return
            last5 = w[i:]
            if len(last5) == 5 and last5 in L.RAFSI:
                rec(len(w), acc + [last5])
            if w[i + 4:i + 5] == 'y' and len(w[i:i + 4]) == 4:
                for k in L.WORDS:
                    if len(k) == 5 and k[:4] == w[i:i + 4]:
                        rec(i + 5, acc + [k])
            for n in (3, 4):
                r = w[i:i + n]
                if r in by and len(r) == n:
                    j = i + n
                    rec(j, acc + [by[r]])
                    if w[j:j + 1] == 'y' and j + 1 < len(w):
                        rec(j + 1, acc + [by[r]])
                    if i == 0 and r[-1] in 'aeiou' and w[j:j + 1] in ('r', 'n') and j + 1 < len(w):
                        rec(j + 1, acc + [by[r]])
        rec(0, [])
    if len(set(res)) > 1:
        v.die('%s: more than one way to read it: %s' % (w, res))
    _canon[w] = res[0] if res else None
    return _canon[w]


def add(d, text):
    """the dictionary d after the source text"""
    def define(k, val):
        if k[-1].isdigit():
            for s in 'nvqat':
                d.pop(k + s, None)
        d[k] = val
    lines = text.split('\n')
    if not lines[-1]:
        lines.pop()
    for l in lines:
        l = l.lstrip(SPACE)
        if not l or l[0] in '#!;' or ':' not in l:
            continue
        k, val = l.split(':')[:2]
        if not k or len(k) > 255 or len(val) > 255:
            continue
        define(k, val)
        m = re.match("[A-Za-z][A-Za-z']*", k)
        if m and len(m.group()) >= 6 and k[-1].isdigit():
            c = canon(m.group())
            if c and len(c) < 255 and len(k) < 255:
                define(c + k[-1], '@' + k)
    return d


X = 'x' * 255
# alphabets of source lines; within each every reachable dictionary is explored
GROUPS = {
    'places': ['foo1:a', 'foo1:b', 'foo1n:c', 'foo1q:d', 'foo1t:e', 'foo1v:', 'foo:f:comment', 'foo2:g'],
    'lujvo': ['klamau1:a', 'klamau1n:b', 'klamymau1:c', 'klama+zmadu1:d', 'klama+zmadu1q:e', 'klamau2:f', 'klamau:g'],
    'apostrophe': ["ci'ersai1:a", "ci'esai1:b", "ciste+sanmi1n:c", "ci'ersai1t:d", "ciste+sanmi1:e", "'ci1:f", "ci'ersai1:@soirsai2"],
    'order': ['a:1', 'ab:2', "a'a:3", 'a1:4', '*5bra1:5', '@bra:6', 'A:7', 'a:8', 'ab:'],
    'lengths': [X + ':a', X + 'x:b', 'k:' + X, 'k:' + X + 'x', 'k1:' + X[1:], X[1:] + '1:c', X[1:] + ':d', 'k1n:e'],
    'forms': ['a:b', '# a:c', '  a:d', '\t!a:e', ';a:f', ':g', 'a', '', '   ', 'a :h', 'a::i', 'b: j # k'],
}


def main():
    b = v.start_build()
    L.lib(v.scratch())
    d = v.finish_build(b)
    chk = v.Check('C03')
    sc = v.scratch()
    # readers
    lib = os.path.join(sc, 'objs.a')
    objs = [f for f in os.listdir(d) if f.endswith('.o') and f != 'dictaccs.o']
    nm = subprocess.run(['nm', '-A', '--defined-only'] + objs, cwd=d, stdout=subprocess.PIPE, encoding='latin-1').stdout
    mains = {l.split(':')[0] for l in nm.split('\n') if l.endswith(' T main')}
    subprocess.run(['ar', 'rcs', lib] + sorted(set(objs) - mains), cwd=d, check=True)
    base = ['-O2', '-w', '-fcommon', '-I', d, '-DDEFAULT_DICTIONARY="none"']

    def reader(name, *flags):
        o = os.path.join(sc, name)
        p = subprocess.run(['gcc'] + base + list(flags) + ['-o', o, os.path.join(d, 'dictaccs.c'), os.path.join(M, 'dict_run.c'), lib])
        if p.returncode:
            v.die('the dictionary reader does not compile')
        return o
    readers = {'mmap': reader('rd_mmap', '-DHAVE_MMAP=1'), 'read': reader('rd_read')}
    work = os.path.join('/dev/shm' if os.access('/dev/shm', os.W_OK) else sc, os.path.basename(sc) + '.dict')
    os.makedirs(work)
    try:
        explore(chk, d, readers, work)
        shipped(chk, d, readers, work)
        embedded(chk, d, sc, base, lib, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    chk.assumptions.append('a dictionary is built by one smujajgau at a time, and its file is not changed by anything else')
    chk.cov['traces_validated_against_impl'] = chk.cov['transitions']
    chk.finish()


def lookup(rd, kf, dbs):
    """list of answers per dictionary, None if the reader failed on it"""
    p = subprocess.run([rd, kf], input='\n'.join(dbs) + '\n', stdout=subprocess.PIPE, encoding='latin-1')
    res, cur = [], []
    for l in p.stdout.split('\n'):
        if l.startswith('end '):
            res.append(cur if l == 'end 0' else None)
            cur = []
        elif l:
            cur.append(l[1:] if l[0] == '=' else None if l == '-' else '?')
    return res + [None] * (len(dbs) - len(res))


def explore(chk, d, readers, work):
    states = transitions = 0
    for g, lines in GROUPS.items():
        keys = set()
        for l in lines:
            m = add({}, l)
            keys |= set(m)
            k = l.strip(SPACE).split(':')[0]
            keys.add(k)
        keys |= {k[:-1] for k in keys} | {k + s for k in keys for s in "1nqz"} | {'zzz', 'A', "'", '0'}
        keys = sorted(k for k in keys if k and '\n' not in k and len(k) < 300)
        kf = os.path.join(work, 'keys.' + g)
        open(kf, 'w', newline='').write('\n'.join(keys) + '\n')
        # what is done in one run: the files, each a text
        events = [(l + e,) for l in lines for e in ('\n', '')]
        events += [(a + '\n' + b2 + '\n',) for a in lines for b2 in lines]
        events += [(a + '\n', b2 + '\n') for a in lines for b2 in lines]
        events += [(a, b2) for a in lines[:4] for b2 in lines[:4]]
        if v.THOROUGH:
            events += [(a + '\n' + b2 + '\n' + c + '\n',) for a in lines for b2 in lines for c in lines]
        events.append((('\n'.join(lines) + '\n'),))
        events.append((('\n'.join(reversed(lines)) + '\n'),))
        files = {}
        for ev in events:
            for t in ev:
                if t not in files:
                    files[t] = os.path.join(work, '%s.s%d' % (g, len(files)))
                    open(files[t], 'w', newline='').write(t)
        start = frozenset()
        seen = {start: None}       # model dictionary -> file of the real one (None: no file)
        todo = [start]
        depth = 0
        while todo:
            def step(chunk, seen=seen, g=g):
                srv = v.server(d + '/smujajgau')
                cases, meta = [], []
                for st, ev, n in chunk:
                    db = os.path.join(work, '%s.t%d.%d' % (g, os.getpid(), n))
                    if seen[st]:
                        shutil.copyfile(seen[st], db)
                    elif os.path.exists(db):
                        os.remove(db)
                    cases.append(([db] + [files[t] for t in ev], ''))
                    meta.append((st, ev, db))
                out = srv.batch(cases)
                exp, bad, new, dbs = [], [], {}, []
                for (st, ev, db), r in zip(meta, out):
                    m = dict(st)
                    for t in ev:
                        add(m, t)
                    exp.append(m)
                    if r.code != 0:
                        bad.append((st, ev, 'smujajgau ended with %s' % r.code))
                ans = {k: lookup(rd, kf, [x[2] for x in meta]) for k, rd in readers.items()}
                for i, (st, ev, db) in enumerate(meta):
                    want = [exp[i].get(k) for k in keys]
                    ok = True
                    for rd in readers:
                        got = ans[rd][i]
                        if got != want:
                            ok = False
                            why = 'the lookup failed' if got is None else next(
                                ('%r gives %r instead of %r' % (k, a, w) for k, w, a in zip(keys, want, got + ['?'] * len(keys)) if a != w), '?')
                            bad.append((st, ev, '%s: %s' % (rd, why)))
                            break
                    f = frozenset(exp[i].items())
                    if ok and f not in seen and f not in new:
                        new[f] = db + '.new'
                        os.replace(db, new[f])
                    elif os.path.exists(db):
                        os.remove(db)
                return len(chunk), new, bad

            def gen():
                n = 0
                for st in todo:
                    for ev in events:
                        n += 1
                        yield st, ev, n
            nxt = []
            for n, new, bad in v.pmap(step, gen(), 100):
                transitions += n
                for f, db in new.items():
                    if f not in seen:
                        seen[f] = os.path.join(work, '%s.d%d' % (g, len(seen)))
                        os.replace(db, seen[f])
                        nxt.append(f)
                    else:
                        os.remove(db)
                for st, ev, why in bad:
                    key = '%s | %s | %s' % (sorted(st), ev, why)
                    if not chk.known(key):
                        chk.violation(key[:300], {'dictionary': sorted(st), 'sources': ev, 'why': why})
            todo = nxt
            depth += 1
            if len(chk.viol) > 200:
                break
        states += len(seen)
        chk.cov['states_' + g] = len(seen)
        chk.sample('%s: %d dictionaries reached in %d rounds' % (g, len(seen), depth))
    chk.cov['states'] = states
    chk.cov['transitions'] = transitions


def expect(chk, what, rd, db, model, extra, work):
    keys = sorted(set(model) | extra)
    kf = os.path.join(work, 'keys.x')
    open(kf, 'w', newline='').write('\n'.join(keys) + '\n')
    got = lookup(rd, kf, [db])[0]
    chk.add('keys_looked_up', len(keys))
    if got is None or len(got) != len(keys):
        chk.violation('%s: the lookup failed' % what, {'what': what})
        return
    for k, a in zip(keys, got):
        if a != model.get(k):
            key = '%s: %r gives %r instead of %r' % (what, k, a, model.get(k))
            if not chk.known(key):
                chk.violation(key, {'what': what, 'key': k, 'got': a, 'expected': model.get(k)})


def near(keys):
    res = set()
    for k in keys:
        res |= {k[:-1], k + 'n', k + '1', k + "'", k[:-1] + chr((ord(k[-1]) - 32 + 1) % 94 + 32), k[0], k + k[-1]}
    return {k for k in res if k and '\n' not in k and ':' not in k}


def shipped(chk, d, readers, work):
    """dictionaries of every size up to a bound, and the one made of the sources in the tree, in one and in several runs"""
    sj = d + '/smujajgau'
    N = 300 if v.THOROUGH else 130

    def size(chunk):
        bad = []
        for n in chunk:
            db, src, kf = (os.path.join(work, 'n%d.%s' % (n, x)) for x in ('db', 'src', 'keys'))
            ks = ['k%04d' % (2 * i) for i in range(n)]
            order = ks[::2] + ks[1::2][::-1]
            open(src, 'w').write('# none\n' + ''.join('%s:v%s\n' % (k, k) for k in order))
            open(kf, 'w').write(''.join('k%04d\n' % i for i in range(2 * n + 2)) + 'a\nz\n')
            r = v.server(sj).run([db, src])
            for nm, rd in readers.items():
                got = lookup(rd, kf, [db])[0]
                want = [('vk%04d' % i if i % 2 == 0 and i < 2 * n else None) for i in range(2 * n + 2)] + [None, None]
                if r.code != 0 or got != want:
                    bad.append((n, nm))
            for f in (db, src, kf):
                if os.path.exists(f):
                    os.remove(f)
        return len(chunk), bad
    for n, bad in v.pmap(size, range(N + 1), 8):
        chk.add('sizes', n)
        for k, rd in bad:
            chk.violation('a dictionary of %d entries, %s: wrong answer' % (k, rd), {'entries': k, 'reader': rd})
    src = [os.path.join(d, f) for f in ('gismu_cmavo.dict', 'extradict', 'places.dat', 'patterns')]
    model = {}
    for f in src:
        add(model, open(f, encoding='latin-1', newline='').read())
    ex = near(model)
    for what, runs in (('shipped sources in one run', [src]), ('shipped sources in four runs', [[f] for f in src]),
                       ('shipped sources, added twice', [src[:2], src[2:], src])):
        db = os.path.join(work, 'ship.db')
        if os.path.exists(db):
            os.remove(db)
        for r in runs:
            if v.server(sj).run([db] + r, timeout=60000).code != 0:
                chk.violation('%s: smujajgau failed' % what, {'what': what})
        m = dict(model)
        if len(runs) == 3:
            for f in src:
                add(m, open(f, encoding='latin-1', newline='').read())
        for nm, rd in readers.items():
            expect(chk, '%s, %s' % (what, nm), rd, db, m, ex, work)
    # the database the build made
    db = os.path.join(d, 'smujmaji.dat')
    if os.path.exists(db):
        expect(chk, 'the dictionary of the build', readers['mmap'], db, model, ex, work)


def embedded(chk, d, sc, base, lib, work):
    """dict2inc.pl: every sequence of up to three lines, side by side in one source"""
    lines = ['foo:a', 'foo:b', 'foo1:c"d', 'foo1n:e', "f'o:f:comment", '#foo:g', '  # foo:h', 'foo', 'A:i', '*5foo1:%1n', '@foo:j']
    text, model, n = [], {}, 0
    for k in range(1, 4):
        for t in itertools.product(lines, repeat=k):
            n += 1
            for l in t:
                l = l.replace('foo', 'q%dx' % n).replace("f'o", "f'%d" % n).replace('A:', 'A%d:' % n)
                text.append(l)
                if not l.lstrip().startswith('#') and ':' in l:
                    a, c = l.split(':')[:2]
                    model[a] = c
    inc = subprocess.run(['perl', 'dict2inc.pl'], cwd=d, input='\n'.join(text) + '\n', stdout=subprocess.PIPE, encoding='latin-1')
    open(os.path.join(d, 'dictdata.c'), 'w').write(inc.stdout)
    o = os.path.join(sc, 'rd_emb')
    p = subprocess.run(['gcc'] + base + ['-O0', '-DEMBEDDED_DICTIONARY', '-o', o, os.path.join(d, 'dictaccs.c'), os.path.join(M, 'dict_run.c'), lib],
                       stderr=subprocess.PIPE, encoding='latin-1')
    if inc.returncode or p.returncode:
        chk.violation('the embedded dictionary does not compile: ' + p.stderr[:300], {'what': 'embedded'})
        return
    expect(chk, 'embedded dictionary', o, 'none', model, near(list(model)[:2000]), work)
    src = [os.path.join(d, f) for f in ('gismu_cmavo.dict', 'places.dat', 'extradict', 'patterns')]
    text = ''.join(open(f, encoding='latin-1').read() for f in src)
    model = {}
    for l in text.split('\n'):
        if re.match('[ \t]*#', l):
            continue
        m = re.match('([^:]+):([^:]+)', l)
        if m:
            model[m.group(1)] = m.group(2)
    inc = subprocess.run(['perl', 'dict2inc.pl'], cwd=d, input=text, stdout=subprocess.PIPE, encoding='latin-1')
    open(os.path.join(d, 'dictdata.c'), 'w').write(inc.stdout)
    p = subprocess.run(['gcc'] + base + ['-O0', '-DEMBEDDED_DICTIONARY', '-o', o, os.path.join(d, 'dictaccs.c'), os.path.join(M, 'dict_run.c'), lib])
    if p.returncode:
        chk.violation('the embedded shipped dictionary does not compile', {'what': 'embedded'})
        return
    expect(chk, 'embedded shipped dictionary', o, 'none', model, near(model), work)


if __name__ == '__main__':
    main()
