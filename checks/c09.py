"""C09: no input crashes a tool, corrupts its memory or keeps it running for ever; exit statuses tell the outcomes apart.

The programs are built with AddressSanitizer and UndefinedBehaviorSanitizer, and the parser with MemorySanitizer too.
Bounded families of inputs, options, dictionaries and sources are enumerated exhaustively, and every one is run: a report of
a sanitizer, a failed assertion, a signal, an undocumented exit status or a run that does not end is a violation."""
import itertools, os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v
import texts

ASAN = ('gcc -g1 -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined '
        '-static-libasan -static-libubsan -w')
MSAN = 'clang -g1 -O1 -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all -w'
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:handle_segv=2:handle_abort=2:allocator_may_return_null=1:hard_rss_limit_mb=2500',
       'MSAN_OPTIONS': 'handle_segv=2:allocator_may_return_null=1:hard_rss_limit_mb=2500',
       'UBSAN_OPTIONS': 'print_stacktrace=1'}
BAD = re.compile(r'(AddressSanitizer|MemorySanitizer|UndefinedBehaviorSanitizer|runtime error:|Assertion|unexpected error|'
                 r'buffer overflow detected|stack smashing|hard rss limit|Sanitizer: )[^\n]*')
STATUS = {'jbofihe': (0, 1, 2, 3), 'cmafihe': (0, 1, 2), 'vlatai': (0,), 'smujajgau': (0, 1, 2), 'jvocuhadju': (0, 1), 'dfasyn': (0, 1, 2)}
SAME = {'-x', '-b', '-l', '-H', '-t', '-tf', '-k', '-ie', '-m', '-bt', '-dd', '-w20'}    # options that cannot change what is accepted
ASB = MSB = None


def path(tool, san):
    return os.path.join(MSB if san == 'msan' else ASB, 'dfasyn_san/dfasyn' if tool == 'dfasyn' else tool)


# ------------------------------------------------------------------------------------------------------------- families
# a case: (tool, sanitizer, args, stdin bytes, dictionary or None)
def b(t):
    return t if isinstance(t, bytes) else t.encode('latin-1')


def fam_corpus(th):
    """accepted texts over every pair of adjacent word classes, in every kind of output"""
    modes = [['-x', '-b'], ['-l'], ['-H'], ['-sev'], [], ['-tf', '-k']]
    more = [['-x'], ['-t'], ['-l', '-b'], ['-x', '-b', '-w20'], ['-ie', '-re'], ['-cr', '-m'], ['-b'], ['-x', '-dd'], ['-bt']]
    for c in texts.accepted(3 if th else 2):
        t = b(' '.join(texts.words(c)) + '\n')
        for m in modes + (more if th else []):
            yield 'jbofihe', 'asan', m, t, None
        for m in (modes + more if th else [['-x', '-b'], ['-se'], ['-t']]):
            yield 'jbofihe', 'msan', m, t, None


PIECES = [b'a', b'b', b'i', b"'", b'.', b',', b'-', b'7', b'\n', b' ', b'A', b'\0', b'\xff', b'_', b'y', b'l', b'zei', b'zoi ', b'si ',
          b'sa ', b'su ', b"lo'u ", b"le'u ", b'zo ', b'bu ', b"fa'o", b'la ', b'to ', b'(', b')', b'ui ', b'nai ', b'mi ', b'broda ', b'gi ']


def fam_strings(th):
    """every sequence of up to n pieces, every pair of bytes"""
    P = PIECES if th else PIECES[:27]
    for n in range(0, 4):
        for q in itertools.product(P, repeat=n):
            t = b''.join(q)
            yield 'jbofihe', 'asan', ['-x'], t, None
            if n < 3 or th:
                for m in ([], ['-k', '-t'], ['-re', '-H']):
                    yield 'jbofihe', 'asan', m, t, None
                yield 'jbofihe', 'msan', ['-x'], t, None
                yield 'vlatai', 'asan', [], t, None
                yield 'vlatai', 'asan', ['-el'], t, None
                yield 'cmafihe', 'asan', ['-b', '-w', '20'], t, None
                yield 'cmafihe', 'asan', ['-l'], t, None
    for i in range(256):
        c = bytes([i])
        for t in (c, c + b'a', b'a' + c, b'mi' + c + b'do\n', b'zoi gy ' + c + b' gy\n', b'zo ' + c, b'lo\'u ' + c + b' le\'u', b'(' + c, b'si ' + c, c + b' bu', b'klama' + c,
                  b'mi klama zei ' + c, b'zoi ' + c + b' a ' + c + b' '):
            yield 'jbofihe', 'asan', ['-x', '-b'], t, None
            yield 'jbofihe', 'asan', ['-H', '-cr'], t, None
            yield 'vlatai', 'asan', [], t, None
            yield 'cmafihe', 'asan', [], t, None
    if th:
        for i in range(65536):
            t = bytes([i >> 8, i & 255])
            yield 'jbofihe', 'asan', ['-x'], t, None
            yield 'cmafihe', 'asan', [], t, None
            yield 'vlatai', 'asan', [], t, None


REPEAT = ["mi", "lo", "broda", "be", "bei", "be'o", "ku", "ui", "nai", "cai", "pei", "ba'e", "na'e", "se", "jai", "jai bai", "nu", "kei", "poi",
          "ku'o", "lu", "li'u", "to", "toi", "sei", "se'u", "ge", "gi", "gi'e", "gi'e ke", "ke", "ke'e", "bo", "co", "je", "joi", "zo a", "zo", "si", "sa",
          "su", "a si", "zei", "a zei a", "bu", "a bu", "by", "pa", "moi", "xi pa", "xi", "vei", "ve'o", "su'i", "li", "fa", "fai", "fi'o broda fe'u", "pu",
          "na ku", "ce'e", "pe'e", "nu'i", "nu'u", "i", "ni'o", "coi", "djan", "la djan", "zoi gy a gy", "lo'u a le'u", "lo'u", "le'u", "tu'e",
          "tu'u", "i bo", "goi", "zi'e", "me", "me'u", "nu'a", "cei broda", "xu", "doi", "soi", "fu'e", "fu'o", "da'o", "y", "fa'o", "zoi gy",
          "a'ybroda", "?", "x", "broda bo", "klama gi'e", "ku joi", "se'i", "mo'o", "mai", "pa mai", "te'u", "pe'o", "ku'e", "jo'i", "na'u", "ni'e",
          "mo'e", "ma'o", "fu'a", "nu'i lo broda ce'e lo broda nu'u", "le nu", "noi broda zi'e noi", "go'i", "ra'o", "go'i ra'o", "brodabroda",
          "jbobau", "broda zei broda zei", "lo broda be lo", "broda gi'e", "ge broda gi", "poi broda", "lo broda poi", "sei broda", "vei pa su'i", "nu broda",
          "gi'e klama vau", "to mi", "lu mi", "pu ge broda gi", "na", "ja", "bai", "ki", "ca'a", "ze'a", "ve'i", "mo'i ca'u", "roi", "pa roi", "cu", "vau",
          "i je", "i ja bo", "nai ba'e", "lo'o", "boi", "lo pa", "ke broda", "be broda", "na'e bo", "zi'e"]


def fam_repeat(th):
    """one construct many times over, within every context"""
    ns = (1, 2, 3, 20, 60, 130, 400) if th else (2, 25, 300)
    ms = [['-x'], ['-b'], ['-t'], ['-x', '-b'], ['-se'], ['-l', '-b'], ['-cr']] if th else [['-x', '-b'], ['-se'], ['-H'], []]
    for w in REPEAT:
        for p in ('', 'mi ', 'mi klama ', 'lo ', 'mi klama lo ') if th else ('', 'mi klama ', 'lo '):
            for n in ns:
                for suf in ('', ' broda', ' klama ku') if th else ('', ' broda'):
                    for m in ms:
                        yield 'jbofihe', 'asan', m, b(p + ' '.join([w] * n) + suf + '\n'), None
                    if th or n == 25:
                        yield 'jbofihe', 'msan', ['-x'], b(p + ' '.join([w] * n) + suf + '\n'), None
                    if p == '':
                        yield 'cmafihe', 'asan', ['-b'], b(p + ' '.join([w] * n) + suf + '\n'), None


UNITS = ['a', 'ba', 'bab', 'babr', 'b', 'bra', "a'i", '.', ',', 'y', 'ly', 'brabr', 'klama', 'klamybab', 'sel', 'selbri', "ba'u", "bau", 'djan', 'ladjan', 'd',
         'ia', 'kyl', '1', 'A', "'", 'bab.', 'n', 'r', 'gau', 'nal', 'nunsel', 'tav', 'zen', "na'e", "nu'o", 'bro', 'zil', "zi'o", 'zilbra', 'jai']


def fam_long(th):
    """words of every make and length"""
    for n in (1, 2, 3, 10, 40, 200, 330, 1100) if th else (1, 2, 16, 330):
        for u in UNITS:
            for p in ('', 'k', 'mi ', 'la ', 'zoi gy ', 'zo ', "lo'u ", 'bra', 'klama zei ', 'zil') if th else ('', 'la ', 'zoi gy ', 'klama zei '):
                for s in ('', 'a', 'bri', 'n', ' broda', ' gy', ' bu', ' si', 'tavla', 'gau') if th else ('', 'bri', ' gy', 'tavla'):
                    t = b(p + u * n + s + '\n')
                    for m in (['-x'], ['-x', '-b'], [], ['-l', '-b']) if th else (['-x', '-b'],):
                        yield 'jbofihe', 'asan', m, t, None
                    if p in ('', 'bra', 'zil'):
                        yield 'vlatai', 'asan', ['-el'], t, None
                        if len(t) < 400 or n < 300:
                            yield 'cmafihe', 'asan', ['-b'], t, None
                            yield 'cmafihe', 'asan', ['-l'], t, None
    for n in (65500, 65534, 65535, 65536, 65537, 70000, 131072):
        for u in ('a', 'ba', 'b', 'by', 'bra', ' ', '\n', 'mi ', "a'y", 'brodygau', 'gau'):
            for t in (u * (n // len(u)), 'zoi gy ' + u * (n // len(u)) + ' gy broda'):
                yield 'vlatai', 'asan', [], b(t), None
                if u in ('b', 'a', ' ', '\n', 'bra') and not ('a' == u and 'zoi' not in t):
                    yield 'jbofihe', 'asan', ['-x'] if u == 'b' else ['-t'], b(t), None


OPTS = {'jbofihe': ['-d', '-v', '-k', '-g', '-t', '-tf', '-l', '-x', '-H', '-b', '-m', '-ie', '-re', '-se', '-sev', '-cr', '-bt', '-dd', '-w', '-w0', '-w1', '-w-5',
                    '-w100000', '-wx', '--help', '-h', '-?', '-', '--', '-z', '', 'FILE', 'NONE', '/'],
        'cmafihe': ['-l', '-b', '-p', '-w', '-w 20', '0', '-1', '1', '100000', '-v', '-h', '--help', '-z', '', 'FILE', 'NONE', '/'],
        'vlatai': ['-v', '-el', '-z', '-', '', 'klama', "a'o", 'FILE', "lojbaugri'apro"],
        'smujajgau': ['-v', '', 'NONE', '/dev/null', 'SRC', '/', '/dev/stdin'],
        'jvocuhadju': ['-v', '-a', '-l', '-b', '-S', '-A', '-R', '-q', '-z', '-', '', 'klama', 'bajra', 'se', 'broda', "zi'o", 'kla', 'xxxxx', "x'x", 'zzzzzz',
                       'lojbo', 'bangu', "ma'a", 'KLAMA', 'klam1', '\xff\xff', 'gismu', "to'e", 'brodabrodabroda', 'jbobau', 'mi', 'kelvo'],
        'dfasyn': ['-v', '-o', '-r', '-u', '-ud', '/dev/null', 'NONE', '-z', 'DESC', '', '/']}


def fam_options(th):
    """every sequence of options and arguments up to a length"""
    for tool, os_ in OPTS.items():
        for n in range(0, 4 if th and tool in ('jvocuhadju', 'cmafihe', 'vlatai', 'smujajgau', 'dfasyn') else 3):
            for q in itertools.product(os_, repeat=n):
                if tool in ('smujajgau', 'dfasyn') and q and any(a in ('SRC', 'DESC', '') or (tool == 'dfasyn' and a == 'NONE') for a in
                                                                  (q[:1] if tool == 'smujajgau' else [y for x, y in zip(q, q[1:]) if x in ('-o', '-r')])):
                    continue        # (would write there)
                if tool == 'smujajgau' and q and q[0] == 'NONE':
                    continue
                a = [{'FILE': v.scratch() + '/text', 'NONE': v.scratch() + '/no/such/file', 'SRC': v.scratch() + '/src', 'DESC': v.scratch() + '/desc'}.get(x, x) for x in q]
                for t in (b'mi klama\n', b'mi mi mi gi\n') if tool == 'jbofihe' else (b'mi klama\n',):
                    yield tool, 'asan', a, t, None
                    if tool == 'jvocuhadju' and n < 3:
                        yield tool, 'msan', a, t, None
    for n in (1, 2, 3, 4, 5, 6, 7, 8):
        for ws in (['klama'], ['se'], ['klama', 'se'], ["zi'o"], ['klama', 'bajra']):
            yield 'jvocuhadju', 'asan', ['-q'] + ws * n, b'', None
    for n in range(9, 53):
        for ws in (['badna'], ['badna', 'klama'], ['badna'] * 9 + ['klama']) if th or n % 5 == 0 or n > 47 else (['badna'],):
            yield 'jvocuhadju', 'asan', ['-a', '-q'] + (ws * n)[:n], b'', None
            yield 'jvocuhadju', 'asan', (ws * n)[:n], b'', None


def fam_nested(th):
    """every construct within every construct"""
    d = 3 if th else 2
    for kind, pre, post in (('S', '', ' cu broda'), ('B', 'mi ', ''), ('F', '', ''), ('T', '', '')):
        for ws in texts.nested(d, kind):
            t = b(pre + ' '.join(ws) + post + '\n')
            yield 'jbofihe', 'asan', ['-x', '-b'], t, None
            yield 'jbofihe', 'asan', ['-se'], t, None
            if th or d < 3 and len(ws) % 4 == 0:
                yield 'jbofihe', 'asan', ['-l'], t, None
                yield 'jbofihe', 'msan', ['-x'], t, None


SRC = """# a dictionary
klama:come
klama1:A;com*e
klama1n:goer
klama2:D;destination
klama3:@klama2
klama4:@bajra9
bajra1:I;run
bajra2:@bajra2
mi:I, me
+mi:KOhA3
%kla:klama
jbobau:
*4nu+1:I;event of %1v
*2+gasnu1:I;bring* about %1v
pu@SELBRI:was
pu@:x
gasnu1:
:empty
nokey
zoi:%1n %9z %
"""


def dictionaries(sub):
    """every prefix of a dictionary file, and the file with every byte of its first part replaced by others"""
    d = v.scratch()
    data = open(d + '/small.dat', 'rb').read()
    out = []

    def put(x):
        p = '%s/%s/%d.dat' % (d, sub, len(out))
        open(p, 'wb').write(x)
        out.append(p)
    os.makedirs(d + '/' + sub, exist_ok=True)
    for i in range(len(data)):
        put(data[:i])
    n = int.from_bytes(data[:4], 'big')
    for i in range(len(data)):
        for c in ((0, 1, 127, 128, 255, data[i] + 1 & 255) if i < 4 + 2 * n else (0, 255, ord('%'), ord('@'))):
            put(data[:i] + bytes([c]) + data[i + 1:])
    put(data + b'\0'), put(data + b'xyz'), put(b'\0\0\0\0'), put(b'\0' * 5), put(b'\377' * 3000)
    return out


DTEXT = b"mi klama do ti bajra jbobau nunklama tavgau pu bajra lo xelkla klagau zoi gy a gy be mi jai ta\n"
DESC = """# a description
%{
/* C */
%}
Tokens a b c
Abbrev ab = a | b
Prefix foo
Type "int"
Block other
  State x
    b ; c -> y
    = q
  State y
EndBlock
Block sub
  State in
    a -> out
    <other:x->y> -> out
  State out
EndBlock
Block main
  s : sub
  State t (act1)
    a|b -> t
  State one
    ab -> s.in, two
    <sub:in->out> | -> two
    = p
  State two (act2)
    c ; a -> one
    -> one
    = q
  State one
EndBlock
Symbol z = p & !q
Result z -> r1
Result p ? (q & !p) : (q & !p) -> "r 2"
EarlyResult q & p -> r3
SymResult (q&!q) | (p^p) -> w
DefResult 0
Attr Type "char"
Attr Result act1 & act2 -> both
DefAttr none
"""


def fam_sources(th):
    """damaged dictionaries, dictionary sources and automaton descriptions"""
    for p in dictionaries('e'):
        yield 'smujajgau', 'asan', [p, v.scratch() + '/src'], b'', None
    for i, p in enumerate(dictionaries('d') + ['/', '/dev/null', v.scratch() + '/no/such/file', v.scratch() + '/small.dat']):
        yield 'jbofihe', 'asan', ['-x'] if i % 2 else ['-x', '-b', '-dd'], DTEXT, p
        yield 'cmafihe', 'asan', [['-b'], [], ['-l']][i % 3], DTEXT, p
    out = ['/dev/null', '/dev/stdin']
    for i in range(len(SRC) + 1):
        yield 'smujajgau', 'asan', out, b(SRC[:i]), None
        yield 'smujajgau', 'asan', out, b(SRC[i:]), None
        for c in ('\n', ':', '\0', '@', '%', ' ', '\xff', '#', 'k' * 300, ':' * 3, '*1'):
            yield 'smujajgau', 'asan', out, b(SRC[:i] + c + SRC[i + 1:]), None
    toks = [t for t in re.findall(r'"[^"]*"|#[^\n]*|%\{.*?%\}|[\w.]+|->|\n|.', DESC, re.S) if t != ' ' and t[0] not in '#%']
    reps = ('main', 'sub', 'zz', '->', '|', '<', ')', '=', 'p', 'z', ';', 'EndBlock', 'Block', 'State', ':', 'in', 'x' * 1500)
    for i in range(len(DESC) + 1):
        yield 'dfasyn', 'asan', [], b(DESC[:i]), None
    for i in range(len(toks)):
        for o in ([], ['-u', '-ud']):
            yield 'dfasyn', 'asan', o, b(' '.join(toks[:i] + toks[i + 1:])), None
        yield 'dfasyn', 'asan', ['-u'], b(' '.join(toks[:i + 1] + toks[i:])), None
        yield 'dfasyn', 'asan', [], b(' '.join(toks[i:])), None
        for k, t in enumerate(reps):
            if th or (i + k) % 2 == 0:
                yield 'dfasyn', 'asan', ['-ud'] if k & 1 else [], b(' '.join(toks[:i] + [t] + toks[i + 1:])), None


FAMILIES = (fam_corpus, fam_nested, fam_strings, fam_repeat, fam_long, fam_options, fam_sources)


# ------------------------------------------------------------------------------------------------------------ the verdict
def verdict(tool, r, args, t):
    e = r.etext()
    m = BAD.search(e) or (BAD.search(r.text()) if tool in ('jbofihe', 'cmafihe') and b'rror' in r.out else None)
    if m:
        fr = [f for f in re.findall(r'#\d+ \S+ in (\w+) [^\n]*?(\w+\.[cly]):(\d+)', e) if f[1] != 'forksrv.c']
        return re.sub(r'0x[0-9a-f]+|==\d+==', '', m[0])[:120] + ' at ' + ' < '.join('%s:%s' % (f[1], f[0]) for f in fr[:3])
    if r.code is None:
        return 'does not end'
    if r.code < 0:
        return 'signal %d' % -r.code
    if r.code not in STATUS[tool]:
        return 'exit status %d' % r.code
    if tool == 'jbofihe':
        word = 'nrecognizable' in e or 'Word of more than' in e
        syn = 'SYNTAX ERROR' in e
        if (r.code == 3 and not e) or (word and r.code != 3):
            return 'exit status %d with the messages %r' % (r.code, e[:80])
        if syn and r.code not in (1, 2):
            return 'exit status %d for a syntax error' % r.code
        if r.code in (1, 2) and not e:
            return 'exit status %d without a message' % r.code
    return None


def work(cases):
    out = []
    groups = {}
    for i, c in enumerate(cases):
        groups.setdefault((c[0], c[1], c[4]), []).append(c)
    hung = 0
    status = {}
    for (tool, san, dic), cs in groups.items():
        env = dict(ENV, JBOFIHE_DICTIONARY=dic or BUILD + '/smujmaji.dat')
        sv = v.Server(path(tool, san), env) if dic else v.server(path(tool, san), env)
        for i in range(0, len(cs), 20):
            if hung > 2:
                break
            part = cs[i:i + 20]
            rs = sv.batch([(c[2], c[3]) for c in part], timeout=10000, retry=0)
            for c, r in zip(part, rs):
                if r.code is None:
                    hung += 1
                    if hung <= 2:
                        r = sv.batch([(c[2], c[3])], timeout=60000, retry=0)[0]
                w = verdict(tool, r, c[2], c[3])
                if tool == 'jbofihe' and not w and set(c[2]) <= SAME:
                    was = status.setdefault(c[3:], (r.code, c[2]))
                    if was[0] != r.code:
                        w = 'exit status %d, but %d with %s' % (r.code, was[0], ' '.join(was[1]) or 'no option')
                if w:
                    out.append((c, w))
        if dic:
            sv.close()
    return len(cases), out


def main():
    global ASB, MSB, BUILD
    ck = v.Check('C09')
    BUILD = v.build()
    a = v.sanitized(BUILD, 'asan', ASAN, dfasyn=True)
    m = v.sanitized(BUILD, 'msan', MSAN, programs=('jbofihe', 'jvocuhadju'))
    ASB, MSB = v.finish_build(a), v.finish_build(m)
    d = v.scratch()
    open(d + '/text', 'w').write('mi klama\n')
    open(d + '/src', 'w').write(SRC)
    open(d + '/desc', 'w').write(DESC)
    subprocess.run([BUILD + '/smujajgau', d + '/small.dat', d + '/src'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if not os.path.exists(d + '/small.dat'):
        v.die('smujajgau does not make a dictionary')
    fams = [f for f in FAMILIES if len(sys.argv) < 2 or f.__name__ in sys.argv[1:]]

    def gen():
        for f in fams:
            n = 0
            for c in f(v.THOROUGH):
                n += 1
                yield c
            ck.cov['runs_' + f.__name__[4:]] = n
    seen = {}
    bad = 0
    for n, o in v.pmap(work, gen(), 60):
        ck.add('traces_validated_against_impl', n)
        for (tool, san, args, t, dic), w in o:
            bad += 1
            cmd = ' '.join([tool] + list(args))
            key = '%s: %s' % (cmd, w)
            if not (ck.known(key) or ck.known(key + ' | ' + t.decode('latin-1'))):
                k = (tool, w)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 3:
                    ck.violation('%s (%s) <<< %r: %s' % (cmd, san, t[:120], w),
                                 {'cmd': cmd, 'stdin': t[:3000].decode('latin-1'), 'dictionary': dic, 'build': ASAN if san == 'asan' else MSAN, 'why': w})
        if bad > 400:
            break
    ck.cov['states'] = ck.cov['transitions'] = ck.cov['traces_validated_against_impl']
    ck.sample({'cmd': 'jbofihe -x -b', 'stdin': 'mi klama zei ' + 'gau' * 5})
    ck.assumptions += ['a run is bounded if it ends within 60 s on an otherwise idle core', 'an uninitialised value matters only where MemorySanitizer says so',
                       'memory that is never freed is not a defect of these tools']
    ck.finish()


if __name__ == '__main__':
    main()
