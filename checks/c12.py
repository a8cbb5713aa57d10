"""C12: the automaton compiler (dfasyn) yields an automaton equivalent to its source.

Families of automaton descriptions are enumerated exhaustively within stated bounds and given to the built dfasyn under
every combination of its optimisation options.  Every distinct C output is compiled and its next_state function and
tables are executed: all its reachable states are explored.  The reference automaton of the description (models/nfadesc.py:
sets of NFA states) is explored in product with it, so that the verdict is about every token string of any length."""
import itertools, os, re, subprocess, sys, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models'))
import v
from nfadesc import Desc, Refused, Ambiguous

OPTS = [(), ('-u',), ('-ud',), ('-u', '-ud')]
FULL = 'Result p & !q -> 1\nResult q & !p -> 2\nResult p & q -> 3\nDefResult 0\n'


# ------------------------------------------------------------------------------------------------------------ families
def nfa_text(n, toks, edges, tags, attrs=(), prefix='x', rules=FULL):
    """edges: (from, label or '', to); tags: {state: tag}; state 0 is declared last, so it is the start."""
    l = ['Tokens ' + ' '.join(toks)]
    if prefix:
        l.append('Prefix ' + prefix)
    l.append('Block main')
    for s in list(range(1, n)) + [0]:
        l.append('State s%d' % s + (' (%s)' % attrs[s] if s in attrs else ''))
        for f, t, d in edges:
            if f == s:
                l.append('  %s -> s%d' % (t, d))
        if s in tags:
            l.append('  = ' + tags[s])
    l.append('EndBlock')
    return '\n'.join(l) + '\n' + rules


def fam_two():
    """all 2-state NFAs over two tokens and epsilon, all taggings"""
    E = [(f, t, d) for f in range(2) for d in range(2) for t in ('a', 'b', '')]
    tags = [dict((s, t) for s, t in enumerate(tt) if t) for tt in itertools.product(('', 'p', 'q'), repeat=2)]
    for m in range(1 << len(E)):
        edges = [e for i, e in enumerate(E) if m >> i & 1]
        for k, tg in enumerate(tags):
            if not v.THOROUGH and k not in (1, 3, 5):
                continue
            yield nfa_text(2, 'ab', edges, tg, prefix='x' if m & 1 or k != 1 else None)


ATT = 'Attr Result A\nAttr Result B & !A -> 7\nDefAttr 5\n'.replace('Result A', 'Result A -> 6', 1)


def fam_three():
    """all 3-state NFAs with few edges, tags and attributes"""
    E = [(f, t, d) for f in range(3) for d in range(3) for t in ('a', 'b', '')]
    tagsets = [({1: 'p', 2: 'q'}, {}), ({2: 'p'}, {1: 'A'}), ({1: 'p', 2: 'p'}, {1: 'A', 2: 'B'}), ({}, {0: 'B', 2: 'A'})]
    for k in range(0, 6 if v.THOROUGH else 4):
        for edges in itertools.combinations(E, k):
            if k >= 2 and not any(e[0] == 0 for e in edges):
                continue
            for tg, at in tagsets:
                yield nfa_text(3, 'ab', edges, tg, at, rules=FULL + (ATT if at else ''))


def fam_deep():
    """chains in which a difference shows only after n steps (minimisation), rings, for every length around word sizes"""
    for n in list(range(1, 36)) + [63, 64, 65, 66, 95, 96, 97] + ([127, 128, 129, 255, 256, 257, 300] if v.THOROUGH else [130]):
        chain = [(i, 'a', i + 1) for i in range(n - 1)]
        yield nfa_text(n, 'ab', chain, {n - 1: 'p'})
        yield nfa_text(n, 'ab', chain + [(n - 1, 'b', 0)], {n - 1: 'p', 0: 'q'})
        yield nfa_text(n, 'ab', chain + [(n - 1, 'a', 0)], {i: 'p' for i in range(0, n, 3)})
        yield nfa_text(n, 'ab', [(i, '', i + 1) for i in range(n - 1)] + [(n - 1, 'a', n // 2)], {n - 1: 'p', n // 2: 'q'})
        yield nfa_text(n, 'ab', [(i + 1, '', i) for i in range(n - 1)] + [(0, 'b', n - 1), (n // 2, 'a', n - 1)],
                       {n - 1: 'q', 0: 'p'})
        # two branches that differ at the end only
        m = n // 2
        ed = [(0, 'a', 1), (0, 'b', m + 1)] + [(i, t, i + 1) for i in range(1, n - 1) if i != m for t in 'ab']
        if n >= 4:
            yield nfa_text(n, 'ab', ed, {m: 'p', n - 1: 'q'})
            yield nfa_text(n, 'ab', ed, {m: 'p', n - 1: 'p'}, {m: 'A', n - 1: 'B'}, rules=FULL + ATT)
            yield nfa_text(n, 'ab', ed, {}, {m: 'A', n - 1: 'B'}, rules=FULL + ATT)
        if n <= 11:
            # n-th symbol from the end: 2**n DFA states
            yield nfa_text(n + 1, 'ab', [(0, 'a', 0), (0, 'b', 0), (0, 'a', 1)] +
                           [(i, t, i + 1) for i in range(1, n) for t in 'ab'], {n: 'p'})


def fam_big():
    """more states than a short holds, more transitions than an unsigned short holds"""
    n = 16 if v.THOROUGH else 9
    yield nfa_text(n + 1, 'ab', [(0, 'a', 0), (0, 'b', 0), (0, 'a', 1)] + [(i, t, i + 1) for i in range(1, n) for t in 'ab'], {n: 'p'})
    m = 262
    toks = ['t%d' % i for i in range(m)]
    yield nfa_text(m, toks, [(i, toks[j], (i * 7 + j * (1 + i % 5)) % m) for i in range(m) for j in range(m)], {i: 'p' if i % 2 else 'q' for i in range(0, m, 3)})


def fam_tokens():
    """many tokens: every count around table widths, with transitions on the first, the last, all, all but one"""
    for n in [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300]:
        toks = ['t%d' % i for i in range(n)]
        for which in ([0], [n - 1], range(n), range(n - 1), range(0, n, 2), [n // 2]):
            yield nfa_text(3, toks, [(0, toks[i], 1) for i in which] + [(1, toks[i], 2) for i in range(n)] +
                           [(2, toks[n - 1 - i], 1) for i in which], {1: 'p', 2: 'q'})


def fam_default():
    """rows of the transition table that share most entries (default states): a base row and all variations of it"""
    T = 5 if not v.THOROUGH else 6
    toks = 'abcdefg'[:T]
    dests = (None, 0, 1, 2, 3)
    for base in ((1,) * T, (1, 2, 3, 1, 2, 3)[:T], (1, 2, None, None, 3, 3)[:T], (None,) * T):
        e0 = [(0, toks[i], d) for i, d in enumerate(base) if d is not None]
        for var in itertools.product(dests, repeat=T):
            diff = sum(a != b for a, b in zip(base, var))
            if diff > (3 if not v.THOROUGH else 4):
                continue
            e1 = [(1, toks[i], d) for i, d in enumerate(var) if d is not None]
            for e2 in ([], [(2, t, 3) for t in toks], [(2, f[1], f[2]) for f in e0],
                       [(2, f[1], 2 if f[1] == toks[0] else f[2]) for f in e0]):
                yield nfa_text(4, toks, e0 + [(0, t, 3) for t in ()] + e1 + e2 + [(3, toks[0], 1), (3, toks[-1], 2)],
                               {1: 'p', 2: 'q'})


def show(e, level=0):
    """the expression with no more parentheses than needed"""
    k = e[0]
    if k == 'sym':
        return e[1]
    if k == '*':
        return '*'
    if k == '!':
        return '!' + show(e[1], 4)
    if k == '?':
        s = '%s ? %s : %s' % (show(e[1], 1), show(e[2], 0), show(e[3], 0))
        return '(%s)' % s if level > 0 else s
    l = '|^&'.index(k) + 1
    s = '%s %s %s' % (show(e[1], l), k, show(e[2], l + 1))
    return '(%s)' % s if level > l else s


def exprs():
    leaves = [('sym', x) for x in 'pqr']
    l1 = [('!', a) for a in leaves] + [(o, a, b) for o in '&|^' for a in leaves for b in leaves if a != b] + \
         [('?', a, b, c) for a, b, c in itertools.permutations(leaves, 3)]
    yield from leaves
    yield from l1
    for o in '&|^':
        for a in l1:
            for b in leaves:
                yield (o, a, b)
                yield (o, b, a)
    for a in l1:
        yield ('!', a)
        for b in leaves[:2]:
            for c in leaves[1:]:
                yield ('?', a, b, c)
                yield ('?', b, a, c)
                yield ('?', b, c, a)
    if v.THOROUGH:
        for o in '&|^':
            for a in l1:
                for b in l1:
                    yield (o, a, b)


SUB = 'Tokens ' + ' '.join('k%d' % i for i in range(8)) + '%s\nPrefix x\nBlock main\nState s\n' + \
      ''.join('  %s = %s\n' % ('|'.join('k%d' % i for i in range(8) if i >> b & 1), t) for b, t in enumerate('pqr'))


def fam_expr():
    """every Boolean expression up to a size, on every set of tags; written with and without spare parentheses"""
    es = list(exprs())
    for c in v.chunks(es, 40):
        t = SUB % (' ' + ' '.join('j%d' % j for j in range(len(c))))
        # second token chooses the expression: keep the tags alive
        t = t.replace(' = p', ' -> sp').replace(' = q', ' -> sq').replace(' = r', ' -> sr')
        t += '  ' + '|'.join('k%d' % i for i in range(8)) + ' -> sel\n'
        a = '|'.join('j%d' % j for j in range(len(c)))
        for x in 'pqr':
            t = t.replace('State s\n', 'State s%s\n  %s = %s\nState s\n' % (x, a, x), 1)
        t = t.replace('State s\n', 'State sel\n' + ''.join('  j%d = g%d\n' % (j, j) for j in range(len(c))) + 'State s\n', 1)
        t += 'EndBlock\n'
        yield t + ''.join('Result g%d & (%s) -> %d\n' % (j, show(e), j + 1) for j, e in enumerate(c))
        yield t + ''.join('Symbol e%d = %s\nResult e%d & g%d -> %d\n' % (j, show(e), j, j, j + 1) for j, e in enumerate(c))
        yield t + ''.join('Attr Result g%d -> %d\n' % (j, j) for j in range(0)) + \
            ''.join('Result e%d & g%d -> %d\n' % (j, j, j + 1) for j in range(len(c))) + \
            ''.join('Symbol e%d = f%d\nSymbol f%d = %s\n' % (j, j, j, show(e)) for j, e in enumerate(c))
    # an expression alone, directly in the rule, in all kinds of rules
    for e in es[:400]:
        for kind in ('Result %s -> 4\n', 'EarlyResult %s -> 4\n', 'Symbol z = %s\nResult z -> 4\n'):
            yield SUB % '' + 'EndBlock\n' + kind % show(e)


def fam_rules():
    """all lists of up to three result rules, early or not, with the "any result so far" operand"""
    ex = ['p', 'q', 'p & q', 'p & !q', '!p & q', 'q & !*', '!* & !p', 'p ^ q', '* & q', '!*']
    body = nfa_text(3, 'ab', [(0, 'a', 1), (0, 'b', 2), (1, 'b', 2), (1, 'a', 1), (2, 'a', 1), (2, 'a', 2), (2, 'b', 0)],
                    {1: 'p', 2: 'q'}, rules='')
    kinds = [(k, e) for k in ('Result', 'EarlyResult') for e in ex]
    for n in range(0, 4):
        for rs in itertools.product(kinds, repeat=n):
            if n == 3 and not v.THOROUGH and (rs[0][1] not in ex[3:5] or rs[2][0] == 'EarlyResult'):
                continue
            yield body + ''.join('%s %s -> %d\n' % (k, e, i + 1) for i, (k, e) in enumerate(rs)) + 'DefResult 9\n'
            if n == 2:
                yield body + 'DefResult 9\n' + ''.join('%s %s -> %d\n' % (k.replace('Result', 'SymResult'), e, i + 1)
                                                      for i, (k, e) in enumerate(rs))
    # the same for attributes
    body = nfa_text(3, 'ab', [(0, 'a', 1), (0, 'b', 2), (1, 'b', 2), (1, 'a', 1), (2, 'a', 1), (2, 'a', 2), (2, 'b', 0)],
                    {0: 'x', 2: 'x'}, {1: 'p', 2: 'q'}, rules='Result x -> 1\nDefResult 0\n')
    for n in range(0, 3):
        for rs in itertools.product(ex, repeat=n):
            for kind in ('Attr Result %s -> %d\n', 'Attribute SymResult %s -> %d\n'):
                yield body + ''.join(kind % (e, i + 1) for i, e in enumerate(rs)) + 'Attr DefResult 9\n'
            yield body + ''.join('ATTR Symbol z%d = %s\nattr result z%d -> %d\n' % (i, e, i, i + 1) for i, e in enumerate(rs)) + \
                'Attr Type int\nDefAttr 8\n'


BLOCKS = '''Block A
  State in
    a -> out
    b ; c -> out
EndBlock
Block B
  State in
    b -> in, mid
  State mid (att)
    a -> out
    = p
EndBlock
Block C
  i : A
  State in
    -> i.in
  State i.out
    <B:in->out>| ; c -> out
EndBlock
'''


def fam_syntax():
    """all transition sequences of up to three elements of every kind, alone, in pairs, and below nested blocks"""
    el = ['a', 'a|b', '|c', '', 'a||X', 'Y', '<A:in->out>', '<A:in->out>|', '<A:in->out>|<B:in->out>', '<C:in->out>|<B:in->mid>|']
    ends = ['-> d', '-> d, e', '= p', '= q', '-> s']
    head = 'Tokens a b c\nAbbrev X = b | c\nPrefix x\nABBREV Y = X | a\n' + BLOCKS
    tail = '  State d\n    c -> e\n    = q\n  State e\n    = p\n    a -> e\n  State s\n%sEndBlock\n' + FULL + \
        'Attr Result att -> 4\nDefAttr 0\n'
    for n in (1, 2, 3):
        for seq in itertools.product(el, repeat=n):
            for e in ends:
                yield head + 'Block main\n' + tail % ('    %s %s\n' % (' ; '.join(seq), e))
    small = ['a', '', 'a;b', '<A:in->out>', 'a;<B:in->out>|', '<A:in->out>;X', '|a;|b']
    for x, y in itertools.product(small, repeat=2):
        for e, f in itertools.product(ends, repeat=2):
            yield head + 'Block main\n' + tail % ('    %s %s\n    %s %s\n' % (x, e, y, f))
    # instances of instances, redefined abbreviations, states declared twice, keywords in other cases
    for x in ('A', 'B', 'C'):
        for y in ('A', 'B', 'C'):
            for dec in ('u : %s\n v : %s\n', 'u : %s\n u : %s\n', 'u : %s\n w : %s\n'):
                yield head + 'Block M\n ' + dec % (x, y) + ' State in\n -> u.in\n -> v.in\n State v.out\n a = q\n' \
                    ' State u.out\n b -> v.in, out\n State u.out (att)\n c -> u.in\n State in2\n -> in\nEndBlock\n' \
                    'Abbrev X = a\nBlock N\n k : M\n l : M\n State k.out\n X -> l.in2\n State g\n Y -> k.in\n <M:in->out>|<M:in2->out> = p\n' \
                    'EndBlock\n' + FULL + 'Attr Result att -> 4\nDefAttr 0\n'
    t = head + 'Block main\n' + tail % '    a ; b -> d\n' + 'Type int\n'
    for f in (str.upper, str.lower, str.title):
        yield re.sub(r'\b(Tokens|Prefix|Block|EndBlock|State|Abbrev|Result|DefResult|Type|Attr|DefAttr)\b', lambda m: {
            'ENDBLOCK': {str.upper: 'ENDBLOCK', str.lower: 'endblock', str.title: 'Endblock'}[f],
            'DEFRESULT': {str.upper: 'DEFRESULT', str.lower: 'defresult', str.title: 'Defresult'}[f],
            'DEFATTR': {str.upper: 'DEFATTR', str.lower: 'defattr', str.title: 'Defattr'}[f],
        }.get(m.group(0).upper(), f(m.group(0))), t)
    yield t.replace('Prefix x\n', 'Prefix "x"  # the prefix\n\n\t# nothing\n')
    yield t.replace('Prefix x\n', '%{\nstatic int passed_through = 1;\n%}\nPrefix x\n')
    yield t.replace('&', ' & ').replace('!', ' ~ ').replace(';', '\t;\n\n')
    yield t.replace('Prefix x\n', '')


def fam_names():
    """many states, tokens, abbreviations, blocks and rules (growing tables), long names"""
    for n in (1, 7, 8, 9, 31, 32, 33, 64, 65, 100):
        toks = ['t%d' % i for i in range(n)]
        t = 'Tokens ' + ' '.join(toks) + '\nPrefix x\n'
        for i in range(n):
            t += 'Abbrev ab%d = %s\n' % (i, ' | '.join(toks[:i + 1]))
        for i in range(n):
            t += 'Block b%d\nState in\n ab%d -> out\n%sEndBlock\n' % (i, i, ' <b%d:in->out> -> out\n' % (i - 1) if i % 8 else '')
        t += 'Block main\n' + ''.join(' u%d : b%d\n' % (i, i) for i in range(n)) + \
            ''.join('State u%d.out\n = g%d\n' % (i, i) for i in range(n)) + \
            'State s\n' + ''.join(' -> u%d.in\n' % i for i in range(n)) + 'EndBlock\n'
        prev = ''
        for i in range(n):
            t += 'Result g%d%s -> %d\n' % (i, prev, i + 1)
            prev = ' & !*'
        yield t
    for n in (1, 10, 100, 400):
        w = 'n' * n
        yield 'Tokens %sa %sb\nPrefix x\nBlock %s\nState %s\n %sa -> %s\n %sb -> %so\nState %so\n = %s\nEndBlock\nBlock main\n' \
            ' %s : %s\nState s\n -> %s.%s\nEndBlock\nResult %s -> 3\n' % ((w,) * 15)


def invalid():
    """descriptions that are not valid: must be refused (status not 0)"""
    ok = nfa_text(2, 'ab', [(0, 'a', 1)], {1: 'p'})
    yield ok.replace('a ->', 'z ->')
    yield ok.replace('Tokens a b', 'Tokens a b a')
    yield ok.replace('EndBlock', '')
    yield ok.replace('-> s1', '->')
    yield ok.replace('-> s1', 's1')
    yield ok.replace('Block main\n', 'Block main\n u : nosuch\n')
    yield ok.replace('-> s1', '; <nosuch:in->out> -> s1')
    yield ok.replace('Block main', 'Block main\nEndBlock\nBlock main')
    yield ok.replace('p & !q', 'p & !')
    yield ok.replace('p & !q', '(p & !q')
    yield ok.replace('p & !q', 'p ? q')
    yield ok.replace('-> 1', '')
    yield ok + 'Attr EarlyResult p -> 2\n'
    yield ok + 'Symbol p = q\n'
    yield ok.replace('= p', '= p, q')


def real():
    for f in ('morf_nfa.in', 'stag_nfa.in', 'bctables.in'):
        p = os.path.join(v.REPO, f)
        if os.path.exists(p):
            t = open(p, encoding='latin-1').read()
            yield re.sub(r'(?ms)^%\{[ \t]*\n.*?^%\}[ \t]*\n', '', t)


# ------------------------------------------------------------------------------------------------------------ execution
def ident(d):
    """names used as results and attributes, numbered"""
    names = [r[0] for r in d.exit.results + d.attr.results] + [d.exit.default, d.attr.default]
    seen = []
    for n in names:
        if n and not re.fullmatch(r'-?\d+', n) and n not in seen:
            seen.append(n)
    return seen


def preface(d):
    seen = ident(d)
    s = ''
    num = {n: 1000 + i for i, n in enumerate(seen)}
    left = set(seen)
    for r in (d.attr, d.exit):
        m = re.match(r'enum (\w+)$', r.type or '')
        mine = [n for n in seen if n in left and (n == r.default or any(n == x[0] for x in r.results))]
        if m and not (r is d.exit and d.attr.type == d.exit.type):
            s += 'enum %s { %s };\n' % (m.group(1), ', '.join('%s = %d' % (n, num[n]) for n in mine) or 'none_%d' % len(s))
            left -= set(mine)
    if left:
        s += 'enum { %s };\n' % ', '.join('%s = %d' % (n, num[n]) for n in seen if n in left)
    return s


def run_chunk(texts):
    sv = v.server(BIN)
    cases = [(list(o), t) for t in texts for o in OPTS]
    rs = sv.batch(cases)
    return [(rs[i].code, rs[i].out, rs[i].err[:300]) for i in range(len(rs))]


DRIVER = r'''
#include <cstdio>
#include <vector>
static void dump(int id, int nt, int n, int na, int (*ns)(int, int), long (*ev)(int), long (*at)(int)) {
  std::printf("M %d %d\n", id, n);
  std::vector<char> seen(n > 0 ? n : 1); std::vector<int> todo; todo.push_back(0); seen[0] = 1;
  for (size_t k = 0; k < todo.size(); k++) {
    int s = todo[k];
    std::printf("%d %ld %ld", s, ev(s), at ? (s < na ? at(s) : -99999) : 0);
    for (int t = 0; t < nt; t++) {
      int d = ns(s, t);
      std::printf(" %d", d);
      if (d >= 0 && d < n && !seen[d]) { seen[d] = 1; todo.push_back(d); }
    }
    std::printf("\n");
  }
}
'''


def compile_chunk(mods):
    """mods: (id, preface, ntokens, C text) -> {id: table or error}"""
    def attempt(ms):
        d = v.scratch()
        src = os.path.join(d, 'm%d_%d.cc' % (os.getpid(), ms[0][0]))
        with open(src, 'w') as f:
            f.write(DRIVER)
            calls = []
            for i, pre, nt, text in ms:
                m = re.search(r'(\w*)next_state\s*\(', text)
                if not m:
                    calls.append('printf("E %d no next_state\\n");' % i)
                    continue
                p = m.group(1)
                at = re.search(r'\b%sattribute\s*\[' % p, text) is not None
                f.write('namespace m%d {\n%s\n%s\nint ns_(int s, int t) { return %snext_state(s, t); }\n'
                        'long ev_(int s) { return %sexitval[s]; }\n' % (i, pre, text, p, p))
                if at:
                    f.write('long at_(int s) { return %sattribute[s]; }\n' % p)
                f.write('static const int n_ = sizeof(%sexitval)/sizeof(%sexitval[0]);\n' % (p, p))
                f.write('static const int na_ = %s;\n}\n' % ('sizeof(%sattribute)/sizeof(%sattribute[0])' % (p, p) if at else '0'))
                calls.append('dump(%d, %d, m%d::n_, m%d::na_, m%d::ns_, m%d::ev_, %s);' % (
                    i, nt, i, i, i, i, 'm%d::at_' % i if at else '0'))
            f.write('int main() {\n%s\nreturn 0; }\n' % '\n'.join(calls))
        exe = src[:-3]
        r = subprocess.run(['g++', '-w', '-fpermissive', '-Wno-narrowing', '-O0', '-fsanitize=address' if ASAN else '-g0', '-o', exe, src],
                           stderr=subprocess.PIPE, env=dict(v.CLEAN_ENV))
        if r.returncode:
            os.unlink(src)
            return None, r.stderr.decode('latin-1')[:800]
        r2 = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        os.unlink(src), os.unlink(exe)
        if r2.returncode:
            return None, 'running it: status %d %s' % (r2.returncode, r2.stderr.decode('latin-1')[:500])
        res, cur = {}, None
        for line in r2.stdout.decode().splitlines():
            if line.startswith('M '):
                _, i, n = line.split()
                cur = res[int(i)] = {'n': int(n)}
            else:
                x = [int(y) for y in line.split()]
                cur[x[0]] = (x[1], x[2], x[3:])
        return res, None

    def solve(ms):
        res, err = attempt(ms)
        if res is not None:
            return res
        if len(ms) == 1:
            return {ms[0][0]: err}
        h = len(ms) // 2
        a = solve(ms[:h])
        a.update(solve(ms[h:]))
        return a
    return solve(list(mods))


def compare(d, ref, tab):
    """product of the reference automaton and the generated one -> None or a token string on which they differ"""
    val = {n: 1000 + i for i, n in enumerate(ident(d))}

    def num(x, default):
        x = x if x is not None else (default if default is not None else '0')
        return val[x] if x in val else int(x)
    names = d.tokens
    seen = {(0, 0)}
    todo = [(0, 0, ())]
    pairs = 0
    for rs, gs, path in todo:
        pairs += 1
        res, att, early, row = ref[rs] if rs >= 0 else (None, None, False, None)
        want = (num(res, d.exit.default), num(att, d.attr.default) if d.attr.used else 0)
        if gs >= 0:
            if gs not in tab:
                return pairs, path, 'state %d outside the tables (%d states)' % (gs, tab['n'])
            got = tab[gs][:2]
            if not d.attr.used:
                got = (got[0], 0)
        else:
            got = (num(None, d.exit.default), num(None, d.attr.default) if d.attr.used else 0)
        if want != got:
            back = {1000 + i: n for n, i in ((n, i - 1000) for n, i in val.items())}
            return pairs, path, 'result, attribute %s, expected %s' % (
                tuple(back.get(x, x) for x in got), tuple(back.get(x, x) for x in want))
        if early:
            continue                       # the scanner stops here
        for t in range(len(names)):
            r2 = row[t] if rs >= 0 else -1
            g2 = tab[gs][2][t] if gs >= 0 else -1
            if g2 < -1:
                return pairs, path + (t,), 'next state %d' % g2
            if (r2 >= 0 or g2 >= 0) and (r2, g2) not in seen:
                seen.add((r2, g2))
                todo.append((r2, g2, path + (t,) if len(path) < 400 else path))
    return pairs, None, None


def judge_chunk(items):
    out = []
    for text, runs in items:
        bad = None
        pairs = 0
        states = 0
        kind = 'valid'
        try:
            d = Desc(text)
            ref = d.dfa()
            states = len(ref)
        except Ambiguous:
            kind = 'ambiguous'
        except Refused:
            kind = 'invalid'
        for o, (code, h, err) in zip(OPTS, runs):
            if code is None or code < 0:
                bad = (o, 'dfasyn ended with %s' % ('no answer' if code is None else 'signal %d' % -code))
            elif kind != 'valid':
                if code == 0:
                    bad = (o, 'an %s description was accepted' % kind)
                continue
            elif code != 0:
                bad = (o, 'a valid description was refused (status %d): %s' % (code, err.decode('latin-1')[:200]))
            else:
                tab = TABLES.get((h, len(d.tokens)))
                if not isinstance(tab, dict):
                    bad = (o, 'the generated C is not usable: %s' % tab)
                else:
                    p, path, why = compare(d, ref, tab)
                    pairs += p
                    if path is not None:
                        bad = (o, 'after the tokens [%s]: %s' % (' '.join(d.tokens[t] for t in path), why))
            if bad:
                break
        out.append((kind, states, pairs, bad and (text, ' '.join(bad[0]) or '(no option)', bad[1])))
    return out


ASAN = False


def main():
    global BIN, TABLES
    ck = v.Check('C12')
    d = v.build('plain', targets=('dfasyn/dfasyn',))
    BIN = os.path.join(d, 'dfasyn', 'dfasyn')
    fams = [fam_two, fam_three, fam_deep, fam_big, fam_tokens, fam_default, fam_expr, fam_rules, fam_syntax, fam_names, invalid, real]
    only = sys.argv[1:]
    texts, owner = [], []
    seen = set()
    for f in fams:
        if only and f.__name__ not in only:
            continue
        n = 0
        for t in f():
            if t not in seen:
                seen.add(t)
                texts.append(t)
                owner.append(f.__name__)
                n += 1
        ck.cov['descriptions_' + f.__name__.replace('fam_', '')] = n
    print('descriptions: %d' % len(texts), flush=True)
    # 1. dfasyn on every description, every combination of options
    runs = []
    mods = {}
    heads = {}
    k = 0
    for part in v.pmap(run_chunk, texts, 100):
        for i in range(0, len(part), len(OPTS)):
            text = texts[k]
            k += 1
            rr = []
            for code, out, err in part[i:i + len(OPTS)]:
                ck.add('executions')
                h = None
                if code == 0:
                    m = heads.get(text)
                    if m is None:
                        try:
                            dd = Desc(text)
                            m = (preface(dd), len(dd.tokens))
                        except Refused:
                            m = ('', 0)
                        heads = {text: m}
                    pre, nt = m
                    h = hashlib.sha1(pre.encode() + out).hexdigest()
                    mods.setdefault((h, nt), (pre, out.decode('latin-1')))
                rr.append((code, h, err))
            runs.append(rr)
    print('%d executions, %d distinct outputs, %.0f s' % (ck.cov['executions'], len(mods), v.time.time() - v.T0), flush=True)
    # 2. every distinct output, compiled and explored
    keys = list(mods)
    TABLES = {}
    # big ones apart
    order = sorted(range(len(keys)), key=lambda i: len(mods[keys[i]][1]))
    for res in v.pmap(compile_chunk, ((i, mods[keys[i]][0], keys[i][1], mods[keys[i]][1]) for i in order), 250):
        for i, t in res.items():
            TABLES[keys[i]] = t
    ck.cov['generated_modules_executed'] = len(TABLES)
    print('compiled, %.0f s' % (v.time.time() - v.T0), flush=True)
    # 3. products
    for part in v.pmap(judge_chunk, zip(texts, runs), 200):
        for kind, states, pairs, bad in part:
            ck.add(kind + '_descriptions')
            ck.add('states', pairs)
            ck.cov['largest_reference_automaton'] = max(ck.cov.get('largest_reference_automaton', 0), states)
            if bad and not ck.known(bad[0]):
                text, o, why = bad
                ck.violation('dfasyn %s: %s: %s' % (o, why, re.sub(r'\s+', ' ', text)[:300]), {'description': text, 'options': o, 'why': why})
    ck.cov['transitions'] = ck.cov.get('states', 0)
    ck.cov['option_combinations'] = len(OPTS)
    ck.sample(texts[len(texts) // 2])
    ck.assumptions += [
        'the reference semantics of descriptions (models/nfadesc.py) is the intended one: result = the only rule that holds on the '
        'tags of the NFA states reached; default if none; more than one is an error; nothing follows an early result',
        'the state in which nothing is possible any more (-1) gives the default result',
        'the generated C is compiled as C++ inside a namespace, so that thousands of modules share one program',
    ]
    ck.finish()


if __name__ == '__main__':
    main()
