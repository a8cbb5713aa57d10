"""Reference model of the places of a bridi: which place of which selbri every sumti of a text fills.

A text is an abstract tree, made by the functions below; say() writes it out in words, and on the way finds out for every
term the places it fills by the rules of the language: a list of places per selbri, exchanged by se te ve xe, with fai places
behind jai, filled by linked sumti from the inside out, then by the sumti before and after the selbri."""


class Ambiguous(Exception):
    """the arrangement fills a place twice: no claim"""


TOP = 19
FA = {'fa': 1, 'fe': 2, 'fi': 3, 'fo': 4, 'fu': 5}
SE = {'se': 2, 'te': 3, 've': 4, 'xe': 5}


class Text:
    def __init__(self):
        self.w = []
        self.label = {}          # index of the first word of a term -> list of labels
        self.fresh = 0

    def say(self, *ws):
        """(word^label: a sumti with that label begins there)"""
        for x in ws:
            for y in x.split():
                y, _, l = y.partition('^')
                if l:
                    self.put(len(self.w), l)
                self.w.append(y)

    # ------------------------------------------------------------------------------------------------------ terms
    def terms(self, ts):
        return [self.term(t) for t in ts]

    def term(self, t):
        """(kind, sumti): kind '' for a plain one, a FA, 'bai' (or another tag), 'ku' for a complete term that is no sumti"""
        kind, s = t
        i = len(self.w)
        if kind == 'other':
            self.say(s)
            return 'none', i
        if kind:
            self.say(kind)
        self.sumti(s)
        if kind == '':
            return 'plain', i
        if kind in FA or kind == 'fai':
            return kind, i
        return 'none', i

    def sumti(self, s):
        if isinstance(s, str):
            self.say(s)
        else:
            s(self)

    # ----------------------------------------------------------------------------------------------------- selbri
    LEVEL = {'w': 1, 'se': 1, 'nahe': 1, 'jai': 1, 'jaitag': 1, 'ke': 1, 'nu': 1, 'me': 1, 'moi': 1, 'nua': 1, 'zei': 1, 'link': 2, 'cei': 3, 'bo': 4,
             'gu': 4, 'jebo': 5, 'je': 6, 'jeke': 6, 'tanru': 7, 'co': 8, 'na': 9, 'pu': 9}

    def selbri(self, s, level=9):
        """says a selbri; returns a function of (pre, post, outer operations) that puts the labels"""
        k = s[0]
        if self.LEVEL[k] > level:
            if self.LEVEL[k] > 7:
                raise Ambiguous                              # (ke cannot hold it)
            return self.selbri(('ke', s), level)
        if k == 'w':
            i = len(self.w)
            self.say(s[1])
            return lambda pre, post, ops: self.assign(lambda n: '%s%d' % (s[1], n), pre, post, ops)
        if k == 'se':
            self.say(s[1])
            f = self.selbri(s[2], 1)
            return lambda pre, post, ops: f(pre, post, ops + [('se', SE[s[1]])])
        if k == 'nahe':
            self.say(s[1])
            return self.selbri(s[2], 1)
        if k == 'jai':
            self.say('jai')
            f = self.selbri(s[1], 1)
            return lambda pre, post, ops: f(pre, post, ops + [('jai', None)])
        if k == 'jaitag':
            self.say('jai', s[1])
            i = len(self.w)
            f = self.selbri(s[2], 1)
            inner = ' '.join(self.w[i:])
            return lambda pre, post, ops: f(pre, post, ops + [('jai', 'jai+<tag>1 [%s]' % inner)])
        if k == 'ke':
            self.say('ke')
            f = self.selbri(s[1], 7)
            self.say("ke'e")
            return f
        if k == 'nu':
            self.say(s[1])
            self.bridi(s[2])
            self.say('kei')
            return lambda pre, post, ops: self.assign(lambda n: '%s%d' % (s[1].split()[0], n), pre, post, ops)
        if k == 'me':
            self.say('me')
            self.sumti(s[1])
            self.say("me'u")
            return lambda pre, post, ops: self.assign(lambda n: 'me%d' % n, pre, post, ops)
        if k == 'moi':
            self.say(s[1], s[2])
            return lambda pre, post, ops: self.assign(lambda n: '[%s]%s%d' % (s[1], s[2], n), pre, post, ops)
        if k == 'nua':
            self.say("nu'a", s[1])
            return lambda pre, post, ops: self.assign(lambda n: '[%s]%d' % (s[1], n), pre, post, ops)
        if k == 'zei':
            self.say(s[1])
            return lambda pre, post, ops: self.assign(lambda n: '[%s]%d' % (s[1], n), pre, post, ops)
        if k == 'link':
            f = self.selbri(s[1], 1)
            self.say('be')
            ts = []
            for n, t in enumerate(s[2]):
                if n:
                    self.say('bei')
                ts.append(self.term(t))
            self.say("be'o")
            return lambda pre, post, ops: f(pre, post, ops + [('link', ts)])
        if k == 'cei':
            f = self.selbri(s[1], 3)
            self.say('cei')
            g = self.selbri(s[2], 2)
            return self.both(g, f)
        if k == 'bo':
            f = self.selbri(s[1], 3)
            self.say('bo')
            return self.both(f, self.selbri(s[2], 4))
        if k == 'tanru':
            f = self.selbri(s[1], 7)
            return self.both(f, self.selbri(s[2], 6))
        if k in ('gu', 'je', 'jebo', 'jeke'):
            if k == 'gu':
                self.say("gu'e")
                f = self.selbri(s[1], 9)
                self.say('gi')
                g = self.selbri(s[2], 4)
            elif k == 'jebo':
                f = self.selbri(s[1], 4)
                self.say('je bo')
                g = self.selbri(s[2], 5)
            elif k == 'je':
                f = self.selbri(s[1], 6)
                self.say('ja')
                g = self.selbri(s[2], 5)
            else:
                f = self.selbri(s[1], 6)
                self.say('joi ke')
                g = self.selbri(s[2], 7)
                self.say("ke'e")

            def h(pre, post, ops):
                f(pre, post, ops)
                g(pre, post, ops)
            return h
        if k == 'co':
            f = self.selbri(s[1], 7)
            self.say('co')
            g = self.selbri(s[2], 8)
            co = s[2][0] == 'co'

            def h(pre, post, ops, first=True):
                f(pre if first else [], [], ops)
                if co:
                    g([], post, ops, False)
                else:
                    g([], post, ops)
            return h
        if k == 'na' or k == 'pu':
            self.say(s[1])
            return self.selbri(s[2], 9 if k == 'na' else 8)
        raise ValueError(k)

    @staticmethod
    def both(side, head):
        """side modifies head: it has its own linked sumti and no others"""
        def h(pre, post, ops):
            side([], [], [])
            head(pre, post, ops)
        return h

    # ---------------------------------------------------------------------------------------------- which place
    def assign(self, name, pre, post, ops):
        place = [name(n) for n in range(1, TOP + 1)]         # place[k-1]: what is said of the k-th place
        taken = set()
        fai = []
        links = False

        def fill(ts, count, back):
            for kind, i in ts:
                if kind == 'none':
                    continue
                if kind == 'fai':
                    if not fai or links:
                        raise Ambiguous
                    self.put(i, fai[0])
                    continue
                if kind == 'plain':
                    while count in taken:
                        if back:
                            raise Ambiguous
                        count += 1
                    n = count
                else:
                    n = FA[kind]
                    if n in taken:
                        raise Ambiguous
                taken.add(n)
                self.put(i, place[n - 1])
                count = n + 1
            return count
        for op in reversed(ops):                              # (from the inside out)
            if op[0] == 'se':
                n = op[1]
                place[0], place[n - 1] = place[n - 1], place[0]
                sw = {1: n, n: 1}
                taken = {sw.get(t, t) for t in taken}
            elif op[0] == 'jai':
                if 1 in taken or (fai and not op[1]):
                    raise Ambiguous
                fai.insert(0, place[0])
                if op[1]:
                    place[0] = op[1]
            else:
                links = links or bool(fai)
                fill(op[1], 2, False)
        n = fill(pre, 1, True)
        fill(post, max(n, 2), False)

    def put(self, i, label):
        self.label.setdefault(i, []).append(label)

    # ------------------------------------------------------------------------------------------------------ bridi
    def bridi(self, b, post=()):
        """(prenex terms or None, terms before, bridi tail)"""
        while b[0] is not None:
            self.terms(b[0])
            self.say("zo'u")
            b = b[1]
        pre = self.terms(b[1])
        if pre and not b[2][0].startswith('gek'):
            self.say('cu')
        self.tail(b[2])(pre, list(post))

    def sei(self, pre, s):
        self.say('sei')
        ts = self.terms(pre)
        if ts:
            self.say('cu')
        self.selbri(s, 8)(ts, [], [])
        self.say("se'u")

    def tail(self, t):
        """says a bridi tail; returns a function of the terms before it and the shared terms after it"""
        if t[0] == 'bt':
            f = self.selbri(t[1])
            ts = self.terms(t[2])
            self.say('vau')
            return lambda pre, post: f(pre, ts + post, [])
        if t[0] == 'gek':
            self.say(t[1])
            fs = []
            for n, ss in enumerate(t[2:4]):
                if n:
                    self.say('gi')
                head = []
                while ss[0] is not None:
                    self.terms(ss[0])
                    self.say("zo'u")
                    ss = ss[1]
                head = self.terms(ss[1])
                if head and not ss[2][0].startswith('gek'):
                    self.say('cu')
                fs.append((head, self.tail(ss[2])))
            ts = self.terms(t[4])
            self.say('vau')

            def h(pre, post):
                for head, f in fs:
                    f(pre + head, ts + post)
            return h
        if t[0] in ('gihe', 'gihebo', 'giheke'):
            f = self.tail(t[1])
            self.say({'gihe': "gi'e", 'gihebo': "gi'e bo", 'giheke': "gi'a ke"}[t[0]])
            g = self.tail(t[2])
            if t[0] == 'giheke':
                self.say("ke'e")
            ts = self.terms(t[3])
            self.say('vau')

            def h(pre, post):
                f(pre, ts + post)
                g(pre, ts + post)
            return h
        if t[0] == 'gekna':
            self.say('na')
            return self.tail(t[1])
        if t[0] == 'gekke':
            self.say('pu ke')
            f = self.tail(t[1])
            self.say("ke'e")
            return f
        raise ValueError(t[0])
