"""Reference semantics of dfasyn automaton descriptions, written from the language: reads a description, builds its
NFA, and steps sets of NFA states.  Shares nothing with dfasyn's code."""
import re


class Refused(Exception):
    """the description is not valid"""


class Ambiguous(Exception):
    """more than one result holds at once"""


KW = {}
for w in 'State Abbrev Define Tokens Prefix Block EndBlock Type Result EarlyResult Attr Attribute DefAttr DefResult ' \
         'Symbol SymResult EarlySymResult'.split():
    for v in (w, w.lower(), w.upper(), w.capitalize()):
        KW[v] = {'Attribute': 'ATTR'}.get(w, w.upper())
LEX = re.compile(r'''(?P<pass>^%\{[ \t]*\n.*?^%\}[ \t]*\n)|(?P<str>"(?P<q>[^"]*)")|(?P<word>[A-Za-z0-9_.]+)|(?P<com>\#.*$)
                     |(?P<op>->|[=|&~!^*?:;()<>,])|(?P<ws>[ \t\n]+)''', re.M | re.S | re.X)
LEX = re.compile(LEX.pattern.replace(r'\#.*$', r'\#[^\n]*'), re.M | re.S | re.X)


def lex(text):
    out = []
    pos = 0
    while pos < len(text):
        m = LEX.match(text, pos)
        if not m:
            raise Refused('character %r' % text[pos])
        pos = m.end()
        if m.group('str') is not None:
            if m.group('q'):
                out.append(('STRING', m.group('q')))
        elif m.group('word'):
            w = m.group('word')
            out.append((KW[w], w) if w in KW else ('STRING', w))
        elif m.group('op'):
            o = m.group('op')
            out.append(('!' if o == '~' else o, o))
    out.append(('EOF', ''))
    return out


class Block:
    def __init__(self, name):
        self.name = name
        self.trans = {}     # state -> [(token or None, destination)]
        self.tags = {}
        self.attrs = {}
        self.sub = 0

    def state(self, s):
        if s not in self.trans:
            self.trans[s], self.tags[s], self.attrs[s] = [], [], []
        return s

    def fresh(self):
        self.sub += 1
        return self.state(('#', self.sub))


class Rules:
    def __init__(self):
        self.symbols = {}
        self.results = []
        self.default = None
        self.type = None
        self.used = False

    def holds(self, e, tags, some):
        k = e[0]
        if k == 'sym':
            if e[1] in self.symbols:
                return self.holds(self.symbols[e[1]], tags, some)
            return e[1] in tags
        if k == '*':
            return some
        if k == '!':
            return not self.holds(e[1], tags, some)
        if k == '&':
            return self.holds(e[1], tags, some) and self.holds(e[2], tags, some)
        if k == '|':
            return self.holds(e[1], tags, some) or self.holds(e[2], tags, some)
        if k == '^':
            return self.holds(e[1], tags, some) != self.holds(e[2], tags, some)
        return self.holds(e[2], tags, some) if self.holds(e[1], tags, some) else self.holds(e[3], tags, some)

    def value(self, tags):
        """(result or None, early)"""
        for t in tags:
            if t in self.symbols:
                raise Refused('tag %s is a symbol' % t)
        got = None
        for res, e, early in self.results:
            if self.holds(e, tags, got is not None):
                if got is not None:
                    raise Ambiguous(tags)
                got = (res, early)
        return got or (None, False)


class Desc:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0
        self.tokens = []
        self.prefix = None
        self.abbrevs = {}
        self.blocks = {}
        self.exit, self.attr = Rules(), Rules()
        self.start = None
        while self.peek() != 'EOF':
            self.decl()
        if self.start is None:
            raise Refused('no state')

    # ---- parsing
    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0]

    def next(self, kind=None):
        k, v = self.t[self.i]
        if kind and k != kind:
            raise Refused('%s expected, %r found' % (kind, v))
        self.i += 1
        return v

    def decl(self):
        k = self.peek()
        if k == 'BLOCK':
            self.block()
        elif k == 'TOKENS':
            self.next()
            if self.peek() != 'STRING':
                raise Refused('no tokens')
            while self.peek() == 'STRING':
                t = self.next()
                if t in self.tokens:
                    raise Refused('token %s twice' % t)
                self.tokens.append(t)
        elif k == 'PREFIX':
            self.next()
            self.prefix = self.next('STRING')
        elif k == 'ABBREV':
            self.next()
            n = self.next('STRING')
            self.next('=')
            l = [self.next('STRING')]
            while self.peek() == '|':
                self.next()
                l.append(self.next('STRING'))
            self.abbrevs[n] = l
        elif k == 'ATTR':
            self.next()
            self.rule(self.attr, False)
        elif k == 'DEFATTR':
            self.next()
            self.attr.default = self.next('STRING')
            self.attr.used = True
        else:
            self.rule(self.exit, True)

    def rule(self, r, early_ok):
        k = self.peek()
        early = k.startswith('EARLY')
        if early and not early_ok:
            raise Refused('early attribute')
        r.used = True
        if k in ('RESULT', 'EARLYRESULT'):
            self.next()
            e = self.expr()
            if self.peek() == '->':
                self.next()
                r.results.append((self.next('STRING'), e, early))
            elif e[0] == 'sym':
                r.results.append((e[1], e, early))
            else:
                raise Refused('result')
        elif k in ('SYMRESULT', 'EARLYSYMRESULT'):
            self.next()
            e = self.expr()
            self.next('->')
            n = self.next('STRING')
            r.symbols[n] = e
            r.results.append((n, e, early))
        elif k == 'SYMBOL':
            self.next()
            n = self.next('STRING')
            self.next('=')
            r.symbols[n] = self.expr()
        elif k == 'DEFRESULT':
            self.next()
            r.default = self.next('STRING')
        elif k == 'TYPE':
            self.next()
            r.type = self.next('STRING')
        else:
            raise Refused('declaration: %s' % k)

    def expr(self, level=0):
        if level == 0:                      # ?: , to the right
            a = self.expr(1)
            if self.peek() == '?':
                self.next()
                b = self.expr(0)
                self.next(':')
                return ('?', a, b, self.expr(0))
            return a
        if level < 4:
            op = '|^&'[level - 1]
            a = self.expr(level + 1)
            while self.peek() == op:
                self.next()
                a = (op, a, self.expr(level + 1))
            return a
        if self.peek() == '!':
            self.next()
            return ('!', self.expr(4))
        if self.peek() == '(':
            self.next()
            a = self.expr(0)
            self.next(')')
            return a
        if self.peek() == '*':
            self.next()
            return ('*',)
        return ('sym', self.next('STRING'))

    def toks(self, name, depth=0):
        """the tokens an option stands for"""
        if depth > 50:
            raise Refused('abbreviation of itself')
        if name is None:
            return [None]
        if name in self.abbrevs:
            return [x for n in self.abbrevs[name] for x in self.toks(n, depth + 1)]
        if name not in self.tokens:
            raise Refused('token %s not declared' % name)
        return [self.tokens.index(name)]

    def block(self):
        self.next()
        name = self.next('STRING')
        if name in self.blocks:
            raise Refused('block %s twice' % name)
        b = Block(name)
        self.start = None
        while self.peek() == 'STRING':
            inst = self.next()
            self.next(':')
            self.instance(b, inst, self.next('STRING'))
        while self.peek() == 'STATE':
            self.next()
            cur = b.state(self.next('STRING'))
            self.start = (b, cur)
            if self.peek() == '(':
                self.next()
                b.attrs[cur].append(self.next('STRING'))
                self.next(')')
            while self.peek() not in ('STATE', 'ENDBLOCK'):
                self.transition(b, cur)
        self.next('ENDBLOCK')
        for s in list(b.trans):
            for _, d in b.trans[s]:
                b.state(d)
        self.blocks[name] = b

    def instance(self, b, inst, master):
        if master not in self.blocks:
            raise Refused('block %s not known' % master)
        m = self.blocks[master]

        def nm(s):
            return inst + '.' + s if isinstance(inst, str) and isinstance(s, str) else (inst, '.', s)
        for s in m.trans:
            n = b.state(nm(s))
            b.trans[n] += [(t, nm(d)) for t, d in m.trans[s]]
            b.tags[n] = list(m.tags[s])
            b.attrs[n] = list(m.attrs[s])
        return nm

    def transition(self, b, at):
        while True:
            if self.peek() == '<':
                out = b.fresh()
                while True:
                    if self.peek() == '<':
                        self.next()
                        master = self.next('STRING')
                        self.next(':')
                        i = self.next('STRING')
                        self.next('->')
                        o = self.next('STRING')
                        self.next('>')
                        b.sub += 1
                        nm = self.instance(b, ('<>', b.sub), master)
                        b.state(nm(i)), b.state(nm(o))
                        b.trans[at].append((None, nm(i)))
                        b.trans[nm(o)].append((None, out))
                    else:
                        b.trans[at].append((None, out))
                    if self.peek() != '|':
                        break
                    self.next()
                at = out
                opts = [None]
            else:
                opts = [self.next() if self.peek() == 'STRING' else None]
                while self.peek() == '|':
                    self.next()
                    opts.append(self.next() if self.peek() == 'STRING' else None)
            if self.peek() == ';':
                self.next()
                nxt = b.fresh()
                b.trans[at] += [(t, nxt) for o in opts for t in self.toks(o)]
                at = nxt
                continue
            break
        if self.peek() == '=':
            self.next()
            nxt = b.fresh()
            b.trans[at] += [(t, nxt) for o in opts for t in self.toks(o)]
            b.tags[nxt].append(self.next('STRING'))
            return
        self.next('->')
        while True:
            d = b.state(self.next('STRING'))
            b.trans[at] += [(t, d) for o in opts for t in self.toks(o)]
            if self.peek() != ',':
                return
            self.next()

    # ---- meaning
    def dfa(self, cap=200000):
        """The reference automaton: list of (result, attribute, early, [next per token]); 0 is the start.  None stands
        for the default; -1 for the state in which nothing is possible any more."""
        b, s0 = self.start
        idx = {s: i for i, s in enumerate(b.trans)}
        names = list(b.trans)
        eps = [[idx[d] for t, d in b.trans[s] if t is None] for s in names]
        step = [[(t, idx[d]) for t, d in b.trans[s] if t is not None] for s in names]
        clo = []
        for i in range(len(names)):
            seen = {i}
            todo = [i]
            while todo:
                for d in eps[todo.pop()]:
                    if d not in seen:
                        seen.add(d)
                        todo.append(d)
            clo.append(seen)
        start = frozenset(clo[idx[s0]])
        num = {start: 0}
        order = [start]
        out = []
        k = 0
        while k < len(order):
            cur = order[k]
            k += 1
            res, early = self.exit.value({t for i in cur for t in b.tags[names[i]]})
            att, _ = self.attr.value({t for i in cur for t in b.attrs[names[i]]})
            row = [-1] * len(self.tokens)
            if not early:
                dest = [None] * len(self.tokens)
                for i in cur:
                    for t, d in step[i]:
                        if dest[t] is None:
                            dest[t] = set()
                        dest[t] |= clo[d]
                for t, ds in enumerate(dest):
                    if ds:
                        f = frozenset(ds)
                        if f not in num:
                            num[f] = len(order)
                            order.append(f)
                            if len(order) > cap:
                                raise Refused('too big')
                        row[t] = num[f]
            out.append((res, att, early, row))
        return out
