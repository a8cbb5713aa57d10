"""Reference model of the glosses of brivla: what the manual of smujajgau and the table in translate.c say the entries of a
dictionary mean.  A dictionary is a dict of key -> value (see C03)."""
import re

NOUN, VERB, QUAL, TAG = 'nvqt'
SE = {'se': 2, 'te': 3, 've': 4, 'xe': 5}


class Unknown(Exception):
    """nothing in the dictionary decides the gloss: no claim"""


def plural(x):
    if re.search('[szx]$|ch$', x):
        return x + '(es)'
    return x + ('(ies)' if re.search('[bcdfghjklmnpqrstvwxz]y$', x) else '(s)')


def er(x):
    return x + ('-r(s)' if x.endswith('e') else '-er(s)')


def ing(x):
    return x[:-1] + '-ing' if re.search('[^aeiou]e$', x) else x + '-ing'


def starred(x, f, of=False):
    """f applied before every * that ends a word, or to all of x"""
    m = re.search(r'\*', x)
    if not m or not re.match(r'\*(\s|/|$)', x[m.start():]):
        return f(x)
    head, rest = x[:m.start()], x[m.start() + 1:]
    o = f(head)
    if of and not re.match(r'\s*(in|at|with|through)', rest):
        o += ' of'
    return o + (starred(rest, f, of) if '*' in rest else rest)


def plain(x):
    return re.sub(r'\*(?=\s)', '', x)


def in_context(val, ctx, noun):
    """the table of the manual; noun: the special noun form, if the dictionary has one"""
    if val[1:2] != ';':
        return val
    c, x = val[0], val[2:]
    if c in 'DE':
        s = starred(x, plural)
        return {NOUN: s, VERB: 'being ' + (noun or s), QUAL: plain(x) + '-ish', TAG: noun or s}[ctx]
    if c == 'S':
        return {NOUN: plain(x), VERB: 'being ' + (noun or x), QUAL: x + '-ish', TAG: noun or x}[ctx]
    if c == 'A':
        return starred(x, er, True) if ctx in (NOUN, TAG) else starred(x, ing)
    if c == 'P':
        return {NOUN: x + ' thing(s)', VERB: 'being ' + x, QUAL: x, TAG: x + ' thing(s)'}[ctx]
    if c == 'R':
        return {NOUN: 'thing(s) ' + x, VERB: 'being ' + x, QUAL: x, TAG: 'thing(s) ' + x}[ctx]
    if c == 'I':
        return ('thing(s) ' if ctx in (NOUN, TAG) else '') + starred(x, ing)
    raise Unknown


def gloss(D, w, place, ctx, canon=None, depth=0):
    """the gloss of place `place` of the word w; canon(w): its components joined by +, None for other words than lujvo"""
    if depth > 60:
        raise Unknown
    if place == 0:
        place, ctx = 1, VERB
    val = D.get('%s%d%s' % (w, place, ctx))
    if val is None:
        val = D.get('%s%d' % (w, place))
        if val is None and canon and '+' not in w and canon(w):
            val = D.get('%s%d' % (canon(w), place))
    if val is not None:
        if val[:1] == '@':
            m = re.match(r"@([a-zA-Z']*)(\d)", val)
            return gloss(D, m[1], int(m[2]), ctx, canon, depth + 1)
        return in_context(val, ctx, D.get('%s%dn' % (w, place), ''))
    if w in D:
        return D[w] + '??'
    p = pattern(D, w, place, ctx, canon, depth)
    return p if p is not None else by_parts(D, w, place, ctx, canon, depth) + '??'


def components(c):
    """a+se+b -> components with their conversions: (start with conversions, start without, places)"""
    out = []
    pos = 0
    ps = c.split('+')
    start = None
    places = [0, 1, 2, 3, 4, 5]
    todo = []
    for k, p in enumerate(ps):
        if start is None:
            start = k
        if p in SE and k + 1 < len(ps):
            todo.append(SE[p])
            continue
        places = [0, 1, 2, 3, 4, 5]
        for s in reversed(todo):
            places[1], places[s] = places[s], places[1]
        out.append((start, k, places))
        start, todo = None, []
    return ps, out


def pattern(D, w, place, ctx, canon, depth):
    """the patterns of the dictionary: highest precedence first, endings before beginnings"""
    c = w if '+' in w else canon and canon(w)
    if not c or '+' not in c:
        return None
    ps, comp = components(c)
    if place > 5:
        raise Unknown
    if len(comp) == 1:
        return gloss(D, ps[comp[0][1]], comp[0][2][place], ctx, canon, depth + 1)
    for prec in range(5, -1, -1):
        for ending in (True, False):
            for n in (1, 2):
                if n >= len(comp):
                    break
                if ending:
                    k = comp[len(comp) - n]
                    part, rest, pl = '+' + '+'.join(ps[k[1]:]), '+'.join(ps[:k[0]]), k[2][place]
                else:
                    k = comp[n]
                    part, rest, pl = '+'.join(ps[:k[0]]) + '+', '+'.join(ps[k[0]:]), comp[n - 1][2][place]
                key = '*%d%s%d' % (prec, part, pl)
                full = D.get(key + ctx)
                val = full if full is not None else D.get(key)
                if val is None:
                    break
                if val[:1] == '@':
                    return gloss(D, rest, int(val[1]), ctx, canon, depth + 1)
                if val == '-':
                    continue
                s = re.sub(r'%(\d)(.)', lambda m: gloss(D, rest, int(m[1]), m[2] if m[2] in 'nvqt' else NOUN, canon, depth + 1), val)
                if full is not None:
                    return s
                return in_context(s, ctx, D.get(key + 'n', ''))
    return None


def by_parts(D, w, place, ctx, canon, depth):
    """a word that nothing decides: the glosses of its parts"""
    c = w if '+' in w else canon and canon(w)
    if c and '+' in c:
        ps, comp = components(c)
        if len(comp) < 2 or '?' in c:
            raise Unknown
        return '-'.join(gloss(D, ps[k[1]], k[2][place if k is comp[-1] else 1], NOUN if k is comp[-1] else QUAL, canon, depth + 1) for k in comp)
    if re.fullmatch('[bcdfgjklmnprstvxz]([aeiou][bcdfgjklmnprstvxz]{2}|[bcdfgjklmnprstvxz][aeiou][bcdfgjklmnprstvxz])[aeiou]', w):
        return '?'
    m = re.fullmatch('([^aeiou][aeiou][^aeiou]{2}|[^aeiou]{2}[aeiou][^aeiou])([rn])(spageti)', w)
    if m:
        for x in 'aeiou':
            if m[1] + x in D:
                return '%s-[%s]' % (gloss(D, m[1] + x, 1, ctx, canon, depth + 1), m[3])
    raise Unknown
