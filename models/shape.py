"""Structure of a parse as a bracketed string, nodes with a single child left out: from the model's tree, from jbofihe's tree
(-t, -tf) and from its bracketed text."""
import re
import lexmodel as L
import treeparse as T

ELI = {}
for _w, (_s, _) in L.CMAVO.items():
    ELI.setdefault(_s, _w)


def leaf_words(d):
    """words of a token, as a list; quotations and compounds as printed"""
    t = d['t']
    k = t[0]
    if k == 'ZO':
        return ['zo', t[1]]
    if k == 'BU':
        return t[1].split() + ['bu']
    if k == 'LOhU':
        return ["lo'u"] + t[1].split() + ["le'u"]
    if k == 'ZOI':
        return [t[2], t[3]] + t[1].split() + [t[3]]
    if k == 'ZEI':
        return t[1].replace('-', ' ').split()
    return [t[1]]


def model(node, elided, boxed=True):
    """boxed: zei compounds and lo'u quotations in brackets of their own (as in bracketed text)"""
    def go(n):
        if isinstance(n, dict):
            d = n
            if 'words' in d:
                return ' '.join(d['words'])
            w = leaf_words(d)
            s = ' '.join(w)
            if boxed and d['t'][0] in ('ZEI', 'LOhU'):
                s = '(' + s + ')'
            if d['bahe'] or d['ind']:
                s = '(' + ' '.join(d['bahe'] + [s] + [' '.join(i) for i in d['ind']]) + ')'
            return s
        if n[0] == '?':
            return ELI[n[1]].upper() if elided else None
        kids = [x for x in map(go, n[1]) if x is not None]
        return kids[0] if len(kids) == 1 else '(' + ' '.join(kids) + ')'
    return '(' + go(node) + ')'


def from_tree(text, upper=True):
    """-t or -tf output; zoi form and delimiters, zei and bu are not in it as written: see words_of_tree_leaf"""
    t = T.parse(text)

    def go(n):
        if n.word is not None:
            return tree_leaf(n)
        kids = [go(k) for k in n.kids]
        return kids[0] if len(kids) == 1 else '(' + ' '.join(kids) + ')'
    if t.label != 'CHUNKS':
        raise ValueError('root is ' + t.label)
    kids = [go(k) for k in t.kids]
    return '(' + ' '.join(kids) + ')'


def tree_leaf(n):
    if n.label == 'ZO':
        return 'zo ' + n.word
    if n.label == 'BU':
        return n.word + ' bu'
    if n.label == 'LOhU':
        return "lo'u " + n.word + " le'u"
    if n.label == 'ZOI':
        return 'zoi gy ' + n.word + ' gy'
    return n.word


TOK = re.compile(r'\((\d+)|\)(\d+)|[\[\]{}<>]|[^\s\[\]{}<>()]+')
PAIR = {'[': ']', '{': '}', '<': '>'}


def from_brackets(text):
    """raises ValueError when brackets do not nest as printed"""
    out, stack = [], []
    for m in TOK.finditer(text):
        s = m.group()
        if s[0] == '(' or s in PAIR:
            depth = len(stack)
            want = ['(%d' % (depth // 4), '[', '{', '<'][depth % 4]
            stack.append(')' + s[1:] if s[0] == '(' else PAIR[s])
            out.append('(')
            if s != want:
                # zei and lo'u are bracketed one level further in
                want2 = ['(%d' % ((depth + 1) // 4), '[', '{', '<'][(depth + 1) % 4]
                if s != want2:
                    raise ValueError('bracket %s at depth %d' % (s, depth))
        elif s[0] == ')' or s in ']}>':
            if not stack or stack.pop() != s:
                raise ValueError('bracket %s does not match' % s)
            out.append(')')
        else:
            out.append(s)
    if stack:
        raise ValueError('brackets left open')
    return re.sub(r'\( ', '(', re.sub(r' \)', ')', ' '.join(out)))
