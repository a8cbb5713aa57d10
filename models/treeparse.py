"""Reads the parse tree that jbofihe -tf / -t prints (children before their parent, depth by indentation)."""
import re


class Node:
    __slots__ = ('label', 'word', 'kids')

    def __init__(self, label, word=None, kids=()):
        self.label, self.word, self.kids = label, word, list(kids)

    def leaves(self):
        if self.word is not None:
            yield self
        for k in self.kids:
            yield from k.leaves()

    def __repr__(self):
        return self.word if self.word is not None else '(%s %s)' % (self.label, ' '.join(map(repr, self.kids)))


LINE = re.compile(r'^((?:\| )*\+-)?(.*)$')


def parse(text):
    """-> Node; raises ValueError when the lines do not form one tree"""
    pend = {}
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    for line in lines:
        m = LINE.match(line)
        depth = len(m.group(1) or '') // 2
        body = m.group(2)
        label, sep, rest = body.partition(' : ')
        kids = pend.pop(depth + 1, [])
        if any(d > depth + 1 for d in pend):
            raise ValueError('nodes without parent before ' + line)
        if sep:
            if kids:
                raise ValueError('word with children: ' + line)
            label = label.strip()
            n = Node(label, rest)
            if label == 'CMAVO':
                w, _, c = rest.partition(' [')
                n.word, n.label = w, c.rstrip(']')
        else:
            n = Node(body, None, kids)
        pend.setdefault(depth, []).append(n)
    if list(pend) != [0] or len(pend[0]) != 1:
        raise ValueError('not one tree')
    return pend[0][0]


def groups(tree):
    """-> list of word groups: a word with what is attached to it"""
    out = []

    def flat(n):
        return [x.word for x in n.leaves()]

    def walk(n):
        if n.label == 'AUGMENTED' and n.word is None:
            out.append(flat(n))
        elif n.word is not None:
            out.append([n.word])
        else:
            for k in n.kids:
                walk(k)
    walk(tree)
    return out
