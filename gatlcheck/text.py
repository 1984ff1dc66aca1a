"""Reading of formatted output: the pieces of text and the values a program inserts into a stream, in order, are read back as an
expression.  Grammar of what the library writes (extra/write.hpp): terms joined by +, factors joined by *, basis vectors joined by ^,
<...> around what is known at compile time, (...) around negative values and sums, [...] around the components of a map."""
import re
from .ring import V, Fr

ONE, ZERO = V.const(1), V.const(0)
TOKEN = re.compile(r'\s+|([A-Za-z_]\w*|\d+|[-<>()\[\]{}+*^,])')


class Unread(Exception):
    pass


def tokens(events, names):
    """-> list of ('(', None) | ('num', V) | ('name', bit) | ('word', text) | ('value', V)"""
    out, buf = [], ''
    for e in list(events) + [None]:
        if e is not None and e[0] == 'text':
            buf += e[1]
            continue
        pos = 0
        while pos < len(buf):
            m = TOKEN.match(buf, pos)
            if not m:
                raise Unread('unexpected character %r' % buf[pos])
            pos = m.end()
            w = m.group(1)
            if w is None:
                continue
            if w.isdigit():
                out.append(('num', V.const(int(w))))
            elif w[0].isalpha() or w[0] == '_':
                out.append(('name', names.index(w)) if w in names else ('word', w))
            else:
                out.append((w, None))
        buf = ''
        if e is not None:
            out.append(e)
    return out


class Reader:
    def __init__(self, toks, facts, fns):
        self.t, self.i, self.facts, self.fns = toks, 0, facts, fns

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def take(self, k=None):
        if k is not None and self.peek() != k:
            raise Unread('expected %s, found %s' % (k, self.peek() or 'the end'))
        self.i += 1
        return self.t[self.i - 1]

    def sum(self):
        """-> list of (bitset, V), in the order they are written"""
        r = self.term()
        while self.peek() == '+':
            self.take()
            r = r + self.term()
        return r

    def term(self):
        r = self.factor(True)
        while self.peek() == '*':
            self.take()
            f = self.factor(False)
            r = [(self.outer(b, c), x * y) for b, x in r for c, y in f]
        return r

    def outer(self, b, c):
        if b:
            raise Unread('a basis blade on the left of a product')
        return c

    def scalar(self, r):
        v = ZERO
        for b, x in r:
            if b:
                raise Unread('a scalar is expected')
            v = v + x
        return v

    def factor(self, first):
        k = self.peek()
        if k == 'num':
            return [(0, self.take()[1])]
        if k == 'value':
            v = self.take()[1]
            if isinstance(v, V) and not self.facts.signs(v) <= frozenset((0, 1)) and not self.enclosed():
                raise Unread('a value that may be negative is not between parentheses')
            return [(0, v)]
        if k == '-':
            self.take()
            return [(b, -x) for b, x in self.factor(False)]
        if k == 'name':
            bits = [self.take()[1]]
            while self.peek() == '^':
                self.take()
                bits.append(self.take('name')[1])
            if sorted(set(bits)) != bits:
                raise Unread('basis vectors out of order or repeated')
            return [(sum(1 << b for b in bits), ONE)]
        if k in ('(', '<', '['):
            self.take()
            r = self.sum()
            self.take({'(': ')', '<': '>', '[': ']'}[k])
            if k != '[' and all(b == 0 for b, _ in r):
                return [(0, self.scalar(r))]
            return r
        if k == 'word':
            w = self.take()[1]
            self.take('(')
            args = [self.scalar(self.sum())]
            while self.peek() == ',':
                self.take()
                args.append(self.scalar(self.sum()))
            self.take(')')
            if w not in self.fns:
                raise Unread('unknown function ' + w)
            return [(0, self.fns[w](*args))]
        raise Unread('unexpected %s' % (k or 'end'))

    def enclosed(self):
        i = self.i - 1
        return i > 0 and self.t[i - 1][0] in ('(', '<', ',') and i + 1 < len(self.t) and self.t[i + 1][0] in (')', '>', ',')


def read(events, names, facts, fns):
    """-> list of (bitset, V), one for each component written"""
    r = Reader(tokens(events, names), facts, fns)
    if not r.t:
        raise Unread('nothing is written')
    o = r.sum()
    if r.i != len(r.t):
        raise Unread('text after the end of the expression: %s' % (r.t[r.i],))
    return o
