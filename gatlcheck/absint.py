"""Forward dataflow over GIMPLE SSA in the ring normal-form domain.

Every SSA name is given the normal form of the value it computes (global value numbering where congruence is
equality of normal forms).  Conditions over non-constant values partition the traces: the partition is described by
the sign each compared difference has on it.  Local memory is modelled per (object, byte offset).
The analysis also reports reads of objects whose lifetime has ended, reads of never-written objects, and every store
that is not to a local object or to the declared output.
"""
import math
import re
from fractions import Fraction as Fr
from . import ring, text
from .ring import V, ZERO, ONE
from .gimple import split_args

NEG, ZER, POS = -1, 0, 1
ALL = frozenset((NEG, ZER, POS))
RELS = {
    '<': frozenset((NEG,)), '<=': frozenset((NEG, ZER)), '==': frozenset((ZER,)),
    '>': frozenset((POS,)), '>=': frozenset((POS, ZER)), '!=': frozenset((NEG, POS)),
    'u<': frozenset((NEG,)), 'u<=': frozenset((NEG, ZER)), 'u==': frozenset((ZER,)),
    'u>': frozenset((POS,)), 'u>=': frozenset((POS, ZER)), '<>': frozenset((NEG, POS)),
}
RELS['ltgt'] = RELS['<>']


class Unsupported(Exception):
    """The analysis has no transfer function for this construct: no verdict."""


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __repr__(self):
        return '&%s+%d' % (self.base, self.off)


OPAQUE = Ptr('opaque', 0)     # internals of an output stream
STREAM_RE = re.compile(r'^::(?:clog|cout|cerr|do_widen)\b')


class Bad:
    """Result of a read that must not happen; any use keeps it."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<%s>' % self.why


SIZES = {'double': 8, 'float': 4, 'long int': 8, 'long unsigned int': 8, 'int': 4, 'unsigned int': 4, 'bool': 1, '_Bool': 1, 'char': 1,
         'long long int': 8, 'long long unsigned int': 8, 'long': 8, 'unsigned long': 8, 'short int': 2, 'unsigned char': 1, 'signed char': 1, 'short unsigned int': 2,
         'bitset_t': 8, 'default_integral_t': 8, 'grade_t': 8, 'ulong': 8, 'size_t': 8, 'long double': 16}


def primitive(d):
    """(p, flip): d is flip times a positive constant times p, whose leading coefficient is positive"""
    c = ring._content(d)
    flip = 1
    if c != 1:
        d = d.scale(Fr(1) / c)
    if d.key()[0][1] < 0:
        d = -d
        flip = -1
    return d, flip


class Facts:
    """What is known on a trace: the sign of each compared (normalised) difference."""
    __slots__ = ('s', 'b')

    def __init__(self, s=None, b=None):
        self.s = dict(s) if s else {}
        self.b = dict(b) if b else {}     # monomial: [its bounds (low, excluded, high, excluded)]

    def copy(self):
        return Facts(self.s, self.b)

    def bounds(self, m):
        """(low, excluded, high, excluded) of the monomial m; None for no bound."""
        r = self.b.get(m)
        if r is None:
            r = (None, False, None, False)
        if r[0] is None or r[0] < 0:
            lo, ex = Fr(1), True
            for a, k in m:
                if Fr(k).denominator == 1 and k > 0 and len(m) > 1 or k in (1,) and ring._nonneg_atom(a):
                    q = self.b.get(((a, 1),))
                    if q is not None and q[0] is not None and (q[0] > 0 or q[0] == 0 and q[1]):
                        lo = lo * q[0] ** k
                        ex = ex and q[1]
                        continue
                    if ring._nonneg_atom(a) or k % 2 == 0:
                        lo, ex = Fr(0), False
                        continue
                elif Fr(k).denominator == 1 and k % 2 == 0:
                    lo, ex = Fr(0), False
                    continue
                break
            else:
                if lo == 0 or len(m) > 1 or r[0] is None:
                    if not (len(m) == 1 and lo == 1):
                        r = (lo, ex) + r[2:]
        return r

    def interval(self, n):
        """Bounds of a polynomial from those of its monomials."""
        lo, le, hi, he = Fr(0), False, Fr(0), False
        for m, c in n.t.items():
            if not m:
                lo = lo + c if lo is not None else None
                hi = hi + c if hi is not None else None
                continue
            a, ae, b, be = self.bounds(m)
            if c < 0:
                a, ae, b, be = b, be, a, ae
            lo = None if lo is None or a is None else lo + c * a
            le = le or ae
            hi = None if hi is None or b is None else hi + c * b
            he = he or be
            if lo is None and hi is None:
                return None, False, None, False
        return lo, le, hi, he

    def bound(self, n, signs):
        """Learns the bound that the sign of n = c + k * m is."""
        ms = [m for m in n.t if m]
        if len(ms) != 1 or len(n.t) > 2 or len(signs) == 3 or signs == frozenset((NEG, POS)):
            return
        m, = ms
        k = n.t[m]
        v = Fr(-n.t.get((), 0)) / Fr(k)
        if k < 0:
            signs = frozenset(-x for x in signs)
        lo, le, hi, he = self.b.get(m, (None, False, None, False))
        if NEG not in signs and (lo is None or v > lo or v == lo and not le):
            lo, le = v, ZER not in signs
        if POS not in signs and (hi is None or v < hi or v == hi and not he):
            hi, he = v, ZER not in signs
        self.b[m] = (lo, le, hi, he)

    @staticmethod
    def normalise(d):
        """(n, flip): n has the sign of d, up to flip, and a positive leading coefficient"""
        if len(d.t) == 1:
            # the sign of a power is that of its base, or non-negative
            (m, c), = d.t.items()
            if any(Fr(k).denominator == 1 and k not in (1, 2) for _, k in m):
                r = V.const(c)
                for a, k in m:
                    if Fr(k).denominator == 1:
                        if ring.atom_key(a)[0] == 'p' and (len(m) > 1 or k % 2 == 0):
                            k = -1 if k % 2 else -2
                        else:
                            k = 1 if k % 2 else 2
                    r = r * ring._gen_pow(a, k)
                if r.key() != d.key():
                    return Facts.normalise(r)
        return primitive(d)

    def signs(self, d):
        """Possible signs of the value d."""
        if d.is_const():
            c = d.const_value()
            return frozenset(((c > 0) - (c < 0),))
        n, flip = self.normalise(d)
        r = self.s.get(n.key())
        if r is None:
            r = ALL
        if ring._nonneg_poly(d):
            r = r - frozenset((NEG if flip > 0 else POS,))
        elif ring._nonneg_poly(-d):
            r = r - frozenset((POS if flip > 0 else NEG,))
        elif len(d.t) == 1:
            r2 = self._mono_signs(d)
            if r2 is not None:
                if flip < 0:
                    r2 = frozenset(-x for x in r2)
                r = r & r2
        if len(r) > 1 and len(n.t) == 1:
            (m, c), = n.t.items()
            if len(m) == 1 and Fr(m[0][1]).denominator == 1 and m[0][1] % 2:
                x = self._factor_sign(m[0][0])
                if x:
                    r = r & frozenset((x if c > 0 else -x,))
        if len(r) > 1 and len(n.t) <= 12:
            lo, le, hi, he = self.interval(n)
            if lo is not None and (lo > 0 or lo == 0):
                r = r - (frozenset((NEG, ZER)) if lo > 0 or le else frozenset((NEG,)))
            if hi is not None and (hi < 0 or hi == 0):
                r = r - (frozenset((POS, ZER)) if hi < 0 or he else frozenset((POS,)))
        return frozenset(x * flip for x in r)

    def _factor_sign(self, a):
        """Sign of generator a from the sign of a product it occurs in, the other factors being positive or of known sign."""
        for k, s in self.s.items():
            if len(k) != 1 or len(s) != 1 or 0 in s or len(k[0][0]) < 2:
                continue
            x = next(iter(s)) * (1 if k[0][1] > 0 else -1)
            seen = False
            for b, e in k[0][0]:
                if Fr(e).denominator != 1:
                    if ring.atom_key(b)[0] == 'p' and Fr(e).denominator == 2 and b != a:
                        continue
                    break
                if b == a:
                    if e % 2 == 0:
                        break
                    seen = True
                elif e % 2 == 0 or ring._nonneg_atom(b):
                    continue
                else:
                    o = self.s.get(((((b, 1),), 1),))
                    if o not in (frozenset((POS,)), frozenset((NEG,))):
                        break
                    x *= next(iter(o))
            else:
                if seen:
                    return x
        return None

    def _mono_signs(self, d):
        (m, c), = d.t.items()
        res = frozenset(((c > 0) - (c < 0),))
        for a, k in m:
            key = ring.atom_key(a)
            if key[0] == 'p':
                s = frozenset((ZER, POS)) if Fr(k).denominator == 2 else self.s.get(key[1])
                if s is None:
                    return None
            elif key[0] == 'f' and key[1] in ('abs', 'cosh', 'exp'):
                s = frozenset((ZER, POS))
            else:
                if Fr(k).denominator == 1 and k % 2 == 0:
                    s = frozenset((ZER, POS))
                elif len(m) == 1 and k in (1, -1):
                    s = self.s.get((((((a, 1),), 1)),))
                    if s is None:
                        return None
                else:
                    s = self.s.get((((((a, 1),), 1)),))
                    if s is None:
                        return None
            if Fr(k).denominator == 1 and k % 2 == 0:
                s = frozenset(x * x for x in s)
            res = frozenset(x * y for x in res for y in s)
        return res

    def learn(self, d, signs):
        """False when the fact contradicts what is known."""
        now = self.signs(d) & signs
        if not now:
            return False
        if d.is_const():
            return True
        n, flip = self.normalise(d)
        self.s[n.key()] = frozenset(x * flip for x in now)
        self.bound(n, self.s[n.key()])
        return True

    def sign_of(self, v):
        s = self.signs(v)
        if len(s) == 1:
            return next(iter(s))
        if s == frozenset((ZER, POS)):
            return 1
        if s == frozenset((ZER, NEG)):
            return -1
        return None

    def merge(self, other):
        """Conjunction, or None when contradictory."""
        f = self.copy()
        for k, s in other.s.items():
            d = V(dict(k))
            if not f.learn(d, s):
                return None
        # one more round: facts learnt later may decide earlier ones
        for k, s in list(f.s.items()):
            if not (f.signs(V(dict(k))) & s):
                return None
        return f

    def describe(self):
        out = []
        names = {frozenset((NEG,)): '< 0', frozenset((ZER,)): '== 0', frozenset((POS,)): '> 0', frozenset((NEG, ZER)): '<= 0',
                 frozenset((POS, ZER)): '>= 0', frozenset((NEG, POS)): '!= 0', ALL: 'any'}
        for k, s in self.s.items():
            out.append('%s %s' % (ring.show(V(dict(k)), 200), names[s]))
        return ' and '.join(out) or 'always'


class Fork(Exception):
    """The condition d REL 0 is not decided on this trace."""

    def __init__(self, d, rel):
        self.d, self.rel = d, rel


class Outcome:
    __slots__ = ('facts', 'kind', 'out', 'detail', 'calls')

    def __init__(self, facts, kind, out, detail, calls):
        self.facts, self.kind, self.out, self.detail, self.calls = facts, kind, out, detail, calls


class State:
    __slots__ = ('env', 'mem', 'facts', 'block', 'prev', 'idx', 'dead', 'calls', 'steps', 'heap', 'zeroed', 'events', 'whole', 'zones')

    def copy(self):
        s = State()
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), self.facts.copy()
        s.block, s.prev, s.idx = self.block, self.prev, self.idx
        s.dead, s.calls, s.steps, s.heap = set(self.dead), list(self.calls), self.steps, self.heap
        s.zeroed = set(self.zeroed)
        s.events = list(self.events)
        s.whole, s.zones = dict(self.whole), dict(self.zones)
        return s


UNARY_FN = {'sqrt', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log10', 'log2', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh',
            'cbrt', 'exp2', 'expm1', 'log1p', 'floor', 'ceil', 'erf', 'tgamma', 'round', 'trunc'}
SSA_RE = re.compile(r'^(?:[A-Za-z_][\w\.]*)?_\d+(?:\(D\))?$')
FLOAT_RE = re.compile(r'^-?\d+\.\d*(?:e[+-]?\d+)?$')
INT_RE = re.compile(r'^-?\d+$')
PTRC_RE = re.compile(r'^(-?\d+)B$')
BIN_RE = re.compile(r'^(\S+) (\+|-|\*|/|%|&|\||\^|<<|>>|r<<|r>>|<=|>=|<|>|==|!=|u<|u<=|u>|u>=|u==|<>|ord|unord|exact_div|\[/\]) (\S+)$')
CAST_RE = re.compile(r'^\(([^()]+)\) ?(\S+)$')
CALL_RE = re.compile(r'^([A-Za-z_\.~][\w:\.~]*(?:<.*>)?(?:::[\w~<>:, ]+)*) \((.*)\);?(?: \[[^\]]*\])*;?$')
MEM_RE = re.compile(r'^MEM(?: <([^\[\]]*(?:\[[^\]]*\])*)>)? ?\[(.*?)\]((?:\.[\w\.]+|\[\w+\])*)$')
GLOBAL_RE = re.compile(r'^[A-Za-z_]\w*(?:\.\d+)?$')
# calls with no effect on coefficients: construction of exception objects and text output
EFFECT_FREE = re.compile(r'^(?:(?:runtime_error|logic_error|exception|bad_alloc)::\w+|basic_ostream<.*|ostream::\w+|endl<.*|operator<<.*|__ostream_insert<.*|ios_base::.*|basic_ios<.*|ctype<char>::.*|__throw_bad_cast|flush<.*)$')
SUM_RE = re.compile(r'^&(\S.*[\]\w]) \+ ([\w.]+(?:\(D\))?)$')
VALUES_RE = re.compile(r'^(?:\.D\.\d+)?\.values_\.entries_\._M_elems\[([^\[\]]+)\]$')
ELEM_RE = re.compile(r'^(.*)\[([^\[\]]+)\]$')


FLOAT_RANK = {'float': 1, 'float_t': 1, 'double': 2, 'double_t': 2, 'long double': 3}


def is_int_type(t):
    t = t.replace('const ', '').strip()
    return t in INT_BITS


INT_BITS = {'long int': (64, 1), 'long unsigned int': (64, 0), 'int': (32, 1), 'unsigned int': (32, 0), 'long long int': (64, 1), 'long long unsigned int': (64, 0),
            'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short int': (16, 1), 'short unsigned int': (16, 0), 'bool': (1, 0), '_Bool': (1, 0),
            'bitset_t': (64, 0), 'ulong': (64, 0), 'size_t': (64, 0), 'sizetype': (64, 0), 'ssizetype': (64, 1), 'default_integral_t': (64, 1), 'grade_t': (64, 1),
            'unsigned long': (64, 0), 'long': (64, 1), 'difference_type': (64, 1), 'size_type': (64, 0), 'index_t': (64, 1), 'tag_t': (64, 0), 'uint': (32, 0)}


def wrap(c, t):
    bits = INT_BITS.get(t.replace('const ', '').strip())
    if bits is None or not isinstance(c, int):
        return c
    n, signed = bits
    if n == 1:
        return 1 if c else 0
    c &= (1 << n) - 1
    if signed and c >> (n - 1):
        c -= 1 << n
    return c


class Analysis:
    def __init__(self, fn, inputs=('a', 'b'), outputs=('out',), max_steps=400000, max_traces=3000, elem=8, strict='float', names=None, name_text=None, sizes=None):
        self.sizes = sizes or {}       # bytes of objects of the named classes
        self.strict = strict
        self.fn = fn
        self.inputs = set(inputs)
        self.outputs = set(outputs)
        self.max_steps = max_steps
        self.max_traces = max_traces
        self.elem = elem
        self.stats = {'blocks': len(fn.blocks), 'statements': sum(len(b.stmts) + len(b.phis) for b in fn.blocks.values()), 'traces': 0, 'loads': 0, 'stores': 0, 'steps': 0}
        self.diags = []       # (kind, text)
        self.label_blocks = None
        self.names = names    # of the basis vectors: what is inserted into the stream os is read back
        self.name_text = name_text or {}
        self.canon = set()    # objects whose coefficients were reached by their names
        self.flags = set()    # boolean objects with static storage that are read

    def diag(self, kind, text):
        if (kind, text) not in self.diags:
            self.diags.append((kind, text))

    # ---- driver
    def run(self):
        s = State()
        s.env, s.mem, s.facts = {}, {}, Facts()
        s.block, s.prev, s.idx = self.fn.entry, None, -1
        s.dead, s.calls, s.steps, s.heap, s.zeroed, s.events, s.whole, s.zones = set(), [], 0, 0, set(), [], {}, {}
        for n, t in self.fn.params:
            s.env[n] = Ptr(n, 0) if '*' in t or '&' in t else V.var(n)
        work = [s]
        res = []
        while work:
            s = work.pop()
            o = self.exec(s, work)
            if o is not None:
                res.append(o)
                self.stats['traces'] += 1
            if self.stats['traces'] + len(work) > self.max_traces:
                raise Unsupported('more than %d traces in %s' % (self.max_traces, self.fn.name))
        return res

    def exec(self, s, work):
        fn = self.fn
        while True:
            b = fn.blocks[s.block]
            if s.idx < 0:
                if b.phis:
                    new = {}
                    for n, args in b.phis:
                        for a, p in args:
                            if p == s.prev:
                                new[n] = self.operand(s, a)
                                break
                        else:
                            raise Unsupported('PHI without incoming edge in %s' % fn.name)
                    s.env.update(new)
                s.idx = 0
            nxt = None
            st = b.stmts
            while s.idx < len(st):
                s.steps += 1
                self.stats['steps'] += 1
                if s.steps > self.max_steps or self.stats['steps'] > 20 * self.max_steps:
                    raise Unsupported('step budget exceeded in %s' % fn.name)
                try:
                    r = self.stmt(s, b, st[s.idx])
                except Fork as f:
                    for signs in (RELS[f.rel], ALL - RELS[f.rel]):
                        c = s.copy()
                        if c.facts.learn(f.d, signs):
                            work.append(c)
                    return None
                if r is None:
                    s.idx += 1
                    continue
                if r[0] == 'goto':
                    nxt = r[1]
                    break
                if r[0] == 'drop':
                    return None
                return Outcome(s.facts, r[0], self.collect(s), r[1], s.calls)
            if nxt is None:
                i = fn.order.index(s.block)
                if i + 1 >= len(fn.order):
                    return Outcome(s.facts, 'noreturn', self.collect(s), None, s.calls)
                nxt = fn.order[i + 1]
            s.prev, s.block, s.idx = s.block, nxt, -1

    def collect(self, s):
        r = {k[1]: v for k, v in s.mem.items() if k[0] in self.outputs}
        if self.names is not None:
            # out[0]: number of components; then the basis blade and the coefficient of each
            try:
                got = text.read(s.events, self.names, s.facts, {n: (lambda *v, n=n: self.fabs(s, v[0]) if n == 'abs' else apply_fn(n, v)) for n in ('pow', 'abs', 'exp', 'log', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh')})
            except text.Unread as e:
                r[0] = Bad('unreadable text %s: %s' % (''.join(x[1] if x[0] == 'text' else '{%s}' % (x[1],) for x in s.events), e))
            else:
                r[0] = V.const(len(got))
                for i, (b, v) in enumerate(sorted(got, key=lambda c: c[0])):
                    r[16 * i + 8], r[16 * i + 16] = V.const(b), v
        return r

    # ---- operands
    def operand(self, s, a):
        a = a.strip()
        c = a[0]
        if FLOAT_RE.match(a):
            return V.const(float(a))
        if INT_RE.match(a):
            return V.const(int(a))
        if SSA_RE.match(a):
            if a.endswith('(D)'):
                base = a[:-3].rsplit('_', 1)[0]
                if base in s.env:
                    return s.env[base]
                return Bad('value of %s is never initialised' % (base or 'a local'))
            v = s.env.get(a)
            if v is None:
                raise Unsupported('SSA name %s has no value' % a)
            return v
        m = PTRC_RE.match(a)
        if m:
            return Ptr('NULL', int(m.group(1)))
        if c == '&':
            m = SUM_RE.match(a)
            if m:
                x, y = self.address(s, m.group(1)), self.operand(s, m.group(2))
                return x if isinstance(x, Bad) else Ptr(x.base, x.off + self.as_int(y)) if isinstance(y, V) else y
            return self.address(s, a[1:])
        if a == 'Inf' or a == ' Inf' or a == '+Inf':
            return V.var('Inf')
        if a == '-Inf':
            return -V.var('Inf')
        if 'Nan' in a:
            return V.var('NaN')
        return self.load(s, a)

    # ---- memory
    def place(self, s, t):
        """(base, offset) of a memory operand."""
        t = t.strip()
        m = re.match(r'^(\w+)->', t)
        if m and SSA_RE.match(m.group(1)):
            p = self.operand(s, m.group(1))
            if isinstance(p, Ptr) and p.base.startswith('opaque'):
                return 'opaque', 0
            raise Unsupported('memory operand ' + t)
        if t[0] == '*':
            p = self.operand(s, t[1:])
            if isinstance(p, Bad):
                return p
            if not isinstance(p, Ptr):
                raise Unsupported('dereference of a non-pointer: ' + t)
            return p.base, p.off
        if t.startswith('MEM'):
            m = MEM_RE.match(t)
            if not m:
                raise Unsupported('memory operand ' + t)
            inner, tail = m.group(2), m.group(3)
            mm = re.match(r'^\((?:[^()]|\([^()]*\))*\)(.*)$', inner)
            e = mm.group(1) if mm else inner
            base = None
            off = 0
            for term in e.split(' + '):
                term = term.strip()
                n = re.match(r'^(-?\d+)B?$', term)
                if n:
                    off += int(n.group(1))
                    continue
                n = re.match(r'^(\S+) \* (\d+)$', term)
                if n:
                    v = self.operand(s, n.group(1))
                    off += self.as_int(v) * int(n.group(2))
                    continue
                v = self.operand(s, term)
                if isinstance(v, Bad):
                    return v
                if isinstance(v, Ptr):
                    base = v.base
                    off += v.off
                else:
                    off += self.as_int(v)
            if off >= 1 << 63:
                off -= 1 << 64
            if base is None:
                raise Unsupported('memory operand ' + t)
            if tail:
                return self.sub(s, base, off, tail, t)
            return base, off
        # declared object with optional field / element path
        m = re.match(r'^((?:D\.\d+|[A-Za-z_]\w*(?:\.\d+(?![\w.]*_M))?))(.*)$', t)
        if not m:
            raise Unsupported('memory operand ' + t)
        name, tail = m.group(1), m.group(2)
        if name not in self.fn.types:
            # longest declared prefix
            for k in sorted(self.fn.types, key=len, reverse=True):
                if t == k or t.startswith(k + '.') or t.startswith(k + '['):
                    name, tail = k, t[len(k):]
                    break
            else:
                m = re.match(r'^([A-Za-z_][\w]*)(.*)$', t)
                name, tail = '::' + m.group(1), m.group(2)
        if not tail:
            return name, 0
        return self.sub(s, name, 0, tail, t)

    def sub(self, s, base, off, tail, t):
        m = re.match(r'^\[([^\]]+)\]$', tail)
        if m and base in self.fn.arrays and len(self.fn.arrays[base]) == 1:
            size = SIZES.get(self.fn.types[base].replace('const ', ''), None)
            if size is None:
                size = 8 if '*' in self.fn.types[base] else None
            if size is None:
                raise Unsupported('element size of ' + t)
            return base, off + size * self.as_int(self.operand(s, m.group(1)))
        if tail == '._M_head_impl' and re.match(r'^MEM\[\(struct _Head_base \*\)', t):
            return base, off    # the only member of _Head_base
        m = re.match(r'^\._M_elems(?:\[([^\[\]]+)\])?$', tail)
        if m and re.match(r'^MEM ?\[\((?:const )?struct array [&*]\)', t):
            # the only member of an array
            return base, off + (self.width(base) * self.as_int(self.operand(s, m.group(1))) if m.group(1) else 0)
        m = VALUES_RE.match(tail)
        if m and '@' not in base:
            # the coefficients are the first member of an expression
            self.canon.add(base)
            return base, off + self.width(base) * self.as_int(self.operand(s, m.group(1)))
        # structured path: a name of its own (constant indices are resolved)
        path = re.sub(r'\[([^\]]+)\]', lambda q: '[%d]' % self.as_int(self.operand(s, q.group(1))), tail)
        return base + '@' + str(off) + path, 0

    def address(self, s, t):
        r = self.place(s, t)
        if isinstance(r, Bad):
            return r
        return Ptr(r[0], r[1])

    def width(self, base):
        """Bytes per element of an operand or object."""
        return self.elem.get(base, self.elem['']) if isinstance(self.elem, dict) else self.elem

    def load(self, s, t):
        r = self.place(s, t)
        if isinstance(r, Bad):
            return r
        return self.load_at(s, r[0], r[1], t)

    def load_at(self, s, base, off, t):
        self.stats['loads'] += 1
        k = (base, off)
        v = s.mem.get(k)
        if v is not None:
            return v
        if self.names is not None and (base.split('@')[0] == 'names' or base.split('@')[0].endswith('basis_vectors_names')):
            return self.name_of(base, off, t)
        if base in self.inputs:
            w = self.width(base)
            if off % w:
                raise Unsupported('misaligned operand read ' + t)
            return V.var('%s%d' % (base, off // w))
        if base in s.zeroed:
            return ZERO
        if base == 'NULL':
            self.diag('null', 'null pointer read: ' + t)
            return Bad('read through a null pointer')
        if base.startswith('opaque') or STREAM_RE.match(base):
            return OPAQUE
        if base.startswith('::') or base.startswith('heap'):
            raise Unsupported('read of global %s' % t)
        root = base.split('@')[0]
        if '@' not in base and root not in s.dead:
            if any(z <= off and (e is None or off < e) for z, e in s.zones.get(base, ())):
                if any(e is None for z, e in s.zones[base]) and any(q[0].startswith(base + '@') for q in s.mem):
                    raise Unsupported('end of a zeroed object: %s' % t)
                return ZERO
            v = self.settle(s, base, off)
            if v is not None:
                return v
        if '@' in base or any(q[0].startswith(base + '@') for q in s.mem):
            if root not in s.dead and any(q[0].split('@')[0] == root for q in s.mem):
                raise Unsupported('mixed access to %s' % t)
        if root in self.canon and root not in s.dead and any(q[0].split('@')[0] == root for q in s.mem):
            raise Unsupported('mixed access to %s' % t)
        if base in self.outputs:
            self.diag('read-out', 'result buffer read before it is written: ' + t)
            return Bad('read of the unwritten output')
        if root in s.dead:
            ty = self.fn.types.get(root, 'object')
            self.diag('dead', 'read of %s (type %s) after its lifetime has ended' % (root, ty))
            return Bad('read of a %s object whose lifetime has ended' % ty)
        ty = self.fn.types.get(root, 'object')
        self.diag('uninit', 'read of %s (type %s) that is never written' % (root, ty))
        return Bad('read of a %s object that was never written' % ty)

    def store(self, s, t, v):
        r = self.place(s, t)
        if isinstance(r, Bad):
            self.diag('dead', 'store through an invalid address: ' + r.why)
            return
        base, off = r
        self.stats['stores'] += 1
        if base in self.inputs:
            self.diag('mutation', 'store to operand memory: ' + t)
        elif base.startswith('::') and not (isinstance(v, V) and v.is_const() and v.const_value() in (0, 1) and base in self.flags):
            self.diag('global', 'store to namespace-scope object ' + base[2:])
        s.mem[(base, off)] = v
        s.dead.discard(base.split('@')[0])
        if base in s.whole:
            cls, end = s.whole[base]
            if off > end and '(struct %s &)' % cls in t:
                s.whole[base] = (cls, off)

    def aggregate(self, s, lhs, rhs):
        """Copy of a whole local object of class type: every cell of it."""
        m = re.match(r'^MEM\[\((?:const )?struct (\w+) [&*]\)&([\w.]+)\]$', rhs)
        name, cls = (m.group(2), m.group(1)) if m else (rhs, None)
        ty = self.fn.types.get(name, '').replace('const ', '')
        if not ty.startswith('struct ') or name in s.dead:
            return False
        zeroed = name in s.zeroed
        if cls and ty != 'struct ' + cls and s.whole.get(name) != (cls, max([k[1] for k in s.mem if k[0] == name], default=-1)):
            # another name of the one class template, unless it is the class of something that holds such objects
            if cls != 'clifford_expression' or not ty.endswith(('_t', '_type')):
                if zeroed or sum(k[0].split('@')[0] == name for k in s.mem) > 1:
                    raise Unsupported('copy of part of an object: %s = %s' % (lhs, rhs))
                return False
        r = self.place(s, lhs)
        cells = [(k, v) for k, v in s.mem.items() if k[0] == name]
        floats = [(k, v) for k, v in s.mem.items() if k[0].startswith(name + '@')]
        if isinstance(r, Bad) or '@' in r[0] or r[0] in self.inputs or r[0].startswith('::') or r[0] == name or any(k[1] < 0 for k, v in cells):
            if len(cells) + len(floats) > 1 or zeroed:
                raise Unsupported('copy of an object: %s = %s' % (lhs, rhs))
            return False
        if not cells and not floats and not zeroed:
            return False
        if zeroed and any(k[0] == r[0] and k[1] >= r[1] or k[0].startswith(r[0] + '@') for k in s.mem):
            raise Unsupported('copy of a zeroed object: %s = %s' % (lhs, rhs))
        fresh = r[1] == 0 and not any(k[0] == r[0] or k[0].startswith(r[0] + '@') for k in s.mem)
        # what is zero without a store to it: up to the next sub-object
        zs = [(a, b if b is not None and b <= r[1] else r[1]) if b is None or b > r[1] > a else (a, b) for a, b in s.zones.get(r[0], ())]
        zs += [(a + r[1], b if b is None else b + r[1]) for a, b in s.zones.get(name, ())]
        if zeroed:
            size = self.sizes.get(ty[7:])
            zs.append((r[1], None if size is None else r[1] + size))
        if zs:
            s.zones[r[0]] = tuple(zs)
        self.stats['stores'] += 1
        self.stats['loads'] += 1
        s.dead.discard(r[0])
        if cells:
            end = r[1] + max(k[1] for k, v in cells)
            for k in [k for k in s.mem if k[0] == r[0] and r[1] <= k[1] <= end]:
                del s.mem[k]
        if cells and fresh:
            s.whole[r[0]] = (ty[7:] if not cls else cls, max(k[1] for k, v in cells))
        for k, v in cells:
            s.mem[(r[0], r[1] + k[1])] = v
        for k, v in floats:
            o, path = re.match(r'^(\d+)(.*)$', k[0][len(name) + 1:]).groups()
            s.mem[('%s@%d%s' % (r[0], r[1] + int(o), path), k[1])] = v
        if name in self.canon:
            self.canon.add(r[0])
        return True

    def settle(self, s, base, off):
        """The members of one sub-object were written under its name, whose offset is not known: where it must be for (base, off) to be written."""
        groups = {}
        for (k, o), v in s.mem.items():
            if k.startswith(base + '@'):
                m = re.match(r'^(.*)\[(\d+)\]$', k)
                if not m or o:
                    return None
                groups.setdefault(m.group(1), {})[int(m.group(2))] = v
        w = self.width(base)
        if any(sorted(cells) != list(range(len(cells))) for cells in groups.values()):
            return None
        if len(groups) > 1:
            # members of the bases of one object, each base the first member of the next: they fill what is left, in order
            holes = [o for o in range(0, max([off] + [k[1] for k in s.mem if k[0] == base]) + w, w) if (base, o) not in s.mem and not any(z <= o and (e is None or o < e) for z, e in s.zones.get(base, ()))]
            order = sorted(groups, key=lambda g: g.count('.'))
            rest = sum(map(len, groups.values())) - len(holes)
            if rest > 0:
                # the last of them ends the object
                end = max(holes + [k[1] for k in s.mem if k[0] == base] + [e - w for z, e in s.zones.get(base, ()) if e is not None])
                holes += [end + w * (i + 1) for i in range(rest)]
            if rest < 0 or off not in holes or len({g.count('.') for g in order}) != len(order):
                return None
            for g in order:
                at, holes = holes[:len(groups[g])], holes[len(groups[g]):]
                if at[-1] - at[0] != w * (len(at) - 1):
                    return None
                for i, v in groups[g].items():
                    del s.mem[('%s[%d]' % (g, i), 0)]
                    s.mem[(base, at[i])] = v
            self.canon.add(base)
            return s.mem[(base, off)]
        if not groups:
            return None
        (g, cells), = groups.items()
        at = [b for b in range(off - w * (len(cells) - 1), off + w, w) if b >= 0 and not any((base, b + w * i) in s.mem or any(z <= b + w * i and (e is None or b + w * i < e) for z, e in s.zones.get(base, ())) for i in cells)]
        if len(at) != 1:
            return None
        for i, v in cells.items():
            del s.mem[('%s[%d]' % (g, i), 0)]
            s.mem[(base, at[0] + w * i)] = v
        self.canon.add(base)
        return s.mem[(base, off)]

    # ---- values
    def as_int(self, v):
        if isinstance(v, V) and v.is_const():
            c = v.const_value()
            if isinstance(c, int):
                return c
        raise Unsupported('address or index is not a constant: %r' % (v,))

    def decide(self, s, d, rel):
        signs = s.facts.signs(d)
        T = RELS[rel]
        if signs <= T:
            return True
        if not (signs & T):
            return False
        raise Fork(d, rel)

    def untrunc(self, s, d, rel):
        """A comparison of the integer part of x with an integer, as a comparison of x."""
        ats = [(m, c) for m, c in d.t.items() if m]
        k = d.t.get((), 0)
        if len(ats) != 1 or ats[0][1] not in (1, -1) or k != int(k):
            return None
        m, c = ats[0]
        if len(m) != 1 or m[0][1] != 1:
            return None
        key = ring.atom_key(m[0][0])
        if key[0] != 'f' or key[1] != 'trunc':
            return None
        x = V(dict(key[2]))
        if c < 0:
            d, k = -d, -k
            rel = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}.get(rel)
        k = -int(k)                       # trunc(x) REL k
        ge = lambda k: self.decide(s, x - V.const(k), '>=') if k >= 1 else self.decide(s, x - V.const(k - 1), '>')
        if rel == '>=':
            return ge(k)
        if rel == '>':
            return ge(k + 1)
        if rel == '<':
            return not ge(k)
        if rel == '<=':
            return not ge(k + 1)
        if rel in ('==', '!='):
            return (ge(k) and not ge(k + 1)) == (rel == '==')
        return None

    def compare(self, s, x, rel, y):
        if isinstance(x, Bad) or isinstance(y, Bad):
            b = x if isinstance(x, Bad) else y
            # both outcomes are possible: explore them with a fresh unknown
            return self.decide(s, V.fn('undefined', V.var(b.why)), rel)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.base == y.base:
                    d = x.off - y.off
                    return ((d > 0) - (d < 0)) in RELS[rel]
                if rel == '==':
                    return False
                if rel == '!=':
                    return True
            if 'opaque' in (getattr(x, 'base', ''), getattr(y, 'base', '')):
                return self.decide(s, V.fn('opaque', V.const(s.block), V.const(s.idx)), rel)
            raise Unsupported('pointer comparison')
        d = x - y
        if rel in ('==', '!=') and len(d.t) == 1:
            # a bitwise or is zero when both its operands are
            (m, c), = d.t.items()
            if len(m) == 1:
                k = ring.atom_key(m[0][0])
                if k[0] == 'f' and k[1] == 'int|':
                    return any(self.compare(s, V(dict(q)), '!=', ZERO) for q in k[2:]) == (rel == '!=')
        if len(d.t) <= 2:
            r = self.untrunc(s, d, rel)
            if r is not None:
                return r
        return self.decide(s, d, rel)

    def truth(self, s, v):
        return self.compare(s, v, '!=', ZERO)

    def cond(self, s, t):
        t = t.strip()
        m = BIN_RE.match(t)
        if m:
            op = m.group(2)
            if op in RELS:
                return self.compare(s, self.operand(s, m.group(1)), op, self.operand(s, m.group(3)))
            if op == 'ord':
                return True
            if op == 'unord':
                return False
        return self.truth(s, self.rvalue(s, t, 'bool'))

    def rvalue(self, s, t, ty):
        m = BIN_RE.match(t)
        if m:
            x, op, y = m.groups()
            if op in RELS or op in ('ord', 'unord'):
                return ONE if self.cond(s, t) else ZERO
            return self.binary(s, self.operand(s, x), op, self.operand(s, y), ty)
        if ' ? ' in t and not t.startswith('"'):
            c, rest = t.split(' ? ', 1)
            a, b = rest.split(' : ', 1)
            return self.operand(s, a) if self.cond(s, c) else self.operand(s, b)
        m = re.match(r'^(ABS_EXPR|MAX_EXPR|MIN_EXPR|ABSU_EXPR|VIEW_CONVERT_EXPR|BIT_FIELD_REF|REALPART_EXPR|IMAGPART_EXPR)\s*<(.*)>$', t)
        if m:
            args = [self.operand(s, a) for a in split_args(m.group(2))]
            for a in args:
                if isinstance(a, Bad):
                    return a
            if m.group(1) in ('ABS_EXPR', 'ABSU_EXPR'):
                return self.fabs(s, args[0])
            if m.group(1) == 'MAX_EXPR':
                return args[0] if self.compare(s, args[0], '>=', args[1]) else args[1]
            if m.group(1) == 'MIN_EXPR':
                return args[0] if self.compare(s, args[0], '<=', args[1]) else args[1]
            raise Unsupported(t)
        if t[0] in '-~!' and SSA_RE.match(t[1:]):
            v = self.operand(s, t[1:])
            if isinstance(v, Bad):
                return v
            if t[0] == '-':
                r = -v
                return self.wrapv(r, ty)
            if t[0] == '!':
                return ZERO if self.truth(s, v) else ONE
            if ty in ('bool', '_Bool'):
                return ZERO if self.truth(s, v) else ONE
            return self.wrapv(V.const(~self.as_int(v)), ty)
        m = CAST_RE.match(t)
        if m and not t.startswith('(*'):
            v = self.operand(s, m.group(2))
            return self.cast(v, m.group(1), ty, self.fn.types.get(m.group(2), ''))
        m = re.match(r'^(?:\[obj_type_ref\] )?OBJ_TYPE_REF\((\w+);', t)
        if m and self.operand(s, m.group(1)) is OPAQUE:
            return OPAQUE
        m = CALL_RE.match(t)
        if m and not t.startswith('MEM'):
            return self.call(s, m.group(1), split_args(m.group(2)), ty, t)
        return self.operand(s, t)

    def fabs(self, s, v):
        sg = s.facts.sign_of(v)
        if sg is not None:
            return v if sg >= 0 else -v
        return ring.vabs(v)

    def wrapv(self, v, ty):
        if isinstance(v, V) and v.is_const() and is_int_type(ty):
            c = v.const_value()
            if isinstance(c, int):
                return V.const(wrap(c, ty))
        return v

    def cast(self, v, to, ty, frm):
        if isinstance(v, (Bad, Ptr)):
            return v
        to = to.strip()
        if is_int_type(to):
            if v.is_const():
                c = v.const_value()
                if not isinstance(c, int):
                    c = int(c)
                return V.const(wrap(c, to))
            if not is_int_type(frm):
                return V.fn('trunc', v)
            if self.strict == 'exact' and INT_BITS.get(frm.replace('const ', '').strip(), (0, 0))[0] > INT_BITS[to.replace('const ', '').strip()][0] >= 8:
                return V.fn('narrowed', v)
            return v
        if is_int_type(frm):
            if self.strict == 'exact' and to in FLOAT_RANK and not v.is_const():
                return V.fn('inexact', v)
        elif self.strict and to in FLOAT_RANK and FLOAT_RANK.get(frm.replace('const ', '').strip(), 99) > FLOAT_RANK[to] and not v.is_const():
            return V.fn('narrowed', v)
        return v

    def binary(self, s, x, op, y, ty):
        if isinstance(x, Bad):
            return x
        if isinstance(y, Bad):
            return y
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if 'opaque' in (getattr(x, 'base', ''), getattr(y, 'base', '')):
                return OPAQUE
            if op == '+':
                if isinstance(x, Ptr):
                    o = self.as_int(y)
                    return Ptr(x.base, x.off + (o - (1 << 64) if o >= 1 << 63 else o))
                return Ptr(y.base, y.off + self.as_int(x))
            if op == '-' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base:
                return V.const(x.off - y.off)
            if op == '-' and isinstance(x, Ptr):
                return Ptr(x.base, x.off - self.as_int(y))
            raise Unsupported('pointer arithmetic %s' % op)
        if op == '+':
            return self.wrapv(x + y, ty)
        if op == '-':
            return self.wrapv(x - y, ty)
        if op == '*':
            return self.wrapv(x * y, ty)
        integral = is_int_type(ty)
        if op == '/' and not integral:
            if y.is_const() and y.const_value() == 0:
                return Bad('division by zero')
            return x / y
        if x.is_const() and y.is_const() and isinstance(x.const_value(), int) and isinstance(y.const_value(), int):
            a, b = x.const_value(), y.const_value()
            if op in ('/', '%', 'exact_div', '[/]'):
                if b == 0:
                    return Bad('division by zero')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return V.const(wrap(q if op != '%' else a - q * b, ty))
            if op == '&':
                r = a & b
            elif op == '|':
                r = a | b
            elif op == '^':
                r = a ^ b
            elif op == '<<':
                r = a << b if 0 <= b < 4096 else 0
            elif op == '>>':
                r = a >> b
            else:
                raise Unsupported('operator ' + op)
            return V.const(wrap(r, ty))
        if ty in ('bool', '_Bool') and op in ('&', '|', '^'):
            p = self.truth(s, x)
            if op == '&' and not p:
                return ZERO
            if op == '|' and p:
                return ONE
            q = self.truth(s, y)
            return ONE if (p and q if op == '&' else (p or q) if op == '|' else p != q) else ZERO
        if op == '/' and integral:
            return V.fn('idiv', x, y)
        return V.fn('int' + op, x, y)

    # ---- calls
    def call(self, s, name, args, ty, t):
        n = name
        if n.startswith('std::'):
            n = n[5:]
        if n.startswith('__builtin_'):
            n = n[10:]
        if n.startswith('.'):
            n = n[1:].lower()
        if n in ('popcount', 'popcountl', 'popcountll'):
            v = self.operand(s, args[0])
            return V.const(bin(self.as_int(v) & ((1 << 64) - 1)).count('1'))
        base = n[:-1] if n[-1:] in 'fl' and n[:-1] in UNARY_FN | {'pow', 'fabs', 'atan2', 'fmod', 'hypot', 'copysign'} else n
        if base in UNARY_FN or base in ('fabs', 'pow', 'fma', 'fms', 'fnma', 'fnms', 'fmax', 'fmin', 'atan2', 'fmod', 'hypot', 'copysign'):
            vs = [self.operand(s, a) for a in args]
            for v in vs:
                if isinstance(v, Bad):
                    return v
            if base == 'fabs':
                return self.fabs(s, vs[0])
            try:
                return apply_fn(base, vs, self.fabs, s)
            except ZeroDivisionError:
                return Bad('division by zero')
        if n in ('memset',):
            p, val, cnt = [self.operand(s, a) for a in args]
            if isinstance(p, Ptr) and val.is_const() and val.const_value() == 0:
                for o in range(0, self.as_int(cnt), self.width(p.base)):
                    self.store_ptr(s, p.base, p.off + o, ZERO)
                return p
            raise Unsupported(t)
        if n in ('memcpy', 'memmove'):
            p, q, cnt = [self.operand(s, a) for a in args]
            w = self.width(q.base)
            vals = [self.load_at(s, q.base, q.off + o, t) for o in range(0, self.as_int(cnt), w)]
            for i, v in enumerate(vals):
                self.store_ptr(s, p.base, p.off + i * w, v)
            return p
        if n == 'expect':
            return self.operand(s, args[0])
        if n == '__cxa_allocate_exception':
            s.heap += 1
            return Ptr('exc%d' % s.heap, 0)
        if self.names is not None and args:
            r = self.insertion(s, n, args, t)
            if r is not None:
                return r
        if EFFECT_FREE.match(n):
            return OPAQUE
        raise Unsupported('call of %s' % name)

    def insertion(self, s, n, args, t):
        """Insertion of text or of a value into the stream os."""
        if not re.match(r'^(?:__ostream_insert<|basic_ostream<|ostream::|operator<<)', n):
            return None
        os = self.operand(s, args[0])
        if not (isinstance(os, Ptr) and os.base == 'os'):
            return None
        m = re.match(r'^(?:&?)"(.*)"(?:\[0\])?$', args[1])
        if m and n.startswith(('__ostream_insert<', 'operator<<')):
            x = m.group(1)
            if len(args) > 2:
                x = x[:self.as_int(self.operand(s, args[2]))]
            s.events.append(('text', x))
        elif n.startswith('__ostream_insert<') and len(args) == 3:
            p = self.operand(s, args[1])
            k = self.operand(s, args[2])
            if isinstance(p, Ptr) and p.base.startswith('text of name ') and p.off == 0:
                i = int(p.base[13:])
                if not (isinstance(k, V) and k.key() == V.var('length of name %d' % i).key()):
                    raise Unsupported('part of a name: ' + t)
                if i >= 100 and i - 100 not in self.name_text:
                    raise Unsupported('initial value of the name of basis vector %d' % (i - 99))
                s.events.append(('name', i) if i < 100 else ('text', self.name_text[i - 100]))
            elif isinstance(p, Ptr):
                s.events.append(('text', ''.join(chr(self.as_int(self.load_at(s, p.base, p.off + o, t))) for o in range(self.as_int(k)))))
            else:
                raise Unsupported(t)
        elif re.match(r'^(?:basic_ostream<char>|ostream)::(?:_M_insert<[^<>]*>|operator<<)$', n) and len(args) == 2:
            v = self.operand(s, args[1])
            if not isinstance(v, V):
                raise Unsupported(t)
            s.events.append(('value', v))
        elif re.match(r'^(?:basic_ostream<char>|ostream)::put$', n):
            s.events.append(('text', chr(self.as_int(self.operand(s, args[1])))))
        else:
            raise Unsupported('output: ' + t)
        return os

    def name_of(self, base, off, t):
        """Field of an element of an array of strings."""
        root, _, path = base.partition('@')
        m = re.match(r'^(\d+)((?:\[\d+\]|\.\w+)*)$', path) if path else None
        o = off + (int(m.group(1)) if m else 0)
        tail = m.group(2) if m else ''
        i = sum(int(k) for k in re.findall(r'\[(\d+)\]', tail)) + o // 32
        field = '_M_p' if tail.endswith('_M_p') else '_M_string_length' if tail.endswith('_M_string_length') else {0: '_M_p', 8: '_M_string_length'}.get(o % 32)
        if field is None:
            raise Unsupported('read of ' + t)
        n = len(self.names)
        if root != 'names':
            i += 100
        if not 0 <= i % 100 < n:
            self.diag('range', 'read of the name of basis vector %d of %d' % (i % 100 + 1, n))
        return Ptr('text of name %d' % i, 0) if field == '_M_p' else V.var('length of name %d' % i)

    def store_ptr(self, s, base, off, v):
        self.stats['stores'] += 1
        if base in self.inputs:
            self.diag('mutation', 'store to operand memory %s+%d' % (base, off))
        s.mem[(base, off)] = v

    # ---- statements
    def stmt(self, s, b, t):
        if t.startswith('if ('):
            c = t[4:-1]
            if not t.endswith(')'):
                raise Unsupported(t)
            r = self.cond(s, c)
            i = s.idx
            g1, g2 = b.stmts[i + 1], b.stmts[i + 3]
            return 'goto', int(re.match(r'goto <bb (\d+)>', g1 if r else g2).group(1))
        if t.startswith('goto <bb '):
            return 'goto', int(re.match(r'goto <bb (\d+)>', t).group(1))
        if t.startswith('return'):
            v = t[6:].rstrip(';').strip()
            return 'ret', self.operand(s, v) if v else None
        if t.startswith('<L') or t.startswith('<D.') or t.startswith('GIMPLE_NOP') or t.startswith('//') or t.startswith('# DEBUG') or re.match(r'^\w+:$', t) or re.match(r'^<?[\w\.]+>?(?: \[.*\])?:$', t):
            return None
        if t.startswith('switch ('):
            return self.switch(s, t)
        if t.endswith('{CLOBBER};') or t.endswith('{CLOBBER(eol)};'):
            r = self.place(s, t.split(' ={v} ')[0].strip()) if ' ={v} ' in t else None
            if r and not isinstance(r, Bad):
                base, off = r
                if off == 0 and not t.startswith('MEM') and not t.startswith('*'):
                    root = base
                    for k in [k for k in s.mem if k[0] == root or k[0].startswith(root + '@')]:
                        del s.mem[k]
                    s.zeroed.discard(root)
                    s.zones.pop(root, None)
                    s.dead.add(root)
            return None
        m = re.match(r'^(.*?) = (.*);(?: \[[^\]]*\])*$', t)
        if m and not t.startswith('__cxa'):
            lhs, rhs = m.group(1), m.group(2)
            rhs = re.sub(r'(?: \[(?:tail call|return slot optimization|must tail call)\])+$', '', rhs)
            if SSA_RE.match(lhs):
                if self.fn.types.get(lhs, '') in ('bool', '_Bool') and GLOBAL_RE.match(rhs) and rhs not in self.fn.types:
                    # a flag with static storage: either value is possible, so the outputs must not depend on it
                    self.flags.add('::' + rhs)
                    v = s.mem.get(('::' + rhs, 0))
                    s.env[lhs] = V.var('::' + rhs) if v is None else v
                    return None
                s.env[lhs] = self.rvalue(s, rhs, self.fn.types.get(lhs, ''))
                return None
            if rhs == '{}':
                r = self.place(s, lhs)
                base, off = r
                mm = re.match(r'^MEM <[^\[\]]*\[(\d+)\]>', lhs)
                if lhs in self.fn.types:
                    for k in [k for k in s.mem if k[0] == base]:
                        del s.mem[k]
                    s.zeroed.add(base)
                    return None
                if mm:
                    mult = SIZES.get(lhs.split('[')[0].replace('MEM <', '').replace('const ', '').strip(), 8)
                    for o in range(0, int(mm.group(1)) * mult, self.width(base)):
                        self.store_ptr(s, base, off + o, ZERO)
                    return None
                raise Unsupported(t)
            if self.aggregate(s, lhs, rhs):
                return None
            self.store(s, lhs, self.rvalue(s, rhs, 'mem'))
            return None
        m = re.match(r'^([A-Za-z_\.][\w:\.<>~ ,\*&]*?) \((.*)\);(?: \[[^\]]*\])*$', t)
        if m:
            return self.call_stmt(s, m.group(1), split_args(m.group(2)), t)
        raise Unsupported('statement ' + t)

    def call_stmt(self, s, name, args, t):
        if name == '__cxa_throw':
            m = re.search(r'&_ZTI([\w]+)', t)
            return 'throw', m.group(1) if m else '?'
        if name in ('__builtin_unreachable',):
            return 'drop', None
        if name in ('std::terminate', '__builtin_abort', 'abort', 'terminate', '__builtin_trap'):
            return 'terminate', name
        self.call(s, name, args, '', t)
        return None

    def switch(self, s, t):
        m = re.match(r'^switch \((.*?)\) <(.*)>$', t)
        v = self.operand(s, m.group(1))
        k = self.as_int(v)
        default = None
        for c in split_args(m.group(2)):
            mm = re.match(r'^(default|case (-?\d+)(?: \.\.\. (-?\d+))?): <(L\d+)>', c)
            if not mm:
                raise Unsupported(t)
            if mm.group(1) == 'default':
                default = mm.group(4)
            else:
                lo = int(mm.group(2))
                hi = int(mm.group(3)) if mm.group(3) else lo
                if lo <= k <= hi:
                    return 'goto', self.label(mm.group(4))
        return 'goto', self.label(default)

    def label(self, l):
        if self.label_blocks is None:
            self.label_blocks = {}
            for n, b in self.fn.blocks.items():
                for t in b.stmts:
                    mm = re.match(r'^<(L\d+)>', t)
                    if mm:
                        self.label_blocks[mm.group(1)] = n
        return self.label_blocks[l]


def apply_fn(base, vs, fabs=None, s=None):
    """Normal form of a math function applied to normal forms."""
    x = vs[0]
    if base == 'sqrt':
        return x.pow(Fr(1, 2))
    if base == 'cbrt':
        if x.is_const():
            c = float(x.const_value())
            return V.const(math.copysign(abs(c) ** (1 / 3), c))
        n, flip = primitive(x)
        c = ring._content(x)
        return V.fn('cbrt', n).scale(flip * abs(float(c)) ** (1 / 3) if c != 1 else flip)
    if base == 'pow':
        if vs[1].is_const():
            c = vs[1].const_value()
            f = Fr(c)
            if f.denominator <= 2:
                return x.pow(f)
        return V.fn('pow', *vs)
    if base == 'fma':
        return vs[0] * vs[1] + vs[2]
    if base == 'fms':
        return vs[0] * vs[1] - vs[2]
    if base == 'fnma':
        return vs[2] - vs[0] * vs[1]
    if base == 'fnms':
        return -(vs[0] * vs[1]) - vs[2]
    if base in ('sin', 'tan', 'sinh', 'tanh', 'asin', 'atan', 'asinh', 'atanh') and not x.is_const():
        # odd functions
        n, flip = primitive(x)
        c = ring._content(x)
        r = V.fn(base, n.scale(c))
        return r if flip > 0 else -r
    if base in ('cos', 'cosh') and not x.is_const():
        n, flip = primitive(x)
        c = ring._content(x)
        return V.fn(base, n.scale(c))
    return V.fn(base, *vs)
