"""Abstract values of the analysis: exact linear forms over value-numbered atoms for machine
integers, canonical (rational-exponent-free) polynomials over value-numbered atoms for floats,
and the conditions between them.  Everything is hash-consed: equal means identical."""
from fractions import Fraction
from math import gcd

# ------------------------------------------------------------------ integer atoms / linear forms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'bits')
    tab = {}
    def __repr__(self):
        return atom_str(self)

def atom(kind, args, lo, hi, bits=0):
    k = (kind, args, lo, hi, bits) if kind == 'sym' else (kind, args)
    a = Atom.tab.get(k)
    if a is None:
        a = Atom()
        a.id = len(Atom.tab)
        a.kind = kind; a.args = args; a.lo = lo; a.hi = hi; a.bits = bits
        Atom.tab[k] = a
    return a

def key_str(k):
    if isinstance(k, tuple):
        return '.'.join(key_str(x) for x in k)
    return str(k)

def atom_str(a):
    if a.kind == 'sym':
        return key_str(a.args)
    return '%s(%s)' % (a.kind, ', '.join(str(x) for x in a.args))

class Lin:
    __slots__ = ('c', 't', 'h')
    def __init__(self, c, t):
        self.c = c; self.t = t; self.h = hash((c, tuple((a.id, k) for a, k in t)))
    def __hash__(self): return self.h
    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self == o
    def is_const(self): return not self.t
    def single(self):
        """the atom, when this is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None
    def __repr__(self):
        if not self.t: return str(self.c)
        s = ' + '.join((str(a) if k == 1 else '%d*%s' % (k, a)) for a, k in self.t)
        if self.c: s += ' %s %d' % ('+' if self.c > 0 else '-', abs(self.c))
        return s
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t)
        return mk(self.c + o.c, self.t + o.t)
    def __radd__(self, o): return self + o
    def __neg__(self): return Lin(-self.c, tuple((a, -k) for a, k in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def scale(self, n):
        if n == 0: return ZERO
        if n == 1: return self
        return Lin(self.c * n, tuple((a, k * n) for a, k in self.t))
    def lo(self):
        v = self.c
        for a, k in self.t:
            b = a.lo if k > 0 else a.hi
            if b is None: return None
            v += k * b
        return v
    def hi(self):
        v = self.c
        for a, k in self.t:
            b = a.hi if k > 0 else a.lo
            if b is None: return None
            v += k * b
        return v

def mk(c, terms):
    d = {}
    for a, k in terms:
        d[a] = d.get(a, 0) + k
    t = [(a, k) for a, k in d.items() if k]
    if len(t) > 1:
        r = _collapse(c, t)
        if r is not None: return r
        t.sort(key=lambda x: x[0].id)
    return Lin(c, tuple(t))

def is_byte(a): return a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi <= 255

def _collapse(c, t):
    """Sum of bytes at distinct powers of 256: the value-numbered word they make up."""
    if c != 0: return None
    pos = {}
    todo = list(t)
    while todo:
        a, k = todo.pop()
        if k <= 0: return None
        if a.kind == 'word':
            for i, b in enumerate(a.args):
                if b.is_const():
                    if b.c: return None
                    continue
                todo.append((b.single(), k * 256 ** i))
            continue
        if not is_byte(a): return None
        p = 0; kk = k
        while kk % 256 == 0 and kk: kk //= 256; p += 1
        if kk != 1 or p in pos: return None
        pos[p] = a
    n = max(pos) + 1
    for w in (2, 4, 8):
        if n <= w and len(pos) == n == w:
            return word([lin(pos[i]) for i in range(w)])
    return None

def lin(a): return Lin(0, ((a, 1),))
def K(n): return Lin(n, ())
ZERO = K(0); ONE = K(1)

def sym(key, lo, hi, bits=0): return lin(atom('sym', key, lo, hi, bits))

def word(bs):
    """little-endian list of byte Lins -> Lin"""
    n = len(bs)
    if all(b.is_const() for b in bs):
        return K(sum(b.c << (8 * i) for i, b in enumerate(bs)))
    # zero extension
    m = n
    while m > 1 and bs[m - 1] == ZERO: m -= 1
    if m == 1: return bs[0]
    # all the bytes of one value
    a0 = bs[0].single()
    if a0 is not None and a0.kind == 'byte' and a0.args[1] == 0:
        x = a0.args[0]
        nb = nbytes(x)
        if nb is not None and nb <= m and all(bs[i] == byte_of(x, i) for i in range(nb)) and all(b == ZERO for b in bs[nb:]):
            if x.lo() is not None and x.lo() >= 0: return x
            if x.lo() is not None and x.lo() >= -(1 << (8 * nb - 1)): return lin(atom('uns', (x, 8 * nb), 0, (1 << 8 * nb) - 1, 8 * nb))
    if m not in (1, 2, 4, 8):
        m2 = 4 if m == 3 else 8
        bs = list(bs[:m]) + [ZERO] * (m2 - m)
    else:
        bs = bs[:m]
    # mixed non-single bytes: make them atoms
    bb = []
    for b in bs:
        if not b.is_const() and b.single() is None:
            b = lin(atom('val', (b,), 0, 255, 8))
        bb.append(b)
    if any(b.is_const() for b in bb) and not all(b.is_const() for b in bb):
        # keep constant bytes inside the word atom
        pass
    return lin(atom('word', tuple(bb), 0, 256 ** len(bb) - 1, 8 * len(bb)))

def nbytes(x):
    """number of bytes of the declared width of a Lin that is a single atom"""
    a = x.single() if isinstance(x, Lin) else x
    if a is None or not a.bits: return None
    return max(1, a.bits // 8)

def byte_of(x, i):
    if x.is_const(): return K((x.c >> (8 * i)) & 255)
    a = x.single()
    if a is not None:
        if a.kind == 'word':
            return a.args[i] if i < len(a.args) else ZERO
        if a.kind == 'uns':
            return byte_of(a.args[0], i) if 8 * i < a.args[1] else ZERO
        if is_byte(a):
            return x if i == 0 else ZERO
        if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < 256 ** i:
            return ZERO
        return lin(atom('byte', (x, i), 0, 255, 8))
    h = x.hi()
    if x.lo() is not None and x.lo() >= 0 and h is not None and h < 256 ** i: return ZERO
    r = _bytes_sum(x)
    if r is not None: return r[i] if i < len(r) else ZERO
    m = 256 ** (i + 1)
    if not 0 <= x.c < m: return byte_of(Lin(x.c % m, x.t), i)      # only the value modulo 256^(i+1) matters
    return lin(atom('byte', (x, i), 0, 255, 8))

def _bytes_sum(x):
    """x as a sum of byte atoms at distinct byte positions"""
    if x.c < 0: return None
    pos = {}
    todo = list(x.t)
    while todo:
        a, k = todo.pop()
        if k <= 0: return None
        if a.kind == 'word':
            for i, b in enumerate(a.args):
                if b.is_const():
                    if b.c: return None
                    continue
                todo.append((b.single(), k * 256 ** i))
            continue
        if not is_byte(a): return None
        p = 0
        while k % 256 == 0: k //= 256; p += 1
        if k != 1 or p in pos: return None
        pos[p] = lin(a)
    c = x.c; i = 0
    while c:
        if c & 255:
            if i in pos: return None
            pos[i] = K(c & 255)
        c >>= 8; i += 1
    n = max(pos) + 1 if pos else 1
    return [pos.get(i, ZERO) for i in range(n)]

def to_bytes(x, n): return [byte_of(x, i) for i in range(n)]

def div_floor(x, c):
    """floor(x / c) for c > 0 (x >= 0 or floor semantics)"""
    if x.is_const(): return K(x.c // c)
    if c == 1: return x
    if all(k % c == 0 for _, k in x.t): return Lin(x.c // c, tuple((a, k // c) for a, k in x.t))
    # c*q + r with r in range
    q = [(a, k // c) for a, k in x.t if k % c == 0]
    r = Lin(x.c % c, tuple((a, k) for a, k in x.t if k % c))
    if q and r.lo() is not None and r.hi() is not None and r.lo() >= 0 and r.hi() < c:
        return mk((x.c - x.c % c) // c, q)
    l, h = x.lo(), x.hi()
    if l is not None and h is not None and l // c == h // c: return K(l // c)
    b = c.bit_length() - 1
    if c == 1 << b and b % 8 == 0 and l is not None and l >= 0:
        bs = None
        a = x.single()
        if a is not None and a.kind == 'word': bs = list(a.args)
        elif a is None: bs = _bytes_sum(x)
        if bs is not None:
            k = b // 8
            return word(bs[k:]) if len(bs) > k else ZERO
    return lin(atom('div', (x, c), None if l is None else l // c, None if h is None else h // c))

# ------------------------------------------------------------------ float atoms / polynomials
class FAtom:
    __slots__ = ('id', 'kind', 'args')
    tab = {}
    def __repr__(self):
        if self.kind == 'sym': return key_str(self.args)
        return '%s(%s)' % (self.kind, ', '.join(map(str, self.args)))

def fatom(kind, args):
    k = (kind, args)
    a = FAtom.tab.get(k)
    if a is None:
        a = FAtom(); a.id = len(FAtom.tab); a.kind = kind; a.args = args
        FAtom.tab[k] = a
    return a

class Poly:
    __slots__ = ('t', 'h')
    def __init__(self, t):
        self.t = t          # tuple of (mono, Fraction), mono = tuple of (FAtom, exp)
        self.h = hash(tuple((tuple((a.id, e) for a, e in m), c) for m, c in t))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Poly) and self.h == o.h and self.t == o.t
    def __ne__(self, o): return not self == o
    def const(self):
        if not self.t: return Fraction(0)
        if len(self.t) == 1 and self.t[0][0] == (): return self.t[0][1]
        return None
    def __repr__(self):
        if not self.t: return '0'
        o = []
        for m, c in self.t:
            s = '*'.join(('%s' % a if e == 1 else '%s^%s' % (a, e)) for a, e in m)
            cs = str(c.numerator if c.denominator == 1 else (float(c) if abs(c) > Fraction(1, 10**9) else c))
            o.append(cs if not m else (s if c == 1 else cs + '*' + s))
        return '(' + ' + '.join(o) + ')' if len(o) > 1 else o[0]
    def __add__(self, o): return pmk(list(self.t) + list(o.t))
    def __neg__(self): return Poly(tuple((m, -c) for m, c in self.t))
    def __sub__(self, o): return self + (-o)
    def scale(self, f): return Poly(tuple((m, c * f) for m, c in self.t)) if f else PZERO
    def __mul__(self, o):
        r = []
        a, b = self, o
        for x, y in ((a, b), (b, a)):
            # cancel P * inv(P)
            if len(y.t) == 1 and len(x.t) > 1:
                m, c = y.t[0]
                for i, (f, e) in enumerate(m):
                    if f.kind == 'inv' and e > 0:
                        lead = x.t[0][1]
                        if x.scale(1 / lead) == f.args[0]:
                            m2 = m[:i] + (((f, e - 1),) if e > 1 else ()) + m[i + 1:]
                            return Poly(((m2, c * lead),))
        for m1, c1 in a.t:
            for m2, c2 in b.t:
                r.append((mmul(m1, m2), c1 * c2))
        return pmk(r)

def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].id))

def mkey(m): return (len(m), tuple((a.id, e) for a, e in m))

def pmk(l):
    d = {}
    for m, c in l:
        d[m] = d.get(m, 0) + c
    return Poly(tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda x: mkey(x[0]), reverse=True)))

PZERO = Poly(())
def P(n): return Poly((((), Fraction(n)),)) if n else PZERO
PONE = P(1)
def pa(kind, args): return Poly(((((fatom(kind, args), 1),), Fraction(1)),))
def psym(key): return pa('sym', key)

def pinv(p):
    c = p.const()
    if c is not None:
        if c == 0: return pa('app', ('1/0',))
        return P(1 / c)
    if len(p.t) == 1:
        m, c = p.t[0]
        return Poly(((tuple((a, -e) for a, e in m), 1 / c),))
    lead = p.t[0][1]
    return pa('inv', (p.scale(1 / lead),)).scale(1 / lead)

def ppow(b, e):
    ec, bc = e.const(), b.const()
    if ec is not None:
        if ec == 0: return PONE
        if ec == 1: return b
        if ec == -1: return pinv(b)
        if ec.denominator == 1 and 2 <= ec <= 4:
            r = b
            for _ in range(int(ec) - 1): r = r * b
            return r
    if bc is not None and bc == 1: return PONE
    return pa('pow', (b, e))

def pexp(x): return PONE if x == PZERO else pa('exp', (x,))
def pln(x):
    if x == PONE: return PZERO
    if len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
        a, e = x.t[0][0][0]
        if a.kind == 'exp' and e == 1: return a.args[0]
    return pa('ln', (x,))
LN10 = pa('ln', (P(10),))
LN2 = pa('ln', (P(2),))
def pabs(x):
    c = x.const()
    if c is not None: return P(abs(c))
    if x.t[0][1] < 0: x = -x
    return pa('abs', (x,))

def i2f(x):
    r = P(x.c)
    for a, k in x.t:
        if a.kind == 'div' and a.args[1] & (a.args[1] - 1) == 0 and a.args[1].bit_length() % 8 == 1:
            y = a.args[0].single()
            if y is not None and y.kind == 'sgn':
                # floor(y / 256^n) = (y - (low n bytes of y)) / 256^n
                low = word([byte_of(y.args[0], i) for i in range(a.args[1].bit_length() // 8)])
                r = r + (i2f(a.args[0]) - i2f(low)).scale(Fraction(k, a.args[1]))
                continue
        r = r + pa('i2f', (a,)).scale(k)
    return r

def poly_as_lin(p):
    """(Lin, positive denominator) when p is linear over converted integers"""
    den = 1
    for m, c in p.t:
        if m == (): pass
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'i2f': pass
        else: return None
        den = den * c.denominator // gcd(den, c.denominator)
    c0 = 0; ts = []
    for m, c in p.t:
        n = int(c * den)
        if m == (): c0 = n
        else: ts.append((m[0][0].args[0], n))
    return mk(c0, ts), den

# ------------------------------------------------------------------ conditions
# True/False, ('ge',Lin), ('eq',Lin), ('ne',Lin), ('f',Poly,signs), ('b',key), ('nb',key),
# ('and',a,b), ('or',a,b)
def sgn(n): return (n > 0) - (n < 0)

def c_ge(x):
    if x.lo() is not None and x.lo() >= 0: return True
    if x.hi() is not None and x.hi() < 0: return False
    return ('ge', norm_ge(x))

def norm_ge(x):
    g = 0
    for _, k in x.t: g = gcd(g, k)
    if g > 1: return Lin(x.c // g, tuple((a, k // g) for a, k in x.t))
    return x

def norm_eq(x):
    g = 0
    for _, k in x.t: g = gcd(g, k)
    if g > 1:
        if x.c % g: return None
        x = Lin(x.c // g, tuple((a, k // g) for a, k in x.t))
    if x.t and x.t[0][1] < 0: x = -x
    return x

def c_eq(x):
    if x.is_const(): return x.c == 0
    l, h = x.lo(), x.hi()
    if (l is not None and l > 0) or (h is not None and h < 0): return False
    x = norm_eq(x)
    if x is None: return False
    # words: equal iff all bytes equal is left to the store
    return ('eq', x)

NEG = frozenset([-1]); ZER = frozenset([0]); POS = frozenset([1])
ALLS = frozenset([-1, 0, 1])

def c_f(p, signs):
    signs = frozenset(signs)
    if not signs: return False
    if signs == ALLS: return True
    c = p.const()
    if c is not None: return sgn(c) in signs
    l = poly_as_lin(p)
    if l is not None:
        x = l[0]
        if signs == frozenset([0, 1]): return c_ge(x)
        if signs == POS: return c_ge(x - 1)
        if signs == frozenset([-1, 0]): return c_ge(-x)
        if signs == NEG: return c_ge(-x - 1)
        if signs == ZER: return c_eq(x)
        return c_not(c_eq(x))
    lead = p.t[0][1]
    p = p.scale(1 / lead)
    if lead < 0: signs = frozenset(-s for s in signs)
    return ('f', p, signs)

def c_not(c):
    if c is True: return False
    if c is False: return True
    t = c[0]
    if t == 'ge': return c_ge(-c[1] - 1)
    if t == 'eq': return ('ne', c[1])
    if t == 'ne': return ('eq', c[1])
    if t == 'f': return ('f', c[1], ALLS - c[2])
    if t == 'b': return ('nb', c[1])
    if t == 'nb': return ('b', c[1])
    if t == 'and': return c_or(c_not(c[1]), c_not(c[2]))
    if t == 'or': return c_and(c_not(c[1]), c_not(c[2]))
    raise AssertionError(c)

def c_and(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if a == b: return a
    return ('and', a, b)

def c_or(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    if a == b: return a
    return ('or', a, b)

def c_xor(a, b): return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
