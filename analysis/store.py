"""The relational part of an abstract state: a conjunction of linear inequalities over integer
atoms, disequalities, three-way signs of float polynomials, and named boolean facts.
Entailment is Fourier-Motzkin elimination with integer tightening (the polyhedra domain's
projection), bounded; running out of the bound means 'unknown'."""
from math import gcd
from fractions import Fraction
from terms import *

CAP = 700

def _tight(c, t):
    g = 0
    for _, k in t: g = gcd(g, k)
    if g > 1:
        return c // g, tuple((a, k // g) for a, k in t)
    return c, t

def atom_defs(a):
    """defining constraints of an atom (each Lin >= 0)"""
    if a.kind == 'div':
        x, c = a.args
        q = lin(a)
        return [x - q.scale(c), q.scale(c) + (c - 1) - x]
    if a.kind == 'word':
        s = ZERO
        # plain sum without collapsing back into the word
        c = 0; ts = []
        for i, b in enumerate(a.args):
            c += b.c * 256 ** i
            for x, k in b.t: ts.append((x, k * 256 ** i))
        d = {}
        for x, k in ts: d[x] = d.get(x, 0) + k
        ts = sorted(((x, k) for x, k in d.items() if k), key=lambda z: z[0].id)
        up = Lin(c, tuple(sorted(ts + [(a, -1)], key=lambda z: z[0].id)))
        return [up, -up]
    if a.kind == 'band':
        x, y = a.args[0], a.args[1]
        return [x - lin(a), y - lin(a)]
    if a.kind == 'sgn':
        # x or x - 2^n: never above x
        return [a.args[0] - lin(a)]
    return []

def closure(query, facts, words):
    """facts connected with the query's atoms, plus definitions"""
    seen = set()
    todo = [a for a, _ in query.t]
    use = []
    left = list(facts)
    out = [query]
    while todo:
        new = [a for a in todo if a not in seen]
        todo = []
        if not new and not left: break
        for a in new:
            seen.add(a)
            if a.kind == 'word' and not words: continue
            for d in atom_defs(a):
                out.append(d)
                todo.extend(b for b, _ in d.t if b not in seen)
        l2 = []
        for f in left:
            if any(a in seen for a, _ in f.t):
                out.append(f)
                todo.extend(b for b, _ in f.t if b not in seen)
            else: l2.append(f)
        left = l2
        if not todo: break
    for a in seen:
        if a.lo is not None: out.append(Lin(-a.lo, ((a, 1),)))
        if a.hi is not None: out.append(Lin(a.hi, ((a, -1),)))
    return out

def _plain(c, d):
    return c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda z: z[0].id))

def fm_unsat(cons):
    cs = set()
    for x in cons:
        c, t = _tight(x.c, x.t)
        if not t:
            if c < 0: return True
            continue
        cs.add((c, t))
    n = 0
    while cs:
        # equalities first
        idx = {}
        for c, t in cs:
            o = idx.get(t)
            if o is None or c < o: idx[t] = c
        cs = set((c, t) for t, c in idx.items())
        eq = None
        for t, c in idx.items():
            nt = tuple((a, -k) for a, k in t)
            if nt in idx:
                if idx[nt] + c < 0: return True
                if idx[nt] + c == 0:
                    for a, k in t:
                        if k in (1, -1): eq = (c, t, a, k); break
                    if eq: break
        if eq:
            c, t, a, k = eq
            # a = -(c + rest)/k
            ncs = set()
            for c2, t2 in cs:
                d = dict(t2)
                m = d.pop(a, 0)
                if m:
                    f = -m * k       # k in +-1: a = -k*(c+rest)
                    c2 = c2 + f * c
                    for b, kb in t:
                        if b is not a: d[b] = d.get(b, 0) + f * kb
                c2, tt = _plain(c2, d)
                c2, tt = _tight(c2, tt)
                if not tt:
                    if c2 < 0: return True
                    continue
                ncs.add((c2, tt))
            cs = ncs
            continue
        pos = {}; neg = {}
        for c, t in cs:
            for a, k in t:
                if k > 0: pos[a] = pos.get(a, 0) + 1
                else: neg[a] = neg.get(a, 0) + 1
        best = None
        for a in set(pos) | set(neg):
            p, q = pos.get(a, 0), neg.get(a, 0)
            s = p * q - p - q
            if best is None or (s, a.id) < (best[0], best[1].id): best = (s, a)
        a = best[1]
        P_, N_, R_ = [], [], set()
        for c, t in cs:
            k = dict(t).get(a, 0)
            if k > 0: P_.append((c, t, k))
            elif k < 0: N_.append((c, t, -k))
            else: R_.add((c, t))
        if len(P_) * len(N_) > CAP: return False
        for c1, t1, k1 in P_:
            for c2, t2, k2 in N_:
                g = gcd(k1, k2); m1 = k2 // g; m2 = k1 // g
                d = {}
                for b, k in t1: d[b] = d.get(b, 0) + m1 * k
                for b, k in t2: d[b] = d.get(b, 0) + m2 * k
                d.pop(a, None)
                c, t = _plain(c1 * m1 + c2 * m2, d)
                c, t = _tight(c, t)
                if not t:
                    if c < 0: return True
                    continue
                R_.add((c, t))
        cs = R_
        n += 1
        if len(cs) > CAP: return False
    return False

_cache = {}

def unsat_with(query, facts):
    """facts and query >= 0 have no integer solution"""
    if query.is_const(): return query.c < 0
    h = query.hi()
    if h is not None and h < 0: return True
    k = (query, facts)
    r = _cache.get(k)
    if r is None:
        r = fm_unsat(closure(query, facts, False))
        if not r and any(a.kind == 'word' for f in (query,) for a, _ in f.t):
            r = fm_unsat(closure(query, facts, True))
        _cache[k] = r
        if len(_cache) > 400000: _cache.clear()
    return r

# --- rational Fourier-Motzkin over monomials for the float signs
def real_unsat(cons):
    """cons: list of (Poly, strict) meaning poly > 0 / >= 0, linear in monomials"""
    cs = []
    for p, s in cons:
        c = Fraction(0); t = {}
        for m, k in p.t:
            if m == (): c = k
            else: t[m] = k
        cs.append((c, t, s))
    while True:
        for c, t, s in cs:
            if not t and (c < 0 or (s and c == 0)): return True
        cs = [x for x in cs if x[1]]
        if not cs: return False
        cnt = {}
        for c, t, s in cs:
            for m, k in t.items():
                e = cnt.setdefault(m, [0, 0])
                e[0 if k > 0 else 1] += 1
        m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        P_, N_, R_ = [], [], []
        for c, t, s in cs:
            k = t.get(m, 0)
            (P_ if k > 0 else N_ if k < 0 else R_).append((c, t, s))
        if len(P_) * len(N_) > 300: return False
        for c1, t1, s1 in P_:
            for c2, t2, s2 in N_:
                k1 = t1[m]; k2 = -t2[m]
                d = {}
                for b, k in t1.items(): d[b] = d.get(b, 0) + k / k1
                for b, k in t2.items(): d[b] = d.get(b, 0) + k / k2
                d = {b: k for b, k in d.items() if k and b != m}
                R_.append((c1 / k1 + c2 / k2, d, s1 or s2))
        cs = R_
        if len(cs) > 600: return False

def fcons(signs):
    """constraint list of a sign map (only convex sets are used)"""
    out = []
    for p, s in signs.items():
        if s == POS: out.append((p, True))
        elif s == NEG: out.append((-p, True))
        elif s == ZER: out.append((p, False)); out.append((-p, False))
        elif s == frozenset([0, 1]): out.append((p, False))
        elif s == frozenset([-1, 0]): out.append((-p, False))
    # powers / absolute values / exponentials are never negative
    seen = set()
    def walk(p):
        for m, _ in p.t:
            for a, e in m:
                if a.kind in ('abs', 'pow', 'exp') and a not in seen:
                    seen.add(a)
                    out.append((Poly(((((a, 1),), Fraction(1)),)), a.kind == 'exp'))
    for p in list(signs): walk(p)
    return out

class Infeasible(Exception): pass

class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond

class Store:
    """immutable-ish; copied on clone"""
    __slots__ = ('ge', 'ne', 'bools', 'fs')
    def __init__(self):
        self.ge = frozenset(); self.ne = frozenset(); self.bools = {}; self.fs = {}
    def clone(self):
        s = Store(); s.ge = self.ge; s.ne = self.ne; s.bools = dict(self.bools); s.fs = dict(self.fs)
        return s
    # --- queries
    def ent_ge(self, x):
        l = x.lo()
        if l is not None and l >= 0: return True
        if x.is_const(): return False
        if norm_ge(x) in self.ge: return True
        if unsat_with(-x - 1, self.ge): return True
        if self.ne:
            n = norm_eq(x)
            n1 = norm_eq(x + 1)
            # x+1 >= 0 and x+1 != 0  =>  x >= 0
            if n1 is not None and n1 in self.ne and unsat_with(-(x + 1) - 1, self.ge): return True
        return False
    def ent_ne(self, x):
        if x.is_const(): return x.c != 0
        n = norm_eq(x)
        if n is None or n in self.ne: return True
        return self.ent_ge(x - 1) or self.ent_ge(-x - 1) or self._bytes_ne(x)
    def _bytes_ne(self, x):
        return False
    def ent_eq(self, x):
        if x.is_const(): return x.c == 0
        return self.ent_ge(x) and self.ent_ge(-x)
    def fsigns(self, p):
        """p is normalised (leading coefficient 1)"""
        s = self.fs.get(p, ALLS)
        if len(s) > 1 :
            out = set()
            base = fcons(self.fs)
            for v in s:
                t = dict()
                t[p] = frozenset([v])
                ex = fcons(t)
                if not real_unsat(base + ex): out.add(v)
            s = frozenset(out)
        return s
    def eval(self, c):
        if c is True or c is False: return c
        t = c[0]
        if t == 'ge':
            if self.ent_ge(c[1]): return True
            if self.ent_ge(-c[1] - 1): return False
            return None
        if t == 'eq':
            if self.ent_eq(c[1]): return True
            if self.ent_ne(c[1]): return False
            return None
        if t == 'ne':
            r = self.eval(('eq', c[1]))
            return None if r is None else not r
        if t == 'f':
            s = self.fsigns(c[1])
            if s <= c[2]: return True
            if not (s & c[2]): return False
            return None
        if t == 'b': return self.bools.get(c[1])
        if t == 'nb':
            r = self.bools.get(c[1])
            return None if r is None else not r
        if t == 'and':
            a = self.eval(c[1])
            if a is False: return False
            b = self.eval(c[2])
            if b is False: return False
            if a and b: return True
            return None
        if t == 'or':
            a = self.eval(c[1])
            if a is True: return True
            b = self.eval(c[2])
            if b is True: return True
            if a is False and b is False: return False
            return None
        raise AssertionError(c)
    def assume(self, c):
        """adds c; False when that is contradictory.  Raises NeedSplit on a disjunction."""
        if c is True: return True
        if c is False: return False
        t = c[0]
        if t == 'and':
            return self.assume(c[1]) and self.assume(c[2])
        if t == 'or':
            a = self.eval(c[1])
            if a is True: return True
            if a is False: return self.assume(c[2])
            b = self.eval(c[2])
            if b is True: return True
            if b is False: return self.assume(c[1])
            raise NeedSplit(c[1])
        r = self.eval(c)
        if r is False: return False
        if r is True and t in ('b', 'nb'): return True
        if t == 'ge':
            if r is True: return True
            self.ge = self.ge | {norm_ge(c[1])}
            return self._ne_ok(c[1])
        if t == 'eq':
            if r is True: return True
            x = c[1]
            self.ge = self.ge | {norm_ge(x), norm_ge(-x)}
            self._words(x)
            return self._ne_ok(x)
        if t == 'ne':
            if r is True: return True
            x = c[1]
            # sharpen a bound when possible
            if self.ent_ge(x): self.ge = self.ge | {norm_ge(x - 1)}
            elif self.ent_ge(-x): self.ge = self.ge | {norm_ge(-x - 1)}
            self.ne = self.ne | {norm_eq(x)}
            return True
        if t == 'f':
            s = self.fsigns(c[1]) & c[2]
            if not s: return False
            self.fs[c[1]] = s
            return True
        if t == 'b': self.bools[c[1]] = True; return True
        if t == 'nb': self.bools[c[1]] = False; return True
        raise AssertionError(c)
    def _ne_ok(self, x):
        """a new (in)equality may have closed the gap around a disequality"""
        at = set(a for a, _ in x.t)
        for n in self.ne:
            if any(a in at for a, _ in n.t):
                if self.ent_ge(n):
                    if self.ent_ge(-n): return False
                    f = norm_ge(n - 1)
                    if f not in self.ge: self.ge = self.ge | {f}
                elif self.ent_ge(-n):
                    f = norm_ge(-n - 1)
                    if f not in self.ge: self.ge = self.ge | {f}
        return True
    def _words(self, x):
        """word(..) == constant fixes its bytes"""
        if len(x.t) == 1 and abs(x.t[0][1]) == 1 and x.t[0][0].kind == 'word':
            v = -x.c * x.t[0][1]
            for i, b in enumerate(x.t[0][0].args):
                if not b.is_const():
                    e = norm_eq(b - ((v >> (8 * i)) & 255))
                    self.ge = self.ge | {norm_ge(e), norm_ge(-e)}
    def bounds(self, x):
        """interval of x from its atoms' ranges and the facts about exactly this form"""
        l, h = x.lo(), x.hi()
        if x.t:
            nt = tuple((a, -k) for a, k in x.t)
            for f in self.ge:
                if f.t == x.t:
                    v = x.c - f.c
                    if l is None or v > l: l = v
                elif f.t == nt:
                    v = x.c + f.c
                    if h is None or v < h: h = v
        return l, h
    def cval(self, x):
        """x itself, or the constant the facts pin it to"""
        if x.is_const(): return x
        l, h = self.bounds(x)
        return K(l) if l is not None and l == h else x
