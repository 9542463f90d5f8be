"""Parametric curves: table, formulas, inverses."""
from . import prop
from .common import *
import terms

EVAL = 'default_eval_parametric_fn'
TABLE = {1: 1, 2: 3, 3: 4, 4: 5, 5: 7, 6: 4, 7: 5, 8: 5, 108: 1, 109: 1}
TOL = P(Fraction(1e-4))
INF = P(Fraction(1e22))
NONNEG = frozenset((0, 1)); NONPOS = frozenset((-1, 0))

# ------------------------------------------------------------------ the formulas
class Env:
    """evaluates a specified formula on a path, splitting where it compares"""
    def __init__(self, it, st): self.it = it; self.st = st
    def lt(self, a, b): return self.sign(a - b, NEG)
    def le(self, a, b): return self.sign(a - b, NONPOS)
    def gt(self, a, b): return self.sign(a - b, POS)
    def ge(self, a, b): return self.sign(a - b, NONNEG)
    def sign(self, p, s):
        c = p.const()
        if c is not None: return ((c > 0) - (c < 0)) in s
        return self.it.decide(self.st, c_f(p, s))
    def small(self, x): return self.lt(pabs(x), TOL)

def div(a, b): return a * pinv(b)
def log10(x): return pln(x) * pinv(LN10)

def s_base(k, t): return pinv(PONE + pexp(-(k * t))) - P(Fraction(1, 2))
def spec(e, t, p, r):
    """lcms2's DefaultEvalParametricFn"""
    if t in (1, -1):
        g = p[0]
        if e.lt(r, PZERO): return r if e.small(g - PONE) else PZERO
        if t == 1: return ppow(r, g)
        return INF if e.small(g) else ppow(r, pinv(g))
    if t == 2:
        g, a, b = p[:3]
        if e.small(a): return PZERO
        if not e.ge(r, div(-b, a)): return PZERO
        q = a * r + b
        return ppow(q, g) if e.gt(q, PZERO) else PZERO
    if t == -2:
        g, a, b = p[:3]
        if e.small(g) or e.small(a): return PZERO
        v = PZERO if e.lt(r, PZERO) else div(ppow(r, pinv(g)) - b, a)
        return PZERO if e.lt(v, PZERO) else v
    if t == 3:
        g, a, b, c = p[:4]
        if e.small(a): return PZERO
        d = div(-b, a)
        if e.lt(d, PZERO): d = PZERO
        if not e.ge(r, d): return c
        q = a * r + b
        return ppow(q, g) + c if e.gt(q, PZERO) else PZERO
    if t == -3:
        g, a, b, c = p[:4]
        if e.small(a): return PZERO
        if not e.ge(r, c): return div(-b, a)
        return div(ppow(r - c, pinv(g)) - b, a) if e.gt(r - c, PZERO) else PZERO
    if t == 4:
        g, a, b, c, d = p[:5]
        if not e.ge(r, d): return r * c
        q = a * r + b
        return ppow(q, g) if e.gt(q, PZERO) else PZERO
    if t == -4:
        g, a, b, c, d = p[:5]
        q = a * d + b
        disc = PZERO if e.lt(q, PZERO) else ppow(q, g)
        if e.ge(r, disc): return PZERO if e.small(g) or e.small(a) else div(ppow(r, pinv(g)) - b, a)
        return PZERO if e.small(c) else div(r, c)
    if t == 5:
        g, a, b, c, d, o, f = p[:7]
        if not e.ge(r, d): return r * c + f
        q = a * r + b
        return ppow(q, g) + o if e.gt(q, PZERO) else o
    if t == -5:
        g, a, b, c, d, o, f = p[:7]
        if e.ge(r, c * d + f):
            if e.lt(r - o, PZERO): return PZERO
            return PZERO if e.small(g) or e.small(a) else div(ppow(r - o, pinv(g)) - b, a)
        return PZERO if e.small(c) else div(r - f, c)
    if t == 6:
        g, a, b, c = p[:4]
        q = a * r + b
        return c if e.lt(q, PZERO) else ppow(q, g) + c
    if t == -6:
        g, a, b, c = p[:4]
        if e.small(a): return PZERO
        return PZERO if e.lt(r - c, PZERO) else div(ppow(r - c, pinv(g)) - b, a)
    if t == 7:
        g, a, b, c, d = p[:5]
        q = b * ppow(r, g) + c
        return d if e.le(q, PZERO) else a * log10(q) + d
    if t == -7:
        g, a, b, c, d = p[:5]
        if e.small(g) or e.small(a) or e.small(b): return PZERO
        return ppow(div(ppow(P(10), div(r - d, a)) - c, b), pinv(g))
    if t == 8:
        a, b, c, d, o = p[:5]
        return a * ppow(b, c * r + d) + o
    if t == -8:
        a, b, c, d, o = p[:5]
        if e.lt(r - o, PZERO): return PZERO
        if e.small(a) or e.small(c): return PZERO
        return div(div(log10(div(r - o, a)), log10(b)) - d, c)
    if t == 108:
        g = p[0]
        return PZERO if e.small(g) else ppow(PONE - ppow(PONE - r, pinv(g)), pinv(g))
    if t == -108:
        g = p[0]
        return PONE - ppow(PONE - ppow(r, g), g)
    if t in (109, -109):
        k = p[0]
        corr = div(P(Fraction(1, 2)), s_base(k, PONE))
        if t == 109: return corr * s_base(k, r + r - PONE) + P(Fraction(1, 2))
        u = div(r - P(Fraction(1, 2)), corr)
        return (div(-pln(pinv(u + P(Fraction(1, 2))) - PONE), k) + PONE).scale(Fraction(1, 2))
    return PZERO

def plen(n=1): return sym((('arg', n), 'len'), 0, (1 << 63) - 1, 64)
def params(it, cfg): return [it.opq(cfg.ty('f64'), ((('arg', 1), '*'), '[]', K(j))) for j in range(7)]

def evaluate(r, cfg, t, st=None, x=None, count=None, **o):
    """paths of the default evaluator for type t and at least the announced number of parameters"""
    i = cfg.fn(EVAL)
    st = st.clone() if st is not None else State()
    st.store.assume(c_ge(plen() - (TABLE.get(abs(t), 0) if count is None else count)))
    it = Interp(cfg.p, Models(), {})
    b = i['body']
    args = [K(t), it.opq(b['locals'][2], ('arg', 1)), it.opq(b['locals'][3], ('arg', 2)) if x is None else x]
    return r.analyse(cfg, i, args=args, st=st, **o)

TYPES = sorted(TABLE, key=abs)
@prop('C26')
def formulas(r):
    r.rule('For each of the 20 types the default evaluator decides between the same segments and computes on each the same formula as lcms2, for all parameters and arguments; every other type yields 0.')
    r.assume.append('floating point is treated as real arithmetic: formulas, comparisons and constants are decided, not rounding; NaN is excluded')
    n = 0
    for cfg in r.cfgs():
        for t in TYPES + [-t for t in TYPES] + [0, 9, -9, 107, 110, -(1 << 31), (1 << 31) - 1]:
            outs = evaluate(r, cfg, t); it = r.it
            ps = params(it, cfg); x = it.opq(cfg.ty('f64'), ('arg', 2))
            for o in outs:
                for s, w in cases(it, o.state, lambda s: spec(Env(it, s), t, ps, x)):
                    n += 1
                    r.ob(isinstance(o.value, Poly) and eqv(s, o.value, w), 'formula:%d' % t, 'curve type %d yields %s where it should yield %s' % (t, o.value, w), EVAL)
        # any type outside the table
        i = cfg.fn(EVAL)
        st = State()
        it = Interp(cfg.p, Models(), {})
        b = i['body']
        a = [it.opq(b['locals'][k + 1], ('arg', k)) for k in range(3)]
        for t in TYPES:
            st.store.assume(c_not(c_eq(a[0] - t))); st.store.assume(c_not(c_eq(a[0] + t)))
        for o in r.analyse(cfg, i, args=a, st=st):
            n += 1
            r.ob(o.value == PZERO, 'formula:unknown', 'an unknown curve type yields %s' % (o.value,), EVAL)
        r.floor('curve types (%s)' % cfg.name, len(TYPES) * 2, 20)
    r.floor('segments', n, 120)

@prop('C25')
def table(r):
    r.rule('The default curve set lists exactly the types 1 to 8, 108 and 109 with the parameter counts of lcms2 and the default evaluator; for each of them, forward and reversed, the evaluator reads no parameter beyond the announced count and never panics.')
    r.rule('Looking a type up yields the position of the first curve whose id is the type or its negation, and nothing exactly when there is none; it is total for every 32-bit type.')
    n = 0
    for cfg in r.cfgs():
        key = '<ParametricCurves as Default>::default'
        pc = cfg.ty('ParametricCurves'); ct = cfg.ty('Curve')
        for o in r.analyse(cfg, cfg.fn(key)):
            it = r.it; n += 1
            v = it.field(o.value, cfg.fno(pc, 'curves')); e = it.field(o.value, cfg.fno(pc, 'evaluator'))
            l = it.arr_list(o.state, v[1]) if v[0] == 'vec' else None
            if r.ob(l is not None, 'table', 'the default curve set is not a fixed list', key):
                got = [(it.field(c, cfg.fno(ct, 'function_curve_id')), it.field(c, cfg.fno(ct, 'parameter_count'))) for c in l]
                got = [(a.c if a.is_const() else None, b.c if b.is_const() else None) for a, b in got]
                for t, k in TABLE.items():
                    n += 1
                    r.ob((t, k) in got, 'entry:%d' % t, 'curve type %d is not listed with %d parameters: %s' % (t, k, [b for a, b in got if a == t]), key)
                r.ob(len(got) == len(TABLE), 'entries', 'the default curve set has %d entries instead of %d' % (len(got), len(TABLE)), key)
            r.ob(e[0] == 'fn' and cfg.I[e[1]]['path'].endswith(EVAL), 'evaluator', 'the default evaluator is %s' % (e,), key)
        for t in TYPES + [-t for t in TYPES]:
            outs = evaluate(r, cfg, t); n += len(outs)
        evaluate(r, cfg, 9); evaluate(r, cfg, 0)
        n += lookup(r, cfg)
    r.floor('table facts', n, 100)

def same_elements(st, c, j):
    """the unknowns that read the same field of the same array as c (= f(a[j])) at an index equal to j"""
    def split(k):
        path = []
        while isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple): path.append(k[1]); k = k[0]
        if isinstance(k, tuple) and len(k) == 3 and k[1] == '[]' and isinstance(k[2], Lin): return k[0], k[2], tuple(path)
    a = c.single()
    me = split(a.args) if a is not None and a.kind == 'sym' else None
    if me is None: return []
    atoms = set()
    for f in list(st.store.ge) + list(st.store.ne): atoms |= {x for x, _ in f.t}
    r = []
    for x in sorted(atoms, key=lambda x: x.id):
        o = split(x.args) if x.kind == 'sym' else None
        if o is not None and o[0] == me[0] and o[2] == me[2] and st.store.ent_eq(o[1] - j): r.append(lin(x))
    return r

def lookup(r, cfg):
    """ParametricCurves::is_in_set on sets of up to four curves exactly, and by induction for any"""
    key = 'ParametricCurves::is_in_set'
    i = cfg.fn(key); b = i['body']
    pc = cfg.ty('ParametricCurves'); ct = cfg.ty('Curve')
    n = 0
    def ids(it, size):
        base = ((('arg', 0), '*'), cfg.fno(pc, 'curves'))
        return [it.field(it.opq(ct, ((base, 'd'), '[]', K(j))), cfg.fno(ct, 'function_curve_id')) for j in range(size)]
    for size in range(0, 5):
        st = State()
        st.store.assume(c_eq(sym(((('arg', 0), '*'), cfg.fno(pc, 'curves')) + ('len',), 0, (1 << 63) - 1, 64) - size)) if False else None
        it0 = Interp(cfg.p, Models(), {})
        a0 = it0.opq(b['locals'][1], ('arg', 0)); t = it0.opq(b['locals'][2], ('arg', 1))
        p = it0.as_ptr(st, a0)
        vec = it0.load(st, p[1], p[2] + (('f', cfg.fno(pc, 'curves')),))
        if vec[0] != 'vec': vec = ('vec', it0.models.vec_at(it0, st, ('ptr', p[1], p[2] + (('f', cfg.fno(pc, 'curves')),), None))[1])
        st.store.assume(c_eq(vec[1][1] - size))
        for o in r.analyse(cfg, i, args=[a0, t], st=st, width=40, exits=400, undecided=100):
            it = r.it
            ids_ = [it.field(it.arr_get(o.state, vec[1], K(j)), cfg.fno(ct, 'function_curve_id')) for j in range(size)]
            def want(s):
                for j, c in enumerate(ids_):
                    if it.decide(s, c_or(c_eq(c - t), c_and(c_eq(c + t), c_ge(c)))) and it.decide(s, c_ge(c)): return j
                return None
            def got(s):
                k = it.variant_of(s, o.value)
                return None if cfg.T[o.value[1]]['variants'][k]['n'] == 'None' else it.enum_fields(s, o.value, k)[0]
            for s, (w, g) in cases(it, o.state, lambda s: (want(s), got(s))):
                n += 1
                ok = (w is None) == (g is None) and (w is None or eqv(s, g, K(w)))
                r.ob(ok, 'lookup', 'in a set of %d curves the position of a type is %s instead of %s' % (size, g, w), key)
    # any number of curves: nothing is found only when the walk has passed every curve
    outs = r.analyse(cfg, i); it = r.it
    ls = [l for l in it.loops if l['backs']]
    r.ob(bool(ls), 'lookup-walk', 'no walk over the curves was recognised', key)
    n += len(outs)
    def whole(z):
        # vector of curves and the type looked up, as the state z knows them
        a0 = it.opq(b['locals'][1], ('arg', 0)); t = it.opq(b['locals'][2], ('arg', 1))
        p = it.as_ptr(z, a0)
        return it.models.vec_at(it, z, ('ptr', p[1], p[2] + (('f', cfg.fno(pc, 'curves')),), None))[1], t
    def at(z, j):
        vec, t = whole(z)
        c = it.field(it.arr_get(z, vec, j), cfg.fno(ct, 'function_curve_id')); h = False
        for x in [c] + [x for x in same_elements(z, c, j) if x != c]: h = c_or(h, c_and(c_ge(x), c_or(c_eq(x - t), c_eq(x + t))))
        return h
    # walks: a counter that goes through the indices one by one, upwards from the first or downwards from the last
    walks = []
    for l in ls:
        for c, c0, (obj, sel) in l['cells']:
            d = None
            for x in l['backs']:
                nx = it.leaf_at(it.root(x, obj), sel)
                e = 1 if isinstance(nx, Lin) and x.store.ent_eq(nx - c - 1) else -1 if isinstance(nx, Lin) and x.store.ent_eq(nx - c + 1) else None
                d = e if d in (None, e) and e is not None else 0
            if not d or not isinstance(c0, Lin): continue
            first = l['entry'].store.ent_eq(c0) if d > 0 else l['entry'].store.ent_eq(c0 - whole(l['entry'])[0][1])
            if not first: continue
            j = c if d > 0 else c - 1
            if all(not h for x in l['backs'] for s, h in cases(it, x, lambda s: it.decide(s, at(s, j)))): walks.append((c, d))
    for o in outs:
        k = it.variant_of(o.state, o.value)
        if cfg.T[o.value[1]]['variants'][k]['n'] == 'None':
            z = o.state; ln, t = whole(z)[0][1], whole(z)[1]
            r.ob(z.store.ent_eq(ln) or z.store.ent_eq(t + (1 << 31)) or any(z.store.ent_ge(c - ln) if d > 0 else z.store.ent_ge(-c) for c, d in walks), 'lookup-gives-up', 'nothing is found before every curve has been compared', key)
        if cfg.T[o.value[1]]['variants'][k]['n'] == 'Some':
            j = it.enum_fields(o.state, o.value, k)[0]
            a0 = it.opq(b['locals'][1], ('arg', 0)); t = it.opq(b['locals'][2], ('arg', 1))
            p = it.as_ptr(o.state, a0)
            vec = it.models.vec_at(it, o.state, ('ptr', p[1], p[2] + (('f', cfg.fno(pc, 'curves')),), None))[1]
            c = it.field(it.arr_get(o.state, vec, j), cfg.fno(ct, 'function_curve_id'))
            # the same curve read at an index the path shows equal to the returned one
            cs = [c] + [x for x in same_elements(o.state, c, j) if x != c]
            hit = False
            for x in cs: hit = c_or(hit, c_or(c_eq(x - t), c_eq(x + t)))
            for s, h in cases(it, o.state, lambda s: it.decide(s, hit)):
                r.ob(h, 'lookup-found', 'a position is returned whose curve is not of the type looked up', key)
    return n

# ------------------------------------------------------------------ inverses
def simp(st, p, depth=0):
    """the polynomial with powers, logarithms and reciprocals of each other cancelled"""
    if depth > 12: return p
    out = PZERO
    for m, c in p.t:
        q = P(c)
        for a, e in m: q = q * satom(st, a, e, depth)
        out = out + q
    return out

def ipow(b, e):
    if e < 0: return ipow(pinv(b), -e)
    r = PONE
    for _ in range(int(e)): r = r * b
    return r

def one_atom(p):
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1: return p.t[0][0][0][0]

def satom(st, a, e, depth):
    if a.kind == 'inv':
        q = simp(st, a.args[0], depth + 1)
        return ipow(pinv(q), e) if e > 0 else ipow(q, -e)
    if a.kind == 'pow':
        b = simp(st, a.args[0], depth + 1); x = simp(st, a.args[1], depth + 1)
        k = one_atom(b)
        if k is not None and k.kind == 'pow' and st.store.fsigns(k.args[0]) <= NONNEG:
            return ipow(ppow(k.args[0], simp(st, k.args[1] * x, depth + 1)), e)
        if b == P(10):
            y = simp(st, x * LN10, depth + 1); l = one_atom(y)
            if l is not None and l.kind == 'ln': return ipow(l.args[0], e)
        return ipow(ppow(b, x), e)
    if a.kind == 'ln':
        q = simp(st, a.args[0], depth + 1); k = one_atom(q)
        if k is not None and k.kind == 'pow' and st.store.fsigns(k.args[0]) <= POS: return ipow(k.args[1] * pln(k.args[0]), e)
        return ipow(pln(q), e)
    if a.kind == 'exp': return ipow(pexp(simp(st, a.args[0], depth + 1)), e)
    if a.kind == 'abs': return ipow(pabs(simp(st, a.args[0], depth + 1)), e)
    return ipow(Poly(((((a, 1),), Fraction(1)),)), e)

def domain(t, p, x):
    """where type t is meant to be inverted: [(name, [(polynomial, signs)], facts about the value y -> [(polynomial, signs)])]"""
    def big(v): return [(v, POS), (pabs(v) - TOL, NONNEG)]
    none = lambda y: []
    if t == 1: return [('power', big(p[0]) + [(x, POS)], lambda y: [(y, POS)])]
    if t == 2: return [('power', big(p[0]) + big(p[1]) + [(x, NONNEG), (p[1] * x + p[2], POS), (x + div(p[2], p[1]), NONNEG)], lambda y: [(y, POS)])]
    if t == 3: return [('power', big(p[0]) + big(p[1]) + [(x, NONNEG), (p[1] * x + p[2], POS), (x + div(p[2], p[1]), NONNEG)], lambda y: [(y - p[3], POS)])]
    if t == 4:
        g, a, b, c, d = p[:5]
        return [('power', big(g) + big(a) + [(x - d, NONNEG), (a * x + b, POS)], lambda y: [(y, POS), (y - ppow(a * d + b, g), NONNEG)]),
                ('linear', big(c) + [(d - x, POS), (a * d + b, NONNEG)], lambda y: [(ppow(a * d + b, g) - y, POS)])]
    if t == 5:
        g, a, b, c, d, o, f = p[:7]
        return [('power', big(g) + big(a) + [(x - d, NONNEG), (a * x + b, POS)], lambda y: [(y - o, POS), (y - c * d - f, NONNEG)]),
                ('linear', big(c) + [(d - x, POS)], lambda y: [(c * d + f - y, POS)])]
    if t == 6: return [('power', big(p[0]) + big(p[1]) + [(p[1] * x + p[2], POS)], lambda y: [(y - p[3], POS)])]
    if t == 7:
        g, a, b, c, d = p[:5]
        return [('logarithm', big(g) + big(a) + big(b) + [(x, POS), (b * ppow(x, g) + c, POS)], none)]
    if t == 8: return [('exponential', big(p[0]) + big(p[2]) + [(p[1], POS)], lambda y: [(y - p[4], POS)])]
    if t == 108: return [('s-shape', big(p[0]) + [(x, NONNEG), (PONE - x, NONNEG), (PONE - ppow(PONE - x, pinv(p[0])), NONNEG)], none)]
    if t == 109: return [('sigmoid', big(p[0]) + [(x, NONNEG), (PONE - x, NONNEG)], none)]

def consistent(st):
    """False when a sign decided on the path contradicts the others once powers and their inverses are cancelled"""
    s = st.clone()
    try:
        for p, signs in list(st.store.fs.items()):
            c = c_f(simp(st, p), signs)
            if c is False or s.store.eval(c) is False: return False
            if c is not True and s.store.assume(c) is False: return False
    except Infeasible: return False
    return True

@prop('C27')
def inverses(r):
    r.rule('Evaluating the reversed type on the value of a forward type yields the argument again, on each of its segments, for all parameters for which the segment is invertible (gamma, slope and factors positive and above the tolerance, argument on the segment).')
    r.assume.append('floating point is treated as real arithmetic; monotonicity of the power function is used for the segment limits')
    n = 0
    for cfg in r.cfgs():
        for t in TYPES:
            it = Interp(cfg.p, Models(), {})
            ps = params(it, cfg); x = it.opq(cfg.ty('f64'), ('arg', 2))
            for name, facts, after in domain(t, ps, x):
                st = State()
                for p, s in facts: st.store.assume(c_f(p, s))
                done = 0
                for o in evaluate(r, cfg, t, st=st):
                    s0 = o.state.clone()
                    y = simp(s0, o.value)
                    try:
                        for p, s in after(y): s0.store.assume(c_f(simp(s0, p), s)) if simp(s0, p).const() is None else None
                    except Infeasible: continue
                    outs = evaluate(r, cfg, -t, st=s0, x=y)
                    for q in outs:
                        if not consistent(q.state): continue
                        n += 1; done += 1
                        z = simp(q.state, q.value)
                        r.ob(eqv(q.state, z, x), 'inverse:%d:%s' % (t, name), 'type %d reversed turns the value of type %d on its %s segment into %s instead of the argument' % (t, t, name, z), EVAL)
                r.ob(done > 0, 'segment:%d:%s' % (t, name), 'the %s segment of type %d is never reached' % (name, t), EVAL)
    r.floor('inversions', n, 24)
