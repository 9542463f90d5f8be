"""Forward abstract interpretation of monomorphic MIR.

Abstract values: exact linear forms / polynomials over value-numbered unknowns (terms.py) inside
structural values; abstract states carry a conjunction of linear facts (store.py).  Disjunctions
are kept apart by trace partitioning; loops are either unrolled while their exit tests stay
decided, or closed by a fixpoint: the cells a turn changes are forgotten, and candidate linear
invariants are weakened until they are inductive.  Functions are analysed in their callers'
context.  Leaves of the call graph (operating system, allocator, formatting, calendar) are
abstracted by contracts in models.py."""
import sys
from terms import *
from store import Store, NeedSplit, Infeasible
from fractions import Fraction
import struct

# where the keys of what is made afresh carry their number
FRESHLY = dict({k: 1 for k in ('io', 'open', 'fread', 'fread_exact', 'fseek', 'ftell', 'fwrite', 'fwrite_all', 'now', 'fmt', 'rawvec', 'capacity', 'intoiter', 'guard', 'trylock', 'h', 'ha')},
               fs=2, app=-1, call=-1, fmtcall=-1)

sys.setrecursionlimit(10000)

class Unsupported(Exception): pass
class Panic(Exception):
    def __init__(self, kind): self.kind = kind
class Dead(Exception): pass            # infeasible path

UNINIT = ('uninit',)
UNIT = ('agg', ())
AGG0 = UNIT

def agg(*f): return ('agg', tuple(f))
def enum(ty, v, *f): return ('enum', ty, v, tuple(f))

class Frame:
    __slots__ = ('inst', 'bb', 'si', 'locals', 'dest', 'ret', 'fid', 'span', 'post')
    def copy(self):
        f = Frame()
        f.inst = self.inst; f.bb = self.bb; f.si = self.si; f.locals = dict(self.locals)
        f.dest = self.dest; f.ret = self.ret; f.fid = self.fid; f.span = self.span; f.post = self.post
        return f

class State:
    __slots__ = ('mem', 'frames', 'store', 'trace', 'n', 'info')
    def __init__(self):
        self.mem = {}; self.frames = []; self.store = Store(); self.trace = (); self.n = 0; self.info = {}
    def clone(self):
        s = State()
        s.mem = dict(self.mem); s.frames = [f.copy() for f in self.frames]
        s.store = self.store.clone(); s.trace = self.trace; s.n = self.n; s.info = dict(self.info)
        return s
    def fresh(self):
        self.n += 1
        return self.n
    def event(self, *e):
        self.trace = self.trace + (e,)

class Outcome:
    __slots__ = ('kind', 'value', 'state', 'msg', 'chain', 'span')
    def __init__(self, kind, state, value=None, msg=None, chain=(), span=None):
        self.kind = kind; self.state = state; self.value = value; self.msg = msg; self.chain = chain; self.span = span
    def __repr__(self): return '<%s %s %s>' % (self.kind, self.msg or '', self.chain)

def int_range(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

class Interp:
    def __init__(self, prog, models, opts=None):
        self.p = prog; self.T = prog.T; self.I = prog.I
        self.models = models
        self.opts = opts or {}
        self.big = []; self.turns = []; self.nalloc = 0
        self.steps = 0
        self.maxsteps = self.opts.get('maxsteps', 400000)
        self.visited = set()          # instances analysed
        self.calls = {}               # (caller, callee) counts
        self.leaves = {}              # leaf callees met: path -> count
        self.loops = []               # fixpoint records
        self.allocty = {}
        self.tmpls = {}               # loop -> array contents in terms of the loop's variables
        self.obligations = 0
        self.max_depth = 60

    # ------------------------------------------------------------ unknown values of a type
    def opq(self, t, key):
        x = self.T[t]; k = x['k']
        if k == 'int':
            lo, hi = int_range(x['bits'], x['signed'])
            return sym(key, lo, hi, x['bits'])
        if k == 'bool': return ('b', key)
        if k == 'float': return psym(key)
        if k == 'char': return sym(key, 0, 0x10FFFF, 32)
        if k == 'array':
            return ('arr', K(x['len']), ('opq', key, x['elem']), ())
        if k == 'tuple':
            if not x['fields']: return UNIT
            return ('agg', tuple(self.opq(f, (key, i)) for i, f in enumerate(x['fields'])))
        if k in ('ref', 'rawptr'):
            return self.opq_ptr(x['to'], key)
        if k == 'pat': return self.opq(x['base'], key)
        if k == 'fndef': return ('fn', x['inst'])
        if k == 'fnptr': return ('fnp', key)
        if k == 'closure':
            return ('agg', tuple(self.opq(f, (key, i)) for i, f in enumerate(x['fields'])))
        if k == 'adt':
            if x['path'] == 'std::vec::Vec':
                return ('vec', ('arr', sym((key, 'len'), 0, (1 << 63) - 1, 64), ('opq', (key, 'd'), x['targs'][0]), ()))
            if x.get('size') == 0 and x['kind'] == 'struct':
                return ('agg', tuple(self.opq(f['t'], (key, i)) for i, f in enumerate(x['variants'][0]['f'])))
            return ('opq', t, key)
        if k == 'never': raise Dead()
        return ('opq', t, key)

    def opq_ptr(self, to, key):
        x = self.T[to]; k = x['k']
        if k in ('slice', 'str'):
            el = x['elem'] if k == 'slice' else self.p.ty('u8')
            n = sym((key, 'len'), 0, (1 << 63) - 1, 64)
            return ('ptr', ('os', key, el), (('sub', ZERO, n),), None)
        if k == 'dyn':
            return ('ptr', ('o', key, to), (), ('dyn', key))
        return ('ptr', ('o', key, to), (), None)

    def field(self, v, i, t=None, variant=None):
        """field i of an aggregate value"""
        k = v[0]
        if k == 'agg':
            return v[1][i]
        if k == 'enum':
            if variant is not None and v[2] != variant: raise Dead()
            return v[3][i]
        if k == 'opq':
            x = self.T[v[1]]
            if x['k'] != 'adt': raise Unsupported('field of ' + x['s'])
            if x['kind'] == 'union':
                f = x['variants'][0]['f'][i]
                if f['t'] is not None and self.T[f['t']].get('size') == 0: return self.opq(f['t'], (v[2], 'u', i))
                if self.T[f['t']].get('size') == x.get('size'):
                    big = [j for j, g in enumerate(x['variants'][0]['f']) if self.T[g['t']].get('size') == x['size']]
                    base = self.opq(x['variants'][0]['f'][big[0]]['t'], (v[2], 'u'))
                    return self.transmute(base, x['variants'][0]['f'][big[0]]['t'], f['t'])
                return self.opq(f['t'], (v[2], 'u', i))
            if x['kind'] == 'enum':
                f = x['variants'][variant]['f'][i]
                return self.opq(f['t'], (v[2], 'v%d' % variant, i))
            f = x['variants'][0]['f'][i]
            return self.opq(f['t'], (v[2], i))
        if k == 'un':
            ty = v[3]
            fs = self.T[ty]['variants'][0]['f']
            if i == v[1]: return v[2]
            return self.transmute(v[2], fs[v[1]]['t'], fs[i]['t'])
        if k == 'uninit': return UNINIT
        if k in ('ptr', 'addr', 'null', 'fn', 'fnp') and i == 0:
            return v        # pattern types / transparent pointer wrappers
        if k in ('ptr', 'addr'): return UNIT          # their zero-sized companions
        if k == 'vec':
            if self.vec_fields()[i] == 'len': return v[1][1]
            raise Unsupported('buffer of a moved vector')
        if k == 'vecbuf':
            return v[1]
        raise Unsupported('field %s of %r' % (i, k))

    def nfields(self, v):
        if v[0] == 'agg': return len(v[1])
        if v[0] == 'opq': return len(self.T[v[1]]['variants'][0]['f'])
        raise Unsupported('nfields')

    # ------------------------------------------------------------ objects
    def root(self, st, obj):
        k = obj[0]
        if k == 'l':
            f = st.frames[obj[1]]
            v = f.locals.get(obj[2])
            if v is None:
                lt = self.I[f.inst]['body']['locals'][obj[2]]
                if self.T[lt].get('size') == 0:
                    try: return self.opq(lt, ('zst', lt))
                    except Dead: return UNINIT
                return UNINIT
            return v
        v = st.mem.get(obj)
        if v is not None: return v
        if k == 'o': return self.opq(obj[2], (obj[1], '*'))
        if k == 'os': return ('arr', sym((obj[1], 'len'), 0, (1 << 63) - 1, 64), ('opq', (obj[1], '*'), obj[2]), ())
        if k == 'a': return self.alloc_value(obj)
        if k == 's': raise Unsupported('static ' + str(obj))
        raise Unsupported('object %r' % (obj,))

    def set_root(self, st, obj, v):
        if obj[0] == 'l': st.frames[obj[1]].locals[obj[2]] = v
        else: st.mem[obj] = v

    def load(self, st, obj, path):
        v = self.root(st, obj)
        i = 0
        while i < len(path):
            e = path[i]
            if isinstance(v, tuple) and v[0] == 'vec' and e[0] == 'f':
                return self.vec_field(st, v, obj, path[:i], path[i:])
            v = self.step(st, v, e)
            i += 1
        return v

    def vec_field(self, st, v, obj, pre, rest):
        """a private field of Vec (inlined standard library code)"""
        vt = self.vec_fields()
        n = vt[rest[0][1]]
        if n == 'len': return v[1][1]
        return ('vecbuf', ('ptr', obj, pre + (('vd',), ('i', ZERO)), None))

    def vec_fields(self):
        r = getattr(self, '_vf', None)
        if r is None:
            for x in self.T:
                if x['k'] == 'adt' and x['path'] == 'std::vec::Vec':
                    r = [f['n'] for f in x['variants'][0]['f']]; break
            self._vf = r
        return r

    def step(self, st, v, e):
        k = e[0]
        if k == 'f': return self.field(v, e[1])
        if k == 'vf': return self.field(v, e[2], variant=e[1])
        if k == 'i':
            if isinstance(v, tuple) and v and v[0] == 'arr': return self.arr_get(st, v, e[1])
            return v           # element 0 of a single object
        if k == 'vd':
            if v[0] == 'vec': return v[1]
            if v[0] == 'agg' and v[1] and isinstance(v[1][0], tuple) and v[1][0][0] == 'vec': return v[1][0][1]
            raise Unsupported('vector data of %r' % (v[0],))
        if k == 'sub':
            if isinstance(v, tuple) and v and v[0] == 'arr': return self.arr_sub(st, v, e[1], e[2])
            if e[1] == ZERO and e[2] == K(1) and v != UNINIT: return ('arr', K(1), ('list', (v,)), ())
            return v
        if k == 'cast':
            if v[0] == 'uninit': return v
            return self.transmute(v, e[1], e[2], st)
        raise Unsupported('path ' + str(e))

    def store_at(self, st, obj, path, val):
        if not path:
            self.set_root(st, obj, val); return
        self.set_root(st, obj, self.update(st, self.root(st, obj), path, 0, val, self.obj_ty(st, obj)))

    def obj_ty(self, st, obj):
        if obj[0] == 'l': return self.I[st.frames[obj[1]].inst]['body']['locals'][obj[2]]
        if obj[0] in ('o', 'h'): return obj[2]
        return None

    def update(self, st, v, path, i, val, ty):
        if i == len(path): return val
        e = path[i]; k = e[0]
        if k == 'vd':
            if v[0] != 'vec': raise Unsupported('vector data of %r' % (v[0],))
            a = v[1]
            if i + 1 < len(path) and path[i + 1][0] == 'i':
                x = path[i + 1][1]
                if isinstance(x, Lin) and (x == a[1] or (x.is_const() and a[1].is_const() and x.c >= a[1].c)):
                    # into the spare room behind the elements; becomes an element when the length is set
                    if i + 2 != len(path): raise Unsupported('partial write behind a vector')
                    a = self.arr_norm(a)
                    if a[2][0] == 'fill': a = ('arr', a[1], ('sl', a, ZERO), ())
                    return ('vec', ('arr', a[1], a[2], a[3] + (('w', x, val),)))
            return ('vec', self.update(st, a, path, i + 1, val, ty))
        if v[0] == 'vec' and k == 'f' if isinstance(v, tuple) else False:
            if self.vec_fields()[e[1]] == 'len' and i + 1 == len(path):
                a = v[1]
                spare = [w for w in a[3] if w[0] == 'w']
                if a[1].is_const() and val.is_const() and val.c > a[1].c and val.c <= 4096:
                    if any(all(w[1] != K(j) for w in spare) for j in range(a[1].c, val.c)): raise Unsupported('set_len')
                    return ('vec', ('arr', val, ('list', tuple(self.arr_get(st, a, K(j)) for j in range(val.c))), ()))
                if val == a[1] + 1 and spare and a[3][-1][0] == 'w' and a[3][-1][1] == a[1]: return ('vec', ('arr', val, a[2], a[3]))
                if a[2][0] == 'list' and not st.store.ent_ge(a[1] - val): raise Unsupported('set_len')
                return ('vec', self.arr_sub(st, v[1], ZERO, val) if st.store.ent_ge(v[1][1] - val) else ('arr', val, v[1][2], v[1][3]))
            raise Unsupported('write into a vector')
        if k == 'f' or k == 'vf':
            variant = None if k == 'f' else e[1]
            n = e[1] if k == 'f' else e[2]
            if v[0] == 'uninit':
                if ty is None: raise Unsupported('write into uninitialised')
                x = self.T[ty]
                if x['k'] == 'adt' and x['kind'] == 'union':
                    return ('un', n, self.update(st, UNINIT, path, i + 1, val, x['variants'][0]['f'][n]['t']), ty)
                v = self.uninit_of(ty)
                if v[0] == 'uninit': raise Unsupported('write into uninitialised ' + self.T[ty]['s'])
            if v[0] == 'opq':
                x = self.T[v[1]]
                if x['kind'] == 'union':
                    return ('un', n, self.update(st, self.field(v, n), path, i + 1, val, x['variants'][0]['f'][n]['t']), v[1])
                if x['kind'] == 'enum':
                    fs = x['variants'][variant or 0]['f']
                    v = ('enum', v[1], variant or 0, tuple(self.field(v, j, variant=variant or 0) for j in range(len(fs))))
                else:
                    fs = x['variants'][0]['f']
                    v = ('agg', tuple(self.field(v, j) for j in range(len(fs))))
            ft = self.field_ty(ty, n, variant) if ty is not None else None
            if v[0] == 'agg':
                fs = list(v[1]); fs[n] = self.update(st, fs[n], path, i + 1, val, ft)
                return ('agg', tuple(fs))
            if v[0] == 'enum':
                fs = list(v[3]); fs[n] = self.update(st, fs[n], path, i + 1, val, ft)
                return ('enum', v[1], v[2], tuple(fs))
            if v[0] == 'un':
                return ('un', n, self.update(st, self.field(v, n), path, i + 1, val, self.T[v[3]]['variants'][0]['f'][n]['t']), v[3])
            if v[0] in ('ptr', 'addr') and n == 0:
                return self.update(st, v, path, i + 1, val, ft)
            raise Unsupported('update field of ' + str(v[0]))
        if k == 'i':
            et = self.elem_ty(ty)
            if v[0] == 'arr':
                nv = val if i + 1 == len(path) else self.update(st, self.arr_get(st, v, e[1]), path, i + 1, val, et)
                return self.arr_set(st, v, e[1], nv)
            if v[0] == 'uninit' and ty is not None and self.T[ty]['k'] == 'array':
                v = ('arr', K(self.T[ty]['len']), ('fill', UNINIT), ())
                nv = self.update(st, UNINIT, path, i + 1, val, et)
                return self.arr_set(st, v, e[1], nv)
            if e[1] == ZERO: return self.update(st, v, path, i + 1, val, ty)
            raise Unsupported('element update of ' + str(v[0]))
        if k == 'sub':
            if i + 1 != len(path): raise Unsupported('update below a range')
            isarr = isinstance(v, tuple) and v and v[0] == 'arr'
            if isarr and val[0] == 'arr':
                return self.arr_write_range(st, v, e[1], e[2], val)
            if not isarr and v != UNINIT and e[1] == ZERO and e[2] == K(1) and val[0] == 'arr': return self.arr_get(st, val, ZERO)
            return val
        if k == 'cast':
            S, U = e[1], e[2]
            ss, us = self.T[S].get('size'), self.T[U].get('size')
            inner = self.transmute(v, S, U) if i + 1 < len(path) else None
            nv = self.update(st, inner, path, i + 1, val, U)
            if ss == us: return self.transmute(nv, U, S)
            raise Unsupported('partial write through a cast')
        raise Unsupported('update path ' + str(e))

    def uninit_of(self, ty):
        x = self.T[ty]; k = x['k']
        if k == 'tuple': return ('agg', (UNINIT,) * len(x['fields']))
        if k == 'closure': return ('agg', (UNINIT,) * len(x['fields']))
        if k == 'adt' and x['kind'] == 'struct': return ('agg', (UNINIT,) * len(x['variants'][0]['f']))
        return UNINIT

    def field_ty(self, ty, n, variant=None):
        x = self.T[ty]; k = x['k']
        if k in ('tuple', 'closure'): return x['fields'][n]
        if k == 'adt': return x['variants'][variant or 0]['f'][n]['t']
        if k == 'pat': return x['base']
        return None

    def elem_ty(self, ty):
        if ty is None: return None
        x = self.T[ty]
        return x.get('elem')

    # ------------------------------------------------------------ arrays
    def decide(self, st, c):
        r = st.store.eval(c)
        if r is None: raise NeedSplit(c)
        return r

    def arr_base_get(self, st, a, idx):
        b = a[2]
        if b[0] == 'fill': return b[1]
        if b[0] == 'list':
            if idx.is_const():
                if not 0 <= idx.c < len(b[1]): raise Dead()
                return b[1][idx.c]
            if not b[1]: raise Dead()
            if all(x == b[1][0] for x in b[1]): return b[1][0]
            for j, x in enumerate(b[1][:-1]):
                if self.decide(st, c_eq(idx - j)): return x
            return b[1][-1]
        if b[0] == 'opq': return self.opq(b[2], (b[1], '[]', idx))
        if b[0] == 'sl': return self.arr_get(st, b[1], idx + b[2])
        raise Unsupported('array base')

    def arr_get(self, st, a, idx):
        for w in reversed(a[3]):
            if w[0] == 'w':
                if self.decide(st, c_eq(w[1] - idx)): return w[2]
            else:
                lo, n, src = w[1], w[2], w[3]
                if self.decide(st, c_ge(idx - lo)) and self.decide(st, c_ge(lo + n - idx - 1)):
                    return self.arr_get(st, src, idx - lo)
        return self.arr_base_get(st, a, idx)

    def arr_norm(self, a):
        """explicit list when short and of known length"""
        if a[2][0] == 'fill' and a[1].is_const() and a[1].c <= 300:
            return ('arr', a[1], ('list', (a[2][1],) * a[1].c), a[3])
        return a

    def arr_set(self, st, a, idx, v):
        if idx.is_const() and not a[3]:
            a = self.arr_norm(a)
            if a[2][0] == 'opq' and a[1].is_const() and a[1].c <= 64:
                a = ('arr', a[1], ('list', tuple(self.opq(a[2][2], (a[2][1], '[]', K(j))) for j in range(a[1].c))), ())
        if idx.is_const() and a[2][0] == 'list' and not a[3]:
            if not 0 <= idx.c < len(a[2][1]): raise Dead()
            l = list(a[2][1]); l[idx.c] = v
            return ('arr', a[1], ('list', tuple(l)), ())
        ws = tuple(w for w in a[3] if not (w[0] == 'w' and w[1] == idx and w is a[3][-1]))
        return ('arr', a[1], a[2], ws + (('w', idx, v),))

    def arr_sub(self, st, a, lo, n):
        if lo == ZERO and n == a[1]: return a
        if n.is_const() and n.c <= 300:
            if n.c == 0: return ('arr', ZERO, ('list', ()), ())
            return ('arr', n, ('list', tuple(self.arr_get(st, a, lo + j) for j in range(n.c))), ())
        if not a[3]:
            if a[2][0] == 'fill': return ('arr', n, a[2], ())
            if a[2][0] == 'sl': return ('arr', n, ('sl', a[2][1], a[2][2] + lo), ())
        return ('arr', n, ('sl', a, lo), ())

    def arr_write_range(self, st, a, lo, n, src):
        """elements lo..lo+n become src's"""
        if n == ZERO: return a
        if lo == ZERO and n == a[1]: return ('arr', a[1], src[2], src[3])
        if lo.is_const() and n.is_const() and a[1].is_const() and a[1].c <= 300 and not a[3]:
            a2 = self.arr_norm(a)
            if a2[2][0] == 'opq':
                a2 = ('arr', a2[1], ('list', tuple(self.opq(a2[2][2], (a2[2][1], '[]', K(j))) for j in range(a2[1].c))), ())
            if a2[2][0] == 'list':
                l = list(a2[2][1])
                for j in range(n.c): l[lo.c + j] = self.arr_get(st, src, K(j))
                return ('arr', a[1], ('list', tuple(l)), ())
        return ('arr', a[1], a[2], a[3] + (('r', lo, n, src),))

    def arr_list(self, st, a):
        """elements when the length is a known small constant"""
        if not a[1].is_const() or a[1].c > 4096: return None
        return [self.arr_get(st, a, K(j)) for j in range(a[1].c)]

    # ------------------------------------------------------------ layout, transmutation
    def lay(self, t):
        x = self.T[t]
        l = x.get('lay')
        if l is None: raise Unsupported('layout of ' + x['s'])
        return l

    def is_thin_scalar(self, t): return self.T[t]['k'] in ('int', 'char', 'bool', 'float')

    def flatten(self, v, t, off, out, st=None):
        x = self.T[t]; k = x['k']
        if x.get('size') == 0: return
        if k in ('int', 'char', 'bool', 'float'):
            out.append((off, x['size'], k, v, x)); return
        if k in ('ref', 'rawptr', 'fnptr'):
            out.append((off, x['size'], 'ptr', v, x)); return
        if k == 'pat': return self.flatten(v, x['base'], off, out, st)
        if v == UNINIT:
            out.append((off, x['size'], 'uninit', v, x)); return
        if k == 'array':
            es = self.T[x['elem']]['size']
            if v[0] != 'arr' or x['len'] > 4096: raise Unsupported('flatten array')
            for j in range(x['len']): self.flatten(self.arr_get(st, v, K(j)), x['elem'], off + j * es, out, st)
            return
        if k in ('tuple', 'closure') or (k == 'adt' and x['kind'] == 'struct'):
            fs = x['fields'] if k != 'adt' else [f['t'] for f in x['variants'][0]['f']]
            if v[0] in ('vec', 'boxv'):
                out.append((off, x['size'], 'opaque', v, x)); return
            for j, (ft, o) in enumerate(zip(fs, self.lay(t)['offs'])):
                if self.T[ft].get('size') == 0: continue
                self.flatten(self.field(v, j), ft, off + o, out, st)
            return
        if k == 'adt' and x['kind'] == 'union':
            if v[0] == 'opq':
                fs = x['variants'][0]['f']
                j = [j for j, g in enumerate(fs) if self.T[g['t']].get('size') == x['size']]
                if not j: raise Unsupported('flatten union ' + x['s'])
                return self.flatten(self.field(v, j[0]), fs[j[0]]['t'], off, out, st)
            return self.flatten(v[2], x['variants'][0]['f'][v[1]]['t'], off, out, st)
        if k == 'adt' and x['kind'] == 'enum':
            l = self.lay(t)
            if v[0] == 'opq' and all(not y['f'] for y in x['variants']):
                d = self.discr(v, t)
                if 'tag_size' in l:
                    out.append((off + l['tag_off'], l['tag_size'], 'int', d, {'signed': True, 'bits': 8 * l['tag_size'], 'size': l['tag_size']})); return
            if v[0] == 'enum':
                var = v[2]
                if 'single' in l: voff = l['offs']
                else:
                    voff = l['voffs'][var]
                    if l['enc']['direct']:
                        d = int(x['variants'][var]['d'])
                        out.append((off + l['tag_off'], l['tag_size'], 'int', K(d & ((1 << 8 * l['tag_size']) - 1)), {'signed': False, 'bits': 8 * l['tag_size']}))
                    elif var != l['enc']['untagged']:
                        e = l['enc']
                        d = (int(e['start']) + var - e['first']) & ((1 << 8 * l['tag_size']) - 1)
                        out.append((off + l['tag_off'], l['tag_size'], 'int', K(d), {'signed': False, 'bits': 8 * l['tag_size']}))
                for j, f in enumerate(x['variants'][var]['f']):
                    if self.T[f['t']].get('size') == 0: continue
                    self.flatten(v[3][j], f['t'], off + voff[j], out, st)
                return
            out.append((off, x['size'], 'opaque', v, x)); return
        raise Unsupported('flatten ' + x['s'])

    def to_unsigned(self, v, x, bits):
        """unsigned reading of an integer leaf"""
        if isinstance(v, Lin):
            l = v.lo()
            if l is not None and l >= 0: return v
            if v.is_const(): return K(v.c & ((1 << bits) - 1))
            a = v.single()
            if a is not None and a.kind == 'sgn': return a.args[0]
            return lin(atom('uns', (v, bits), 0, (1 << bits) - 1, bits))
        raise Unsupported('unsigned of ' + str(v))

    def to_signed(self, v, bits):
        h = v.hi()
        if h is not None and h < 1 << (bits - 1): return v
        if v.is_const():
            return K(v.c - (1 << bits) if v.c >> (bits - 1) else v.c)
        a = v.single()
        if a is not None and a.kind == 'uns': return a.args[0]
        return lin(atom('sgn', (v, bits), -(1 << (bits - 1)), (1 << (bits - 1)) - 1, bits))

    def leaf_bytes(self, leaf):
        off, size, k, v, x = leaf
        if k == 'int' or k == 'char':
            return to_bytes(self.to_unsigned(v, x, 8 * size), size)
        if k == 'bool':
            if v is True: return [ONE]
            if v is False: return [ZERO]
            raise NeedSplit(v)
        if k == 'float':
            if v == UNINIT: raise Unsupported('uninit float bytes')
            return to_bytes(self.float_bits(v, 8 * size), size)
        raise Unsupported('bytes of ' + k)

    def float_bits(self, p, bits):
        c = p.const()
        if c is not None:
            try: return K(struct.unpack('<Q' if bits == 64 else '<I', struct.pack('<d' if bits == 64 else '<f', float(c)))[0])
            except OverflowError: pass
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            a, e = p.t[0][0][0]
            if e == 1 and a.kind == 'frombits' and a.args[1] == bits: return a.args[0]
        return lin(atom('fbits', (p, bits), 0, (1 << bits) - 1, bits))

    def bits_float(self, x, bits):
        if x.is_const():
            f = struct.unpack('<d' if bits == 64 else '<f', x.c.to_bytes(bits // 8, 'little'))[0]
            if f != f or f in (float('inf'), float('-inf')): return pa('app', ('nonfinite', x.c, bits))
            return P(Fraction(f))
        a = x.single()
        if a is not None and a.kind == 'fbits' and a.args[1] == bits: return a.args[0]
        return pa('frombits', (x, bits))

    def same_wrapper(self, S, U):
        return self.peel(S) == self.peel(U)

    def peel(self, t):
        """strip single-field transparent structure"""
        while True:
            x = self.T[t]
            if x['k'] == 'pat': t = x['base']; continue
            if x['k'] == 'adt' and x['kind'] == 'struct':
                fs = [f['t'] for f in x['variants'][0]['f'] if self.T[f['t']].get('size') != 0]
                if len(fs) == 1 and self.T[fs[0]].get('size') == x.get('size'): t = fs[0]; continue
            return t

    def transmute(self, v, S, U, st=None):
        if S == U: return v
        if v == UNINIT: return UNINIT
        if v[0] in ('vec', 'boxv', 'str') if isinstance(v, tuple) else False:
            return v
        leaves = []
        self.flatten(v, S, 0, leaves, st)
        if self.T[S].get('size') is not None and self.T[U].get('size') is not None and self.T[U]['size'] > self.T[S]['size']:
            raise Unsupported('transmute to larger')
        return self.build(U, 0, leaves, st)

    def int_at(self, leaves, off, size):
        for l in leaves:
            if l[0] == off and l[1] == size:
                if l[2] in ('int', 'char'): return l
                if l[2] in ('float',): return (off, size, 'int', self.float_bits(l[3], 8 * size), {'signed': False})
                if l[2] in ('ptr', 'opaque', 'uninit'): return l
        bs = [None] * size
        for l in leaves:
            if l[0] < off + size and l[0] + l[1] > off:
                b = self.leaf_bytes(l)
                for j in range(l[1]):
                    if off <= l[0] + j < off + size: bs[l[0] + j - off] = b[j]
        if any(b is None for b in bs): raise Unsupported('transmute of padding')
        return (off, size, 'int', word(bs), {'signed': False})

    def build(self, t, off, leaves, st=None):
        x = self.T[t]; k = x['k']
        if x.get('size') == 0:
            return self.opq(t, ('zst', t))
        if k in ('int', 'char', 'bool', 'float'):
            for l in leaves:
                if l[0] == off and l[1] == x['size'] and l[2] == k and (k != 'int' or l[4].get('signed') == x['signed']): return l[3]
            l = self.int_at(leaves, off, x['size'])
            if l[2] == 'uninit': return UNINIT
            if l[2] == 'ptr':
                if k != 'int': raise Unsupported('pointer as ' + k)
                return self.ptr_addr(l[3])
            if l[2] == 'opaque': raise Unsupported('opaque bytes')
            v = l[3]; bits = 8 * x['size']
            if k == 'int':
                if v == UNINIT: return v
                if x['signed']: return self.to_signed(self.to_unsigned(v, None, bits), bits)
                return self.to_unsigned(v, None, bits)
            if k == 'char': return self.to_unsigned(v, None, bits)
            if k == 'bool':
                return c_not(c_eq(v))
            return self.bits_float(self.to_unsigned(v, None, bits), bits)
        if k in ('ref', 'rawptr', 'fnptr'):
            for l in leaves:
                if l[0] == off and l[2] == 'ptr':
                    return l[3]
            l = self.int_at(leaves, off, 8)
            if l[2] == 'opaque' or l[2] == 'uninit': return l[3]
            return ('addr', l[3])
        if k == 'pat': return self.build(x['base'], off, leaves, st)
        for l in leaves:
            if l[2] in ('opaque', 'uninit') and l[0] == off and l[1] == x['size']:
                return l[3]
        if k == 'array':
            es = self.T[x['elem']]['size']
            return ('arr', K(x['len']), ('list', tuple(self.build(x['elem'], off + j * es, leaves, st) for j in range(x['len']))), ())
        if k in ('tuple', 'closure'):
            return ('agg', tuple(self.build(f, off + o, leaves, st) for f, o in zip(x['fields'], self.lay(t)['offs'])))
        if k == 'adt' and x['kind'] == 'struct':
            return ('agg', tuple(self.build(f['t'], off + o, leaves, st) for f, o in zip(x['variants'][0]['f'], self.lay(t)['offs'])))
        if k == 'adt' and x['kind'] == 'union':
            for j, f in enumerate(x['variants'][0]['f']):
                if self.T[f['t']].get('size') == x['size']:
                    return ('un', j, self.build(f['t'], off, leaves, st), t)
            raise Unsupported('build union ' + x['s'])
        if k == 'adt' and x['kind'] == 'enum':
            l = self.lay(t)
            if 'single' in l:
                var = l['single']
                return ('enum', t, var, tuple(self.build(f['t'], off + o, leaves, st) for f, o in zip(x['variants'][var]['f'], l['offs'])))
            if not l['enc']['direct']:
                e = l['enc']
                for q in leaves:
                    if q[0] == off + l['tag_off'] and q[2] == 'ptr' and q[3][0] != 'addr':
                        var = e['untagged']
                        return ('enum', t, var, tuple(self.build(f['t'], off + o, leaves, st) for f, o in zip(x['variants'][var]['f'], l['voffs'][var])))
            q = self.int_at(leaves, off + l['tag_off'], l['tag_size'])
            d = q[3]
            if d[0] == 'addr' if isinstance(d, tuple) else False: d = d[1]
            if not isinstance(d, Lin): raise Unsupported('build enum')
            d = self.to_unsigned(d, None, 8 * l['tag_size'])
            var = None
            if l['enc']['direct']:
                for n, vv in enumerate(x['variants']):
                    c = c_eq(d - (int(vv['d']) & ((1 << 8 * l['tag_size']) - 1)))
                    r = c if isinstance(c, bool) else (st.store.eval(c) if st is not None else None)
                    if r is None: raise NeedSplit(c)
                    if r: var = n; break
                if var is None: raise Dead()
            else:
                e = l['enc']
                for n in range(e['first'], e['last'] + 1):
                    c = c_eq(d - ((int(e['start']) + n - e['first']) & ((1 << 8 * l['tag_size']) - 1)))
                    r = c if isinstance(c, bool) else (st.store.eval(c) if st is not None else None)
                    if r is None: raise NeedSplit(c)
                    if r: var = n; break
                if var is None: var = e['untagged']
            return ('enum', t, var, tuple(self.build(f['t'], off + o, leaves, st) for f, o in zip(x['variants'][var]['f'], l['voffs'][var])))
        raise Unsupported('build ' + x['s'])

    def ptr_addr(self, v):
        if v[0] == 'addr': return v[1]
        return lin(atom('addr', (v,), 1, (1 << 64) - 1, 64))

    # ------------------------------------------------------------ constants
    def alloc_value(self, obj):
        """('a', allocid, off, ty) or ('a', allocid, off, ('arr', elem, n))"""
        al = self.p.allocs.get(str(obj[1]))
        if al is None or al['k'] != 'mem':
            if al is not None and al['k'] == 'static': raise Unsupported('static ' + al['path'])
            raise Unsupported('alloc')
        t = obj[3]
        if isinstance(t, tuple):
            es = self.T[t[1]]['size']
            return ('arr', K(t[2]), ('list', tuple(self.decode(al, obj[2] + j * es, t[1]) for j in range(t[2]))), ())
        return self.decode(al, obj[2], t)

    def decode(self, al, off, t):
        """constant memory -> value"""
        x = self.T[t]; k = x['k']
        size = x.get('size')
        if size == 0: return self.opq(t, ('zst', t))
        rel = {r[0]: r for r in al['rel']}
        def raw(o, n):
            s = al['hex'][2 * o:2 * (o + n)]
            if '_' in s or len(s) < 2 * n: return None
            return int.from_bytes(bytes.fromhex(s), 'little')
        if k in ('int', 'char'):
            if off in rel: raise Unsupported('pointer bytes')
            v = raw(off, size)
            if v is None: return UNINIT
            if k == 'int' and x['signed'] and v >> (8 * size - 1): v -= 1 << (8 * size)
            return K(v)
        if k == 'bool':
            v = raw(off, 1)
            return UNINIT if v is None else bool(v)
        if k == 'float': return self.bits_float(K(raw(off, size)), 8 * size)
        if k in ('ref', 'rawptr'):
            if off not in rel: return ('addr', K(raw(off, 8)))
            aid = rel[off][1]; o2 = raw(off, 8) or 0
            to = self.T[x['to']]
            if to['k'] in ('slice', 'str'):
                return self.slice_const(aid, o2, raw(off + 8, 8), to['elem'] if to['k'] == 'slice' else self.p.ty('u8'))
            if to['k'] == 'dyn': return ('ptr', ('a', aid, o2, x['to']), (), ('dyn', ('const', aid)))
            tgt = self.p.allocs.get(str(aid))
            if tgt and tgt['k'] == 'static': return ('ptr', ('s', tgt['path']), (), None)
            return ('ptr', ('a', aid, o2, x['to']), (), None)
        if k == 'fnptr':
            tgt = self.p.allocs.get(str(rel[off][1]))
            return ('fn', tgt['inst'])
        if k == 'pat': return self.decode(al, off, x['base'])
        if k == 'array':
            es = self.T[x['elem']]['size']
            return ('arr', K(x['len']), ('list', tuple(self.decode(al, off + j * es, x['elem']) for j in range(x['len']))), ())
        if k in ('tuple', 'closure'):
            return ('agg', tuple(self.decode(al, off + o, f) for f, o in zip(x['fields'], self.lay(t)['offs'])))
        if k == 'adt':
            l = self.lay(t)
            if x['kind'] == 'struct':
                return ('agg', tuple(self.decode(al, off + o, f['t']) for f, o in zip(x['variants'][0]['f'], l['offs'])))
            if x['kind'] == 'union':
                for j, f in enumerate(x['variants'][0]['f']):
                    if self.T[f['t']].get('size') == size: return ('un', j, self.decode(al, off, f['t']), t)
                raise Unsupported('union const')
            if 'single' in l: var = l['single']; vo = l['offs']
            else:
                to = off + l['tag_off']
                isptr = to in rel
                d = None if isptr else raw(to, l['tag_size'])
                var = None
                if l['enc']['direct']:
                    for n, v in enumerate(x['variants']):
                        if int(v['d']) & ((1 << 8 * l['tag_size']) - 1) == d: var = n
                else:
                    e = l['enc']; var = e['untagged']
                    if d is not None:
                        for n in range(e['first'], e['last'] + 1):
                            if (int(e['start']) + n - e['first']) & ((1 << 8 * l['tag_size']) - 1) == d: var = n
                vo = l['voffs'][var]
            return ('enum', t, var, tuple(self.decode(al, off + o, f['t']) for f, o in zip(x['variants'][var]['f'], vo)))
        raise Unsupported('const ' + x['s'])

    def slice_const(self, aid, off, n, elem):
        return ('ptr', ('a', aid, off, ('arr', elem, n)), (('sub', ZERO, K(n)),), None)

    def constant(self, c):
        t = c['t']; x = self.T[t]
        if 'int' in c:
            n = int(c['int'])
            k = x['k']
            if k == 'int':
                if x['signed'] and n >> (x['bits'] - 1): n -= 1 << x['bits']
                return K(n)
            if k == 'char': return K(n)
            if k == 'bool': return bool(n)
            if k == 'float': return self.bits_float(K(n), 8 * c['sz'])
            if k in ('rawptr', 'ref', 'fnptr'): return ('addr', K(n))
            return self.build(t, 0, [(0, c['sz'], 'int', K(n), {'signed': False})])
        if 'zst' in c: return self.opq(t, ('zst', t))
        if 'slice' in c:
            to = self.T[x['to']] if x['k'] in ('ref', 'rawptr') else None
            if to is None: raise Unsupported('slice const of ' + x['s'])
            if to['k'] == 'str': return self.slice_const(c['slice'], 0, c['len'], self.p.ty('u8'))
            return self.slice_const(c['slice'], 0, c['len'], to['elem'])
        if 'ptr' in c:
            al = self.p.allocs.get(str(c['ptr']))
            if al['k'] == 'static': return ('ptr', ('s', al['path']), (), None)
            if al['k'] == 'fn': return ('fn', al['inst'])
            if x['k'] in ('ref', 'rawptr'):
                return ('ptr', ('a', c['ptr'], c['off'], x['to']), (), None)
            leaf = [(0, 8, 'ptr', ('ptr', ('a', c['ptr'], c['off'], None), (), None), x)]
            return self.build(t, 0, leaf)
        if 'ind' in c:
            return self.decode(self.p.allocs[str(c['ind'])], c['off'], t)
        raise Unsupported('constant of ' + x['s'])

    # ------------------------------------------------------------ places and operands
    def place(self, st, pl):
        """-> (obj, path, meta)"""
        f = st.frames[-1]
        obj = ('l', f.fid, pl[0]); path = (); meta = None
        variant = None
        for e in pl[1]:
            k = e[0]
            if k == 'd':
                v = self.load(st, obj, path)
                v = self.as_ptr(st, v)
                if v[0] == 'addr': raise Unsupported('dereference of an address')
                obj, path, meta = v[1], v[2], v[3]
            elif k == 'f':
                if variant is not None: path = path + (('vf', variant, e[1]),); variant = None
                else: path = path + (('f', e[1]),)
            elif k == 'v': variant = e[1]
            elif k == 'i':
                i = self.load(st, ('l', f.fid, e[1]), ())
                path = self.idx(path, i)
            elif k == 'ci':
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    n = self.place_len(st, obj, path)
                    path = self.idx(path, n - off)
                else: path = self.idx(path, K(off))
            elif k == 'ss':
                fr, to, fe = e[1], e[2], e[3]
                n = self.place_len(st, obj, path)
                ln = (n - to - fr) if fe else K(to - fr)
                if path and path[-1][0] == 'sub': path = path[:-1] + (('sub', path[-1][1] + fr, ln),)
                else: path = path + (('sub', K(fr), ln),)
            else: raise Unsupported('projection ' + k)
        if variant is not None: pass
        return obj, path, meta

    def idx(self, path, i):
        if path and path[-1][0] == 'sub': return path[:-1] + (('i', path[-1][1] + i),)
        return path + (('i', i),)

    def place_len(self, st, obj, path):
        if path and path[-1][0] == 'sub': return path[-1][2]
        v = self.load(st, obj, path)
        if v[0] == 'arr': return v[1]
        raise Unsupported('length of place')

    def as_ptr(self, st, v):
        """the pointer inside a reference, raw pointer or Box"""
        n = 0
        if v[0] == 'vecbuf': v = v[1]
        while isinstance(v, tuple) and v[0] in ('agg', 'opq') and n < 6:
            v = self.field(v, 0); n += 1
        if isinstance(v, tuple) and v[0] in ('ptr', 'addr'): return v
        raise Unsupported('pointer expected, got %s' % (str(v)[:60],))

    def operand(self, st, o):
        k = o[0]
        if k in ('cp', 'mv'):
            pl = o[1]
            if not pl[1]:
                v = st.frames[-1].locals.get(pl[0])
                if v is not None: return v
            obj, path, meta = self.place(st, pl)
            v = self.load(st, obj, path)
            return v
        if k == 'c': return self.constant(o[1])
        if k == 'rc': return False
        raise Unsupported('operand ' + str(k))

    def place_ty(self, st, pl):
        f = st.frames[-1]
        t = self.I[f.inst]['body']['locals'][pl[0]]
        var = None
        for e in pl[1]:
            k = e[0]
            if k == 'd':
                x = self.T[t]
                if x['k'] in ('ref', 'rawptr'): t = x['to']
                elif x.get('box'): t = x['targs'][0]
                else: raise Unsupported('deref type')
            elif k == 'f': t = e[2]
            elif k in ('i', 'ci'): t = self.T[t]['elem']
            elif k == 'ss': pass
            elif k == 'v': pass
        return t

    def op_ty(self, st, o):
        if o[0] in ('cp', 'mv'): return self.place_ty(st, o[1])
        if o[0] == 'c': return o[1]['t']
        return self.p.ty('bool')

    # ------------------------------------------------------------ arithmetic
    def fit(self, st, x, lo, hi):
        """x already inside lo..hi?  True / False (certainly outside) / NeedSplit"""
        a = self.decide(st, c_ge(x - lo))
        if not a: return -1
        b = self.decide(st, c_ge(K(hi) - x))
        return 0 if b else 1

    def wrap(self, st, x, t):
        """reduction of a mathematical integer to the machine type t"""
        bits = t['bits'] if t['k'] == 'int' else 32
        signed = t['k'] == 'int' and t['signed']
        lo, hi = int_range(bits, signed)
        l, h = x.lo(), x.hi()
        if l is not None and h is not None and l >= lo and h <= hi: return x
        x = st.store.cval(x)
        if x.is_const():
            v = x.c & ((1 << bits) - 1)
            if signed and v >> (bits - 1): v -= 1 << bits
            return K(v)
        m = 1 << bits
        if not (st.store.ent_ge(x - lo) and st.store.ent_ge(K(hi) - x)):
            if signed:
                if l is not None and l >= 0 and h < m: return self.to_signed(self.as_word(x, bits), bits)
                if l is not None and h is not None and h - l < 2 * m:
                    r = self.fit(st, x, lo, hi)
                    if r == 0: return x
                    return self.wrap(st, x - r * m, t)
                return self.to_signed(self.mod_pow2(x, bits), bits)
            a = x.single()
            if a is not None and l is not None and l < 0 and l >= -m // 2 and a.bits == bits and a.kind == 'sgn':
                return a.args[0]
            if l is not None and h is not None and -m <= l and h < 2 * m and not (l >= 0 and self.bytesy(x)) and not (a is not None and a.kind == 'div'):
                r = self.fit(st, x, lo, hi)
                if r == 0: return x
                return self.wrap(st, x - r * m, t)
            return self.mod_pow2(x, bits)
        return x

    def bytesy(self, x):
        a = x.single()
        if a is not None and a.kind in ('word', 'byte'): return True
        from terms import _bytes_sum
        return a is None and x.c >= 0 and all(k > 0 for _, k in x.t) and _bytes_sum(x) is not None

    def as_word(self, x, bits):
        return x

    def mod_pow2(self, x, bits):
        if x.is_const(): return K(x.c & ((1 << bits) - 1))
        l, h = x.lo(), x.hi()
        if l is not None and h is not None and l >= 0 and h < 1 << bits: return x
        a = x.single()
        if bits % 8 == 0 and l is not None and l >= 0:
            if a is not None and a.kind == 'word':
                return word(list(a.args[:bits // 8]))
            if a is not None and a.kind == 'div' and a.args[1] > 1:
                y, c = a.args
                b = c.bit_length() - 1
                ya = y.single()
                if c == 1 << b and b % 8 == 0 and ya is not None and ya.bits >= 16 and ya.lo is not None and ya.lo >= 0:
                    return word([byte_of(y, b // 8 + j) for j in range(bits // 8)])
            if a is not None and a.bits >= 16: return word([byte_of(x, j) for j in range(bits // 8)])
            from terms import _bytes_sum
            if all(k > 0 for _, k in x.t):
                bs = _bytes_sum(x)
                if bs is not None: return word((bs + [ZERO] * 8)[:bits // 8])
        # drop multiples of the modulus
        m = 1 << bits
        x2 = Lin(x.c % m, tuple((b, k % m if k % m <= m // 2 or k > 0 else k % m - m) for b, k in x.t if k % m))
        if x2.is_const(): return K(x2.c % m)
        l, h = x2.lo(), x2.hi()
        if l is not None and h is not None and l >= 0 and h < m: return x2
        return x2 - div_floor(x2, m).scale(m)

    def band(self, st, x, y, bits):
        if x.is_const(): x, y = y, x
        if x.is_const(): return K(x.c & y.c)
        if y.is_const():
            m = y.c & ((1 << bits) - 1)
            if m == 0: return ZERO
            l = x.lo()
            if l is None or l < 0:
                if not st.store.ent_ge(x):
                    ux = self.to_unsigned(x, None, bits)
                    r = self.band(st, ux, K(m), bits)
                    return r
            h = x.hi()
            if h is not None and m >= (1 << h.bit_length()) - 1 and (m & (m + 1)) == 0: return x
            if m & (m + 1) == 0 and st.store.ent_ge(K(m) - x): return x
            a = x.single()
            if all(((m >> (8 * i)) & 255) in (0, 255) for i in range(bits // 8)) and (self.bytesy(x) or (a is not None and a.bits >= 16 and a.lo is not None and a.lo >= 0)):
                return word([byte_of(x, i) if (m >> (8 * i)) & 255 else ZERO for i in range(bits // 8)])
            s = (m & -m).bit_length() - 1
            mm = m >> s
            if mm & (mm + 1) == 0:
                d = div_floor(x, 1 << s)
                return self.mod_pow2(d, mm.bit_length()).scale(1 << s)
        lo = 0
        hs = [z.hi() for z in (x, y) if z.hi() is not None]
        if x.h > y.h: x, y = y, x
        return lin(atom('band', (x, y), 0, min(hs) if hs else None, bits))

    def low_zeros(self, x):
        """2^k dividing x"""
        from math import gcd
        g = abs(x.c)
        for a, k in x.t: g = gcd(g, k)
        return g & -g if g else 1 << 70

    def bor(self, st, x, y, bits):
        if x == ZERO: return y
        if y == ZERO: return x
        if x.is_const() and y.is_const(): return K(x.c | y.c)
        if x == y: return x
        for a, b in ((x, y), (y, x)):
            h = b.hi(); l = b.lo()
            if l is not None and l >= 0 and h is not None and h < self.low_zeros(a) and a.lo() is not None and a.lo() >= 0: return a + b
        # disjoint bytes
        bx = [byte_of(x, i) for i in range(bits // 8)] if x.lo() is not None and x.lo() >= 0 else None
        by = [byte_of(y, i) for i in range(bits // 8)] if y.lo() is not None and y.lo() >= 0 else None
        if bx and by and all(p == ZERO or q == ZERO for p, q in zip(bx, by)):
            return word([q if p == ZERO else p for p, q in zip(bx, by)])
        if x.h > y.h: x, y = y, x
        return lin(atom('bor', (x, y), 0, (1 << bits) - 1, bits))

    def binop(self, st, op, a, b, ta, tb, rt=None):
        x = self.T[ta]
        k = x['k']
        if k == 'float': return self.fbin(st, op, a, b)
        if k == 'bool':
            if op == 'BitAnd': return c_and(a, b)
            if op == 'BitOr': return c_or(a, b)
            if op == 'BitXor' or op == 'Ne': return c_xor(a, b)
            if op == 'Eq': return c_not(c_xor(a, b))
            raise Unsupported('bool ' + op)
        if k in ('ref', 'rawptr', 'fnptr'):
            if op == 'Offset': return self.ptr_add(st, a, b)
            return self.ptr_cmp(st, op, a, b)
        if k == 'adt' or k == 'tuple': raise Unsupported('binop on ' + x['s'])
        if not isinstance(a, Lin) or not isinstance(b, Lin): raise Unsupported('binop %s on %r %r' % (op, a, b))
        bits = x['bits'] if k == 'int' else 32
        signed = k == 'int' and x['signed']
        lo, hi = int_range(bits, signed)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return self.icmp(op, a, b)
        if op == 'Cmp':
            ot = rt
            if self.decide(st, c_ge(b - a - 1)): return enum(ot, 0)
            if self.decide(st, c_eq(a - b)): return enum(ot, 1)
            return enum(ot, 2)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = self.arith(st, op[:3], a, b)
            w = self.fit(st, r, lo, hi)
            if w == 0: return agg(r, False)
            return agg(self.wrap(st, r, x), True)
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'): return self.arith(st, op[:3], a, b)
        if op in ('Add', 'Sub', 'Mul'): return self.wrap(st, self.arith(st, op, a, b), x)
        if op in ('Div', 'Rem'):
            if b.is_const() and b.c != 0:
                c = b.c
                neg = False
                if c < 0: c = -c; neg = True
                if signed and not (a.lo() is not None and a.lo() >= 0):
                    if not self.decide(st, c_ge(a)):
                        q = -div_floor(-a, c)
                    else: q = div_floor(a, c)
                else: q = div_floor(a, c)
                if op == 'Rem': return a - q.scale(c)
                return -q if neg else q
            return lin(atom('idiv' if op == 'Div' else 'irem', (a, b), lo if op == 'Div' else (lo if signed else 0), hi))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if signed:
                if a.is_const() and b.is_const():
                    n = {'BitAnd': a.c & b.c, 'BitOr': a.c | b.c, 'BitXor': a.c ^ b.c}[op]
                    return K(n)
                ua, ub = self.to_unsigned(a, None, bits), self.to_unsigned(b, None, bits)
                if st.store.ent_ge(a): ua = a
                if st.store.ent_ge(b): ub = b
                return self.to_signed(self.bitop(st, op, ua, ub, bits), bits)
            return self.bitop(st, op, a, b, bits)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if not b.is_const():
                return lin(atom(op, (a, b), lo, hi, bits))
            s = b.c % bits
            if op.startswith('Shl'):
                if not signed:
                    return self.wrap(st, self.mod_pow2(a, bits - s).scale(1 << s) if s else a, x)
                return self.wrap(st, a.scale(1 << s), x)
            if signed:
                # arithmetic shift is floor division
                if a.lo() is not None and a.lo() >= 0: return self.shr(a, s)
                return div_floor(a, 1 << s)
            return self.shr(a, s)
        raise Unsupported('binop ' + op)

    def shr(self, a, s):
        if s == 0: return a
        y = a.single()
        if s % 8 == 0 and y is not None and y.bits >= 16 and y.lo is not None and y.lo >= 0 and y.kind != 'div':
            n = y.bits // 8
            return word([byte_of(a, i) for i in range(s // 8, n)]) if s // 8 < n else ZERO
        if y is not None and y.kind == 'div':
            return div_floor(y.args[0], y.args[1] << s)
        return div_floor(a, 1 << s)

    def bitop(self, st, op, a, b, bits):
        if op == 'BitAnd': return self.band(st, a, b, bits)
        if op == 'BitOr': return self.bor(st, a, b, bits)
        if a.is_const() and b.is_const(): return K(a.c ^ b.c)
        if a == b: return ZERO
        if b.is_const() and b.c == 0: return a
        if a.is_const() and a.c == 0: return b
        if b.is_const() and b.c == (1 << bits) - 1: return b - a
        if a.is_const() and a.c == (1 << bits) - 1: return a - b
        if a.h > b.h: a, b = b, a
        return lin(atom('bxor', (a, b), 0, (1 << bits) - 1, bits))

    def arith(self, st, op, a, b):
        if op == 'Add': return a + b
        if op == 'Sub': return a - b
        if a.is_const(): return b.scale(a.c)
        if b.is_const(): return a.scale(b.c)
        if a.h > b.h: a, b = b, a
        l1, h1, l2, h2 = a.lo(), a.hi(), b.lo(), b.hi()
        lo = hi = None
        if None not in (l1, h1, l2, h2):
            ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]; lo, hi = min(ps), max(ps)
        return lin(atom('mul', (a, b), lo, hi))

    def icmp(self, op, a, b):
        if op == 'Eq': return c_eq(a - b)
        if op == 'Ne': return c_not(c_eq(a - b))
        if op == 'Lt': return c_ge(b - a - 1)
        if op == 'Le': return c_ge(b - a)
        if op == 'Gt': return c_ge(a - b - 1)
        return c_ge(a - b)

    def fbin(self, st, op, a, b):
        if not isinstance(a, Poly) or not isinstance(b, Poly): raise Unsupported('float op on %r' % (a,))
        if op == 'Add': return a + b
        if op == 'Sub': return a - b
        if op == 'Mul': return a * b
        if op == 'Div': return a * pinv(b)
        if op == 'Rem': return pa('frem', (a, b))
        nan = c_or(self.is_nan(a), self.is_nan(b))
        if nan is not False:
            r = self.fcmp(op, a - b)
            return c_or(nan, r) if op == 'Ne' else c_and(c_not(nan), r)
        return self.fcmp(op, a - b)

    def is_nan(self, p):
        """is the number not one? undetermined for every unknown when NaNs are part of the analysis"""
        r = False
        for m, _ in p.t:
            for a, _ in m:
                if a.kind == 'app' and a.args and a.args[0] == 'nonfinite':
                    x, bits = a.args[1:3]
                    if x & ((1 << (52 if bits == 64 else 23)) - 1): return True
                elif self.opts.get('nan'): r = c_or(r, ('b', ('isnan', a.id, str(a))))
        return r

    def fcmp(self, op, d):
        if op == 'Lt': return c_f(d, NEG)
        if op == 'Le': return c_f(d, [-1, 0])
        if op == 'Gt': return c_f(d, POS)
        if op == 'Ge': return c_f(d, [0, 1])
        if op == 'Eq': return c_f(d, ZER)
        if op == 'Ne': return c_f(d, [-1, 1])
        raise Unsupported('float ' + op)

    def ptr_add(self, st, p, n):
        p = self.as_ptr(st, p)
        if p[0] == 'addr':
            return p if n == ZERO else ('addr', p[1] + n)
        path = p[2]
        if path and path[-1][0] == 'i':
            return ('ptr', p[1], path[:-1] + (('i', path[-1][1] + n),), p[3])
        if n == ZERO: return p
        return ('ptr', p[1], path + (('i', n),), p[3])

    def ptr_norm(self, p):
        path = p[2]
        while path and path[-1][0] == 'sub': path = path[:-1] + (('i', path[-1][1]),)
        while path and path[-1] == ('i', ZERO): path = path[:-1]
        return path

    def ptr_cmp(self, st, op, a, b):
        a, b = (x if x[0] in ('fn', 'fnp') else self.as_ptr(st, x) for x in (a, b))
        if a[0] in ('fn', 'fnp') or b[0] in ('fn', 'fnp'):
            e = True if a == b else ('b', ('ptreq', a, b))
            return e if op == 'Eq' else c_not(e)
        if a[0] == 'addr' or b[0] == 'addr':
            if a[0] == 'addr' and b[0] == 'addr': return self.icmp(op, a[1], b[1])
            if op in ('Eq', 'Ne'):
                o = a if a[0] == 'addr' else b
                if o[1].is_const() and o[1].c == 0: return op == 'Ne'
            return self.icmp(op, self.ptr_addr(a), self.ptr_addr(b))
        if a[1] == b[1]:
            pa_, pb_ = self.ptr_norm(a), self.ptr_norm(b)
            if pa_ == pb_: d = ZERO
            else:
                n = max(len(pa_), len(pb_))
                if len(pa_) == len(pb_) and pa_[:-1] == pb_[:-1] and pa_[-1][0] == pb_[-1][0] == 'i': d = pa_[-1][1] - pb_[-1][1]
                elif len(pa_) == len(pb_) + 1 and pa_[:-1] == pb_ and pa_[-1][0] == 'i': d = pa_[-1][1]
                elif len(pb_) == len(pa_) + 1 and pb_[:-1] == pa_ and pb_[-1][0] == 'i': d = -pb_[-1][1]
                else: d = None
            if d is not None: return self.icmp(op, d, ZERO)
        if op == 'Eq':
            return False if (a[1][0] == 'l' or b[1][0] == 'l') and a[1] != b[1] else ('b', ('ptreq', a, b))
        if op == 'Ne': return c_not(self.ptr_cmp(st, 'Eq', a, b))
        return ('b', ('ptr' + op, a, b))

    def cast(self, st, kind, v, S, U):
        s, u = self.T[S], self.T[U]
        if kind == 'IntToInt':
            if s['k'] == 'bool':
                if v is True: return ONE
                if v is False: return ZERO
                return ONE if self.decide(st, v) else ZERO
            if s['k'] == 'adt':
                v = self.discr(v, S)
            if u['k'] == 'char': return v
            return self.wrap(st, v, u)
        if kind == 'IntToFloat':
            bits = s['bits']
            lo, hi = v.lo(), v.hi()
            exact = 53 if u['bits'] == 64 else 24
            if lo is not None and hi is not None and lo >= -(1 << exact) and hi <= 1 << exact: return i2f(v)
            if v.is_const(): return P(Fraction(float(v.c)))
            if st.store.ent_ge(v + (1 << exact)) and st.store.ent_ge(K(1 << exact) - v): return i2f(v)
            return pa('i2f_rounded', (v,))
        if kind == 'FloatToInt':
            lo, hi = int_range(u['bits'], u['signed'])
            return self.f2i(v, lo, hi, u['bits'])
        if kind == 'FloatToFloat':
            if u['bits'] < s['bits']:
                c = v.const()
                return pa('f32', (v,)) if c is None else self.bits_float(self.float_bits(v, 32), 32)
            return v
        if kind == 'PtrToPtr' or kind == 'FnPtrToPtr': return self.ptr_cast(st, v, S, U)
        if kind == 'BoxDerefTransmute': return self.as_ptr(st, v)
        if kind == 'Transmute':
            if s['k'] in ('rawptr', 'ref') and u['k'] in ('rawptr', 'ref'):
                return self.ptr_cast(st, v, S, U)
            if v[0] == 'fnp' if isinstance(v, tuple) else False: return v
            return self.transmute(v, S, U, st)
        if kind.startswith('Unsize'): return self.unsize(st, v, S, U)
        if kind.startswith('ReifyFnPointer') or kind.startswith('UnsafeFnPointer') or kind.startswith('MutToConst'):
            return v
        if kind.startswith('ClosureFnPointer'):
            i = self.closure_fn(S)
            return ('fn', i) if i is not None else ('fnp', ('closure', self.T[S]['path']))
        if kind.startswith('PointerExpose'): return self.ptr_addr(self.as_ptr(st, v))
        if kind.startswith('PointerWithExposed'): return ('addr', v) if isinstance(v, Lin) else v
        if kind.startswith('ArrayToPointer'):
            p = self.as_ptr(st, v)
            return ('ptr', p[1], p[2] + (('i', ZERO),), None)
        raise Unsupported('cast ' + kind)

    def closure_fn(self, t):
        p = self.T[t]['path']
        for i in self.I.values():
            if i['path'] == p and i.get('body'): return i['id']
        return None

    def f2i(self, v, lo, hi, bits):
        c = v.const()
        if c is not None: return K(max(lo, min(hi, int(c))))
        l = poly_as_lin(v)
        return lin(atom('f2i', (v, lo, hi), lo, hi, bits))

    def pointee(self, t):
        x = self.T[t]
        if x['k'] in ('ref', 'rawptr'): return x['to']
        return None

    def wrap_path(self, S, U, depth=0):
        """projection from type S down to a transparently wrapped U"""
        if S == U: return ()
        if depth > 6: return None
        x = self.T[S]
        if x['k'] == 'adt' and x['kind'] in ('struct', 'union') :
            for j, f in enumerate(x['variants'][0]['f']):
                ft = f['t']
                if self.T[ft].get('size') == x.get('size') and x.get('size') is not None and self.lay(S)['offs'][j] == 0 and x['size'] != 0:
                    r = self.wrap_path(ft, U, depth + 1)
                    if r is not None: return (('f', j),) + r
        return None

    def ptr_cast(self, st, v, S, U):
        if isinstance(v, tuple) and v[0] in ('agg', 'opq'): v = self.as_ptr(st, v)
        if v[0] in ('addr', 'fn', 'fnp'): return v
        a, b = self.pointee(S), self.pointee(U)
        if a == b or a is None or b is None: return v
        A, B = self.T[a], self.T[b]
        obj, path, meta = v[1], v[2], v[3]
        if A['k'] in ('slice', 'str') and B['k'] in ('slice', 'str'):
            ea = A.get('elem', self.p.ty('u8')) if A['k'] == 'slice' else self.p.ty('u8')
            eb = B.get('elem') if B['k'] == 'slice' else self.p.ty('u8')
            if ea == eb: return v
            wp = self.wrap_path(eb, ea)
            if wp is not None or self.wrap_path(ea, eb) is not None: return v
            raise Unsupported('slice cast %s -> %s' % (A['s'], B['s']))
        if A['k'] in ('slice', 'str'):
            if path and path[-1][0] == 'sub': path = path[:-1] + (('i', path[-1][1]),)
            el = A['elem'] if A['k'] == 'slice' else self.p.ty('u8')
            return self.ptr_cast2(('ptr', obj, path, None), el, b)
        if A['k'] == 'dyn':
            return ('ptr', obj, path, None)
        if B['k'] == 'dyn' : return v
        return self.ptr_cast2(v, a, b)

    def ptr_cast2(self, v, a, b):
        """thin pointer, pointee a -> b"""
        if a == b: return v
        obj, path, meta = v[1], v[2], v[3]
        A, B = self.T[a], self.T[b]
        if path and path[-1][0] == 'cast' and path[-1][1] == b: return ('ptr', obj, path[:-1], meta)
        if A['k'] == 'array' and A['elem'] == b:
            if path and path[-1][0] == 'sub': return ('ptr', obj, path[:-1] + (('i', path[-1][1]),), meta)
            return ('ptr', obj, path + (('i', ZERO),), meta)
        if B['k'] == 'array' and B['elem'] == a:
            if path and path[-1][0] == 'i':
                return ('ptr', obj, path[:-1] + (('sub', path[-1][1], K(B['len'])),), meta)
            if B['len'] == 1: return ('ptr', obj, path + (('sub', ZERO, K(1)),), meta)
        if A['k'] == 'tuple' and not A['fields'] or B['k'] == 'tuple' and not B['fields']:
            return v                 # type-erased pointer: *const () and back
        if self.T[b].get('size') == 0 or self.T[a].get('size') == 0: return v
        wp = self.wrap_path(a, b)
        if wp is not None: return ('ptr', obj, path + wp, meta)
        wp = self.wrap_path(b, a)
        if wp is not None and path[-len(wp):] == wp: return ('ptr', obj, path[:-len(wp)], meta)
        if wp is not None and obj[0] in ('h', 'o') and obj[2] == b and not path: return v
        if wp is not None: return v
        return ('ptr', obj, path + (('cast', a, b),), meta)

    def unsize(self, st, v, S, U):
        s, u = self.T[S], self.T[U]
        if s['k'] in ('ref', 'rawptr') and u['k'] in ('ref', 'rawptr'):
            a, b = s['to'], u['to']
            v = self.as_ptr(st, v)
            A, B = self.T[a], self.T[b]
            if B['k'] == 'slice' and A['k'] == 'array':
                if v[2] and v[2][-1][0] == 'sub': return v
                return ('ptr', v[1], v[2] + (('sub', ZERO, K(A['len'])),), None)
            if B['k'] == 'dyn': return ('ptr', v[1], v[2], ('vt', a))
            return v
        if s['k'] == 'adt' and u['k'] == 'adt':
            if v[0] in ('ptr', 'addr'):
                a, b = self.thin(S), self.thin(U)
                if a is None or b is None: raise Unsupported('unsize')
                return self.unsize(st, v, a, b)
            fs = s['variants'][0]['f']; gs = u['variants'][0]['f']
            out = []
            for j, (f, g) in enumerate(zip(fs, gs)):
                x = self.field(v, j)
                out.append(x if f['t'] == g['t'] else self.unsize(st, x, f['t'], g['t']))
            return ('agg', tuple(out))
        if s['k'] == 'pat' or u['k'] == 'pat':
            return self.unsize(st, v, s['base'] if s['k'] == 'pat' else S, u['base'] if u['k'] == 'pat' else U)
        if self.T[S].get('size') == 0: return v
        raise Unsupported('unsize')

    def thin(self, t):
        """the pointer type a smart pointer wraps"""
        for _ in range(8):
            x = self.T[t]
            if x['k'] in ('ref', 'rawptr'): return t
            if x['k'] == 'pat': t = x['base']
            elif x['k'] == 'adt' and x['kind'] == 'struct' and x['variants'][0]['f']: t = x['variants'][0]['f'][0]['t']
            else: return None

    def discr(self, v, t):
        if v[0] == 'enum':
            x = self.T[v[1]]
            dt = self.T[x['discr_ty']] if x.get('discr_ty') is not None else None
            d = int(x['variants'][v[2]]['d'])
            if dt and dt['k'] == 'int' and dt['signed'] and d >> (dt['bits'] - 1): d -= 1 << dt['bits']
            return K(d)
        if v[0] == 'opq':
            ds = self.p.discrs(v[1])
            if not ds: raise Dead()
            if len(ds) == 1: return K(ds[0][1])
            vals = [d for _, d in ds]
            return sym(('discr', v[2]), min(vals), max(vals), 0)
        if v[0] == 'agg': return ZERO
        if v[0] == 'uninit': raise Unsupported('discriminant of uninitialised')
        raise Unsupported('discriminant of ' + v[0])

    def variant_of(self, st, v):
        """variant index, splitting when unknown"""
        if v[0] == 'enum': return v[2]
        ds = self.p.discrs(v[1])
        if len(ds) == 1: return ds[0][0]
        d = self.discr(v, v[1])
        for n, val in ds[:-1]:
            if self.decide(st, c_eq(d - val)): return n
        return ds[-1][0]

    def enum_fields(self, st, v, var):
        if v[0] == 'enum': return v[3]
        fs = self.T[v[1]]['variants'][var]['f']
        return tuple(self.field(v, j, variant=var) for j in range(len(fs)))

    def rvalue(self, st, r, dty):
        k = r[0]
        if k == 'use': return self.operand(st, r[1])
        if k == 'rep':
            n = int(r[2])
            v = self.operand(st, r[1])
            return ('arr', K(n), ('fill', v), ())
        if k == 'ref':
            obj, path, meta = self.place(st, r[1])
            return ('ptr', obj, path, meta)
        if k == 'cast':
            v = self.operand(st, r[2])
            if v == UNINIT and r[1] not in ('Transmute',): raise Unsupported('cast of uninitialised')
            return self.cast(st, r[1], v, self.op_ty(st, r[2]), r[3])
        if k == 'bin':
            a = self.operand(st, r[2]); b = self.operand(st, r[3])
            return self.binop(st, r[1], a, b, self.op_ty(st, r[2]), self.op_ty(st, r[3]), dty)
        if k == 'un':
            v = self.operand(st, r[2]); t = self.op_ty(st, r[2]); x = self.T[t]
            if r[1] == 'Not':
                if x['k'] == 'bool': return c_not(v)
                if x['signed']: return -v - 1
                return K((1 << x['bits']) - 1) - v
            if r[1] == 'Neg':
                if x['k'] == 'float': return -v
                return self.wrap(st, -v, x)
            if r[1] == 'PtrMetadata':
                v = self.as_ptr(st, v)
                if v[0] == 'addr': return ZERO
                if v[2] and v[2][-1][0] == 'sub': return v[2][-1][2]
                if v[3] is not None: return ('meta', v[3])
                to = self.T[self.pointee(t)]
                if to['k'] in ('slice', 'str'): return self.place_len(st, v[1], v[2])
                return UNIT
            raise Unsupported('unop ' + r[1])
        if k == 'discr':
            obj, path, meta = self.place(st, r[1])
            return self.discr(self.load(st, obj, path), None)
        if k == 'agg':
            kind = r[1]; ops = [self.operand(st, o) for o in r[2]]
            if kind[0] == 'array': return ('arr', K(len(ops)), ('list', tuple(ops)), ())
            if kind[0] in ('tuple', 'closure'): return ('agg', tuple(ops))
            if kind[0] == 'adt':
                x = self.T[kind[1]]
                if x['kind'] == 'union': return ('un', kind[3], ops[0], kind[1])
                if x['kind'] == 'enum': return ('enum', kind[1], kind[2], tuple(ops))
                if x['path'] == 'std::vec::Vec' and ZERO in ops: return ('vec', ('arr', ZERO, ('list', ()), ()))
                return ('agg', tuple(ops))
            if kind[0] == 'rawptr':
                p, m = ops
                if m == UNIT: return p
                if isinstance(m, Lin):
                    if p[0] == 'addr':
                        return ('ptr', ('dangling',), (('sub', ZERO, m),), None)
                    path = p[2]
                    if path and path[-1][0] == 'i': path = path[:-1] + (('sub', path[-1][1], m),)
                    elif path and path[-1][0] == 'sub': path = path[:-1] + (('sub', path[-1][1], m),)
                    else: path = path + (('sub', ZERO, m),)
                    return ('ptr', p[1], path, None)
                if m[0] == 'meta': return ('ptr', p[1], p[2], m[1])
                return p
            raise Unsupported('aggregate ' + str(kind))
        if k == 'tls': return ('ptr', ('s', 'tls:' + r[1]), (), None)
        raise Unsupported('rvalue ' + str(k))

    # ------------------------------------------------------------ running
    def chain(self, st):
        return tuple(self.I[f.inst]['path'] for f in st.frames)

    def push(self, st, inst, args, dest, ret, span=None, post=None):
        i = self.I[inst]
        b = i.get('body')
        if not b: raise Unsupported('no body: ' + i['path'])
        if len(st.frames) > self.max_depth: raise Unsupported('call depth')
        f = Frame()
        f.inst = inst; f.bb = 0; f.si = 0; f.locals = {}; f.dest = dest; f.ret = ret; f.fid = len(st.frames); f.span = span; f.post = post
        for n, a in enumerate(args): f.locals[n + 1] = a
        st.frames.append(f)
        self.visited.add(inst)

    def run_fn(self, inst, args, st=None):
        """all outcomes of a call"""
        st = st or State()
        self.push(st, inst, args, None, None)
        self.outcomes = []
        rest, backs = self.explore([st], None)
        return self.outcomes

    def split(self, st, c):
        out = []
        for d in (c, c_not(c)):
            s = st.clone()
            try: ok = s.store.assume(d)
            except NeedSplit as e:
                if e.cond == d or e.cond == c: raise Unsupported('split')
                for s2 in self.split(st, e.cond):
                    out += [x for x in self.assume_all(s2, d)]
                continue
            except Infeasible: ok = False
            if ok and s.info.get('cond'): ok = self.apply_cond(s)
            if ok: out.append(s)
        return out

    def apply_cond(self, s):
        """facts about the content of a variant, once the variant is known"""
        try:
            for k, (d, facts) in list(s.info['cond'].items()):
                if s.store.ent_eq(d):
                    s.info['cond'] = {q: v for q, v in s.info['cond'].items() if q != k}
                    for x in facts:
                        if not s.store.assume(c_ge(x)): return False
        except Infeasible: return False
        return True

    def assume_all(self, st, c):
        s = st.clone()
        try: return [s] if s.store.assume(c) else []
        except NeedSplit as e:
            r = []
            for s2 in self.split(st, e.cond): r += self.assume_all(s2, c)
            return r

    def explore(self, todo, barrier):
        """barrier: None, or (depth, header, blocks): the loop being run, in the frame at depth.
        Returns (states that left the loop, states back at its header)."""
        exits = []; backs = []
        stack = list(todo)[::-1]
        while stack:
            st = stack.pop()
            first = st.info.pop('skip_head', None)
            while True:
                d = len(st.frames)
                if d == 0: break
                f = st.frames[-1]
                if f.si == 0:
                    if barrier is not None:
                        if d < barrier[0] or (d == barrier[0] and f.bb not in barrier[2]):
                            exits.append(st); break
                        if d == barrier[0] and f.bb == barrier[1] and not first:
                            backs.append(st); break
                    if not first:
                        lp = self.p.loops(f.inst)
                        if f.bb in lp and not (barrier is not None and d == barrier[0] and f.bb == barrier[1]):
                            res = self.run_loop(st, lp[f.bb])
                            for s in res: stack.append(s)
                            break
                    first = None
                self.steps += 1
                if self.steps > self.maxsteps: raise Unsupported('step budget')
                try:
                    nxt = self.step_one(st)
                except NeedSplit as e:
                    try:
                        for s in self.split(st, e.cond): stack.append(s)
                    except Unsupported as u:
                        self.out('unsupported', st, msg=str(u))
                    break
                except Dead: break
                except Infeasible: break
                except Panic as e:
                    self.out('panic', st, msg=e.kind)
                    break
                except Unsupported as u:
                    self.out('unsupported', st, msg=str(u))
                    break
                except (TypeError, IndexError, KeyError, AttributeError, AssertionError) as u:
                    if self.opts.get('debug'): raise
                    self.out('unsupported', st, msg='internal: %r' % (u,))
                    break
                if nxt is not None:
                    for s in nxt: stack.append(s)
                    break
        return exits, backs

    def cur_span(self, st):
        for f in reversed(st.frames):
            i = self.I[f.inst]
            if i['local']:
                b = i['body']['blocks'][f.bb]
                s = b['s'][f.si] if f.si < len(b['s']) else b['t']
                for x in reversed(s):
                    if isinstance(x, str) and ':' in x and '.rs' in x: return x
                return i['span']
        return None

    def out(self, kind, st, value=None, msg=None):
        self.outcomes.append(Outcome(kind, st, value, msg, self.chain(st), self.cur_span(st)))

    def step_one(self, st):
        """executes one statement or terminator in place; a list = replace the state by these"""
        f = st.frames[-1]
        body = self.I[f.inst]['body']
        blk = body['blocks'][f.bb]
        if f.si < len(blk['s']):
            s = blk['s'][f.si]
            k = s[0]
            if k == '=':
                pl = s[1]
                if not pl[1]:
                    v = self.rvalue(st, s[2], body['locals'][pl[0]])
                    f.locals[pl[0]] = v
                else:
                    v = self.rvalue(st, s[2], self.place_ty(st, pl))
                    obj, path, meta = self.place(st, pl)
                    self.store_at(st, obj, path, v)
            elif k == 'dead': f.locals.pop(s[1], None)
            elif k == 'live': f.locals.pop(s[1], None)
            elif k == 'assume':
                c = self.operand(st, s[1])
                if self.decide(st, c) is False: raise Dead()
            elif k == 'sd':
                obj, path, meta = self.place(st, s[1])
                v = self.load(st, obj, path)
                t = self.place_ty(st, s[1])
                n = len(self.T[t]['variants'][s[2]]['f'])
                self.store_at(st, obj, path, ('enum', t, s[2], v[3] if v[0] == 'enum' and v[2] == s[2] else (UNINIT,) * n))
            elif k == 'cpy':
                src = self.operand(st, s[1]); dst = self.operand(st, s[2]); n = self.operand(st, s[3])
                self.copy_mem(st, src, dst, n, self.pointee(self.op_ty(st, s[1])))
            else: raise Unsupported('statement ' + k)
            f.si += 1
            return None
        t = blk['t']; k = t[0]
        if k == 'goto': f.bb = t[1]; f.si = 0; return None
        if k == 'switch':
            v = self.operand(st, t[1])
            x = self.T[t[2]]
            if x['k'] == 'bool':
                r = self.decide(st, v)
                tgt = t[4]
                for val, bb in t[3]:
                    if bool(int(val)) == r: tgt = bb
                f.bb = tgt; f.si = 0
                return None
            if not isinstance(v, Lin): raise Unsupported('switch on %r' % (v,))
            for val, bb in t[3]:
                n = int(val)
                if x['k'] == 'int' and x['signed'] and n >> (x['bits'] - 1): n -= 1 << x['bits']
                c = c_eq(v - n)
                if c is False: continue
                if self.decide(st, c):
                    f.bb = bb; f.si = 0
                    return None
            f.bb = t[4]; f.si = 0
            return None
        if k == 'ret':
            v = self.root(st, ('l', f.fid, 0))
            if v == UNINIT:
                rt = body['locals'][0]
                if self.p.uninhabited(rt): raise Dead()
            self.do_return(st, v)
            return None
        if k == 'assert':
            self.obligations += 1
            c = self.operand(st, t[1])
            if not t[2]: c = c_not(c)
            if not self.decide(st, c): raise Panic(t[3])
            f.bb = t[5]; f.si = 0
            return None
        if k == 'drop':
            h = self.models.drop(self, st, t)
            if h is not None: return h
            return self.run_drops(st, t)
        if k == 'call': return self.call(st, t)
        if k == 'unreachable': raise Dead()
        if k in ('resume', 'abort'): raise Dead()
        raise Unsupported('terminator ' + str(t[:2]))

    def drops(self, ty):
        """does dropping a value of the type run code of the program (or set the length of a vector)?"""
        m = self.__dict__.setdefault('_drops', {})
        if ty in m: return m[ty]
        m[ty] = False
        x = self.T[ty]; k = x['k']
        if k == 'adt':
            r = x.get('drop') is not None or any(self.drops(f['t']) for v in x['variants'] for f in v['f']) \
                or ((x['box'] or x['path'].startswith(('std::', 'alloc::', 'core::'))) and any(self.drops(a) for a in x['targs']))
        elif k in ('tuple', 'closure'): r = any(self.drops(f) for f in x['fields'])
        elif k in ('array', 'slice'): r = self.drops(x['elem'])
        elif k == 'dyn': r = any(y.get('drop') is not None and y['local'] for y in self.T if y['k'] == 'adt')
        else: r = False
        m[ty] = r
        return r

    def run_drops(self, st, t):
        f = st.frames[-1]
        if not self.drops(t[2]):
            f.bb = t[3]; f.si = 0
            return None
        obj, path, _ = self.place(st, t[1])
        todo = []
        def walk(ty, path):
            if not self.drops(ty): return
            x = self.T[ty]; k = x['k']
            if k in ('tuple', 'closure'): fs = [(('f', n), y) for n, y in enumerate(x['fields'])]
            elif k == 'adt' and not x['box'] and (x['local'] or x.get('drop') is not None or x['path'] == 'std::option::Option'):
                if x.get('drop') is not None: todo.append((x['drop'], ('ptr', obj, path, None)))
                if x['kind'] == 'struct': fs = [(('f', n), y['t']) for n, y in enumerate(x['variants'][0]['f'])]
                elif x['kind'] == 'enum':
                    v = self.variant_of(st, self.load(st, obj, path))
                    fs = [(('vf', v, n), y['t']) for n, y in enumerate(x['variants'][v]['f'])]
                else: raise Unsupported('drop of ' + x['s'])
            else: raise Unsupported('drop of ' + x['s'])
            for p, y in fs: walk(y, path + (p,))
        walk(t[2], path)
        ret = t[3]
        for d, p in reversed(todo):
            self.push(st, d, [p], None, ret, t[4]); ret = 0
        if not todo: f.bb = t[3]; f.si = 0
        return None

    def do_return(self, st, v):
        f = st.frames.pop()
        if f.post is not None: v = f.post(self, st, v)
        if not st.frames:
            self.outcomes.append(Outcome('ret', st, v))
            return
        g = st.frames[-1]
        if f.dest is not None: self.store_at(st, f.dest[0], f.dest[1], v)
        if f.ret is None: raise Dead()
        g.bb = f.ret; g.si = 0

    def finish(self, st, t, v):
        """a modelled call returned v"""
        if t[4] is None: raise Dead()
        obj, path, meta = self.place(st, t[3])
        self.store_at(st, obj, path, v)
        f = st.frames[-1]
        f.bb = t[4]; f.si = 0
        return None

    def call(self, st, t):
        c = t[1]
        args = [self.operand(st, a) for a in t[2]]
        if 'op' in c:
            fv = self.operand(st, c['op'])
            if fv[0] == 'agg' or fv[0] == 'opq': fv = self.as_fn(fv)
            if fv[0] == 'fn': inst = fv[1]; path = self.I[inst]['path']
            else: return self.models.opaque_fn(self, st, t, fv, args)
        else:
            inst = c['inst']; path = c['path']
        return self.call_inst(st, t, inst, path, args, c.get('targs'))

    def as_fn(self, v):
        while v[0] == 'agg' and v[1]: v = v[1][0]
        return v

    def call_inst(self, st, t, inst, path, args, targs=None):
        i = self.I.get(inst) if inst is not None else None
        caller = st.frames[-1].inst
        m = self.models.lookup(self, path, i)
        if m is not None:
            self.leaves[path] = self.leaves.get(path, 0) + 1
            s2 = st.clone()          # models may mutate before they ask for a split
            r = m(self, s2, t, args, i, targs)
            if r is PUSHED:
                return [s2]
            if isinstance(r, list): return r
            self.finish(s2, t, r)
            return [s2]
        if i is None: raise Unsupported('unresolved ' + path)
        if not i.get('body'):
            return self.models.unknown(self, st, t, path, i, args)
        b = i['body']
        if i['kind'] == 'shim' and path.endswith('::clone') and b['argc'] == 1: pass
        if len(args) != b['argc']:
            if args and isinstance(args[-1], tuple) and args[-1][0] == 'agg': args = args[:-1] + list(args[-1][1])
            if len(args) != b['argc']: raise Unsupported('arity of ' + path)
        elif i['kind'] != 'shim' and '{closure' in i['path'] and path.split('::')[-1] in ('call', 'call_mut', 'call_once') and args and len(t[6]) == len(args) and self.T[t[6][-1]]['k'] == 'tuple' and b.get('spread') is None:
            args = args[:-1] + list(args[-1][1])
        dest = None
        if t[3] is not None:
            o, pth, _ = self.place(st, t[3])
            dest = (o, pth)
        self.calls[(caller, inst)] = self.calls.get((caller, inst), 0) + 1
        self.push(st, inst, args, dest, t[4], t[5])
        return None

    def copy_mem(self, st, src, dst, n, elem):
        src = self.as_ptr(st, src); dst = self.as_ptr(st, dst)
        if n == ZERO or src[0] == 'addr' or dst[0] == 'addr': return
        sp, dp = self.range_path(src[2], n), self.range_path(dst[2], n)
        if sp[-1][0] == 'single' and dp[-1][0] == 'single' or n == ONE:
            v = self.load(st, src[1], src[2])
            self.store_at(st, dst[1], dst[2], v)
            return
        sv = self.load(st, src[1], sp)
        if sv[0] != 'arr': raise Unsupported('copy of a non-array')
        self.store_at(st, dst[1], dp, sv)

    def range_path(self, path, n):
        if path and path[-1][0] == 'i': return path[:-1] + (('sub', path[-1][1], n),)
        if path and path[-1][0] == 'sub': return path[:-1] + (('sub', path[-1][1], n),)
        return path + (('sub', ZERO, n),)

    # ------------------------------------------------------------ loops
    def run_loop(self, st, blocks):
        """abstract effect of a natural loop entered at the current block; returns exit states"""
        f = st.frames[-1]
        d = len(st.frames)
        header = f.bb
        bar = (d, header, blocks)
        saved = (len(self.outcomes), len(self.loops), self.obligations)
        r = self.unroll(st, bar)
        if r is not None: return r
        del self.outcomes[saved[0]:]; del self.loops[saved[1]:]
        return self.fixpoint(st, bar)

    def unroll(self, st, bar):
        cur = [st]; exits = []
        undecided = 0
        for it in range(self.opts.get('unroll', 140)):
            nxt = []; ex = 0
            for s in cur:
                s = s.clone()
                s.info['skip_head'] = True
                try: e, b = self.explore([s], bar)
                except Unsupported: return None
                ex += len(e); exits += e
                if len(b) > 1 or (b and e): undecided += 1
                nxt += b
            if not nxt: return exits
            if undecided > self.opts.get('undecided', 18) or len(nxt) > self.opts.get('width', 6) or len(exits) > self.opts.get('exits', 120): return None
            if undecided and it > 30 and it > undecided * 8: pass
            cur = nxt
        return None

    def cells(self, st):
        """all memory the head state can see: {obj: value}"""
        r = dict(st.mem)
        for f in st.frames:
            for n, v in f.locals.items(): r[('l', f.fid, n)] = v
        return r

    def diff(self, a, b, path, out):
        if a == b: return
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
            k = a[0]
            if k == 'agg' and len(a[1]) == len(b[1]):
                for j, (x, y) in enumerate(zip(a[1], b[1])): self.diff(x, y, path + (('f', j),), out)
                return
            if k == 'enum' and a[2] == b[2] and a[1] == b[1]:
                for j, (x, y) in enumerate(zip(a[3], b[3])): self.diff(x, y, path + (('vf', a[2], j),), out)
                return
            if k == 'ptr' and a[1] == b[1] and len(a[2]) == len(b[2]) and a[3] == b[3] and all(x[0] == y[0] for x, y in zip(a[2], b[2])):
                ok = True
                for x, y in zip(a[2], b[2]):
                    if x != y and x[0] not in ('i', 'sub'): ok = False
                if ok:
                    for j, (x, y) in enumerate(zip(a[2], b[2])):
                        for q in range(1, len(x)):
                            if x[q] != y[q]: out.add(path + (('p', j, q),))
                    return
            if k == 'arr':
                if a[1] != b[1]: out.add(path + (('len',),))
                if a[2:] != b[2:]: out.add(path + (('c',),))
                return
            if k == 'vec':
                self.diff(a[1], b[1], path + (('vd',),), out); return
            if k == 'un' and a[1] == b[1]:
                self.diff(a[2], b[2], path + (('u',),), out); return
        out.add(path)

    def havoc(self, v, sels, key, ty, syms, base=()):
        """v with the selected cells replaced by unknowns"""
        if not sels: return v
        if () in sels:
            if isinstance(v, Lin):
                if ty is not None and self.T[ty]['k'] in ('int', 'char'):
                    n = self.opq(ty, key)
                else:
                    lo = v.lo()
                    n = sym(key, 0 if lo is not None and lo >= 0 else None, None, 64)
                syms.append((n, v)); return n
            if v is True or v is False or (isinstance(v, tuple) and v and v[0] in ('ge', 'eq', 'ne', 'f', 'b', 'nb', 'and', 'or')):
                return ('b', key)
            if isinstance(v, Poly): return psym(key)
            if ty is None: raise Unsupported('havoc without a type')
            x = self.T[ty]
            return self.opq(ty, key)
        groups = {}
        for s in sels: groups.setdefault(s[0], set()).add(s[1:])
        for g in sorted(groups, key=str):
            sub = groups[g]
            if g[0] in ('f', 'vf'):
                j = g[-1]
                if v[0] == 'opq':
                    x = self.T[v[1]]
                    if x['kind'] == 'enum':
                        v = ('enum', v[1], g[1], tuple(self.field(v, q, variant=g[1]) for q in range(len(x['variants'][g[1]]['f']))))
                    else: v = ('agg', tuple(self.field(v, q) for q in range(len(x['variants'][0]['f']))))
                ft = self.field_ty(ty if v[0] != 'enum' else v[1], j, g[1] if g[0] == 'vf' else None) if (ty is not None or v[0] == 'enum') else None
                if v[0] == 'agg':
                    l = list(v[1]); l[j] = self.havoc(l[j], sub, key + (j,), ft, syms); v = ('agg', tuple(l))
                elif v[0] == 'enum':
                    l = list(v[3]); l[j] = self.havoc(l[j], sub, key + (j,), ft, syms); v = ('enum', v[1], v[2], tuple(l))
                elif v[0] in ('ptr', 'addr'):
                    v = self.havoc(v, sub, key + (j,), ft, syms)
                else: raise Unsupported('havoc field of ' + v[0])
            elif g[0] == 'p':
                pth = list(v[2]); e = list(pth[g[1]])
                n = sym(key + ('p', g[1], g[2]), 0, (1 << 63) - 1, 64)
                syms.append((n, e[g[2]])); e[g[2]] = n
                pth[g[1]] = tuple(e); v = ('ptr', v[1], tuple(pth), v[3])
            elif g[0] == 'c':
                v = self._tmpl.get(key + ('c',)) or ('arr', v[1], ('opq', key + ('c',), self.arr_elem_ty(v, ty)), ())
            elif g[0] == 'len':
                n = sym(key + ('len',), 0, (1 << 63) - 1, 64)
                syms.append((n, v[1])); v = ('arr', n, v[2], v[3])
            elif g[0] == 'vd':
                v = ('vec', self.havoc(v[1], sub, key + ('vd',), ty, syms))
            elif g[0] == 'u':
                v = ('un', v[1], self.havoc(v[2], sub, key + ('u',), self.T[v[3]]['variants'][0]['f'][v[1]]['t'], syms), v[3])
            else: raise Unsupported('havoc ' + str(g))
        return v

    def arr_elem_ty(self, v, ty):
        if ty is not None and self.T[ty]['k'] in ('array', 'slice'): return self.T[ty]['elem']
        if ty is not None and self.T[ty]['k'] == 'adt' and self.T[ty]['path'] == 'std::vec::Vec': return self.T[ty]['targs'][0]
        while True:
            if v[2][0] == 'opq': return v[2][2]
            if v[2][0] == 'sl': v = v[2][1]; continue
            break
        raise Unsupported('element type')

    def cell_ty(self, st, obj):
        if obj[0] == 'l': return self.I[st.frames[obj[1]].inst]['body']['locals'][obj[2]]
        if obj[0] in ('o', 'h'): return obj[2] if isinstance(obj[2], int) else None
        return None

    def make_head(self, st, changed, lid, serial):
        s = st.clone()
        s.info[('ser', lid)] = serial + 1
        syms = []
        # a device position is not tracked through summarised loops
        for k in [k for k in s.info if isinstance(k, tuple) and k[0] == 'pos']: s.info[k] = None
        tmpl = self._tmpl = self.tmpls.get((lid, serial), {})
        for obj in sorted(changed, key=str):
            sels = changed[obj]
            try: v = self.root(s, obj)
            except Unsupported: continue
            ty = self.cell_ty(s, obj)
            et = None
            if obj[0] in ('os', 'ha') and ty is None:
                et = obj[2]
                # arrays: only content/length cells
                nv = v
                if (('c',),) in sels or ('c',) in [x[0] for x in sels if x]:
                    nv = tmpl.get(('L', lid, serial, obj, 'c')) or ('arr', nv[1], ('opq', ('L', lid, serial, obj, 'c'), et), ())
                if ('len',) in [x[0] for x in sels if x]:
                    n = sym(('L', lid, serial, obj, 'len'), 0, (1 << 63) - 1, 64)
                    syms.append((n, nv[1])); nv = ('arr', n) + nv[2:]
                if () in sels: nv = ('arr', sym(('L', lid, serial, obj, 'len'), 0, (1 << 63) - 1, 64), ('opq', ('L', lid, serial, obj, 'c'), et), ())
                self.set_root(s, obj, nv)
                continue
            self.set_root(s, obj, self.havoc(v, sels, ('L', lid, serial, obj), ty, syms))
        return s, syms

    def leaf_at(self, v, sel):
        for e in sel:
            if e[0] in ('f',): v = self.field(v, e[1])
            elif e[0] == 'vf': v = self.field(v, e[2], variant=e[1])
            elif e[0] == 'p':
                return v[2][e[1]][e[2]]
            elif e[0] == 'len': return v[1]
            elif e[0] == 'vd': v = v[1]
            elif e[0] == 'u': v = v[2]
            else: return None
        return v

    def fixpoint(self, st, bar):
        f = st.frames[-1]
        lid = (self.I[f.inst]['path'], bar[1], len(st.frames))
        name = self.I[f.inst]['path']
        base_out, base_loops = len(self.outcomes), len(self.loops)
        changed = {}
        # the unknowns of a loop met again on the same path are new ones
        serial = st.info.get(('ser', lid), 0)
        self.tmpls.pop((lid, serial), None)
        base_cells = self.cells(st)
        # 1. which cells does a turn change
        for rnd in range(12):
            head, syms = self.make_head(st, changed, lid, serial)
            h0 = head.clone(); h0.info['skip_head'] = True
            exits, backs = self.explore([h0], bar)
            if any(o.kind == 'unsupported' for o in self.outcomes[base_out:]):
                # keep the report, give up on this loop
                return []
            new = False
            hc = self.cells(head)
            for b in backs:
                bc = self.cells(b)
                for obj, hv in hc.items():
                    if obj[0] == 'l' and obj[1] >= len(head.frames): continue
                    bv = bc.get(obj)
                    if bv is None: continue
                    out = set()
                    self.diff(hv, bv, (), out)
                    for o in out:
                        cur = changed.setdefault(obj, set())
                        if not any(o[:len(c)] == c for c in cur):
                            changed[obj] = set(c for c in cur if c[:len(o)] != o) | {o}
                            new = True
                for obj, bv in bc.items():
                    if obj not in hc and obj[0] in ('o', 'os', 'a', 's') :
                        hv = self.root(head, obj)
                        out = set(); self.diff(hv, bv, (), out)
                        for o in out:
                            cur = changed.setdefault(obj, set())
                            if not any(o[:len(c)] == c for c in cur):
                                changed[obj] = set(c for c in cur if c[:len(o)] != o) | {o}
                                new = True
            if not new: break
            del self.outcomes[base_out:]; del self.loops[base_loops:]
        else:
            self.out('unsupported', st, msg='loop cells did not stabilise')
            return []
        # 2. invariants
        cells = [(n, x0, self.cell_of(head, changed, n)) for n, x0 in syms]
        cells = [c for c in cells if c[2] is not None]
        cands = []
        for n, x0, _ in cells:
            cands.append(n - x0); cands.append(x0 - n)
        for i in range(len(cells)):
            for j in range(i + 1, len(cells)):
                (a, a0, _), (b, b0, _) = cells[i], cells[j]
                e = (a - a0) - (b - b0); cands += [e, -e]
                e = (a - a0) + (b - b0); cands += [e, -e]
        subst_names = {n.single(): (obj, sel) for n, x0, (obj, sel) in cells}
        def value_in(b, obj, sel):
            try: return self.leaf_at(self.root(b, obj), sel)
            except Exception: return None
        def shifted(c, b):
            """c with every havocked unknown replaced by its value in state b"""
            r = K(c.c)
            for a, k in c.t:
                if a in subst_names:
                    v = value_in(b, *subst_names[a])
                    if not isinstance(v, Lin): return None
                    r = r + v.scale(k)
                else: r = r + lin(a).scale(k)
            return r
        def entry(c):
            r = K(c.c)
            m = {n.single(): x0 for n, x0, _ in cells}
            for a, k in c.t: r = r + (m[a] if a in m else lin(a)).scale(k)
            return r
        # what a turn makes afresh (or what depends on a cell) means something else in every turn: no invariant speaks of it
        made = {}
        def of_turn(k):
            if isinstance(k, Lin): return any(turn_atom(a) for a, _ in k.t)
            if isinstance(k, Poly): return any(of_turn(x.args) for m, _ in k.t for x, _ in m)
            if isinstance(k, Atom): return turn_atom(k)
            if not isinstance(k, tuple): return False
            if k and k[0] == 'L' and len(k) > 2 and isinstance(k[2], int) and k[2] >= st.info.get(('ser', k[1]), 0): return True
            at = FRESHLY.get(k[0]) if k and isinstance(k[0], str) else None
            if at is not None and -len(k) <= at < len(k) and isinstance(k[at], int) and k[at] > st.n: return True
            return any(of_turn(x) for x in k)
        def turn_atom(a):
            if a not in made: made[a] = of_turn(a.args)
            return made[a]
        # facts of a turn, shifted by the step of the variable
        def more(backs):
            out = []
            for b in backs:
                stp = {}
                for n, x0, (obj, sel) in cells:
                    v = value_in(b, obj, sel)
                    if isinstance(v, Lin) and (v - n).is_const(): stp[n.single()] = (v - n).c
                for fct in list(b.store.ge) + [x for f in b.store.ne for x in (f, -f)]:
                    if any(a in subst_names for a, _ in fct.t) and all(a in stp if a in subst_names else not turn_atom(a) for a, _ in fct.t):
                        r = fct
                        for a, k in fct.t:
                            if a in stp: r = r - k * stp[a]
                        out.append(r); out.append(fct)
            return out
        cands += more(backs)
        # arrays a turn writes one step of: the entry content with a growing written range
        self.tmpls[(lid, serial)] = tm = {}
        tsrc = {}
        for obj, sels in changed.items():
            for sel in sels:
                if not sel or sel[-1] != ('c',) or sel[:-1] + (('len',),) in sels: continue
                key = ('L', lid, serial, obj)
                for e in sel[:-1]: key += (e[-1],) if e[0] in ('f', 'vf') else (e[0],)
                key += ('c',)
                try:
                    hv = self.leaf_at(self.root(head, obj), sel[:-1]); ev = self.leaf_at(self.root(st, obj), sel[:-1])
                except Exception: continue
                r = None
                for b in backs:
                    bv = value_in(b, obj, sel[:-1])
                    q = self.grown(hv, bv, lambda x: shifted(x, b))
                    if q is None or (r is not None and q != r): r = None; break
                    r = q
                if r is None or not isinstance(ev, tuple) or ev[0] != 'arr': continue
                idx, src = r
                lo = entry(idx); n = idx - lo
                if src[0] == 'fill': sa = ('arr', n, src, ())
                else: sa = ('arr', n, ('sl', src[1], src[2] + lo), ())
                tm[key] = ('arr', hv[1], ev[2], ev[3] + (('r', lo, n, sa),))
                tsrc[key] = (obj, sel[:-1], idx, src)
        # bounds on a number inside a variant: "if the cell is Some(x) then x < n"
        conds = {}
        for obj, sels in changed.items():
            for sel in sels:
                hv = value_in(head, obj, sel)
                if not (isinstance(hv, tuple) and hv and hv[0] == 'opq' and isinstance(hv[1], int)) or self.T[hv[1]].get('kind') != 'enum': continue
                for vr, val in self.p.discrs(hv[1]):
                    fs = self.T[hv[1]]['variants'][vr]['f']
                    if len(fs) != 1 or self.T[fs[0]['t']]['k'] != 'int': continue
                    x = self.field(hv, 0, variant=vr)
                    if not isinstance(x, Lin): continue
                    cs = [q for n, x0, _ in cells for q in (n - x - 1, n - x, x - n)]
                    if cs: conds[(obj, sel, vr)] = [hv, x, self.discr(hv, hv[1]) - val, cs]
        def inside(c, x, v): return c + (v - x).scale(dict(c.t)[x.single()])
        def cond_holds(c, cond, e, bv, sub):
            hv, x, d, facts = cond[0]
            vr = cond[1]
            if bv == hv:
                s = e.clone()
                try:
                    if not s.store.assume(c_eq(d)): return True
                    for q in facts:
                        if not s.store.assume(c_ge(q)): return True
                except Infeasible: return True
                except NeedSplit: return False
                v = sub(c)
                return v is not None and s.store.ent_ge(v)
            if not (isinstance(bv, tuple) and bv and bv[0] == 'enum'): return False
            if bv[2] != vr: return True
            if not isinstance(bv[3][0], Lin): return False
            v = sub(c)
            return v is not None and e.store.ent_ge(inside(v, x, bv[3][0]))
        for k in list(conds):
            hv, x, d, cs = conds[k]
            ev = value_in(st, *k[:2])
            cs = [c for c in cs if cond_holds(c, ((hv, x, d, []), k[2]), st, ev, entry)]
            if cs: conds[k][3] = cs
            else: del conds[k]
        tried = set()
        inv = []
        for c in cands:
            c = norm_ge(c)
            if c in tried or c.is_const(): continue
            tried.add(c)
            if not any(a in subst_names for a, _ in c.t): continue
            if st.store.ent_ge(entry(c)): inv.append(c)
        rounds = 0
        prev = None
        # a 64-bit count of turns that begins small: no execution makes 2^62 turns
        slow = None
        while True:
            rounds += 1
            if rounds > 40: self.out('unsupported', st, msg='loop invariants did not stabilise'); return []
            del self.outcomes[base_out:]; del self.loops[base_loops:]
            head, _ = self.make_head(st, changed, lid, serial)
            ok = True
            for c in inv:
                if not head.store.assume(c_ge(c)): ok = False
            if not ok:
                # entailed on entry, yet contradictory: no execution enters the loop
                s2 = st.clone()
                if not all(s2.store.assume(c_ge(entry(c))) for c in inv): return []
                self.out('unsupported', st, msg='contradictory loop invariant'); return []
            if conds: head.info['cond'] = dict(head.info.get('cond') or {}, **{str(k[:2]) + str(k[2]): (d, tuple(cs)) for k, (hv, x, d, cs) in conds.items() if cs})
            h0 = head.clone()
            h0.event('loop', lid)
            h0.info['skip_head'] = True
            exits, backs = self.explore([h0], bar)
            bad = set()
            for c in inv:
                for b in backs:
                    if slow and c in slow:
                        v = value_in(b, *slow[c][1])
                        if not isinstance(v, Lin) or not b.store.ent_ge(slow[c][0] + 1 - v): bad.add(c); break
                        continue
                    v = shifted(c, b)
                    if v is None or not b.store.ent_ge(v): bad.add(c); break
            badt = []
            for k, (obj, sel, idx, src) in tsrc.items():
                if k not in tm: continue
                for b in backs:
                    if self.grown(tm[k], value_in(b, obj, sel), lambda x: shifted(x, b)) != (idx, src): badt.append(k); break
            badc = False
            for k, cd in conds.items():
                keep = [c for c in cd[3] if all(cond_holds(c, (tuple(cd), k[2]), b, value_in(b, *k[:2]), lambda z: shifted(z, b)) for b in backs)]
                if keep != cd[3]: badc = True; cd[3] = keep
            if not bad and not badt and not badc:
                # try facts discovered under the invariants once more
                if prev is None:
                    extra = []
                    for c in more(backs):
                        c = norm_ge(c)
                        if c in tried or c.is_const(): continue
                        tried.add(c)
                        if st.store.ent_ge(entry(c)): extra.append(c)
                    prev = True
                    if extra: inv = inv + extra; continue
                if slow is None and any(o.kind == 'panic' and 'overflow-Add' in str(o.msg) for o in self.outcomes[base_out:]):
                    slow = {}
                    for n, x0, w in cells:
                        if isinstance(x0, Lin) and n.single() is not None and n.single().hi in ((1 << 64) - 1, (1 << 63) - 1) and st.store.ent_ge(x0) and st.store.ent_ge(K(1 << 32) - x0):
                            slow[norm_ge(K(1 << 62) - n)] = (n, w)
                    slow = {c: v for c, v in slow.items() if c not in inv}
                    if slow: inv = inv + list(slow); continue
                break
            inv = [c for c in inv if c not in bad]
            for k in badt: del tm[k]
        rec = {'id': lid, 'path': name, 'inst': f.inst, 'header': bar[1], 'depth': len(st.frames), 'entry': st, 'head': head,
               'backs': backs, 'exits': exits, 'inv': inv, 'cells': cells, 'changed': changed,
               'rank': self.ranking(head, backs, cells, shifted, entry), 'turns': self.turns, 'outcomes': self.outcomes[base_out:],
               'span': self.I[f.inst]['span'], 'bar': bar}
        self.loops.append(rec)
        return exits

    def grown(self, hv, bv, shifted):
        """(i, src) when a turn took hv to hv with element i (a range from i) written from src and i moved past it"""
        if not (isinstance(hv, tuple) and isinstance(bv, tuple) and hv and bv and hv[0] == 'arr' and bv[0] == 'arr'): return None
        if hv[1:3] != bv[1:3] or len(bv[3]) != len(hv[3]) + 1 or bv[3][:-1] != hv[3]: return None
        w = bv[3][-1]
        i = w[1]; m = K(1) if w[0] == 'w' else w[2]
        j = shifted(i)
        if j is None or j - i != m: return None
        if w[0] == 'r':
            if w[3][2][0] == 'fill' and not w[3][3]: return (i, w[3][2])
            return None
        v = w[2]
        if isinstance(v, Lin):
            if v.is_const(): return (i, ('fill', v))
            a = v.single()
            k = a.args if a is not None and a.kind == 'sym' else None
            if isinstance(k, tuple) and len(k) == 3 and k[1] == '[]' and isinstance(k[2], Lin) and (k[2] - i).is_const():
                t = self.p.ty('u8')
                if a.lo == 0 and a.hi == 255: return (i, ('from', ('arr', sym((k[0], 'len'), 0, (1 << 63) - 1, 64), ('opq', k[0], t), ()), k[2] - i))
        return None

    def cell_of(self, head, changed, n):
        for obj, sels in changed.items():
            for s in sels:
                try: v = self.root(head, obj)
                except Unsupported: continue
                r = self.find_leaf(v, n, s)
                if r is not None: return (obj, r)
        return None

    def find_leaf(self, v, n, sel):
        try: x = self.leaf_at(v, sel)
        except Exception: return None
        if isinstance(x, Lin) and x == n: return sel
        return None

    def ranking(self, head, backs, cells, shifted, entry=None):
        """a linear measure bounded below and strictly decreasing on every turn; self.turns: its values on entry"""
        self.turns = []
        if not backs: return 'no turn'
        found = None
        ms = []
        for b in backs:
            for fct in list(b.store.ge) + [x for f in b.store.ne for x in (f, -f)]:
                if any(a.single() in [x for x, _ in fct.t] for a, _, _ in cells): ms.append(fct)
        for n, x0, _ in cells: ms.append(n); ms.append(-n)
        seen = set()
        for m in ms:
            if m in seen: continue
            seen.add(m)
            ok = True
            for b in backs:
                v = shifted(m, b)
                if v is None or not b.store.ent_ge(m - v - 1) or not (b.store.ent_ge(m)): ok = False; break
            if ok:
                found = found or 'linear: ' + str(m)
                if entry is None or not self.opts.get('turns'): break
                self.turns.append(entry(m))
                if len(self.turns) >= 6: break
        if found: return found
        # chain of owned nodes: a pointer that moves strictly deeper into its own target
        for obj, v in self.cells(head).items():
            hv = v
            if not isinstance(hv, tuple): continue
            ok = True
            for b in backs:
                try: bv = self.root(b, obj)
                except Unsupported: ok = False; break
                if not self.deeper(hv, bv): ok = False; break
            if ok: return 'structural: ' + str(obj)
        return None

    def deeper(self, hv, bv):
        """bv points strictly inside what hv owns"""
        def ptrs(v, acc, d=0):
            if isinstance(v, tuple) and v:
                if v[0] == 'ptr': acc.append(v)
                elif v[0] == 'agg' and d < 4:
                    for x in v[1]: ptrs(x, acc, d + 1)
                elif v[0] == 'enum' and d < 4:
                    for x in v[3]: ptrs(x, acc, d + 1)
                elif v[0] == 'opq': acc.append(v)
            return acc
        hs, bs = ptrs(hv, []), ptrs(bv, [])
        if len(hs) != 1 or len(bs) != 1: return False
        hk = hs[0][1][1] if hs[0][0] == 'ptr' and hs[0][1][0] in ('o', 'os') else (hs[0][2] if hs[0][0] == 'opq' else None)
        bk = bs[0][1][1] if bs[0][0] == 'ptr' and bs[0][1][0] in ('o', 'os') else (bs[0][2] if bs[0][0] == 'opq' else None)
        if hk is None or bk is None or hk == bk: return False
        n = 0
        while isinstance(bk, tuple) and bk and n < 60:
            # keys grow by nesting: (outer, selector...)
            bk = bk[0] if isinstance(bk[0], tuple) else None
            n += 1
            if bk == hk: return True
        return False

PUSHED = object()
