"""Contracts of the leaves: allocator, operating system, formatting, calendar, synchronisation,
arithmetic intrinsics and the virtual I/O handler.  Everything else is analysed from its body."""
import re
from terms import *
from store import NeedSplit
from interp import *

VEC = 'std::vec::Vec'
def strip(p): return p

class Models:
    def __init__(self, opts=None):
        self.opts = opts or {}
        self.ex = {}
        self.rx = []
        self.cache = {}
        for n in dir(self):
            f = getattr(self, n)
            for p in getattr(getattr(f, '__func__', f), 'paths', ()):
                if p.startswith('^'): self.rx.append((re.compile(p), f))
                else: self.ex[p] = f
        self.assumed = set()

    def lookup(self, it, path, inst):
        k = (path, inst['id'] if inst else None)
        if k in self.cache: return self.cache[k]
        m = None
        for q in ((inst['path'], path) if inst is not None and inst['path'] != path else (path,)):
            m = self.ex.get(q)
            if m is None:
                for r, f in self.rx:
                    if r.match(q): m = f; break
            if m is not None: break
        if m is None and inst is not None and inst['kind'] == 'virtual': m = self.virtual
        ov = self.opts.get('override')
        if ov:
            o = ov(it, path, inst)
            if o is not None: m = o
        self.cache[k] = m
        return m

    # ---------------------------------------------------------------- helpers
    def rty(self, st, t):
        """type of a call's destination"""
        return t[7]
    def variants(self, it, ty, name):
        for n, v in enumerate(it.T[ty]['variants']):
            if v['n'] == name: return n
        raise Unsupported('variant ' + name)
    def ok(self, it, ty, v): return ('enum', ty, self.variants(it, ty, 'Ok'), (v,))
    def err(self, it, ty, v): return ('enum', ty, self.variants(it, ty, 'Err'), (v,))
    def some(self, it, ty, v): return ('enum', ty, self.variants(it, ty, 'Some'), (v,))
    def none(self, it, ty): return ('enum', ty, self.variants(it, ty, 'None'), ())
    def payload_ty(self, it, ty, name):
        v = it.T[ty]['variants'][self.variants(it, ty, name)]
        return v['f'][0]['t']
    def result(self, it, st, ty, key, okval=None):
        """an undetermined Result named by key"""
        if it.decide(st, ('b', ('ok', key))):
            return self.ok(it, ty, it.opq(self.payload_ty(it, ty, 'Ok'), (key, 'ok')) if okval is None else okval)
        return self.err(it, ty, it.opq(self.payload_ty(it, ty, 'Err'), (key, 'err')))
    def canon(self, it, st, v, depth=0):
        """value with references replaced by what they refer to (for value numbering)"""
        if isinstance(v, tuple) and v and depth < 8:
            if v[0] == 'ptr':
                try: return ('&', self.canon(it, st, it.load(st, v[1], v[2]), depth + 1))
                except (Unsupported, KeyError): return v
            if v[0] == 'agg': return ('agg', tuple(self.canon(it, st, x, depth + 1) for x in v[1]))
            if v[0] == 'enum': return ('enum', v[1], v[2], tuple(self.canon(it, st, x, depth + 1) for x in v[3]))
        return v
    def havoc_args(self, it, st, t, args, key):
        """memory reachable by mutable reference becomes unknown"""
        for n, a in enumerate(args):
            ty = t[6][n] if n < len(t[6]) else None
            if ty is None: continue
            x = it.T[ty]
            if x['k'] in ('ref', 'rawptr') and x.get('mut') and isinstance(a, tuple) and a[0] == 'ptr':
                to = it.T[x['to']]
                if to['k'] in ('slice', 'str', 'dyn'):
                    if to['k'] == 'slice' and a[2] and a[2][-1][0] == 'sub':
                        it.store_at(st, a[1], a[2], ('arr', a[2][-1][2], ('opq', (key, 'arg', n), to['elem']), ()))
                    continue
                it.store_at(st, a[1], a[2], it.opq(x['to'], (key, 'arg', n)))

    # ---------------------------------------------------------------- unknown code
    def unknown(self, it, st, t, path, inst, args):
        if t[4] is None:
            it.visited_panics = getattr(it, 'visited_panics', set()) | {path}
            raise Panic(path)
        it.unmodelled = getattr(it, 'unmodelled', set()) | {path}
        key = ('app', path, tuple(self.canon(it, st, a) for a in args), st.fresh())
        self.havoc_args(it, st, t, args, key)
        it.finish(st, t, it.opq(t[7], key))
        return [st]

    def opaque_fn(self, it, st, t, fv, args):
        key = ('call', fv, st.fresh())
        st.event('callfn', fv, tuple(self.canon(it, st, a, 6) if not (isinstance(a, tuple) and a[0] == 'ptr') else a for a in args), st.n,
                 tuple((o, v) for o, v in st.mem.items() if o[0] in ('o', 'os', 'ha')))
        if t[4] is None: raise Dead()
        self.havoc_args(it, st, t, args, key)
        it.finish(st, t, it.opq(t[7], key))
        return [st]

    def drop(self, it, st, t):
        ty = t[2]; s = it.T[ty]['s']
        if self.may_own(it, ty):
            obj, path, _ = it.place(st, t[1])
            try: v = it.load(st, obj, path)
            except KeyError: v = UNINIT
            if v != UNINIT:
                hs = tuple(self.handles(it, st, ty, v))
                st.info['closed'] = st.info.get('closed', ()) + hs
                # a file captured by a closure, or held by a type of the program
                if 'std::fs::File' not in s and it.T[ty]['k'] in ('closure', 'adt') and not it.T[ty].get('box'):
                    for h in hs: st.event('drop', 'std::fs::File', h)
        if 'MutexGuard' in s or 'std::fs::File' in s or 'RwLock' in s or 'RefMut' in s:
            try:
                obj, path, _ = it.place(st, t[1])
                v = it.load(st, obj, path)
            except Unsupported: v = None
            if v is not None and v != UNINIT:
                st.event('drop', s, v)
        return None

    def may_own(self, it, ty, seen=None):
        """may a value of the type own an open file?"""
        m = it.__dict__.setdefault('_may_own', {})
        if ty in m: return m[ty]
        m[ty] = False
        x = it.T[ty]; k = x['k']
        if k == 'adt':
            p = x['path']
            r = p == 'std::fs::File' or (not p.endswith('mem::ManuallyDrop') and
                (any(self.may_own(it, f['t']) for v in x['variants'] for f in v['f']) or (p.startswith(('std::', 'alloc::', 'core::')) and any(self.may_own(it, a) for a in x['targs'] if isinstance(a, int)))))
        elif k in ('tuple', 'closure'): r = any(self.may_own(it, f) for f in x['fields'])
        elif k in ('array', 'slice'): r = self.may_own(it, x['elem'])
        else: r = k == 'dyn'
        m[ty] = r
        return r
    def handles(self, it, st, ty, v):
        """the open files a value owns"""
        out = []
        def leaves(v):                       # inside containers and trait objects
            if not isinstance(v, tuple) or not v: return
            if v[0] == 'opq':
                if isinstance(v[1], int) and it.T[v[1]]['s'] == 'std::fs::File': out.append(v[2])
            elif v[0] == 'ptr':
                if v[1] in st.mem: leaves(st.mem[v[1]])
            else:
                for x in v: leaves(x)
        def walk(ty, v, depth=0):
            if v is None or v == UNINIT or not self.may_own(it, ty) or depth > 40: return
            x = it.T[ty]; k = x['k']
            if k == 'adt' and x['path'] == 'std::fs::File': leaves(v)
            elif k == 'adt' and x['box']:
                p = it.as_ptr(st, v)
                if p[0] != 'ptr': return
                to = x['targs'][0]
                w = it.load(st, p[1], p[2])
                if it.T[to]['k'] == 'dyn': leaves(w)
                else: walk(to, w, depth + 1)
            elif k == 'adt' and x['kind'] == 'struct' and not x['path'].startswith(('std::vec', 'alloc::')):
                for n, f in enumerate(x['variants'][0]['f']):
                    if self.may_own(it, f['t']): walk(f['t'], it.field(v, n), depth + 1)
            elif k == 'adt' and x['kind'] == 'enum':
                if v[0] == 'enum':
                    for n, f in enumerate(x['variants'][v[2]]['f']): walk(f['t'], v[3][n], depth + 1)
                else: leaves(v)
            elif k in ('tuple', 'closure'):
                for n, f in enumerate(x['fields']): walk(f, it.field(v, n), depth + 1)
            else: leaves(v)
        walk(ty, v)
        return out

    def pure(self, it, st, t, args, inst, targs):
        key = ('app', inst['path'], tuple(self.canon(it, st, a) for a in args))
        return it.opq(t[7], key)

    def nop(self, it, st, t, args, inst, targs): return UNIT
    nop.paths = ('std::intrinsics::cold_path', 'std::intrinsics::assert_inhabited', 'std::intrinsics::assert_zero_valid',
                 'alloc::alloc::__rust_no_alloc_shim_is_unstable_v2', 'std::intrinsics::assume', 'std::mem::forget',
                 'alloc::alloc::__rust_dealloc', 'alloc::alloc::dealloc', 'std::alloc::dealloc',
                 '<std::boxed::Box<T, A> as std::ops::Drop>::drop', '<std::alloc::Global as std::alloc::Allocator>::deallocate')

    def panics(self, it, st, t, args, inst, targs):
        raise Panic(inst['path'])
    panics.paths = ('core::slice::index::slice_index_fail', 'std::option::unwrap_failed', 'core::option::unwrap_failed', 'std::option::expect_failed',
                    'std::result::unwrap_failed', 'core::result::unwrap_failed', 'std::result::unwrap_failed::unwrap_failed_inner', 'std::rt::panic_fmt', 'core::panicking::panic_fmt',
                    'core::panicking::panic', 'core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_fmt',
                    'core::panicking::unreachable_default_msg', 'core::panicking::panic_explicit', 'std::rt::begin_panic',
                    'core::slice::copy_from_slice_impl::len_mismatch_fail', '^core::panicking::.*', '^std::rt::panic.*',
                    '^core::slice::index::.*_fail$', '^core::str::slice_error_fail.*')

    # ---------------------------------------------------------------- integer / float intrinsics
    def bswap(self, it, st, t, args, inst, targs):
        x = it.T[t[7]]
        n = x['bits'] // 8
        u = it.to_unsigned(args[0], x, x['bits'])
        r = word(to_bytes(u, n)[::-1])
        return it.to_signed(r, x['bits']) if x['signed'] else r
    bswap.paths = ('std::intrinsics::bswap',)

    def rot(self, it, st, t, args, inst, targs):
        x = it.T[t[7]]; n = x['bits'] // 8
        s = args[1]
        left = inst['path'].endswith('left')
        if s.is_const() and s.c % 8 == 0 and not x['signed']:
            k = (s.c // 8) % n
            b = to_bytes(args[0], n)
            b = (b[-k:] + b[:-k] if k else b) if left else b[k:] + b[:k]
            return word(b)
        if s.is_const() and args[0].is_const():
            m = (1 << x['bits']) - 1; k = s.c % x['bits']; v = args[0].c & m
            if not left: k = (x['bits'] - k) % x['bits']
            return K(((v << k) | (v >> (x['bits'] - k))) & m) if not x['signed'] else it.to_signed(K(((v << k) | (v >> (x['bits'] - k))) & m), x['bits'])
        return it.opq(t[7], ('app', inst['path'], tuple(args)))
    rot.paths = ('std::intrinsics::rotate_left', 'std::intrinsics::rotate_right')

    def ctpop(self, it, st, t, args, inst, targs):
        if args[0].is_const(): return K(bin(args[0].c).count('1'))
        return sym(('app', inst['path'], tuple(args)), 0, it.T[it.op_ty(st, t[2][0])].get('bits', 128), it.T[t[7]]['bits'])
    ctpop.paths = ('std::intrinsics::ctpop',)

    def bitcount(self, it, st, t, args, inst, targs):
        n = it.T[it.op_ty(st, t[2][0])].get('bits', 128)
        if args[0].is_const() and args[0].c >= 0:
            v = args[0].c
            return K(n - v.bit_length() if 'ctlz' in inst['path'] else (v & -v).bit_length() - 1 if v else n)
        return sym(('app', inst['path'], tuple(args)), 0, n, it.T[t[7]]['bits'])
    bitcount.paths = ('std::intrinsics::ctlz', 'std::intrinsics::cttz', 'std::intrinsics::ctlz_nonzero', 'std::intrinsics::cttz_nonzero')

    def bitreverse(self, it, st, t, args, inst, targs):
        return it.opq(t[7], ('app', inst['path'], tuple(args)))
    bitreverse.paths = ('std::intrinsics::bitreverse',)

    def not_static(self, it, st, t, args, inst, targs): return False
    not_static.paths = ('std::intrinsics::is_val_statically_known',)

    def slice_order(self, it, st, t, args, inst, targs):
        """reverse and swap of the elements of a short array"""
        p = it.as_ptr(st, args[0]); v = it.load(st, p[1], p[2])
        if not (isinstance(v, tuple) and v[0] == 'arr' and v[1].is_const() and v[1].c <= 64): raise Unsupported('reordering of a slice of unknown length')
        l = it.arr_list(st, v)
        if inst['path'].endswith('::reverse'): l = l[::-1]
        else:
            for x in args[1:3]:
                if not x.is_const(): raise Unsupported('swap of unknown elements')
                if not 0 <= x.c < len(l): raise Panic('bounds')
            i, j = args[1].c, args[2].c
            l[i], l[j] = l[j], l[i]
        it.store_at(st, p[1], p[2], ('arr', v[1], ('list', tuple(l)), ()))
        return UNIT
    slice_order.paths = ('core::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::swap')

    def compare_bytes(self, it, st, t, args, inst, targs):
        if args[2] == ZERO: return ZERO
        a, b = (self.canon(it, st, it.as_ptr(st, x)) for x in args[:2])
        if a == b: return ZERO
        return sym(('app', 'compare_bytes', (a, b, args[2])), -(1 << 31), (1 << 31) - 1, 32)
    compare_bytes.paths = ('std::intrinsics::compare_bytes',)

    def intminmax(self, it, st, t, args, inst, targs):
        a, b = args
        mn = inst['path'].endswith('min')
        if it.decide(st, c_ge(b - a)): return a if mn else b
        return b if mn else a
    intminmax.paths = ('std::intrinsics::integer_min', 'std::intrinsics::integer_max')

    def sat(self, it, st, t, args, inst, targs):
        x = it.T[t[7]]
        lo, hi = int_range(x['bits'], x['signed'])
        r = args[0] + args[1] if inst['path'].endswith('add') else args[0] - args[1]
        w = it.fit(st, r, lo, hi)
        return r if w == 0 else K(hi if w > 0 else lo)
    sat.paths = ('std::intrinsics::saturating_add', 'std::intrinsics::saturating_sub')

    def f_floor(self, it, st, t, args, inst, targs):
        c = args[0].const()
        if c is not None:
            import math
            return P(math.floor(c))
        return pa('floor', (args[0],))
    f_floor.paths = ('std::intrinsics::floor', 'std::intrinsics::floorf64')
    def f_un(self, it, st, t, args, inst, targs):
        return pa(inst['path'].split('::')[-1], (args[0],))
    f_un.paths = ('std::intrinsics::ceil', 'std::intrinsics::trunc', 'std::intrinsics::round', 'std::intrinsics::round_ties_even', 'std::intrinsics::sin', 'std::intrinsics::cos')
    def f_abs(self, it, st, t, args, inst, targs):
        x = args[0]
        r = st.store.eval(c_f(x, [0, 1])) if x.const() is None else None
        return pabs(x)
    f_abs.paths = ('std::intrinsics::fabs',)
    def f_pow(self, it, st, t, args, inst, targs): return ppow(args[0], args[1])
    f_pow.paths = ('std::intrinsics::powf', 'std::intrinsics::powf64')
    def f_powi(self, it, st, t, args, inst, targs):
        return ppow(args[0], i2f(args[1]))
    f_powi.paths = ('std::intrinsics::powi', 'std::intrinsics::powif64')
    def f_sqrt(self, it, st, t, args, inst, targs): return ppow(args[0], P(Fraction(1, 2)))
    f_sqrt.paths = ('std::intrinsics::sqrt', 'std::intrinsics::sqrtf64')
    def f_exp(self, it, st, t, args, inst, targs): return pexp(args[0])
    f_exp.paths = ('std::intrinsics::exp', 'std::intrinsics::expf64')
    def f_exp2(self, it, st, t, args, inst, targs): return ppow(P(2), args[0])
    f_exp2.paths = ('std::intrinsics::exp2',)
    def f_ln(self, it, st, t, args, inst, targs): return pln(args[0])
    f_ln.paths = ('std::intrinsics::log', 'std::intrinsics::logf64')
    def f_log10(self, it, st, t, args, inst, targs): return pln(args[0]) * pinv(LN10)
    f_log10.paths = ('std::intrinsics::log10', 'std::intrinsics::log10f64')
    def f_log2(self, it, st, t, args, inst, targs): return pln(args[0]) * pinv(LN2)
    f_log2.paths = ('std::intrinsics::log2', 'std::intrinsics::log2f64')
    def f_max(self, it, st, t, args, inst, targs):
        a, b = args
        mx = 'max' in inst['path']
        if it.decide(st, c_f(a - b, [0, 1])): return a if mx else b
        return b if mx else a
    f_max.paths = ('^std::intrinsics::(maximum|minimum|max|min).*f(64|32)$',)
    def f_fma(self, it, st, t, args, inst, targs): return args[0] * args[1] + args[2]
    f_fma.paths = ('std::intrinsics::fma', 'std::intrinsics::fmaf64')
    def f_copysign(self, it, st, t, args, inst, targs):
        m = pabs(args[0])
        return m if it.decide(st, c_f(args[1], [0, 1])) else -m
    f_copysign.paths = ('std::intrinsics::copysign', 'std::intrinsics::copysignf64')
    def f_isnan(self, it, st, t, args, inst, targs): return it.is_nan(args[0]) if 'is_nan' in inst['path'] else False
    f_isnan.paths = ('^(std|core)::f(64|32)::<impl f(64|32)>::is_(nan|infinite)$',)
    def f_isfin(self, it, st, t, args, inst, targs): return True
    f_isfin.paths = ('^(std|core)::f64::<impl f64>::is_finite$',)
    def f_signneg(self, it, st, t, args, inst, targs): return c_f(args[0], NEG)
    f_signneg.paths = ('^(std|core)::f64::<impl f64>::is_sign_negative$',)
    def f_signpos(self, it, st, t, args, inst, targs): return c_f(args[0], [0, 1])
    f_signpos.paths = ('^(std|core)::f64::<impl f64>::is_sign_positive$',)
    def f_signum(self, it, st, t, args, inst, targs): return P(1) if it.decide(st, c_f(args[0], [0, 1])) else P(-1)
    f_signum.paths = ('^(std|core)::f64::<impl f64>::signum$',)
    def f_log1p(self, it, st, t, args, inst, targs): return pln(args[0] + PONE)
    f_log1p.paths = ('^std::f64::<impl f64>::ln_1p$',)
    def f_expm1(self, it, st, t, args, inst, targs): return pexp(args[0]) - PONE
    f_expm1.paths = ('^std::f64::<impl f64>::exp_m1$',)

    # ---------------------------------------------------------------- memory intrinsics
    def size_of_val(self, it, st, t, args, inst, targs):
        ty = inst['targs'][0]; x = it.T[ty]
        if x.get('size') is not None:
            return K(x['size'] if 'size_of' in inst['path'] else x['align'])
        if x['k'] in ('slice', 'str'):
            if 'align' in inst['path']: return K(1 if x['k'] == 'str' else it.T[x['elem']]['align'])
            p = it.as_ptr(st, args[0])
            n = it.place_len(st, p[1], p[2])
            return n.scale(1 if x['k'] == 'str' else it.T[x['elem']]['size'])
        return sym(('size_of_val', it.T[ty]['s'], inst['path']), 0 if 'size' in inst['path'] else 1, (1 << 62), 64)
    size_of_val.paths = ('std::intrinsics::size_of_val', 'std::intrinsics::align_of_val')

    def raw_eq(self, it, st, t, args, inst, targs):
        a, b = (it.as_ptr(st, x) for x in args)
        return self.val_eq(it, st, it.load(st, a[1], a[2]), it.load(st, b[1], b[2]), inst['targs'][0])
    raw_eq.paths = ('std::intrinsics::raw_eq',)

    def val_eq(self, it, st, x, y, ty):
        if x == y: return True
        d = it.T[ty] if isinstance(ty, int) else None
        if d and d.get('kind') == 'struct' and len(d['variants'][0]['f']) == 1:
            return self.val_eq(it, st, it.field(x, 0), it.field(y, 0), d['variants'][0]['f'][0]['t'])
        elem = d['elem'] if d and d['k'] in ('array', 'slice') else None
        if isinstance(x, Lin) and isinstance(y, Lin): return c_eq(x - y)
        if isinstance(x, Poly) and isinstance(y, Poly): return c_f(x - y, ZER)
        if x[0] == 'arr' and y[0] == 'arr':
            if x[1].is_const() and y[1].is_const():
                if x[1] != y[1]: return False
                # one fact per pair of arrays; element facts only when both are explicit and short
                if x[1].c <= 16 and x[2][0] == 'list' and y[2][0] == 'list':
                    r = True
                    for p, q in zip(it.arr_list(st, x), it.arr_list(st, y)):
                        e = self.val_eq(it, st, p, q, elem)
                        r = c_and(r, e)
                    return r
            return ('b', ('arreq', x, y) if str(x) <= str(y) else ('arreq', y, x))
        return ('b', ('valeq', x, y))

    def mem_eq(self, it, st, t, args, inst, targs):
        """slice / array equality of plain data"""
        a, b = (it.as_ptr(st, x) for x in args[:2])
        va = it.load(st, a[1], a[2]); vb = it.load(st, b[1], b[2])
        r = self.val_eq(it, st, va, vb, it.pointee(t[6][0]) if va[0] == 'arr' and vb[0] == 'arr' else None)
        if va[0] == 'arr' and vb[0] == 'arr' and va[1] != vb[1]: r = c_and(c_eq(va[1] - vb[1]), r)
        return r

    def arr_eq(self, it, st, t, args, inst, targs):
        """array equality: elementwise, with the element type's own ==, when that is derived from its bits"""
        return self.mem_eq(it, st, t, args, inst, targs)
    arr_eq.paths = ('^std::array::equality::<impl std::cmp::PartialEq<.*> for \\[T; N\\]>::eq$', '^<T as std::array::equality::SpecArrayEq<.*>>::spec_eq$',
                    '^core::slice::cmp::<impl std::cmp::PartialEq<.*> for \\[T\\]>::eq$', '^core::slice::cmp::.*SlicePartialEq.*::equal$')
    def arr_ne(self, it, st, t, args, inst, targs): return c_not(self.mem_eq(it, st, t, args, inst, targs))
    arr_ne.paths = ('^std::array::equality::<impl std::cmp::PartialEq<.*> for \\[T; N\\]>::ne$', '^<T as std::array::equality::SpecArrayEq<.*>>::spec_ne$',
                    '^core::slice::cmp::<impl std::cmp::PartialEq<.*> for \\[T\\]>::ne$', '^core::slice::cmp::.*SlicePartialEq.*::not_equal$')

    def copy(self, it, st, t, args, inst, targs):
        it.copy_mem(st, args[0], args[1], args[2], it.pointee(t[6][0]))
        return UNIT
    copy.paths = ('std::intrinsics::copy', 'std::ptr::copy', 'std::ptr::copy_nonoverlapping', 'std::intrinsics::copy_nonoverlapping')

    def write_bytes(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); n = args[2]
        el = it.pointee(t[6][0])
        if it.T[el]['k'] != 'int' or it.T[el]['bits'] != 8: 
            if args[1] == ZERO: v = self.zero(it, el)
            else: raise Unsupported('write_bytes of ' + it.T[el]['s'])
        else: v = args[1]
        if n == ZERO: return UNIT
        it.store_at(st, p[1], it.range_path(p[2], n), ('arr', n, ('fill', v), ()))
        return UNIT
    write_bytes.paths = ('std::intrinsics::write_bytes', 'std::ptr::write_bytes')

    def zero(self, it, ty):
        x = it.T[ty]
        return it.build(ty, 0, [(j, 1, 'int', ZERO, {'signed': False}) for j in range(x['size'])])

    def slice_fill(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); n = it.place_len(st, p[1], p[2])
        it.store_at(st, p[1], p[2], ('arr', n, ('fill', args[1]), ()))
        return UNIT
    slice_fill.paths = ('core::slice::<impl [T]>::fill', '^<\\[.*\\] as core::slice::specialize::SpecFill<.*>>::spec_fill$')

    def offset_from(self, it, st, t, args, inst, targs):
        a, b = (it.as_ptr(st, x) for x in args)
        if a[0] == 'addr' and b[0] == 'addr':
            return a[1] - b[1]
        pa_, pb_ = it.ptr_norm(a), it.ptr_norm(b)
        if a[1] == b[1]:
            if pa_ == pb_: return ZERO
            if len(pa_) == len(pb_) and pa_[:-1] == pb_[:-1] and pa_[-1][0] == pb_[-1][0] == 'i': return pa_[-1][1] - pb_[-1][1]
            if len(pa_) == len(pb_) + 1 and pa_[:-1] == pb_ and pa_[-1][0] == 'i': return pa_[-1][1]
        raise Unsupported('offset_from')
    offset_from.paths = ('std::intrinsics::ptr_offset_from_unsigned', 'std::intrinsics::ptr_offset_from')

    def arith_offset(self, it, st, t, args, inst, targs): return it.ptr_add(st, args[0], args[1])
    arith_offset.paths = ('std::intrinsics::arith_offset', 'std::intrinsics::offset')

    # mem::replace / swap / take on places
    def mem_replace(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); old = it.load(st, p[1], p[2])
        it.store_at(st, p[1], p[2], args[1])
        return old
    mem_replace.paths = ('std::mem::replace', 'core::mem::replace')
    def mem_swap(self, it, st, t, args, inst, targs):
        p, q = it.as_ptr(st, args[0]), it.as_ptr(st, args[1])
        x, y = it.load(st, p[1], p[2]), it.load(st, q[1], q[2])
        it.store_at(st, p[1], p[2], y); it.store_at(st, q[1], q[2], x)
        return UNIT
    mem_swap.paths = ('std::mem::swap', 'core::mem::swap')
    def ptr_read(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); return it.load(st, p[1], p[2])
    ptr_read.paths = ('std::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read', 'std::ptr::read_unaligned', 'std::intrinsics::read_via_copy',
                      'std::intrinsics::volatile_load', 'std::ptr::read_volatile')
    def ptr_write(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); it.store_at(st, p[1], p[2], args[1]); return UNIT
    ptr_write.paths = ('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write', 'std::intrinsics::write_via_move')

    # ---------------------------------------------------------------- Box
    def new_heap(self, it, st, ty, v):
        o = ('h', st.fresh(), ty)
        st.mem[o] = v
        return o
    def box_new(self, it, st, t, args, inst, targs):
        ty = it.op_ty(st, t[2][0]) if t[2] else None
        ty = inst['targs'][0] if inst['targs'] and isinstance(inst['targs'][0], int) else ty
        o = self.new_heap(it, st, ty, args[0])
        return agg(('ptr', o, (), None), UNIT)
    box_new.paths = ('std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new')
    def box_uninit(self, it, st, t, args, inst, targs):
        ty = it.T[t[7]]['targs'][0]
        # MaybeUninit<T>: the object has type T underneath
        o = self.new_heap(it, st, ty, UNINIT)
        return agg(('ptr', o, (), None), UNIT)
    box_uninit.paths = ('std::boxed::Box::<T>::new_uninit', 'std::boxed::Box::<T, A>::new_uninit_in')
    def box_raw_uninit(self, it, st, t, args, inst, targs):
        raise Unsupported('raw box allocation')
    def box_clone(self, it, st, t, args, inst, targs):
        """Box<T>::clone: a new box around T::clone"""
        p = it.as_ptr(st, args[0]); q = it.as_ptr(st, it.load(st, p[1], p[2]))
        ty = it.T[t[7]]['targs'][0]
        if it.T[ty]['k'] == 'slice':
            v = it.load(st, q[1], q[2])
            o = ('ha', st.fresh(), it.T[ty]['elem']); st.mem[o] = v
            return agg(('ptr', o, (('sub', ZERO, v[1]),), None), UNIT)
        f = self.clone_fn(it, ty)
        if f is None:
            o = self.new_heap(it, st, ty, it.load(st, q[1], q[2]))
            return agg(('ptr', o, (), None), UNIT)
        def post(it2, st2, v):
            o = self.new_heap(it2, st2, ty, v)
            return agg(('ptr', o, (), None), UNIT)
        obj, path, _ = it.place(st, t[3])
        it.push(st, f, [('ptr', q[1], q[2], q[3])], (obj, path), t[4], t[5], post)
        return PUSHED
    box_clone.paths = ('<std::boxed::Box<T, A> as std::clone::Clone>::clone', '<std::boxed::Box<[T], A> as std::clone::Clone>::clone')
    def clone_fn(self, it, ty):
        s = it.T[ty]['s']
        for i in it.I.values():
            if i.get('impl_trait') == 'std::clone::Clone' and i['path'].endswith('::clone') and i.get('body') and i['local'] and i.get('impl_self') == ty: return i['id']
        for i in it.I.values():
            if i['local'] and i['path'] == '<%s as std::clone::Clone>::clone' % s and i.get('body'): return i['id']
        return None
    def box_default(self, it, st, t, args, inst, targs):
        """Box<T>::default: a box around T::default"""
        ty = it.T[t[7]]['targs'][0]
        s = it.T[ty]['s']
        for i in it.I.values():
            if i['path'] == '<%s as std::default::Default>::default' % s and i.get('body'):
                def post(it2, st2, v):
                    o = self.new_heap(it2, st2, ty, v)
                    return agg(('ptr', o, (), None), UNIT)
                obj, path, _ = it.place(st, t[3])
                it.push(st, i['id'], [], (obj, path), t[4], t[5], post)
                return PUSHED
        raise Unsupported('default of ' + s)
    box_default.paths = ('<std::boxed::Box<T> as std::default::Default>::default',)
    def arc_clone(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); return it.load(st, p[1], p[2])
    arc_clone.paths = ('<std::sync::Arc<T, A> as std::clone::Clone>::clone', '<std::rc::Rc<T, A> as std::clone::Clone>::clone')

    # ---------------------------------------------------------------- Vec
    def room(self, it, st, inst, n):
        """memory for n elements is asked for"""
        lim = it.opts.get('alloc')
        if lim is None: return
        it.nalloc += 1
        if not isinstance(n, Lin) or not st.store.ent_ge(K(lim) - n):
            f = st.frames[-1]
            it.big.append((inst['path'], tuple(it.I[x.inst]['path'] for x in st.frames), str(n)[:80]))
    def elem_of(self, it, vecty): return it.T[vecty]['targs'][0]
    def vec_new(self, it, st, t, args, inst, targs):
        if inst['name'].startswith('with_capacity'): self.room(it, st, inst, args[0])
        return ('vec', ('arr', ZERO, ('list', ()), ()))
    vec_new.paths = ('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::with_capacity_in', 'std::vec::Vec::<T, A>::new_in',
                     '<std::vec::Vec<T> as std::default::Default>::default')
    def vec_at(self, it, st, a):
        p = it.as_ptr(st, a)
        v = it.load(st, p[1], p[2])
        if v[0] != 'vec': raise Unsupported('vector expected')
        return p, v[1]
    def vec_set(self, it, st, p, arr): it.store_at(st, p[1], p[2], ('vec', arr))
    def arr_push(self, it, st, arr, v):
        n = arr[1]
        if n.is_const() and arr[2][0] == 'list' and not arr[3]:
            return ('arr', n + 1, ('list', arr[2][1] + (v,)), ())
        return ('arr', n + 1, arr[2] if arr[2][0] != 'fill' else ('sl', arr, ZERO), (arr[3] if arr[2][0] != 'fill' else ()) + (('w', n, v),))
    def raw_vec(self, it, st, t, args, inst, targs):
        self.room(it, st, inst, args[0])
        return it.opq(t[7], ('rawvec', st.fresh()))
    raw_vec.paths = ('alloc::raw_vec::RawVecInner::<A>::with_capacity_in', 'alloc::raw_vec::RawVecInner::<A>::with_capacity_zeroed_in')
    def vec_push(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0])
        self.vec_set(it, st, p, self.arr_push(it, st, arr, args[1]))
        if inst['path'].endswith('push_mut'): return ('ptr', p[1], p[2] + (('vd',), ('i', arr[1])), None)
        return UNIT
    vec_push.paths = ('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::push_mut')
    def vec_len(self, it, st, t, args, inst, targs):
        return self.vec_at(it, st, args[0])[1][1]
    vec_len.paths = ('std::vec::Vec::<T, A>::len',)
    def vec_capacity(self, it, st, t, args, inst, targs):
        c = it.opq(t[7], ('capacity', st.fresh()))
        st.store.assume(c_ge(c - self.vec_at(it, st, args[0])[1][1]))
        return c
    vec_capacity.paths = ('std::vec::Vec::<T, A>::capacity',)
    def vec_empty(self, it, st, t, args, inst, targs):
        return c_eq(self.vec_at(it, st, args[0])[1][1])
    vec_empty.paths = ('std::vec::Vec::<T, A>::is_empty',)
    def vec_deref(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0])
        return ('ptr', p[1], p[2] + (('vd',), ('sub', ZERO, arr[1])), None)
    vec_deref.paths = ('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
                       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
                       '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
    def vec_ptr(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0])
        return ('ptr', p[1], p[2] + (('vd',), ('i', ZERO)), None)
    vec_ptr.paths = ('std::vec::Vec::<T, A>::as_ptr', 'std::vec::Vec::<T, A>::as_mut_ptr')
    def vec_clear(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0])
        self.vec_set(it, st, p, ('arr', ZERO, ('list', ()), ())); return UNIT
    vec_clear.paths = ('std::vec::Vec::<T, A>::clear',)
    def vec_reserve(self, it, st, t, args, inst, targs):
        if inst['name'].startswith('reserve'): self.room(it, st, inst, args[1])
        return UNIT
    vec_reserve.paths = ('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::string::String::reserve')
    def vec_extend(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0])
        q = it.as_ptr(st, args[1])
        src = it.load(st, q[1], q[2])
        self.room(it, st, inst, src[1])
        self.vec_set(it, st, p, self.arr_concat(it, st, arr, src)); return UNIT
    vec_extend.paths = ('std::vec::Vec::<T, A>::extend_from_slice',)
    def vec_append_elements(self, it, st, t, args, inst, targs):
        q = it.as_ptr(st, args[1])
        st.event('pushs', ('l', 'app'), (), it.load(st, q[1], q[2]))
        return self.vec_extend(it, st, t, args, inst, targs)
    vec_append_elements.paths = ('std::vec::Vec::<T, A>::append_elements',)
    def arr_concat(self, it, st, a, b):
        if a[1] == ZERO: return b
        if b[1] == ZERO: return a
        if a[1].is_const() and b[1].is_const() and a[1].c + b[1].c <= 300:
            return ('arr', a[1] + b[1], ('list', tuple(it.arr_list(st, a) + it.arr_list(st, b))), ())
        return ('arr', a[1] + b[1], ('sl', a, ZERO), (('r', a[1], b[1], b),))
    def vec_truncate(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0])
        if it.decide(st, c_ge(args[1] - arr[1])): return UNIT
        self.vec_set(it, st, p, it.arr_sub(st, arr, ZERO, args[1])); return UNIT
    vec_truncate.paths = ('std::vec::Vec::<T, A>::truncate',)
    def vec_resize(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0]); n = args[1]
        self.room(it, st, inst, n)
        if it.decide(st, c_ge(arr[1] - n)): self.vec_set(it, st, p, it.arr_sub(st, arr, ZERO, n))
        else: self.vec_set(it, st, p, self.arr_concat(it, st, arr, ('arr', n - arr[1], ('fill', args[2]), ())))
        return UNIT
    vec_resize.paths = ('std::vec::Vec::<T, A>::resize',)
    def vec_pop(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0])
        if it.decide(st, c_eq(arr[1])): return self.none(it, t[7])
        v = it.arr_get(st, arr, arr[1] - 1)
        self.vec_set(it, st, p, it.arr_sub(st, arr, ZERO, arr[1] - 1))
        return self.some(it, t[7], v)
    vec_pop.paths = ('std::vec::Vec::<T, A>::pop',)
    def vec_clone(self, it, st, t, args, inst, targs):
        p, arr = self.vec_at(it, st, args[0])
        el = self.elem_of(it, t[7])
        f = self.clone_fn(it, el)
        if f is not None: st.event('clone_elems', el, arr)
        return ('vec', arr)
    vec_clone.paths = ('<std::vec::Vec<T, A> as std::clone::Clone>::clone',)
    def vec_into_iter(self, it, st, t, args, inst, targs):
        """the elements move into an object of their own, which the iterator walks by pointers"""
        v = args[0]
        if v[0] != 'vec': raise Unsupported('vector expected')
        rt = it.T[t[7]]
        fs = rt['variants'][0]['f']
        o = ('ha', st.fresh(), rt['targs'][0]); st.mem[o] = v
        at = lambda n: ('ptr', o, (('vd',), ('i', n)), None)
        out = []
        for f in fs:
            if f['n'] in ('buf', 'ptr'): out.append(agg(at(ZERO)))
            elif f['n'] == 'end': out.append(at(v[1][1]))
            else: out.append(it.opq(f['t'], ('intoiter', st.fresh(), f['n'])))
        if not {'ptr', 'end'} <= {f['n'] for f in fs} or not it.T[rt['targs'][0]].get('size'): raise Unsupported('vector iterator')
        return agg(*out)
    vec_into_iter.paths = ('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',)
    def to_vec(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); v = it.load(st, p[1], p[2])
        if v[0] != 'arr': raise Unsupported('to_vec')
        self.room(it, st, inst, v[1])
        return ('vec', v)
    to_vec.paths = ('^<T as std::slice::<impl \\[T\\]>::to_vec_in::ConvertVec>::to_vec$', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec_in',
                    '^std::slice::<impl std::borrow::ToOwned for \\[T\\]>::to_owned$', '^<std::vec::Vec<T> as std::convert::From<&\\[T\\]>>::from$')
    def vec_from_elem(self, it, st, t, args, inst, targs):
        self.room(it, st, inst, args[1])
        return ('vec', ('arr', args[1], ('fill', args[0]), ()))
    vec_from_elem.paths = ('std::vec::from_elem', 'alloc::vec::from_elem')
    def box_into_vec(self, it, st, t, args, inst, targs):
        q = it.as_ptr(st, args[0]); v = it.load(st, q[1], q[2])
        for _ in range(4):                # MaybeUninit<[T; N]>
            if v[0] == 'un': v = v[2]
            elif v[0] == 'agg' and len(v[1]) == 1: v = v[1][0]
        if v[0] != 'arr': raise Unsupported('boxed slice content %r' % (v[0],))
        return ('vec', v)
    box_into_vec.paths = ('std::slice::<impl [T]>::into_vec', 'std::slice::hack::into_vec', 'std::boxed::box_assume_init_into_vec_unsafe',
                          '^<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<\\[T\\], A>>>::from$')
    def vec_into_box(self, it, st, t, args, inst, targs):
        v = args[0]
        if v[0] != 'vec': raise Unsupported('vector expected')
        arr = v[1]
        bt = it.T[t[7]]; el = it.T[bt['targs'][0]]['elem']
        o = ('ha', st.fresh(), el); st.mem[o] = arr
        return agg(('ptr', o, (('sub', ZERO, arr[1]),), None), UNIT)
    vec_into_box.paths = ('std::vec::Vec::<T, A>::into_boxed_slice',)
    def cursor_write(self, it, st, t, args, inst, targs):
        """Cursor<Vec<u8>>: grows the vector, zero-filling any gap; args (&mut pos, &mut vec, &[u8])"""
        pp = it.as_ptr(st, args[0]); pos = it.load(st, pp[1], pp[2])
        p, arr = self.vec_at(it, st, args[1])
        q = it.as_ptr(st, args[2]); src = it.load(st, q[1], q[2])
        n = src[1]
        # a vector never grows past isize::MAX: that is an allocation failure
        if not it.decide(st, c_ge(K((1 << 63) - 1) - pos - n)): raise Dead()
        if it.decide(st, c_ge(arr[1] - pos)):
            if it.decide(st, c_ge(arr[1] - pos - n)): out = it.arr_write_range(st, arr, pos, n, src)
            else: out = self.arr_concat(it, st, it.arr_sub(st, arr, ZERO, pos), src)
        else:
            out = self.arr_concat(it, st, self.arr_concat(it, st, arr, ('arr', pos - arr[1], ('fill', ZERO), ())), src)
        self.vec_set(it, st, p, out)
        it.store_at(st, pp[1], pp[2], pos + n)
        rt = it.T[t[7]]
        okp = self.payload_ty(it, t[7], 'Ok')
        return self.ok(it, t[7], UNIT if it.T[okp]['k'] == 'tuple' else n)
    cursor_write.paths = ('alloc::io::cursor::vec_write_all', 'alloc::io::cursor::vec_write')

    # ---------------------------------------------------------------- strings and formatting
    def str_own(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); v = it.load(st, p[1], p[2])
        if v[0] == 'arr': return agg(('vec', v))
        return v
    str_own.paths = ('<std::string::String as std::convert::From<&str>>::from', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
                     '<str as std::string::SpecToString>::spec_to_string', '<std::string::String as std::clone::Clone>::clone')
    def fmt_format(self, it, st, t, args, inst, targs):
        a = args[0]
        if a[0] == 'opq' and isinstance(a[2], tuple) and a[2][0] == 'fmtargs': return it.opq(t[7], ('fmt', a[2]))
        return it.opq(t[7], ('fmt', st.fresh()))
    fmt_format.paths = ('std::fmt::format', 'alloc::fmt::format', 'std::fmt::format::format_inner')
    def int_text(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0])
        return it.opq(t[7], ('fmt', ('int', it.load(st, p[1], p[2]))))
    int_text.paths = ('^<[iu](8|16|32|64|128|size) as std::string::SpecToString>::spec_to_string$',)
    def fmt_item(self, it, st, v, d=0):
        """what a formatting call is given: texts by content, everything else by place and, where it is data, by value"""
        if not isinstance(v, tuple) or isinstance(v, Lin) or not v: return v
        if v[0] == 'opq' and isinstance(v[2], tuple) and v[2] and v[2][0] in ('fmtarg', 'fmtargs', 'fmt'): return v[2]
        if v[0] == 'ptr' or (v[0] == 'opq' and v[1] is not None and it.T[v[1]]['k'] in ('ref', 'rawptr')):
            try: q = it.as_ptr(st, v)
            except Unsupported: return v
            if q[0] != 'ptr': return v
            try: c = it.load(st, q[1], q[2])
            except Unsupported: return ('ref', q[1], q[2], None)
            if isinstance(c, tuple) and c and c[0] == 'arr' and c[1].is_const() and c[1].c <= 512 and d < 3:
                l = it.arr_list(st, c)
                if all(isinstance(x, Lin) and x.is_const() and 0 <= x.c < 256 for x in l): return ('text', bytes(x.c for x in l))
                if l and all(isinstance(x, tuple) and not isinstance(x, Lin) and x and x[0] == 'ptr' for x in l): return ('list', tuple(self.fmt_item(it, st, x, d + 1) for x in l))
            if isinstance(c, tuple) and c and c[0] in ('ptr',) and d < 3:
                i = self.fmt_item(it, st, c, d + 1)
                return ('ref', q[1], q[2], i)
            return ('ref', q[1], q[2], c)
        return v
    def fmt_any(self, it, st, t, args, inst, targs):
        n = inst['name']
        if n in ('as_str', 'as_statically_known_str'):
            a = args[0]
            if a[0] == 'ptr': a = it.load(st, a[1], a[2])
            if n != 'as_str' or (a[0] == 'opq' and isinstance(a[2], tuple) and a[2][0] == 'fmtargs' and len(a[2][2]) > 1): return self.none(it, t[7])
        if (n.startswith('new') or n.startswith('from_str')) and 'Argument' in inst['path']:
            l = tuple(self.fmt_item(it, st, a) for a in args)
            l = tuple(('val', x[3]) if isinstance(x, tuple) and x and x[0] == 'ref' and x[3] is not None else x for x in l)
            return it.opq(t[7], ('fmtargs' if 'Arguments' in inst['path'] else 'fmtarg', n, l))
        st.event('dbg', inst['path'], tuple(self.fmt_item(it, st, a) for a in args))
        key = ('fmtcall', inst['path'], st.fresh())
        return it.opq(t[7], key)
    fmt_any.paths = ('^std::fmt::Formatter::.*', '^std::fmt::Debug(Struct|Tuple|List|Map|Set)::.*', '^core::fmt::num::.*::fmt$', '^<str as std::fmt::.*>::fmt$',
                     '^std::fmt::rt::.*', '^core::fmt::rt::.*', '^std::fmt::Arguments::.*')
    def from_utf8(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0])
        v = it.load(st, p[1], p[2])
        key = ('utf8', v)
        if it.decide(st, ('b', ('ok', key))): return self.ok(it, t[7], ('ptr', p[1], p[2], None))
        return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), (key, 'err')))
    from_utf8.paths = ('std::str::from_utf8', 'core::str::from_utf8', 'core::str::converts::from_utf8', 'std::str::from_utf8_mut')
    def push_str(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0])
        q = it.as_ptr(st, args[1]); src = it.load(st, q[1], q[2])
        st.event('pushs', p[1], p[2], src)
        s = it.load(st, p[1], p[2] + (('f', 0),))
        if s[0] == 'vec' and src[0] == 'arr': it.store_at(st, p[1], p[2] + (('f', 0),), ('vec', self.arr_concat(it, st, s[1], src)))
        else: it.store_at(st, p[1], p[2], self.joined(it, it.pointee(t[6][0]), it.load(st, p[1], p[2]), src))
        return UNIT
    def joined(self, it, ty, *parts):
        """a text put together from parts of which some are unknown"""
        return it.opq(ty, ('fmt', ('joined',) + parts))
    def concat(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); a = it.load(st, p[1], p[2])
        l = it.arr_list(st, a)
        et = it.T[it.pointee(t[6][0])]['elem']
        if l is None: raise Unsupported('texts of unknown number')
        out = []
        for v in l:
            for _ in range(4):
                if isinstance(v, tuple) and v[0] == 'ptr': v = it.load(st, v[1], v[2])
                elif isinstance(v, tuple) and v[0] == 'agg' and len(v[1]) == 1: v = v[1][0]
                elif isinstance(v, tuple) and v[0] == 'vec': v = v[1]
            out.append(v)
        o = ('l', 'add', st.fresh())
        for v in out: st.event('pushs', o, (), v)
        if out and all(v[0] == 'arr' for v in out):
            r = out[0]
            for v in out[1:]: r = self.arr_concat(it, st, r, v)
            return agg(('vec', r))
        return self.joined(it, t[7], *out)
    concat.paths = ('^std::(str|slice)::<impl std::slice::Concat<str> for \\[S\\]>::concat$',)
    push_str.paths = ('std::string::String::push_str',)
    def string_add(self, it, st, t, args, inst, targs):
        q = it.as_ptr(st, args[1]); src = it.load(st, q[1], q[2])
        s = args[0]
        o = ('l', 'add', st.fresh())
        st.event('pushs', o, (), src)
        v = s[1][0] if s[0] == 'agg' else it.field(s, 0)
        if v[0] == 'vec' and src[0] == 'arr': return agg(('vec', self.arr_concat(it, st, v[1], src)))
        return self.joined(it, t[7], s, src)
    string_add.paths = ('<std::string::String as std::ops::Add<&str>>::add', 'std::string::<impl std::ops::Add<&str> for std::string::String>::add')
    def fmt_write(self, it, st, t, args, inst, targs):
        """writing into a text cannot fail; into anything else it can"""
        p = it.as_ptr(st, args[0])
        a = self.fmt_item(it, st, args[1])
        ty = it.obj_ty(st, p[1]) if not p[2] else None
        is_string = ty is not None and it.T[ty]['s'] == 'std::string::String'
        if is_string:
            st.event('pushs', p[1], p[2], a)
            return self.ok(it, t[7], UNIT)
        st.event('dbg', 'std::fmt::write', (('ref', p[1], p[2], None), a))
        return it.opq(t[7], ('fmtcall', inst['path'], st.fresh()))
    fmt_write.paths = ('std::fmt::write', 'core::fmt::write', 'alloc::fmt::write')
    def string_with_capacity(self, it, st, t, args, inst, targs): return agg(self.vec_new(it, st, t, args, inst, targs))
    string_with_capacity.paths = ('std::string::String::with_capacity', 'std::string::String::new')

    # ---------------------------------------------------------------- synchronisation
    def lazy_deref(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0])
        to = it.pointee(t[7])
        st.event('lazy', p[1])
        return ('ptr', ('o', ('lazy', p[1], p[2]), to), (), None)
    lazy_deref.paths = ('<once_cell::sync::Lazy<T, F> as std::ops::Deref>::deref', 'once_cell::sync::Lazy::<T, F>::force',
                        '<std::sync::LazyLock<T, F> as std::ops::Deref>::deref', 'std::sync::LazyLock::<T, F>::force')
    def lock(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0])
        st.event('lock', p[1], p[2])
        gt = self.payload_ty(it, t[7], 'Ok')
        x = it.T[gt]
        fs = x['variants'][0]['f']
        if inst['path'].endswith('try_lock'):
            k = ('ok', ('trylock', st.fresh()))
            if not it.decide(st, ('b', k)): return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), k + ('err',)))
        g = tuple(('ptr', p[1], p[2], p[3]) if f['n'] == 'lock' else it.opq(f['t'], ('guard', st.fresh(), f['n'])) for f in fs)
        return self.ok(it, t[7], ('agg', g))
    lock.paths = ('std::sync::Mutex::<T>::lock', 'std::sync::Mutex::<T>::try_lock')

    # ---------------------------------------------------------------- files
    def file_open(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0])
        o = it.load(st, p[1], p[2])
        opts = {}
        def walk(v, ty):
            x = it.T[ty]
            if x['k'] == 'adt' and x['kind'] == 'struct':
                for j, f in enumerate(x['variants'][0]['f']):
                    w = it.field(v, j)
                    if isinstance(w, (bool, Lin)): opts[f['n']] = w
                    elif isinstance(w, tuple) and w and w[0] in ('b', 'nb', 'ge', 'eq', 'ne', 'and', 'or'): opts[f['n']] = it.decide(st, w)
                    else: walk(w, f['t'])
        walk(o, it.pointee(t[6][0]))
        n = st.fresh()
        path = self.canon(it, st, args[1])
        st.event('open', n, tuple(sorted((k, v if isinstance(v, bool) else str(v)) for k, v in opts.items())), path)
        return self.result(it, st, t[7], ('open', n))
    file_open.paths = ('std::fs::OpenOptions::_open',)

    def fs_other(self, it, st, t, args, inst, targs):
        """any other file system function: an event of its own"""
        n = st.fresh()
        st.event('fs', inst['path'], tuple(self.canon(it, st, a) for a in args), n)
        if t[4] is None: raise Dead()
        key = ('fs', inst['path'], n)
        self.havoc_args(it, st, t, args, key)
        if it.T[t[7]]['s'].startswith('std::result::Result<'): return self.result(it, st, t[7], key)
        return it.opq(t[7], key)
    fs_other.paths = ('std::fs::File::sync_data', 'std::fs::File::sync_all', 'std::fs::File::set_len', 'std::fs::File::metadata',
                      'std::fs::write', 'std::fs::remove_file', 'std::fs::rename', 'std::fs::copy', 'std::fs::metadata', 'std::fs::read',
                      '^<&?std::fs::File as std::io::Write>::(flush|write_vectored)$', '^std::fs::(create_dir|remove_dir|exists|canonicalize).*', 'std::fs::File::create_new', 'std::fs::File::try_clone',
                      'std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::metadata')

    def only_file(self, it, st, t, args, inst):
        """a trait method that also serves other types: those run their own body"""
        if it.T[t[6][0]]['s'].replace('&mut ', '').replace('&', '') == 'std::fs::File': return False
        if not inst.get('body'): raise Unsupported('no body: ' + inst['path'])
        obj, path, _ = it.place(st, t[3])
        it.push(st, inst['id'], args, (obj, path), t[4], t[5])
        return True
    def file_seek(self, it, st, t, args, inst, targs):
        if self.only_file(it, st, t, args, inst): return PUSHED
        n = st.fresh()
        pos = args[1]
        var = it.variant_of(st, pos)
        val = it.enum_fields(st, pos, var)[0]
        if it.T[t[6][1]]['variants'][var]['n'] == 'Current' and val == ZERO:      # asks where the file is
            st.event('ftell', self.fileref(it, st, args[0]), n)
            return self.result(it, st, t[7], ('ftell', n))
        st.event('fseek', self.fileref(it, st, args[0]), it.T[t[6][1]]['variants'][var]['n'], val, n)
        return self.result(it, st, t[7], ('fseek', n))
    file_seek.paths = ('std::io::Seek::seek', '<std::fs::File as std::io::Seek>::seek', '<&std::fs::File as std::io::Seek>::seek')
    def fileref(self, it, st, a):
        p = it.as_ptr(st, a)
        v = it.load(st, p[1], p[2])
        if isinstance(v, tuple) and v[0] == 'ptr': v = it.load(st, v[1], v[2])     # <&File as ..>
        return v
    def file_tell(self, it, st, t, args, inst, targs):
        if self.only_file(it, st, t, args, inst): return PUSHED
        n = st.fresh()
        st.event('ftell', self.fileref(it, st, args[0]), n)
        return self.result(it, st, t[7], ('ftell', n))
    file_tell.paths = ('<std::fs::File as std::io::Seek>::stream_position', '<&std::fs::File as std::io::Seek>::stream_position', 'std::io::Seek::stream_position')
    def file_rewind(self, it, st, t, args, inst, targs):
        if self.only_file(it, st, t, args, inst): return PUSHED
        n = st.fresh()
        st.event('fseek', self.fileref(it, st, args[0]), 'Start', ZERO, n)
        return self.result(it, st, t[7], ('fseek', n))
    file_rewind.paths = ('std::io::Seek::rewind', '<std::fs::File as std::io::Seek>::rewind')
    def file_read(self, it, st, t, args, inst, targs):
        n = st.fresh()
        p = it.as_ptr(st, args[1]); ln = it.place_len(st, p[1], p[2])
        got = sym(('fread', n, 'n'), 0, (1 << 63) - 1, 64)
        st.event('fread', self.fileref(it, st, args[0]), p[1], p[2], ln, n)
        if it.decide(st, ('b', ('ok', ('fread', n)))):
            if not it.decide(st, c_ge(ln - got)): raise Dead()
            it.store_at(st, p[1], it.range_path(p[2], got), ('arr', got, ('opq', ('fread', n, 'data'), it.p.ty('u8')), ()))
            return self.ok(it, t[7], got)
        it.store_at(st, p[1], p[2], ('arr', ln, ('opq', ('fread', n, 'junk'), it.p.ty('u8')), ()))
        return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), (('fread', n), 'err')))
    file_read.paths = ('<std::fs::File as std::io::Read>::read', '<&std::fs::File as std::io::Read>::read')
    def file_read_exact(self, it, st, t, args, inst, targs):
        n = st.fresh()
        p = it.as_ptr(st, args[1]); ln = it.place_len(st, p[1], p[2])
        st.event('fread_exact', self.fileref(it, st, args[0]), p[1], p[2], ln, n)
        ok = it.decide(st, ('b', ('ok', ('fread_exact', n))))
        it.store_at(st, p[1], p[2], ('arr', ln, ('opq', ('fread_exact', n, 'data' if ok else 'junk'), it.p.ty('u8')), ()))
        if ok: return self.ok(it, t[7], UNIT)
        return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), (('fread_exact', n), 'err')))
    file_read_exact.paths = ('alloc::io::read::default_read_exact', 'std::io::default_read_exact')
    def file_write(self, it, st, t, args, inst, targs):
        n = st.fresh()
        p = it.as_ptr(st, args[1]); v = it.load(st, p[1], p[2])
        st.event('fwrite', self.fileref(it, st, args[0]), v, n)
        got = sym(('fwrite', n, 'n'), 0, (1 << 63) - 1, 64)
        if it.decide(st, ('b', ('ok', ('fwrite', n)))):
            if not it.decide(st, c_ge(v[1] - got)): raise Dead()
            return self.ok(it, t[7], got)
        return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), (('fwrite', n), 'err')))
    file_write.paths = ('<std::fs::File as std::io::Write>::write', '<&std::fs::File as std::io::Write>::write')
    def file_write_all(self, it, st, t, args, inst, targs):
        if self.only_file(it, st, t, args, inst): return PUSHED
        n = st.fresh()
        p = it.as_ptr(st, args[1]); v = it.load(st, p[1], p[2])
        st.event('fwrite_all', self.fileref(it, st, args[0]), v, n)
        return self.result(it, st, t[7], ('fwrite_all', n), UNIT)
    file_write_all.paths = ('std::io::Write::write_all',)

    # ---------------------------------------------------------------- io::Error
    def err_from_kind(self, it, st, t, args, inst, targs):
        k = args[0]
        kt = t[6][0]
        var = it.variant_of(st, k) if isinstance(k, tuple) else k
        name = it.T[kt]['variants'][var]['n'] if isinstance(var, int) else str(var)
        return ('opq', t[7], ('ioerr', name))
    err_from_kind.paths = ('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from', 'std::io::Error::new', 'core::io::error::Error::new', '^alloc::io::error::<impl std::io::Error>::new$',
                           '<core::io::error::Error as std::convert::From<std::io::ErrorKind>>::from')
    def err_other(self, it, st, t, args, inst, targs): return ('opq', t[7], ('ioerr', 'Other'))
    err_other.paths = ('std::io::Error::other', '^alloc::io::error::<impl std::io::Error>::other$', 'std::io::Error::last_os_error')
    def err_kind(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); v = it.load(st, p[1], p[2])
        if v[0] == 'opq' and v[2][0] == 'ioerr' and v[2][1] in [x['n'] for x in it.T[t[7]]['variants']]:
            return ('enum', t[7], self.variants(it, t[7], v[2][1]), ())
        return it.opq(t[7], ('kind', v))
    err_kind.paths = ('std::io::Error::kind', 'core::io::error::Error::kind')
    def err_intr(self, it, st, t, args, inst, targs):
        p = it.as_ptr(st, args[0]); v = it.load(st, p[1], p[2])
        return ('b', ('interrupted', v))
    err_intr.paths = ('std::io::Error::is_interrupted',)

    # ---------------------------------------------------------------- calendar
    def now(self, it, st, t, args, inst, targs):
        return it.opq(t[7], ('now', st.fresh()))
    now.paths = ('chrono::Utc::now', 'std::time::SystemTime::now', 'chrono::Local::now')
    def cal(self, it, st, t, args, inst, targs):
        return self.pure(it, st, t, args, inst, targs)
    cal.paths = ('^<chrono::NaiveDate as chrono::Datelike>::(year|month|day|month0|day0|ordinal)$', 'chrono::NaiveDate::from_num_days_from_ce_opt', 'chrono::NaiveDate::from_yo_opt')
    def ymd(self, it, st, t, args, inst, targs):
        key = ('app', 'ymd', tuple(args))
        if all(isinstance(a, Lin) and a.is_const() for a in args):
            import datetime
            try:
                d = datetime.date(*[a.c for a in args]).toordinal()
                return self.some(it, t[7], it.opq(self.payload_ty(it, t[7], 'Some'), ('cedays', K(d))))
            except ValueError: pass
        return it.opq(t[7], key)
    ymd.paths = ('chrono::NaiveDate::from_ymd_opt',)
    def cedays(self, it, st, t, args, inst, targs):
        if args[0].is_const() and 0 < args[0].c < 3000000:
            return self.some(it, t[7], it.opq(self.payload_ty(it, t[7], 'Some'), ('cedays', args[0])))
        return it.opq(t[7], ('app', 'cedays', tuple(args)))
    cedays.paths = ('chrono::NaiveDate::from_num_days_from_ce_opt',)

    # ---------------------------------------------------------------- the I/O handler contract
    def virtual(self, it, st, t, args, inst, targs):
        """a required (or overridable) method of dyn IOHandler"""
        name = inst['path'].split('::')[-1]
        trait = inst['path'].rsplit('::', 1)[0]
        if not trait.endswith('IOHandler'):
            # other dyn calls: opaque function value
            fv = ('fnp', ('vtable', inst['path'], self.canon(it, st, args[0])))
            if inst['path'].startswith('std::ops::'): raise Unsupported('dyn ' + inst['path'])
            raise Unsupported('virtual ' + inst['path'])
        p = it.as_ptr(st, args[0])
        h = self.handler_key(it, st, p)
        n = st.fresh()
        if self.opts.get('stream') is not None:
            r = self.streamed(it, st, t, args, name, h, n)
            if r is not None: return r
        if name == 'read':
            q = it.as_ptr(st, args[1]); ln = it.place_len(st, q[1], q[2])
            st.event('io', 'read', h, n, ln)
            ok = it.decide(st, ('b', ('ok', ('io', n))))
            it.store_at(st, q[1], q[2], self.fill_arr(it, ln, ('io', n, 'data' if ok else 'junk')))
            if ok: return self.ok(it, t[7], UNIT)
            return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), (('io', n), 'err')))
        if name == 'write':
            q = it.as_ptr(st, args[1]); v = it.load(st, q[1], q[2])
            st.event('io', 'write', h, n, v)
            return self.result(it, st, t[7], ('io', n), UNIT)
        if name == 'seek':
            pos = args[1]; var = it.variant_of(st, pos); val = it.enum_fields(st, pos, var)[0]
            st.event('io', 'seek', h, n, it.T[t[6][1]]['variants'][var]['n'], val)
            return self.result(it, st, t[7], ('io', n), UNIT)
        if name == 'tell':
            st.event('io', 'tell', h, n)
            return self.result(it, st, t[7], ('io', n))
        # a provided method: its default body, unless some handler overrides it
        d = inst.get('default')
        if d is not None and it.I.get(d) and it.I[d].get('body') and not self.overridden(it, name):
            obj, path, _ = it.place(st, t[3])
            it.push(st, d, args, (obj, path), t[4], t[5]); return PUSHED
        # overridden: any Result, any transfer
        st.event('io', name, h, n, tuple(self.canon(it, st, a) for a in args[1:]))
        self.havoc_args(it, st, t, args, ('io', n))
        return self.result(it, st, t[7], ('io', n))
    def streamed(self, it, st, t, args, name, h, n):
        """a device holding the bytes F(0), F(1), ... F(flen-1) at a tracked position, 0 at first"""
        pos = st.info.get(('pos', h), ZERO)
        if pos is None and name != 'seek': return None
        flen = sym(('flen',), 0, (1 << 63) - 1, 64)
        if name == 'read':
            q = it.as_ptr(st, args[1]); ln = it.place_len(st, q[1], q[2])
            if not ln.is_const() or ln.c > 4096 or not pos.is_const(): 
                st.info[('pos', h)] = None; return None
            st.event('io', 'read', h, n, ln, pos)
            if not it.decide(st, ('b', ('ok', ('io', n)))):
                it.store_at(st, q[1], q[2], self.fill_arr(it, ln, ('io', n, 'junk')))
                return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), (('io', n), 'err')))
            # contract: an exact read succeeds only inside the stream
            if not st.store.assume(c_ge(flen - pos - ln)): raise Infeasible()
            st.info[('pos', h)] = pos + ln
            it.store_at(st, q[1], q[2], ('arr', ln, ('list', tuple(self.stream_byte(it, pos.c + j) for j in range(ln.c))), ()))
            return self.ok(it, t[7], UNIT)
        if name == 'tell':
            st.event('io', 'tell', h, n)
            if it.decide(st, ('b', ('ok', ('io', n)))): return self.ok(it, t[7], pos)
            return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), (('io', n), 'err')))
        if name == 'seek':
            a = args[1]; var = it.variant_of(st, a); val = it.enum_fields(st, a, var)[0]
            nm = it.T[t[6][1]]['variants'][var]['n']
            if nm == 'Current' and pos is None: return None
            st.event('io', 'seek', h, n, nm, val)
            if it.decide(st, ('b', ('ok', ('io', n)))):
                st.info[('pos', h)] = {'Start': ZERO, 'End': flen, 'Current': pos}[nm] + val
                return self.ok(it, t[7], UNIT)
            return self.err(it, t[7], it.opq(self.payload_ty(it, t[7], 'Err'), (('io', n), 'err')))
        return None
    def stream_byte(self, it, j):
        v = self.opts['stream'].get(j)
        return K(v) if v is not None else it.opq(it.p.ty('u8'), ('F', '[]', K(j)))
    def fill_arr(self, it, ln, key):
        u8 = it.p.ty('u8')
        if ln.is_const() and ln.c <= 300:
            return ('arr', ln, ('list', tuple(it.opq(u8, (key, '[]', K(j))) for j in range(ln.c))), ())
        return ('arr', ln, ('opq', key, u8), ())
    def overridden(self, it, name):
        for i in it.p.impls:
            if i['trait'] and i['trait'].endswith('IOHandler') and name in [x if isinstance(x, str) else x.get('n') for x in i['items']]: return True
        return False
    def handler_key(self, it, st, p): return (p[1], it.ptr_norm(p))
