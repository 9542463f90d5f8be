"""Streams: typed transfers, fixed point, device models, error propagation."""
from . import prop
from .common import *

READS = {'read_u8': 1, 'read_u16': 2, 'read_u32': 4, 'read_u64': 8, 'read_f32': 4, 'read_s15f16': 4, 'read_xyz': 12}
WRITES = {'write_u8': 1, 'write_u16': 2, 'write_u32': 4, 'write_u64': 8, 'write_f32': 4, 'write_s15f16': 4, 'write_xyz': 12}
ARRAYS = ('read_u16_array', 'write_u16_array')
PRIMS = ('read', 'write', 'seek', 'tell', 'close')
DEFAULTS = list(READS) + list(WRITES) + list(ARRAYS) + ['reported_size']
MEMS = ('Vec<u8>', '&mut [u8]', '&mut Vec<u8>', 'Box<[u8]>')
IMPLS = ['FileNull', 'File'] + ['FileMem<%s>' % m for m in MEMS]

def no_overrides(r, cfg):
    """the provided methods are the ones analysed: no implementation replaces one"""
    n = 0
    for i in cfg.p.impls:
        if i['trait'] and i['trait'].endswith('IOHandler'):
            n += 1
            items = [x if isinstance(x, str) else x.get('n') for x in i['items']]
            extra = [x for x in items if x not in PRIMS]
            r.ob(not extra, 'override:%s:%s' % (short(i['self']), ','.join(extra)), 'implementation of IOHandler for %s replaces %s, which the rule does not cover' % (short(i['self']), extra))
    r.floor('IOHandler implementations', n, 3)

def ret_ok(cfg, v):
    return v[0] == 'enum' and cfg.T[v[1]]['variants'][v[2]]['n'] == 'Ok'

def expected_read(cfg, it, name, bs):
    o = order(cfg)
    s15 = lambda b: i2f(it.to_signed(o(b), 32)).scale(Fraction(1, 65536))
    if name == 'read_f32': return it.bits_float(o(bs), 32)
    if name == 'read_s15f16': return s15(bs)
    if name == 'read_xyz': return [s15(bs[0:4]), s15(bs[4:8]), s15(bs[8:12])]
    return o(bs)

def s15_of_float(it, x):
    """floor(65536 x + 1/2), saturating, as 32 bits two's complement"""
    v = it.f2i(pa('floor', (x.scale(65536) + P(Fraction(1, 2)),)), -(1 << 31), (1 << 31) - 1, 32)
    return v

def i32_bytes(it, v, o):
    return (to_bytes(it.to_unsigned(v, {'signed': True, 'bits': 32}, 32), 4)[::-1]) if o is be else to_bytes(it.to_unsigned(v, {'signed': True, 'bits': 32}, 32), 4)

def ints_bytes(v, n, o):
    b = to_bytes(v, n)
    return b[::-1] if o is be else b

def expected_write(cfg, it, name, st, arg):
    o = order(cfg)
    if name == 'write_u8': return [arg]
    if name == 'write_u16': return ints_bytes(arg, 2, o)
    if name == 'write_u32': return ints_bytes(arg, 4, o)
    if name == 'write_u64': return ints_bytes(arg, 8, o)
    if name == 'write_f32': return ints_bytes(it.float_bits(arg, 32), 4, o)
    if name == 'write_s15f16': return i32_bytes(it, s15_of_float(it, arg), o)
    if name == 'write_xyz':
        ty = cfg.ty('CIEXYZ'); out = []
        for f in 'XYZ': out += i32_bytes(it, s15_of_float(it, it.field(arg, cfg.fno(ty, f))), o)
        return out

def bytes_agree(it, st, xs, ys):
    """two byte sequences denote the same bytes under the path's facts"""
    if len(xs) != len(ys): return False
    if all(eqv(st, a, b) for a, b in zip(xs, ys)): return True
    # compare as whole words: pieces of the same wider number
    return False

def handler_of(ev): return ev[2]

def only(ev_list, *names): return all(e[1] in names for e in ev_list)

def check_typed_reads(r, cfg, names, tag=''):
    r.curcfg = cfg
    for name in names:
        fn = 'IOHandler::' + name
        outs = r.analyse(cfg, cfg.fn(fn), width=32, undecided=64)
        it = r.it
        nok = 0
        for o in outs:
            ev = io_events(o.state.trace)
            r.ob(only(ev, 'read'), 'foreign:' + fn, '%s does more than read from the stream' % name, fn)
            r.ob(all(e[2] == ev[0][2] and e[2][0] == ('o', ('arg', 0), e[2][0][2]) for e in ev), 'handler:' + fn, '%s uses a stream other than the one it was called on' % name, fn)
            if not ret_ok(cfg, o.value): continue
            nok += 1
            bs = read_bytes(r, cfg, it, o)
            if not r.ob(len(bs) == READS[name], 'width:%s:%s' % (cfg.name, fn), '%s consumes %d bytes instead of %d (configuration %s)' % (name, len(bs), READS[name], cfg.name), fn): continue
            v = o.value[3][0]
            e = expected_read(cfg, it, name, bs)
            if name == 'read_xyz':
                ty = cfg.ty('CIEXYZ')
                for f, x in zip('XYZ', e):
                    g = it.field(v, cfg.fno(ty, f))
                    r.ob(eqv(o.state, g, x), 'value:%s:%s.%s' % (cfg.name, fn, f), '%s.%s is %s instead of %s' % (name, f, g, x), fn)
            else:
                r.ob(eqv(o.state, v, e), 'value:%s:%s' % (cfg.name, fn), '%s returns %s instead of %s (configuration %s)' % (name, v, e, cfg.name), fn)
                r.sample('%s[%s]: %s' % (name, cfg.name, v))
        r.ob(nok > 0, 'dead:%s:%s' % (cfg.name, fn), '%s never succeeds' % name, fn)

def check_typed_writes(r, cfg, names):
    r.curcfg = cfg
    for name in names:
        fn = 'IOHandler::' + name
        i = cfg.fn(fn)
        outs = r.analyse(cfg, i, width=32, undecided=64)
        it = r.it
        nok = 0
        arg0 = it.opq(i['body']['locals'][2], ('arg', 1))
        for o in outs:
            ev = io_events(o.state.trace)
            r.ob(only(ev, 'write'), 'foreign:' + fn, '%s does more than write to the stream' % name, fn)
            r.ob(all(e[2] == ev[0][2] and e[2][0] == ('o', ('arg', 0), e[2][0][2]) for e in ev), 'handler:' + fn, '%s uses a stream other than the one it was called on' % name, fn)
            if not ret_ok(cfg, o.value): continue
            nok += 1
            got = written_bytes(cfg, it, o)
            if not r.ob(len(got) == WRITES[name], 'width:%s:%s' % (cfg.name, fn), '%s emits %d bytes instead of %d' % (name, len(got), WRITES[name]), fn): continue
            rs = cases(it, o.state, lambda s: expected_write(cfg, it, name, s, arg0))
            for s, want in rs:
                r.ob(bytes_agree(it, s, got, want), 'value:%s:%s' % (cfg.name, fn), '%s emits %s instead of %s (configuration %s)' % (name, got, want, cfg.name), fn)
        r.ob(nok > 0, 'dead:%s:%s' % (cfg.name, fn), '%s never succeeds' % name, fn)

def array_args(r, cfg, name, ln):
    """arguments of the array transfers with a buffer of ln elements"""
    i = cfg.fn('IOHandler::' + name)
    it = Interp(cfg.p, Models())
    u16 = cfg.ty('u16')
    a0 = it.opq(i['body']['locals'][1], ('arg', 0))
    st = State()
    o = ('os', ('buf',), u16)
    st.mem[o] = ('arr', K(ln), ('list', tuple(it.opq(u16, ('buf', j)) for j in range(ln))), ())
    return i, st, [a0, ('ptr', o, (('sub', ZERO, K(ln)),), None)], o

def check_arrays(r, cfg):
    r.curcfg = cfg
    o2 = order(cfg)
    for name in ARRAYS:
        fn = 'IOHandler::' + name
        i = cfg.fn(fn)
        # any length: the loop's transfer
        outs = r.analyse(cfg, i)
        it = r.it
        loops = [l for l in it.loops if any(io_events(b.trace[len(l['head'].trace):]) for b in l['backs'])]
        u16 = cfg.ty('u16')
        ln = None
        for l in loops:
            r.ob(l['rank'] is not None, 'loop:' + fn, 'the transfer loop has no decreasing measure', fn)
            for b in l['backs']:
                ev = io_events(b.trace[len(l['head'].trace):])
                okk = len(ev) == 1 and ev[0][1] == name.split('_')[0]
                if not r.ob(okk, 'turn:%s:%s' % (cfg.name, fn), 'one turn of the loop makes %d stream operations instead of one %s' % (len(ev), name.split('_')[0]), fn): continue
                e = ev[0]
                bufo = ('os', ('arg', 1), u16)
                hv, bv = it.root(l['head'], bufo), it.root(b, bufo)
                # the index of the element the turn transfers
                if name == 'read_u16_array':
                    w = [x for x in bv[3] if x not in hv[3]]
                    if not r.ob(len(w) == 1 and w[0][0] == 'w' and bv[2] == hv[2], 'element:%s:%s' % (cfg.name, fn), 'one turn stores %d elements instead of one' % len(w), fn): continue
                    idx, val = w[0][1], w[0][2]
                    r.ob(b.store.cval(e[4]) == K(2) and eqv(b, val, o2(data_bytes(it, cfg, ('io', e[3], 'data'), 2))), 'value:%s:%s' % (cfg.name, fn),
                         'the element stored is %s, not the two bytes read' % (val,), fn)
                else:
                    got = it.arr_list(b, e[4])
                    idx = None
                    if got is not None and len(got) == 2:
                        whole = o2(got)
                        at = whole.single()
                        if at is not None and at.kind == 'sym' and at.args[:1] and isinstance(at.args, tuple) and at.args[-2] == '[]': idx = at.args[-1]
                    if not r.ob(isinstance(idx, Lin), 'value:%s:%s' % (cfg.name, fn), 'one turn writes %s, which is not one element of the buffer' % (got,), fn): continue
                # the index walks 0, 1, 2, ...
                cell = [c for c in l['cells'] if (c[0] - idx).is_const()]
                if not r.ob(len(cell) > 0, 'index:%s:%s' % (cfg.name, fn), 'the element index %s does not follow the loop' % (idx,), fn): continue
                c, c0, (obj, sel) = cell[0]
                nxt = it.leaf_at(it.root(b, obj), sel)
                r.ob(isinstance(nxt, Lin) and b.store.ent_eq(nxt - c - 1), 'step:%s:%s' % (cfg.name, fn), 'the loop does not go to the next element', fn)
                r.ob(isinstance(c0, Lin) and l['entry'].store.ent_eq(c0 + (idx - c)), 'first:%s:%s' % (cfg.name, fn), 'the transfer does not begin at the first element', fn)
                total = sym((('arg', 1), 'len'), 0, (1 << 63) - 1, 64)
                for o in outs:
                    if ret_ok(cfg, o.value):
                        r.ob(o.state.store.ent_eq(idx - total), 'last:%s:%s' % (cfg.name, fn), 'a successful transfer can stop before the last element', fn)
        if not loops:
            # no loop over the elements (or one of a fixed number of turns): the paths themselves must cover every length
            total = sym((('arg', 1), 'len'), 0, (1 << 63) - 1, 64)
            for o in outs:
                if not ret_ok(cfg, o.value): continue
                ls = [e[4] if e[1] == 'read' else (e[4][1] if isinstance(e[4], tuple) and e[4] and e[4][0] == 'arr' else None) for e in io_events(o.state.trace)]
                r.ob(all(isinstance(x, Lin) for x in ls) and o.state.store.ent_eq(sum(ls, ZERO) - total.scale(2)), 'whole:%s:%s' % (cfg.name, fn), 'a successful transfer moves %d pieces of %s, whatever the number of elements' % (len(ls), [str(x) for x in ls[:3]]), fn)
        # a partition by small lengths: exact effect
        for n in range(0, 4 if r.tier == 'quick' else 9):
            i, st, args, bo = array_args(r, cfg, name, n)
            outs = r.analyse(cfg, i, args, st)
            it = r.it
            nok = 0
            for o in outs:
                if not ret_ok(cfg, o.value): continue
                nok += 1
                if name == 'read_u16_array':
                    bs = read_bytes(r, cfg, it, o)
                    got = it.arr_list(o.state, it.root(o.state, bo))
                    r.ob(len(bs) == 2 * n and all_eq(o.state, got, [o2(bs[2 * j:2 * j + 2]) for j in range(n)]), 'exact:%s:%s' % (cfg.name, fn), 'reading %d elements yields %s' % (n, got), fn)
                else:
                    got = written_bytes(cfg, it, o)
                    want = []
                    for j in range(n): want += ints_bytes(it.opq(u16, ('buf', j)), 2, o2)
                    r.ob(bytes_agree(it, o.state, got, want), 'exact:%s:%s' % (cfg.name, fn), 'writing %d elements emits %s' % (n, got), fn)
            r.ob(nok > 0, 'dead:%s:%s' % (cfg.name, fn), '%s never succeeds on %d elements' % (name, n), fn)

def check_endian_modules(r, cfg):
    for mod, o in (('big_endian', be), ('little_endian', le)):
        for n in (2, 4, 8):
            bits = 8 * n
            i = cfg.fn('%s::adjust_endianness_%d' % (mod, bits))
            # arrays: the bytes, taken in the module's order, as native (little endian host) bytes
            it = Interp(cfg.p, Models())
            u8 = cfg.ty('u8')
            bs = [it.opq(u8, ('in', j)) for j in range(n)]
            outs = r.analyse(cfg, i, [('arr', K(n), ('list', tuple(bs)), ())])
            want = bs[::-1] if o is be else bs
            for x in outs:
                got = it.arr_list(x.state, x.value)
                r.ob(all_eq(x.state, got, want), 'endian:%s:%d' % (mod, bits), '%s::adjust_endianness_%d yields %s' % (mod, bits, got), short(i['path']))
            i = cfg.fn('%s::adjust_endianness_u%d' % (mod, bits))
            v = it.opq(i['body']['locals'][1], ('in',))
            for x in r.analyse(cfg, i, [v]):
                want = word(to_bytes(v, n)[::-1]) if o is be else v
                r.ob(eqv(x.state, x.value, want), 'endian:%s:u%d' % (mod, bits), '%s::adjust_endianness_u%d yields %s' % (mod, bits, x.value), short(i['path']))

@prop('C03')
def c03(r):
    r.opts = {'nan': True}
    r.rule('byte-level value numbering: the value a typed read returns is the number the consumed bytes spell in the configured byte order, a typed write emits exactly the bytes of its argument, in both feature configurations')
    r.rule('loop transfer: array transfers handle element 0, 1, 2, ... up to the last, one element per turn')
    r.assume += ['the host is little endian (the only target built here)', 'a successful handler.read fills the whole buffer and handler.write takes the whole buffer (the trait contract, checked per implementation by the exact-transfer and null-device properties)']
    for cfg in r.cfgs():
        no_overrides(r, cfg)
        check_typed_reads(r, cfg, [n for n in READS if n not in ('read_s15f16', 'read_xyz')])
        check_typed_writes(r, cfg, [n for n in WRITES if n not in ('write_s15f16', 'write_xyz')])
        check_arrays(r, cfg)
        check_endian_modules(r, cfg)
    r.floor('typed transfer functions', len([k for k in r.fnset if k.startswith('IOHandler::')]), 8)

@prop('C04')
def c04(r):
    r.rule('exact polynomial equality: every path of a fixed-point read returns the signed 32-bit number divided by 65536; every path of a write emits floor(65536 x + 1/2) saturated to 32 bits; CIEXYZ in the order X, Y, Z')
    r.assume += ['floating point arithmetic is treated as real arithmetic: 32-bit integers over 65536 are exactly representable in f64, so the read side is exact; NaN inputs are outside the rule']
    for cfg in r.cfgs():
        no_overrides(r, cfg)
        check_typed_reads(r, cfg, ['read_s15f16', 'read_xyz'])
        check_typed_writes(r, cfg, ['write_s15f16', 'write_xyz'])

def impl_fn(cfg, ty, m): return cfg.fn('<%s as IOHandler>::%s' % (ty, m))

@prop('C02')
def c02(r):
    r.opts = {'nan': True}
    r.rule('panic reachability: no path of a stream primitive or typed transfer reaches a panic, an arithmetic overflow, a failed bounds check or a loop without a decreasing measure, for any argument and any device state')
    r.assume += ['a vector never exceeds isize::MAX bytes: exhausting the address space is an allocation failure', 'panics inside operating system calls are excluded']
    for cfg in r.cfgs():
        no_overrides(r, cfg)
        n = 0
        for name in DEFAULTS:
            r.analyse(cfg, cfg.fn('IOHandler::' + name)); n += 1
            for l in r.it.loops:
                r.ob(l['rank'] is not None, 'loop:' + name, 'a loop of %s has no decreasing measure' % name, name)
        if cfg.name == 'be':
            for t in IMPLS:
                for m in PRIMS:
                    i = impl_fn(cfg, t, m)
                    r.analyse(cfg, i); n += 1
                    for l in r.it.loops:
                        r.ob(l['rank'] is not None, 'loop:%s::%s' % (t, m), 'a loop of %s::%s has no decreasing measure' % (t, m), m)
            for c in ('FileNull::new', '<FileNull as Default>::default') + tuple('FileMem<%s>::new' % m for m in MEMS):
                r.analyse(cfg, cfg.fn(c)); n += 1
        r.floor('stream operations (%s)' % cfg.name, n, 17 if cfg.name == 'le' else 17 + 30 + 6)

@prop('C09')
def c09(r):
    r.rule('error propagation: on every path on which a stream or file operation fails, the function returns Err carrying the error of a failed operation; no loop continues past a failure; every outcome is examined')
    r.assume += ['dropping a File ignores the error of close(2), as the standard library does']
    from .r_profile import open_outcomes
    total = 0
    for cfg in r.cfgs():
        r.curcfg = cfg
        no_overrides(r, cfg)
        for name in DEFAULTS:
            outs = r.analyse(cfg, cfg.fn('IOHandler::' + name))
            total += error_discipline(r, 'IOHandler::' + name, outs, r.it.loops)
            # success needs at least one operation, failure needs a failed one
            for o in outs:
                ev = [e for e in o.state.trace if e[0] in OPS]
                if not ret_ok(cfg, o.value):
                    r.ob(any(op_ok(o.state, e) is False for e in ev), 'invented:' + name, '%s reports an error although every operation succeeded' % name, name)
    cfg = r.be; r.curcfg = cfg
    for m in PRIMS:
        fn = 'File::' + m
        outs = r.analyse(cfg, impl_fn(cfg, 'File', m))
        total += error_discipline(r, fn, outs, r.it.loops)
        for o in outs:
            ev = [e for e in o.state.trace if e[0] in OPS]
            r.ob(ret_ok(cfg, o.value) or any(op_ok(o.state, e) is False for e in ev), 'invented:' + fn, '%s reports an error although every operation succeeded' % fn, fn)
    outs, loops = open_outcomes(r, cfg)
    total += error_discipline(r, 'Profile::open_from_file_thr', outs, loops)
    r.floor('fallible operation sites met on paths', total, 30)

# ------------------------------------------------------------------ reported size
@prop('C12')
def c12(r):
    r.rule('stream position replay: on every path on which the size query succeeds, the position it leaves equals the position it found and its result is a position reported at the end of the stream')
    r.assume += ['handler.seek and handler.tell follow their documented meaning; nobody else moves the stream meanwhile']
    for cfg in r.cfgs():
        no_overrides(r, cfg)
        fn = 'IOHandler::reported_size'
        outs = r.analyse(cfg, cfg.fn(fn))
        it = r.it; nok = 0
        for o in outs:
            if not ret_ok(cfg, o.value): continue
            nok += 1
            st = o.state
            pos0, end = sym(('pos0',), 0, (1 << 63) - 1, 64), sym(('end',), 0, (1 << 63) - 1, 64)
            s = st.clone(); cur = pos0; bad = None
            usize = cfg.ty('usize')
            for e in io_events(st.trace):
                if e[1] == 'tell' and op_ok(st, e):
                    v = it.opq(usize, (('io', e[3]), 'ok'))
                    if not s.store.assume(c_eq(v - cur)): bad = 'contradiction'; break
                elif e[1] == 'seek' and op_ok(st, e):
                    w, x = e[4], e[5]
                    if w == 'Start': cur = x
                    elif w == 'End': cur = end + x
                    else: cur = cur + x
                elif e[1] in ('seek', 'tell'): bad = 'a failed %s on the way to success' % e[1]
                else: bad = 'a %s operation' % e[1]
            r.ob(bad is None, 'foreign:%s' % cfg.name, 'the size query performs %s' % bad, fn)
            r.ob(s.store.ent_eq(cur - pos0), 'position:%s' % cfg.name, 'a successful size query leaves the stream at %s instead of where it was' % (cur,), fn)
            r.ob(isinstance(o.value[3][0], Lin) and s.store.ent_eq(o.value[3][0] - end), 'size:%s' % cfg.name, 'the size reported is %s, not the position of the end' % (o.value[3][0],), fn)
        r.ob(nok > 0, 'dead', 'the size query never succeeds', fn)

# ------------------------------------------------------------------ memory and file devices
def inner(cfg, it, st, self_v, t):
    """(buffer array, position) of a FileMem value"""
    ft = cfg.ty('FileMem<%s>' % t)
    cur = it.field(self_v, 0)
    ct = cfg.T[ft]['variants'][0]['f'][0]['t']
    pos = it.field(cur, cfg.fno(ct, 'pos')); inn = it.field(cur, cfg.fno(ct, 'inner'))
    if t == 'Vec<u8>': arr = inn[1]
    else:
        p = it.as_ptr(st, inn)
        arr = it.load(st, p[1], p[2])
        if arr[0] == 'vec': arr = arr[1]
    return arr, pos

def elem_cases(it, st, k, f):
    return cases(it, st, f)

def same_array(r, it, st, got, want_len, want_at, key, text, fn):
    """got has want_len elements and element k is want_at(k), for an arbitrary k"""
    if not r.ob(st.store.ent_eq(got[1] - want_len), key + ':len', text + ': the buffer has %s bytes instead of %s' % (got[1], want_len), fn): return
    k = sym(('k',), 0, (1 << 63) - 1, 64)
    s = st.clone()
    try:
        if not s.store.assume(c_ge(want_len - k - 1)): return
    except NeedSplit: raise Unsupported('split')
    for s2, (g, w) in cases(it, s, lambda z: (it.arr_get(z, got, k), want_at(z, k))):
        r.ob(eqv(s2, g, w), key + ':elem', text + ': byte k is %s instead of %s' % (g, w), fn)

def mem_self(cfg, it, t):
    ft = cfg.ty('FileMem<%s>' % t)
    return ('o', ('arg', 0), ft)

@prop('C13')
def c13(r):
    r.rule('buffer contents under a symbolic position: a successful read delivers buffer[pos..pos+n] and advances by n, a successful write changes exactly buffer[pos..pos+n] to the data (growing a vector with zeros), a failed read or write on a fixed buffer happens only when the range does not fit')
    r.rule('file devices: each primitive is one exact-transfer call of the standard library on the same file with the caller\'s own arguments')
    r.assume += ['std::io::Cursor is analysed from its own MIR; the operating system is represented by the contracts of std::fs::File']
    cfg = r.be; r.curcfg = cfg
    u8 = cfg.ty('u8')
    for t in MEMS:
        growing = 'Vec' in t
        so = mem_self(cfg, None, t)
        # a new device starts at the beginning with the caller's buffer
        fn = 'FileMem<%s>::new' % t
        i = cfg.fn(fn)
        for o in r.analyse(cfg, i):
            it = r.it
            arr, pos = inner(cfg, it, o.state, o.value, t)
            v = it.opq(i['body']['locals'][1], ('arg', 0))
            wantv = v[1] if v[0] == 'vec' else None
            if wantv is None:
                p = it.as_ptr(o.state, v); wantv = it.load(o.state, p[1], p[2])
                if wantv[0] == 'vec': wantv = wantv[1]
            r.ob(pos == ZERO, 'new:' + t, 'a new memory stream starts at %s' % (pos,), fn)
            r.ob(arr == wantv, 'new-buffer:' + t, 'a new memory stream does not use the caller\'s buffer', fn)
        def before(it):
            st = State()
            sv = it.root(st, so)
            return inner(cfg, it, st, sv, t)
        # read
        fn = 'FileMem<%s>::read' % t
        outs = r.analyse(cfg, impl_fn(cfg, 'FileMem<%s>' % t, 'read')); it = r.it
        b0, p0 = before(it)
        n = sym((('arg', 1), 'len'), 0, (1 << 63) - 1, 64)
        nok = 0
        for o in outs:
            st = o.state
            b1, p1 = inner(cfg, it, st, it.root(st, so), t)
            r.ob(b1 == b0, 'read-mutates:' + t, 'reading changes the buffer', fn)
            if ret_ok(cfg, o.value):
                nok += 1
                r.ob(st.store.ent_eq(p1 - p0 - n), 'read-pos:' + t, 'a successful read of n bytes moves the position to %s' % (p1,), fn)
                dst = it.root(st, ('os', ('arg', 1), u8))
                same_array(r, it, st, dst, n, lambda s, k: it.arr_get(s, b0, p0 + k), 'read-data:' + t, 'reading from memory', fn)
                s = st.clone()
                # data is only promised where it exists
                r.ob(st.store.ent_ge(b0[1] - p0 - n) or st.store.ent_eq(n) , 'read-range:' + t, 'a read beyond the end of the buffer succeeds', fn)
            else:
                r.ob(st.store.ent_ge(p0 + n - b0[1] - 1), 'read-refused:' + t, 'a read that fits in the buffer fails', fn)
        r.ob(nok > 0, 'dead-read:' + t, 'reading never succeeds', fn)
        # write
        fn = 'FileMem<%s>::write' % t
        outs = r.analyse(cfg, impl_fn(cfg, 'FileMem<%s>' % t, 'write')); it = r.it
        nok = 0
        srcarr = it.root(State(), ('os', ('arg', 1), u8))
        for o in outs:
            st = o.state
            b1, p1 = inner(cfg, it, st, it.root(st, so), t)
            if ret_ok(cfg, o.value):
                nok += 1
                r.ob(st.store.ent_eq(p1 - p0 - n), 'write-pos:' + t, 'a successful write of n bytes moves the position to %s' % (p1,), fn)
                for s in it.split(st, c_ge(p0 + n - b0[1] - 1)):
                    grown = s.store.ent_ge(p0 + n - b0[1] - 1)
                    def want(z, k):
                        if it.decide(z, c_ge(k - p0)) and it.decide(z, c_ge(p0 + n - k - 1)): return it.arr_get(z, srcarr, k - p0)
                        if it.decide(z, c_ge(b0[1] - k - 1)): return it.arr_get(z, b0, k)
                        return ZERO
                    if not growing:
                        r.ob(not grown or s.store.ent_eq(n), 'write-range:' + t, 'a write that does not fit succeeds', fn)
                    if s.store.ent_eq(n) and b1 == b0: continue
                    same_array(r, it, s, b1, (p0 + n) if grown and growing else b0[1], want, 'write-data:' + t, 'writing to memory', fn)
            else:
                if growing: r.ob(False, 'write-refused:' + t, 'writing to a vector can fail', fn)
                else: r.ob(st.store.ent_ge(p0 + n - b0[1] - 1), 'write-refused:' + t, 'a write that fits in the buffer fails', fn)
        r.ob(nok > 0, 'dead-write:' + t, 'writing never succeeds', fn)
        # seek, tell
        fn = 'FileMem<%s>::seek' % t
        i = impl_fn(cfg, 'FileMem<%s>' % t, 'seek')
        check_seek(r, cfg, i, 'FileMem<%s>' % t, so, lambda it, st: inner(cfg, it, st, it.root(st, so), t)[1], p0, lambda: b0[1], (1 << 64) - 1,
                   lambda it, st: r.ob(inner(cfg, it, st, it.root(st, so), t)[0] == b0, 'seek-mutates:' + t, 'seeking changes the buffer', fn))
        fn = 'FileMem<%s>::tell' % t
        for o in r.analyse(cfg, impl_fn(cfg, 'FileMem<%s>' % t, 'tell')):
            r.ob(ret_ok(cfg, o.value) and eqv(o.state, o.value[3][0], p0), 'tell:' + t, 'tell reports %s' % (o.value,), fn)
            b1, p1 = inner(cfg, r.it, o.state, r.it.root(o.state, so), t)
            r.ob((b1, p1) == (b0, p0), 'tell-mutates:' + t, 'tell changes the stream', fn)
    # std::fs::File: one call with the same arguments
    ft = cfg.ty('File')
    me = lambda it: it.root(State(), ('o', ('arg', 0), ft))
    for m, evn in (('read', 'fread_exact'), ('write', 'fwrite_all'), ('seek', 'fseek'), ('tell', 'ftell')):
        fn = 'File::' + m
        outs = r.analyse(cfg, impl_fn(cfg, 'File', m)); it = r.it
        nok = 0
        for o in outs:
            ev = [e for e in o.state.trace if e[0] in OPS]
            if not r.ob(len(ev) == 1 and ev[0][0] == evn, 'file-call:' + m, 'File::%s performs %s instead of one %s' % (m, [op_desc(e) for e in ev], evn), fn): continue
            e = ev[0]
            r.ob(e[1] == me(it), 'file-same:' + m, 'File::%s works on another file' % m, fn)
            ok = ret_ok(cfg, o.value)
            nok += ok
            if m == 'read':
                r.ob(e[2] == ('os', ('arg', 1), u8) and e[4] == sym((('arg', 1), 'len'), 0, (1 << 63) - 1, 64) , 'file-arg:read', 'File::read does not fill exactly the caller\'s buffer', fn)
            elif m == 'write':
                r.ob(e[2] == it.root(State(), ('os', ('arg', 1), u8)) or (e[2][0] == 'arr' and e[2] == it.load(State(), ('os', ('arg', 1), u8), (('sub', ZERO, sym((('arg', 1), 'len'), 0, (1 << 63) - 1, 64)),))), 'file-arg:write', 'File::write does not write exactly the caller\'s buffer', fn)
            elif m == 'seek':
                pv = o.state
                a = it.opq(cfg.ty('SeekFrom'), ('arg', 1))
                vs = [n for n, v in enumerate(cfg.T[cfg.ty('SeekFrom')]['variants']) if v['n'] == e[2]]
                def chk(s):
                    return it.variant_of(s, a)
                for s, vr in cases(it, o.state, chk):
                    want = it.enum_fields(s, a, vr)[0]
                    r.ob(vr == vs[0] and eqv(s, e[3], want), 'file-arg:seek', 'File::seek seeks %s(%s) instead of what was asked' % (e[2], e[3]), fn)
            elif m == 'tell' and ok:
                v = o.value[3][0]
                want = it.opq(cfg.ty('u64'), (('ftell', e[2]), 'ok'))
                r.ob(eqv(o.state, v, want), 'file-val:tell', 'File::tell reports %s' % (v,), fn)
        r.ob(nok > 0, 'dead-file:' + m, 'File::%s never succeeds' % m, fn)

def check_seek(r, cfg, i, dev, so, pos_of, p0, end, top, unchanged):
    """seek to Start(x)/End(x)/Current(x): the new position is the base plus x; an error, and no move, exactly when that is not representable"""
    fn = dev + '::seek'
    outs = r.analyse(cfg, i); it = r.it
    a = it.opq(cfg.ty('SeekFrom'), ('arg', 1))
    names = [v['n'] for v in cfg.T[cfg.ty('SeekFrom')]['variants']]
    seen = set()
    for o in outs:
        unchanged(it, o.state)
        for s, vr in cases(it, o.state, lambda s: it.variant_of(s, a)):
            x = it.enum_fields(s, a, vr)[0]
            nm = names[vr]
            want = x if nm == 'Start' else (end() if nm == 'End' else p0) + x
            if isinstance(want, tuple): raise Unsupported('seek argument')
            p1 = pos_of(it, s)
            if ret_ok(cfg, o.value):
                seen.add(nm)
                r.ob(s.store.ent_eq(p1 - want), 'seek:%s:%s' % (dev, nm), 'seek(%s(x)) moves to %s instead of %s' % (nm, p1, want), fn)
            else:
                r.ob(s.store.ent_ge(-want - 1) or s.store.ent_ge(want - top - 1), 'seek-refused:%s:%s' % (dev, nm), 'seek(%s(x)) to a representable position fails' % nm, fn)
                r.ob(s.store.ent_eq(p1 - p0), 'seek-moved:%s:%s' % (dev, nm), 'a failed seek moves the position', fn)
    for nm in names:
        r.ob(nm in seen, 'seek-dead:%s:%s' % (dev, nm), 'seek(%s(x)) never succeeds' % nm, fn)

@prop('C14')
def c14(r):
    r.rule('device model: position and extent of the null device after each operation are the documented functions of those before; reads deliver zeros')
    cfg = r.be; r.curcfg = cfg
    ft = cfg.ty('FileNull'); so = ('o', ('arg', 0), ft)
    u8 = cfg.ty('u8')
    outs = r.analyse(cfg, impl_fn(cfg, 'FileNull', 'tell')); it = r.it
    sv = it.root(State(), so)
    flds = [it.field(sv, j) for j in range(len(cfg.fnames(ft)))]
    # the field tell reports is the position
    pj = None
    for o in outs:
        c = [j for j, f in enumerate(flds) if ret_ok(cfg, o.value) and o.value[3][0] == f]
        r.ob(len(c) == 1, 'tell', 'tell does not report the stored position', 'FileNull::tell')
        r.ob(it.root(o.state, so) == sv, 'tell-mutates', 'tell changes the device', 'FileNull::tell')
        if c: pj = c[0]
    if pj is None: return
    r.ob(len(flds) == 2 and all(isinstance(f, Lin) for f in flds), 'fields', 'the null device is not a position and an extent', 'FileNull')
    ej = 1 - pj
    p0, e0 = flds[pj], flds[ej]
    get = lambda it, st, j: it.field(it.root(st, so), j)
    top = (1 << 64) - 1
    for c in ('FileNull::new', '<FileNull as Default>::default'):
        for o in r.analyse(cfg, cfg.fn(c)):
            r.ob(it.field(o.value, pj) == ZERO and it.field(o.value, ej) == ZERO, 'new:' + c, 'a new null device is not empty at position 0', c)
    n = sym((('arg', 1), 'len'), 0, (1 << 63) - 1, 64)
    for m in ('read', 'write'):
        fn = 'FileNull::' + m
        outs = r.analyse(cfg, impl_fn(cfg, 'FileNull', m)); it = r.it
        nok = 0
        for o in outs:
            st = o.state; p1, e1 = get(it, st, pj), get(it, st, ej)
            if ret_ok(cfg, o.value):
                nok += 1
                r.ob(st.store.ent_eq(p1 - p0 - n), 'pos:' + m, 'after a %s of n bytes the position is %s' % (m, p1), fn)
                if m == 'read':
                    r.ob(st.store.ent_eq(e1 - e0), 'extent:read', 'reading changes the extent', fn)
                    same_array(r, it, st, it.root(st, ('os', ('arg', 1), u8)), n, lambda s, k: ZERO, 'zeros', 'reading from the null device', fn)
                else:
                    for s in it.split(st, c_ge(p0 + n - e0)):
                        want = p0 + n if s.store.ent_ge(p0 + n - e0) else e0
                        r.ob(s.store.ent_eq(e1 - want), 'extent:write', 'after a write the extent is %s instead of %s' % (e1, want), fn)
            else:
                r.ob(st.store.ent_ge(p0 + n - top - 1), 'refused:' + m, 'a %s fails although the position is representable' % m, fn)
                r.ob(st.store.ent_eq(p1 - p0) and st.store.ent_eq(e1 - e0), 'failed:' + m, 'a failed %s changes the device' % m, fn)
        r.ob(nok > 0, 'dead:' + m, '%s never succeeds' % m, fn)
    check_seek(r, cfg, impl_fn(cfg, 'FileNull', 'seek'), 'FileNull', so, lambda it, st: get(it, st, pj), p0, lambda: e0, top,
               lambda it, st: r.ob(st.store.ent_eq(get(it, st, ej) - e0), 'seek-extent', 'seeking changes the extent', 'FileNull::seek'))

@prop('C15')
def c15(r):
    r.rule('close: takes the stream by value in every implementation; a file is synced before it is dropped and the failure of the sync is returned; memory and null devices always close successfully')
    cfg = r.be; r.curcfg = cfg
    for t in IMPLS:
        fn = t + '::close'
        i = impl_fn(cfg, t, 'close')
        aty = cfg.T[i['body']['locals'][1]]
        r.ob(i['body']['argc'] == 1 and aty['k'] not in ('ref', 'rawptr'), 'by-value:' + t, 'close does not consume the stream', fn)
        outs = r.analyse(cfg, i)
        for o in outs:
            if t != 'File':
                r.ob(ret_ok(cfg, o.value), 'fails:' + t, 'closing a %s can fail' % t, fn)
                continue
            tr = [e for e in o.state.trace if e[0] in OPS or e[0] == 'drop']
            sync = [k for k, e in enumerate(tr) if e[0] == 'fs' and short(e[1]).split('::')[-1] in ('sync_data', 'sync_all')]
            drop = [k for k, e in enumerate(tr) if e[0] == 'drop' and 'std::fs::File' in e[1]]
            r.ob(len(sync) >= 1, 'no-sync', 'a file is closed without being synced', fn)
            oks = [op_ok(o.state, tr[k]) for k in sync]
            r.ob(not any(x is False for x in oks) or not ret_ok(cfg, o.value), 'sync-error', 'the failure of the sync is not returned', fn)
            r.ob(all(oks) is False or ret_ok(cfg, o.value), 'invented', 'close fails although the sync succeeded', fn)
            r.ob(len(drop) == 1 or any(e[0] == 'fs' and 'into_raw_fd' in e[1] for e in tr), 'not-dropped', 'the file handle is dropped %d times on a path of close' % len(drop), fn)
            r.ob(not drop or not sync or max(sync) < min(drop), 'order', 'the file is dropped before it is synced', fn)
