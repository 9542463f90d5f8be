"""Signatures, constants, layouts, dates and the unsafe inventory."""
from . import prop
from .common import *
from icc_table import SIGNATURES

def num(it, v):
    while isinstance(v, tuple) and v[0] == 'agg' and len(v[1]) == 1: v = v[1][0]
    if isinstance(v, tuple) and v[0] == 'opq': v = num(it, it.field(v, 0))
    return v

def under(it, st, *conds):
    """the states of st in which all conditions hold"""
    out = [st.clone()]
    for c in conds:
        nxt = []
        for s in out:
            try:
                b = s.store.eval(c)
                if b is None: s.store.assume(c)
                elif b is False: continue
                nxt.append(s)
            except Infeasible: pass
        out = nxt
    return out

def elem(it, cfg, st, a, j, ind=1):
    """j-th element behind a reference argument"""
    p = it.as_ptr(st, a)
    v = it.load(st, p[1], p[2])
    return it.arr_get(st, v, K(j))

@prop('C16')
def signatures(r):
    r.rule('Every conversion into a signature yields the number its bytes spell most significant first, short texts padded with spaces and long ones cut to four bytes; every conversion out of one is its inverse; equality is equality of all four bytes.')
    r.rule('Text conversions yield the four bytes as text, or four spaces when they are not valid UTF-8.')
    r.assume.append('std::str::from_utf8 decides validity as documented')
    n = 0
    for cfg in r.cfgs():
        r.curcfg = cfg
        u8 = cfg.ty('u8')
        for L, key in ((4, '<Signature as From<&[u8; 4]>>::from'), (3, '<Signature as From<&[u8; 3]>>::from'), (2, '<Signature as From<&[u8; 2]>>::from'),
                       (1, '<Signature as From<&[u8; 1]>>::from'), (4, 'Signature::new')):
            i = cfg.fn(key)
            for o in r.analyse(cfg, i):
                it = r.it; n += 1
                bs = [it.opq(u8, ((('arg', 0), '*'), '[]', K(j))) for j in range(L)] + [K(32)] * (4 - L)
                r.ob(eqv(o.state, num(it, o.value), be(bs)), 'value:' + key, '%s yields %s instead of the number spelled by its %d byte(s)' % (key, o.value, L), key)
        for key in ('<Signature as From<&[u8]>>::from', '<Signature as From<&str>>::from'):
            i = cfg.fn(key); seen = set()
            for o in r.analyse(cfg, i):
                it = r.it
                l = sym(((('arg', 0)), 'len'), 0, (1 << 63) - 1, 64)
                for k in range(5):
                    c = c_eq(l - k) if k < 4 else c_ge(l - 4)
                    for s in under(it, o.state, c):
                        seen.add(k); n += 1
                        bs = [it.opq(u8, ((('arg', 0), '*'), '[]', K(j))) for j in range(k)] + [K(32)] * (4 - k)
                        r.ob(eqv(s, num(it, o.value), be(bs)), 'slice:%s:%d' % (key, k), '%s yields %s for %d byte(s)' % (key, o.value, k), key)
            r.ob(seen == set(range(5)), 'slice-cases:' + key, 'not every length has a result: %s' % sorted(seen), key)
        w = None
        for key in ('<u32 as From<Signature>>::from', '<Signature as From<u32>>::from'):
            for o in r.analyse(cfg, cfg.fn(key)):
                it = r.it; n += 1
                a = it.opq(cfg.fn(key)['body']['locals'][1], ('arg', 0))
                w = num(it, a)
                r.ob(eqv(o.state, num(it, o.value), w), 'u32:' + key, '%s yields %s' % (key, o.value), key)
        key = '<[u8; 4] as From<Signature>>::from'
        for o in r.analyse(cfg, cfg.fn(key)):
            it = r.it; n += 1
            w = num(it, it.opq(cfg.ty('Signature'), ('arg', 0)))
            l = it.arr_list(o.state, o.value)
            r.ob(l is not None and len(l) == 4 and all_eq(o.state, l, to_bytes(w, 4)[::-1]), 'bytes', 'the bytes of a signature are %s' % (l,), key)
        key = '<String as From<Signature>>::from'; kinds = set()
        for o in r.analyse(cfg, cfg.fn(key)):
            it = r.it; n += 1
            w = num(it, it.opq(cfg.ty('Signature'), ('arg', 0)))
            want = to_bytes(w, 4)[::-1]
            l = text_bytes(it, o.state, o.value)
            facts = [b for k, b in o.state.store.bools.items() if k[0] == 'ok' and isinstance(k[1], tuple) and k[1] and k[1][0] == 'utf8']
            r.ob(len(facts) == 1 and l is not None and len(l) == 4, 'text', 'the text of a signature is not decided by its validity: %s' % (l,), key)
            if len(facts) == 1 and l is not None and len(l) == 4:
                kinds.add(facts[0])
                r.ob(all_eq(o.state, l, want if facts[0] else [K(32)] * 4), 'text:%s' % facts[0], 'the text of a %s signature is %s' % ('valid' if facts[0] else 'invalid', l), key)
        r.ob(kinds == {True, False}, 'text-cases', 'only %s texts are converted' % kinds, key)
        key = '<Signature as PartialEq>::eq'
        for o in r.analyse(cfg, cfg.fn(key)):
            it = r.it
            a, b = [num(it, it.opq(cfg.ty('Signature'), (('arg', j), '*'))) for j in (0, 1)]
            for s, v in cases(it, o.state, lambda s: it.decide(s, o.value)):
                n += 1
                r.ob(s.store.ent_eq(a - b) if v else s.store.ent_ne(a - b), 'eq:%s' % v, 'signatures compare %s although they are %s' % (('equal', 'not all equal') if v else ('unequal', 'not known to differ')), key)
        key = 'Signature::default'
        for o in r.analyse(cfg, cfg.fn(key)):
            n += 1
            r.ob(num(r.it, o.value) == K(0x20202020), 'default', 'the default signature is %s' % (o.value,), key)
        for key in ('<Signature as Debug>::fmt', '<ProfileID as Debug>::fmt'):
            r.analyse(cfg, cfg.fn(key)); n += 1
    r.floor('conversion outcomes', n, 20)

def text_bytes(it, st, v):
    """the bytes of a String value"""
    for _ in range(4):
        if isinstance(v, tuple) and v[0] == 'agg' and len(v[1]) == 1: v = v[1][0]
        elif isinstance(v, tuple) and v[0] == 'vec': v = v[1]
        elif isinstance(v, tuple) and v[0] == 'arr': return it.arr_list(st, v)
        else: return None
    return None

@prop('C17')
def constants(r):
    r.rule('Every signature constant has the code ICC.1:2010 / lcms2 2.13 assigns to its name, no published constant is missing or unknown, and two names of a group share a code only where the standard says so.')
    n = 0
    for cfg in r.cfgs():
        found = {}
        for c in cfg.p.d['consts']:
            if c['v'] is None or short(cfg.T[c['v']['t']]['s']) != 'Signature': continue
            q = c['path'].split('::')
            found[(q[-2], q[-1])] = c
        for g in SIGNATURES:
            for name, code in SIGNATURES[g].items():
                c = found.pop((g, name), None); n += 1
                if c is None:
                    r.ob(False, 'missing:%s::%s' % (g, name), 'the constant %s::%s does not exist' % (g, name)); continue
                v = int(c['v']['int']); w = int.from_bytes(code.encode('latin1'), 'big')
                r.ob(v == w, 'code:%s::%s' % (g, name), "the constant %s::%s is 0x%08x instead of 0x%08x '%s'" % (g, name, v, w, code), span=c['span'])
                r.ob(c['reachable'], 'private:%s::%s' % (g, name), 'the constant %s::%s is not published' % (g, name), span=c['span'])
        # further constants: anything may be added, but within a group no code may be reused
        codes = {}
        for g in SIGNATURES:
            for name, code in SIGNATURES[g].items(): codes.setdefault(g, {})[int.from_bytes(code.encode('latin1'), 'big')] = name
        for (g, name), c in found.items():
            o = codes.get(g, {}).get(int(c['v']['int']))
            r.ob(o is None or not c['reachable'], 'clash:%s::%s' % (g, name), 'the constant %s::%s has the code of %s' % (g, name, o), span=c['span'])
    r.floor('signature constants', n, 2 * 235)
    r.sample('tag::A2B0 = A2B0')

LAYOUT = {
    'ICCHeader': (128, [('size', 0, 4), ('cmm_id', 4, 4), ('version', 8, 4), ('device_class', 12, 4), ('color_space', 16, 4), ('pcs', 20, 4), ('date', 24, 12), ('magic', 36, 4),
                        ('platform', 40, 4), ('flags', 44, 4), ('manufacturer', 48, 4), ('model', 52, 4), ('attributes', 56, 8), ('rendering_intent', 64, 4), ('illuminant', 68, 12),
                        ('creator', 80, 4), ('profile_id', 84, 16), ('reserved', 100, 28)]),
    'TagEntry': (12, [('sig', 0, 4), ('offset', 4, 4), ('size', 8, 4)]),
    'DateTimeNumber': (12, [(f, 2 * j, 2) for j, f in enumerate(('year', 'month', 'day', 'hours', 'minutes', 'seconds'))]),
    'EncodedXYZNumber': (12, [('x', 0, 4), ('y', 4, 4), ('z', 8, 4)]),
    'CIEXYZ': (24, [('X', 0, 8), ('Y', 8, 8), ('Z', 16, 8)]),
    'ProfileID': (16, [('id8', 0, 16), ('id16', 0, 16), ('id32', 0, 16)]),
}
SIGNED = {('EncodedXYZNumber', f) for f in 'xyz'}
ERRORS = ['Undefined', 'File', 'Range', 'Internal', 'Null', 'Read', 'Seek', 'Write', 'UnknownExtension', 'ColorSpaceCheck', 'AlreadyDefined', 'BadSignature', 'CorruptionDetected', 'NotSuitable']
LIMITS = {'MAX_TABLE_TAG': 100, 'MAX_CHANNELS': 16, 'MAX_INPUT_DIMENTIONS': 15, 'MAX_TYPES_IN_LCMS_PLUGIN': 20, 'MAX_NODES_IN_CURVE': 4097, 'LCMS_VERSION': 2131,
          'MINUS_INF': -1e22, 'PLUS_INF': 1e22, 'MATRIX_DET_TOLERANCE': 1e-4}

@prop('C18')
def layouts(r):
    r.rule('Every on-disk structure has the size, field offsets, field widths and signedness of the ICC format, and its layout is guaranteed by repr(C); error codes and published limits have the values of lcms2.')
    r.assume.append('layouts are those of the host ABI (x86-64), as the compiler computes them')
    import struct
    n = 0
    for cfg in r.cfgs():
        for name, (size, fields) in LAYOUT.items():
            t = cfg.T[cfg.ty(name)]; n += 1
            r.ob(t.get('reprc') is True, 'repr:' + name, '%s has no guaranteed field order (repr(C))' % name)
            r.ob(t.get('size') == size, 'size:' + name, '%s is %s bytes, not %d' % (name, t.get('size'), size))
            fs = {f['n']: (f, o) for f, o in zip(t['variants'][0]['f'], t['lay']['offs'])}
            for f, off, w in fields:
                n += 1
                if not r.ob(f in fs, 'field:%s.%s' % (name, f), '%s has no field %s' % (name, f)): continue
                ft = cfg.T[fs[f][0]['t']]
                r.ob(fs[f][1] == off and ft.get('size', width_of(cfg, fs[f][0]['t'])) == w, 'offset:%s.%s' % (name, f),
                     '%s.%s is at byte %s with %s bytes instead of at %d with %d' % (name, f, fs[f][1], ft.get('size', width_of(cfg, fs[f][0]['t'])), off, w))
                r.ob(not any(scalar(cfg, fs[f][0]['t'], s) for s in ((True,) if (name, f) not in SIGNED else (False,))) or ft['k'] not in ('int',),
                     'sign:%s.%s' % (name, f), '%s.%s has the wrong signedness' % (name, f))
            r.ob(set(fs) == set(f for f, _, _ in fields), 'fields:' + name, '%s has other fields: %s' % (name, sorted(set(fs) ^ set(f for f, _, _ in fields))))
            # no byte of the structure is padding
            if name != 'ProfileID':
                r.ob(sum(w for _, _, w in fields) == size, 'padding:' + name, '%s has padding' % name)
        e = cfg.T[cfg.ty('ErrorCode')]
        got = {v['n']: int(v['d']) for v in e['variants']}
        r.ob(e.get('size') == 4, 'size:ErrorCode', 'an error code is %s bytes, not 4' % e.get('size'))
        for d, name in enumerate(ERRORS):
            n += 1
            r.ob(got.get(name) == d, 'code:' + name, 'ErrorCode::%s is %s, not %d' % (name, got.get(name), d))
        found = {}
        for c in cfg.p.d['consts']:
            if c['v'] is not None: found.setdefault(c['path'].split('::')[-1], []).append(c)
        for name, val in LIMITS.items():
            n += 1
            cs = [c for c in found.get(name, []) if short(cfg.T[c['v']['t']]['s']) != 'Signature']
            if not r.ob(len(cs) == 1, 'limit:' + name, 'no single constant %s' % name): continue
            v = int(cs[0]['v']['int'])
            if isinstance(val, float): v = struct.unpack('<d', struct.pack('<Q', v))[0]
            r.ob(v == val, 'limit:' + name, 'the constant %s is %s, not %s' % (name, v, val), span=cs[0]['span'])
        # error codes are ordered by number
        for key in ('<ErrorCode as Ord>::cmp', '<ErrorCode as PartialOrd>::partial_cmp'):
            et = cfg.ty('ErrorCode'); seen = set()
            for o in r.analyse(cfg, cfg.fn(key)):
                it = r.it
                a, b = it.opq(et, (('arg', 0), '*')), it.opq(et, (('arg', 1), '*'))
                def go(s):
                    v = o.value; x, y = it.variant_of(s, a), it.variant_of(s, b)
                    if key.endswith('partial_cmp'):
                        k = it.variant_of(s, v)
                        if it.T[cfg.fn(key)['body']['locals'][0]]['variants'][k]['n'] == 'None': return x, y, None
                        v = it.enum_fields(s, v, k)[0]
                    return x, y, it.T[cfg.ty('Ordering')]['variants'][it.variant_of(s, v)]['n']
                for s, (x, y, got) in cases(it, o.state, go):
                    dx, dy = int(e['variants'][x]['d']), int(e['variants'][y]['d'])
                    want = 'Less' if dx < dy else 'Greater' if dx > dy else 'Equal'
                    seen.add((dx, dy)); n += 1
                    r.ob(got == want, 'order:%s' % key, 'comparing error codes %d and %d yields %s' % (dx, dy, got), key)
            r.ob(len(seen) == len(ERRORS) ** 2, 'order-cases:' + key, 'only %d pairs of error codes are decided' % len(seen), key)
        # the directory tables have exactly the published capacity
        pt = cfg.ty('Profile')
        for f in ('tag_names', 'tag_linked', 'tag_sizes', 'tag_offsets', 'tag_save_as_raw'):
            a = cfg.T[cfg.T[pt]['variants'][0]['f'][cfg.fno(pt, f)]['t']]; n += 1
            r.ob(a['k'] == 'array' and int(a['len']) == LIMITS['MAX_TABLE_TAG'], 'table:' + f, 'the table %s does not have %d entries' % (f, LIMITS['MAX_TABLE_TAG']))
    r.floor('layout facts', n, 120)

def scalar(cfg, t, signed):
    t = cfg.T[t]
    return t['k'] == 'int' and bool(t['signed']) == signed

def width_of(cfg, t):
    t = cfg.T[t]
    if t['k'] in ('int', 'float'): return t['bits'] // 8
    if t['k'] == 'array': return int(t['len']) * width_of(cfg, t['elem'])
    return t.get('size')

DATEF = ('year', 'month', 'day', 'hours', 'minutes', 'seconds')

@prop('C19')
def dates(r):
    r.rule('A DateTimeNumber that denotes an existing calendar date and time of day converts to exactly that moment; any other converts to 1970-01-01 00:00:00. Converting back yields the calendar date and time of day of the moment (years 0 to 65535), so the two are inverse.')
    r.assume.append('chrono: from_ymd_opt succeeds exactly for existing dates, and year/month/day return what the date was made from')
    n = 0
    for cfg in r.cfgs():
        key = '<NaiveDateTime as From<DateTimeNumber>>::from'
        i = cfg.fn(key)
        kinds = set()
        for o in r.analyse(cfg, i):
            it = r.it
            a = it.opq(cfg.ty('DateTimeNumber'), ('arg', 0))
            y, mo, d, h, mi, s = [it.field(a, cfg.fno(cfg.ty('DateTimeNumber'), f)) for f in DATEF]
            opt = it.opq(cfg.ty('Option<NaiveDate>'), ('app', 'ymd', (y, mo, d)))
            for st, exists in cases(it, o.state, lambda st: it.variant_of(st, opt)):
                exists = cfg.T[opt[1]]['variants'][exists]['n'] == 'Some'
                for st2, clock in cases(it, st, lambda st: all([it.decide(st, c_ge(b - x)) for x, b in ((h, K(23)), (mi, K(59)), (s, K(59)))])):
                    n += 1; kinds.add((exists, clock))
                    date = it.field(o.value, 0); tm = it.field(o.value, 1)
                    secs = it.field(tm, 0); frac = it.field(tm, 1)
                    if exists and clock:
                        ok = date == it.enum_fields(st2, opt, cfg.vno(opt[1], 'Some'))[0]
                        r.ob(ok and eqv(st2, secs, h.scale(3600) + mi.scale(60) + s) and eqv(st2, frac, ZERO), 'to-moment', 'an existing date and time converts to %s' % (o.value,), key)
                    else:
                        r.ob(date[:1] == ('opq',) and date[2] == ('cedays', K(719163)) and eqv(st2, secs, ZERO) and eqv(st2, frac, ZERO), 'invalid-date', 'a date or time that does not exist converts to %s' % (o.value,), key)
        r.ob(kinds == {(a, b) for a in (True, False) for b in (True, False)}, 'date-cases', 'not all cases of dates are covered: %s' % sorted(kinds), key)
        key = '<DateTimeNumber as From<NaiveDateTime>>::from'
        i = cfg.fn(key)
        for o in r.analyse(cfg, i):
            it = r.it
            nd = cfg.ty('NaiveDateTime')
            a = it.opq(nd, ('arg', 0))
            secs = it.field(it.field(a, cfg.fno(nd, 'time')), 0)
            want = {'hours': div(div(secs, 60), 60), 'minutes': div(secs, 60) - div(div(secs, 60), 60).scale(60), 'seconds': secs - div(secs, 60).scale(60)}
            dn = cfg.ty('DateTimeNumber')
            lim = {'year': (0, 65535), 'month': (1, 12), 'day': (1, 31)}
            for j, f in enumerate(DATEF):
                n += 1
                v = it.field(o.value, cfg.fno(dn, f))
                s = o.state.clone()
                s.store.assume(c_ge(secs)); s.store.assume(c_ge(K(86399) - secs))
                if f in lim:
                    at = calendar_atom(it, v, f)
                    if at is None:
                        r.ob(False, 'from-moment:' + f, 'the %s of a moment becomes %s' % (f, v), key); continue
                    lo, hi = lim[f]
                    s.store.assume(c_ge(at - lo)); s.store.assume(c_ge(K(hi) - at))
                    r.ob(wraps_to(s, v, at), 'from-moment:' + f, 'the %s of a moment becomes %s' % (f, v), key)
                else:
                    r.ob(wraps_to(s, v, want[f]), 'from-moment:' + f, 'the %s of a moment become %s' % (f, v), key)
    r.floor('date cases', n, 8)

div = div_floor

def wraps_to(st, v, want):
    """is v the value `want` stored in 16 bits"""
    return any(eqv(st, v, x) for x in (want, word(to_bytes(want, 2)), want - div_floor(want, 65536).scale(65536)))

def calendar_atom(it, v, f):
    """the calendar component of the argument's date that v is computed from"""
    names = {'year': 'Datelike>::year', 'month': 'Datelike>::month', 'day': 'Datelike>::day'}
    todo = [v]; n = 0
    while todo and n < 200:
        x = todo.pop(); n += 1
        if isinstance(x, Lin):
            for a, _ in x.t:
                k = a.args
                if a.kind == 'sym' and isinstance(k, tuple) and len(k) == 3 and k[0] == 'app' and isinstance(k[1], str) and k[1].endswith(names[f]) and "('arg', 0)" in str(k[2]):
                    return lin(a)
                todo += [y for y in a.args if isinstance(y, Lin)] if isinstance(a.args, tuple) else []
    return None

PLAIN = ('int', 'float')
def plain(cfg, t, seen=()):
    """every bit pattern of the type is a value and none of its bytes is padding"""
    x = cfg.T[t]
    if x['k'] in PLAIN: return True
    if x['k'] == 'array': return plain(cfg, x['elem'])
    if x['k'] == 'adt' or x.get('kind') in ('struct', 'union'):
        vs = x['variants']
        if len(vs) != 1 or x.get('kind') == 'enum': return False
        fs = vs[0]['f']
        if not all(plain(cfg, f['t']) for f in fs): return False
        ws = [width_of(cfg, f['t']) for f in fs]
        if x.get('kind') == 'union': return all(w == x['size'] for w in ws)
        return sum(ws) == x['size'] and (x.get('reprc') or len(fs) == 1)
    return False

def place_type(cfg, body, place):
    """type of a place, as far as its projections say"""
    loc, proj = place[0], place[1]
    t = body['locals'][loc]
    for e in proj:
        if e[0] == 'd': t = cfg.T[t].get('to', cfg.T[t].get('elem'))
        elif e[0] == 'f': t = e[2]
        elif e[0] in ('i', 'c'): t = cfg.T[t]['elem']
        elif e[0] == 'v': pass
        else: return None
        if t is None: return None
    return t

def walk_places(x, f):
    """calls f(local, projections) on every place of a MIR fragment"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and all(isinstance(e, list) and e and isinstance(e[0], str) for e in x[1]):
            f(x[0], x[1]); return
        for y in x: walk_places(y, f)

@prop('C30')
def unsafety(r):
    r.rule('Every unsafe operation of the crate is one of: reading a field of a repr(C) union all of whose fields are plain data of the same size; transmuting plain data to plain data. No raw pointer is dereferenced, no unsafe function is called or defined, no mutable static exists.')
    r.rule('Process-wide state with interior mutability is behind a mutex.')
    nf = nu = nt = 0
    for cfg in r.cfgs():
        for i in cfg.I.values() if isinstance(cfg.I, dict) else cfg.I:
            if not i['local'] or not i.get('body'): continue
            b = i['body']; fn = sfn(i['path']); nf += 1
            r.fnset.add(fn)
            boxed = set()
            for blk in b['blocks']:
                for s in blk['s']:
                    if s[0] == '=' and isinstance(s[2], list) and s[2][:2] == ['cast', 'BoxDerefTransmute'] and not s[1][1]: boxed.add(s[1][0])
            def place(l, pr):
                nonlocal nu
                for k, e in enumerate(pr):
                    t = place_type(cfg, b, [l, pr[:k]])
                    if t is None: continue
                    x = cfg.T[t]
                    if e[0] == 'd' and x['k'] == 'rawptr':
                        r.ob(k == 0 and l in boxed, 'raw-deref:' + fn, 'a raw pointer is dereferenced', fn)
                    if e[0] == 'f' and x.get('kind') == 'union':
                        nu += 1
                        if k + 1 <= len(pr):
                            r.ob(x.get('reprc') or all(plain(cfg, f['t']) for f in x['variants'][0]['f']), 'union-repr:%s' % short(x['s']), 'the union %s has no defined layout' % short(x['s']), fn)
                            r.ob(plain_union(cfg, x), 'union:%s' % short(x['s']), 'reading a field of the union %s can yield invalid or uninitialised data' % short(x['s']), fn)
            for blk in b['blocks']:
                for s in blk['s']:
                    walk_places(s, place)
                    if s[0] == '=' and isinstance(s[2], list) and s[2] and s[2][0] == 'cast':
                        kind, op, U = s[2][1], s[2][2], s[2][3]
                        if kind == 'Transmute':
                            S = place_type(cfg, b, op[1]) if op[0] in ('cp', 'mv') else op[1].get('t')
                            nt += 1
                            ok = S is not None and (plain(cfg, S) and plain(cfg, U) or cfg.T[U]['k'] == 'rawptr' and 'NonNull<' in cfg.T[S]['s'])
                            r.ob(ok, 'transmute:' + fn, 'a transmute involves more than plain data: %s to %s' % (short(cfg.T[S]['s']) if S is not None else '?', short(cfg.T[U]['s'])), fn, s[3] if len(s) > 3 else None)
                        else:
                            r.ob('Provenance' not in kind, 'ptr-int:' + fn, 'a pointer is made from or turned into an integer', fn, s[3] if len(s) > 3 else None)
                t = blk['t']
                walk_places(t[2:], place)
                if t[0] == 'call' and t[1].get('us'):
                    r.ob(t[1]['path'].startswith('std::fmt::Arguments'), 'unsafe-call:%s:%s' % (fn, t[1]['path']), 'the unsafe function %s is called' % t[1]['path'], fn, t[5] if len(t) > 5 and isinstance(t[5], str) else None)
                r.ob(t[0] != 'other', 'asm:' + fn, 'the function uses a construct that is not analysed: %s' % t[0], fn) if t[0] == 'other' else None
        for f in cfg.p.d['fns']:
            r.ob(not f['unsafe'], 'unsafe-fn:' + short(f['path']), 'the function %s is unsafe to call' % f['path'])
        for s in cfg.p.d['statics']:
            r.ob(not s['mut'], 'static-mut:' + short(s['path']), 'the static %s is mutable without synchronisation' % s['path'], span=s['span'])
            tn = cfg.T[s['t']]['s']
            r.ob(s['freeze'] or 'Mutex<' in tn, 'static-sync:' + short(s['path']), 'the static %s of type %s has unsynchronised interior mutability' % (s['path'], short(tn)), span=s['span'])
        for im in cfg.p.d['impls']:
            r.ob(not (im.get('trait') or '').endswith(('marker::Send', 'marker::Sync')), 'impl-sync:' + short(im.get('self') or ''), '%s is declared %s by hand' % (im.get('self'), im.get('trait')))
        # a union must not be creatable with a field that does not cover it
        for n, t in enumerate(cfg.T):
            if t.get('kind') == 'union' and t['s'].startswith('lcms2::'):
                nu += 1
                r.ob(plain_union(cfg, t), 'union:%s' % short(t['s']), 'the union %s can hold invalid or uninitialised data' % short(t['s']))
    r.floor('functions', nf, 60); r.floor('union uses', nu, 0); r.floor('transmutes', nt, 0)

def plain_union(cfg, x):
    fs = x['variants'][0]['f']
    return all(plain(cfg, f['t']) and width_of(cfg, f['t']) == x['size'] for f in fs)

EQ = ('CIEXYZ', 'DateTimeNumber', 'EncodedXYZNumber', 'ErrorCode', 'ICCHeader', 'Profile', 'ProfileID', 'Signature', 'TagEntry')
NOT_COMPARED = {('Profile', 'io')}

def eq_leaves(cfg, it, st, a, b, ty, path=''):
    """[(what, function of a path's facts telling whether the two agree there: True, False or None)]"""
    t = cfg.T[ty]
    val = lambda: (lambda c: [(path, lambda s: holds(s, c))])(it.models.val_eq(it, st, a, b, ty))
    if t['k'] in ('int', 'float', 'char'): return val()
    if t['k'] == 'bool': return (lambda c: [(path, lambda s: holds(s, c))])(c_not(c_xor(a, b)))
    if t['k'] == 'array':
        if cfg.T[t['elem']]['k'] == 'int' and width_of(cfg, t['elem']) == 1 and t['len'] <= 64: return [(path, lambda s: bytes_agree(it, s, a, b))]
        whole = it.models.val_eq(it, st, a, b, ty)
        def agree(s):
            v = holds(s, whole)
            if v is not None or t['len'] > 200: return v
            vs = []
            for j in range(t['len']):
                x, y = it.arr_get(s, a, K(j)), it.arr_get(s, b, K(j))
                c = (lambda s, x=x, y=y: deep_agree(cfg, it, s, x, y, t['elem']))(s)
                if c is False: return False
                vs.append(c)
            return True if all(c is True for c in vs) else None
        return [(path, agree)]
    if t.get('kind') == 'struct':
        if short(t['s']).startswith(('Option', 'Box')): raise Unsupported('comparison of ' + t['s'])
        out = []
        for j, f in enumerate(t['variants'][0]['f']):
            if (short(t['s']), f['n']) in NOT_COMPARED: continue
            out += eq_leaves(cfg, it, st, it.field(a, j), it.field(b, j), f['t'], path + '.' + f['n'])
        return out
    if t.get('kind') == 'union':
        for j, f in enumerate(t['variants'][0]['f']):
            x = cfg.T[f['t']]
            if x['k'] == 'array' and width_of(cfg, x['elem']) == 1:
                return [(path, lambda s, j=j: bytes_agree(it, s, it.field(a, j), it.field(b, j)))]
    if t.get('kind') == 'enum' and all(not v['f'] for v in t['variants']):
        return (lambda c: [(path, lambda s: holds(s, c))])(c_eq(it.discr(a, ty) - it.discr(b, ty)))
    raise Unsupported('no equality of ' + t['s'])

def deep_agree(cfg, it, s, x, y, ty):
    """agreement of two elements of any type"""
    t = cfg.T[ty]
    if t.get('kind') == 'enum':
        try: k, l = it.variant_of(s, x), it.variant_of(s, y)
        except Exception: return holds(s, it.models.val_eq(it, s, x, y, ty))
        if k != l: return False
        fs = t['variants'][k]['f']
        vs = [deep_agree(cfg, it, s, p, q, f['t']) for p, q, f in zip(it.enum_fields(s, x, k), it.enum_fields(s, y, k), fs)]
    else: vs = [c(s) for _, c in eq_leaves(cfg, it, s, x, y, ty)]
    return False if False in vs else True if all(v is True for v in vs) else None

def bytes_agree(it, s, a, b):
    """agreement of two byte arrays, known byte by byte or through the numbers they spell"""
    whole = it.models.val_eq(it, s, a, b, None)
    v = holds(s, whole)
    if v is not None: return v
    n = a[1].c; known = [False] * n
    A = [it.arr_get(s, a, K(j)) for j in range(n)]; B = [it.arr_get(s, b, K(j)) for j in range(n)]
    w = 1
    while w <= n:
        for k in range(0, n - w + 1, w):
            for x, y in ((A[k:k + w], B[k:k + w]), (A[k:k + w][::-1], B[k:k + w][::-1])):
                v = s.store.eval(c_eq(word(x) - word(y)))
                if v is False: return False
                if v is True: known[k:k + w] = [True] * w
        w *= 2
    return True if all(known) else None

@prop('C20')
def equality(r):
    r.rule('Two values compare equal exactly when every field agrees (a profile\'s stream excepted): each path answering true has established agreement of every field, each path answering false disagreement of some field.')
    r.assume.append('== of arrays and of chrono dates is elementwise resp. fieldwise as documented; floats compare as IEEE numbers')
    n = k = 0
    for cfg in r.cfgs():
        for name in EQ:
            key = '<%s as PartialEq>::eq' % name
            ty = cfg.ty(name); seen = set()
            for o in r.analyse(cfg, cfg.fn(key), unroll=140, undecided=140, exits=400):
                it = r.it; k += 1
                a, b = (it.opq(ty, (('arg', j), '*')) for j in (0, 1))
                for s, v in cases(it, o.state, lambda s: it.decide(s, o.value)):
                    ls = eq_leaves(cfg, it, s, a, b, ty, name); seen.add(v)
                    if v:
                        for what, c in ls:
                            n += 1
                            r.ob(c(s) is True, 'ignored:' + what, '%s compare equal although %s was not compared' % (name, what), key)
                    else:
                        n += 1
                        r.ob(any(c(s) is False for _, c in ls), 'unequal:' + name, 'values of %s compare unequal without a field known to differ' % name, key)
            r.ob(seen == {True, False}, 'eq-cases:' + name, 'the equality of %s is always %s' % (name, seen), key)
    r.floor('equality obligations', n, 60)

def holds(st, c):
    """truth of a condition under the path's facts (compound ones by their parts)"""
    if c is True or c is False: return c
    v = st.store.eval(c)
    if v is not None: return v
    if c[0] in ('and', 'or'):
        vs = [holds(st, x) for x in c[1:]]
        if c[0] == 'and': return False if False in vs else True if all(x is True for x in vs) else None
        return True if True in vs else False if all(x is False for x in vs) else None
    return None
