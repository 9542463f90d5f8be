"""Opening profiles: header, tag directory, links, rejection, modes."""
import re
from . import prop
from .common import *

OPEN = 'Profile::open_from_file_thr'
MAGIC = int.from_bytes(b'acsp', 'big')
HEADER = {'size': (0, 4), 'cmm_id': (4, 4), 'version': (8, 4), 'device_class': (12, 4), 'color_space': (16, 4), 'pcs': (20, 4),
          'date.year': (24, 2), 'date.month': (26, 2), 'date.day': (28, 2), 'date.hours': (30, 2), 'date.minutes': (32, 2), 'date.seconds': (34, 2),
          'magic': (36, 4), 'platform': (40, 4), 'flags': (44, 4), 'manufacturer': (48, 4), 'model': (52, 4), 'attributes': (56, 8),
          'rendering_intent': (64, 4), 'illuminant.x': (68, 4), 'illuminant.y': (72, 4), 'illuminant.z': (76, 4), 'creator': (80, 4)}
RAW = {'profile_id': (84, 16), 'reserved': (100, 28)}
ADOPTED = ('version', 'device_class', 'color_space', 'pcs', 'flags', 'manufacturer', 'model', 'attributes', 'rendering_intent', 'creator')
DATE = ('year', 'month', 'day', 'hours', 'minutes', 'seconds')

def open_inst(cfg):
    i = cfg.fns(OPEN)
    if not i: raise Missing(OPEN)
    return i[0]

def open_outcomes(r, cfg, stream=None, **o):
    outs = r.analyse(cfg, open_inst(cfg), models=Models({'stream': stream}) if stream is not None else None, **o)
    return outs, r.it.loops

def directory(r, cfg, n):
    """paths of opening a file whose directory announces n entries"""
    c = [0, 0, 0, n] if cfg.name == 'be' else [n, 0, 0, 0]
    return open_outcomes(r, cfg, {128 + j: c[j] for j in range(4)}, width=600, exits=6000, undecided=2000)

def modes(r, cfg, it, o, arg=2):
    """the access modes this path is for"""
    t = cfg.ty('AccessMode')
    a = it.opq(t, ('arg', arg))
    return sorted(set(cfg.T[t]['variants'][v]['n'] for s, v in cases(it, o.state, lambda s: it.variant_of(s, a))))

def is_ok(cfg, v): return v[0] == 'enum' and cfg.T[v[1]]['variants'][v[2]]['n'] == 'Ok'

def the_profile(cfg, it, o):
    """the profile value a successful open returns"""
    p = it.as_ptr(o.state, o.value[3][0])
    return it.load(o.state, p[1], p[2])

def F(it, cfg, a, n):
    m = it.models
    return [m.stream_byte(it, j) for j in range(a, a + n)]

def word32(it, v):
    """the number inside a signature, or the number itself"""
    while isinstance(v, tuple) and v[0] == 'agg' and len(v[1]) == 1: v = v[1][0]
    if isinstance(v, tuple) and v[0] == 'opq': v = it.field(v, 0)
    return v

def union_bytes(cfg, it, st, v, ty):
    """the raw bytes of a union value"""
    for j, f in enumerate(cfg.T[ty]['variants'][0]['f']):
        t = cfg.T[f['t']]
        if t['k'] == 'array' and cfg.T[t['elem']]['k'] == 'int' and cfg.T[t['elem']]['bits'] == 8:
            a = it.field(v, j)
            return it.arr_list(st, a)
    raise Unsupported('no byte view of ' + cfg.T[ty]['s'])

# ---------------------------------------------------------------- C01
@prop('C01')
def c01(r):
    r.rule('panic reachability: from the public open functions no path reaches a panic, arithmetic overflow, bounds failure or division by zero; every loop has a strictly decreasing measure')
    r.assume += ['allocation failure, poisoned locks and panics inside operating system calls are excluded', 'the clock is past 1970 (Utc::now)', 'the error handler installed in the context returns']
    n = 0
    for cfg in r.cfgs():
        for k in (OPEN, 'Profile::open_from_file'):
            fs = cfg.fns(k)
            if not fs: raise Missing(k)
            for i in fs:
                outs = r.analyse(cfg, i)
                n += len(outs)
                for l in r.it.loops:
                    r.ob(l['rank'] is not None, 'loop:%s:%s' % (k, sfn(l['path'])), 'a loop of %s has no decreasing measure' % sfn(l['path']), sfn(l['path']))
                r.sample('%s [%s]: %d paths, loops %s' % (k, cfg.name, len(outs), sorted(set('%s: %s' % (sfn(l['path']), str(l['rank'])[:60]) for l in r.it.loops))[:4]))
    r.floor('paths of the open functions', n, 20)

# ---------------------------------------------------------------- C05
def check_converters(r, cfg):
    o = order(cfg)
    u8 = cfg.ty('u8')
    for name, size, fields, raw in (('ICCHeader', 128, HEADER, RAW), ('TagEntry', 12, {'sig': (0, 4), 'offset': (4, 4), 'size': (8, 4)}, {})):
        fb, tb = name + 'Converter::from_bytes', name + 'Converter::to_bytes'
        ty = cfg.ty(name)
        it = Interp(cfg.p, Models())
        bs = [it.opq(u8, ('in', '[]', K(j))) for j in range(size)]
        def leaf(it, v, path):
            t = ty
            for p in path.split('.'):
                j = cfg.fno(t, p); v = it.field(v, j); t = cfg.T[t]['variants'][0]['f'][j]['t']
            return v, t
        outs = r.analyse(cfg, cfg.fn(fb), [('arr', K(size), ('list', tuple(bs)), ())])
        r.ob(len(outs) > 0, 'dead:' + fb, 'decoding never succeeds', fb)
        for x in outs:
            it = r.it
            for f, (a, n) in fields.items():
                v, t = leaf(it, x.value, f)
                v = word32(it, v)
                w = o(bs[a:a + n])
                if cfg.T[t]['k'] == 'int' and cfg.T[t]['signed']: w = it.to_signed(w, 8 * n)
                r.ob(isinstance(v, Lin) and eqv(x.state, v, w), 'decode:%s:%s.%s' % (cfg.name, name, f), 'decoding bytes %d..%d gives %s.%s = %s' % (a, a + n, name, f, v), fb)
            for f, (a, n) in raw.items():
                v, t = leaf(it, x.value, f)
                g = union_bytes(cfg, it, x.state, v, t) if cfg.T[t]['k'] == 'adt' else it.arr_list(x.state, v)
                r.ob(all_eq(x.state, g, bs[a:a + n]), 'decode:%s:%s.%s' % (cfg.name, name, f), 'the raw bytes of %s.%s are not those of the file' % (name, f), fb)
        # encoding: every byte of an arbitrary value, hence decode after encode and encode after decode are identities
        i = cfg.fn(tb)
        outs = r.analyse(cfg, i)
        r.ob(len(outs) > 0, 'dead:' + tb, 'encoding never succeeds', tb)
        for x in outs:
            it = r.it
            v0 = it.opq(i['body']['locals'][1], ('arg', 0))
            got = it.arr_list(x.state, x.value)
            if not r.ob(got is not None and len(got) == size, 'size:' + tb, 'encoding yields %s bytes' % (None if got is None else len(got)), tb): continue
            for f, (a, n) in fields.items():
                v, t = leaf(it, v0, f)
                v = word32(it, v)
                def want(s):
                    w = it.to_unsigned(v, {'signed': True, 'bits': 8 * n}, 8 * n) if cfg.T[t]['k'] == 'int' and cfg.T[t]['signed'] else v
                    return o(to_bytes(w, n) if True else None)
                for s, w in cases(it, x.state, lambda s: it.to_unsigned(v, {'signed': True, 'bits': 8 * n}, 8 * n) if cfg.T[t]['k'] == 'int' and cfg.T[t]['signed'] else v):
                    wb = to_bytes(w, n)
                    if cfg.name == 'be': wb = wb[::-1]
                    r.ob(all_eq(s, got[a:a + n], wb), 'encode:%s:%s.%s' % (cfg.name, name, f), 'encoding %s.%s gives bytes %s, not %s' % (name, f, got[a:a + n], wb), tb)
            for f, (a, n) in raw.items():
                v, t = leaf(it, v0, f)
                g = union_bytes(cfg, it, x.state, v, t) if cfg.T[t]['k'] == 'adt' else [it.arr_get(x.state, v, K(j)) for j in range(n)]
                r.ob(all_eq(x.state, got[a:a + n], g), 'encode:%s:%s.%s' % (cfg.name, name, f), 'the raw bytes of %s.%s are changed by encoding' % (name, f), tb)

def date_value(r, cfg, it, st, o):
    """what the library's own conversion makes of the six date fields of the header: [(state, value)]"""
    dt = cfg.ty('DateTimeNumber')
    fs = [None] * 6
    for f in DATE:
        a, n = HEADER['date.' + f]
        fs[cfg.fno(dt, f)] = o(F(it, cfg, a, n))
    conv = cfg.fn('<NaiveDateTime as From<DateTimeNumber>>::from')
    s = State(); s.store = st.store.clone(); s.n = st.n
    m = Interp(cfg.p, it.models, {})
    return [(x.state, x.value) for x in m.run_fn(conv['id'], [('agg', tuple(fs))], s) if x.kind == 'ret']

@prop('C05')
def c05(r):
    r.rule('byte-level value numbering of the header: each adopted profile field is the number (or raw bytes) at the ICC offset of the 128-byte header, in the configured byte order; decode and encode of header and tag entry map every byte to its field and back')
    r.assume += ['the stream delivers the bytes of the file in order (C12, C13)', 'conversion of the creation date itself is the subject of C19']
    for cfg in r.cfgs():
        o = order(cfg)
        check_converters(r, cfg)
        outs, loops = directory(r, cfg, 1)
        it = r.it
        nok = 0
        pt = cfg.ty('Profile')
        for x in outs:
            if not is_ok(cfg, x.value) or 'Read' not in modes(r, cfg, it, x): continue
            nok += 1
            p = the_profile(cfg, it, x)
            g = lambda f: it.field(p, cfg.fno(pt, f))
            for f in ADOPTED:
                a, n = HEADER[f]
                v = word32(it, g(f))
                r.ob(isinstance(v, Lin) and eqv(x.state, v, o(F(it, cfg, a, n))), 'adopt:%s:%s' % (cfg.name, f), 'the opened profile has %s = %s, not the %d bytes at offset %d of the file' % (f, v, n, a), OPEN)
            idb = union_bytes(cfg, it, x.state, g('profile_id'), cfg.T[pt]['variants'][0]['f'][cfg.fno(pt, 'profile_id')]['t'])
            r.ob(all_eq(x.state, idb, F(it, cfg, 84, 16)), 'adopt:%s:profile_id' % cfg.name, 'the profile id is not the 16 raw bytes of the file', OPEN)
            for s, v in date_value(r, cfg, it, x.state, o):
                r.ob(g('created') == v, 'adopt:%s:created' % cfg.name, 'the creation date is %s instead of the conversion %s of the header\'s date' % (str(g('created'))[:200], str(v)[:200]), OPEN)
            r.ob(g('is_write') is False, 'adopt:is_write', 'a profile opened for reading is marked as being written', OPEN)
        r.floor('successful paths of opening (%s)' % cfg.name, nok, 2)

# ---------------------------------------------------------------- C06, C07: partition by announced tag count
def spec_directory(it, cfg, s, n):
    """[(signature, offset, size, index of the linked entry or None)] of a file whose directory announces n entries"""
    o = order(cfg)
    flen = sym(('flen',), 0, (1 << 63) - 1, 64)
    hs = o(F(it, cfg, 0, 4))
    limit = flen if it.decide(s, c_ge(hs - flen)) else hs
    out = []
    for k in range(n):
        a = 132 + 12 * k
        sig, off, size = (o(F(it, cfg, a + 4 * q, 4)) for q in range(3))
        if it.decide(s, c_ge(off + size - limit - 1)): continue
        link = None
        for j, e in enumerate(out):
            if it.decide(s, c_eq(e[1] - off)) and it.decide(s, c_eq(e[2] - size)): link = j
        out.append((sig, off, size, link))
    return out

def tag_tables(cfg, it, p):
    pt = cfg.ty('Profile')
    g = lambda f: it.field(p, cfg.fno(pt, f))
    return g('tag_count'), g('tag_names'), g('tag_offsets'), g('tag_sizes'), g('tag_linked'), g('tag_save_as_raw')

SPACES = 0x20202020

def opt_sig(cfg, it, s, v):
    """None or the number of the signature inside"""
    vr = it.variant_of(s, v)
    if cfg.T[v[1]]['variants'][vr]['n'] == 'None': return None
    return word32(it, it.enum_fields(s, v, vr)[0])

def partition(r, cfg, n, what):
    outs, loops = directory(r, cfg, n)
    it = r.it
    nok = 0
    for l in loops:
        if any(io_events(b.trace[len(l['head'].trace):]) for b in l['backs']): raise Unsupported('the directory of %d entries is not walked entry by entry' % n)
    for x in outs:
        if not is_ok(cfg, x.value) or 'Read' not in modes(r, cfg, it, x): continue
        nok += 1
        p = the_profile(cfg, it, x)
        count, names, offs, sizes, linked, raw = tag_tables(cfg, it, p)
        for s, want in cases(it, x.state, lambda s: spec_directory(it, cfg, s, n), 5000):
            m = len(want)
            tag = '%s:%d' % (cfg.name, n)
            if what == 'dir':
                if not r.ob(isinstance(count, Lin) and eqv(s, count, K(m)), 'count:' + cfg.name, 'of %d directory entries %d lie inside the profile but %s are listed' % (n, m, count), OPEN): continue
                for k in range(n + 1 if n < 100 else n):
                    row = [word32(it, it.arr_get(s, t, K(k))) for t in (names, offs, sizes)]
                    w = list(want[k][:3]) if k < m else [K(SPACES), ZERO, ZERO]
                    for nm, g, e in zip(('signature', 'offset', 'size'), row, w):
                        r.ob(isinstance(g, Lin) and eqv(s, g, e), 'entry:%s:%s%s' % (cfg.name, nm, '' if k < m else ':unused'), 'tag %d of %d: the %s is %s instead of %s' % (k, m, nm, g, e), OPEN)
                    r.ob(it.arr_get(s, raw, K(k)) is False, 'entry:raw', 'tag %d of an opened profile is marked to be saved raw' % k, OPEN)
            else:
                if not eqv(s, count, K(m)): continue
                for k in range(n + 1 if n < 100 else n):
                    for s2, g in cases(it, s, lambda z: opt_sig(cfg, it, z, it.arr_get(z, linked, K(k)))):
                        e = want[want[k][3]][0] if k < m and want[k][3] is not None else None
                        same = (g is None and e is None) or (g is not None and e is not None and eqv(s2, g, e))
                        r.ob(same, 'link:%s:%s' % (cfg.name, 'missing' if g is None else ('invented' if e is None else 'wrong')), 'tag %d of %d is linked to %s instead of %s' % (k, m, g, e), OPEN)
    r.ob(nok > 0, 'dead:%s:%d' % (cfg.name, n), 'a file with %d tags is never opened' % n, OPEN)
    r.count('successful paths with %d entries [%s]' % (n, cfg.name), nok)
    return nok

def profile_obj(cfg, it, l):
    """the profile a loop fills: on the heap or in a local; the one the loop changes when there are several"""
    pt = cfg.ty('Profile')
    h = l['head']
    c = [o for o in h.mem if o[0] == 'h' and o[2] == pt]
    for fid, f in enumerate(h.frames):
        ls = it.I[f.inst]['body']['locals']
        c += [('l', fid, n) for n in f.locals if ls[n] == pt]
    if len(c) > 1:
        def at(st, o):
            try: return it.root(st, o)
            except Exception: return None
        d = [o for o in c if any(at(b, o) != at(h, o) for b in l['backs'])]
        c = d or [o for o in c if at(l['entry'], o) != at(h, o)] or c
    if len(c) != 1: raise Unsupported('%d profiles on a path of opening' % len(c))
    return c[0]

def unchanged_except(r, it, st, a0, a1, idx, key, text, fn):
    """a1[k] == a0[k] for an arbitrary k other than idx"""
    if a0 == a1: return True
    k = sym(('k',), 0, 99, 64)
    ok = True
    for d in ((c_ge(idx - k - 1),), (c_ge(k - idx - 1),)):
        s = st.clone()
        if not all(s.store.assume(c) for c in d): continue
        for s2, (x, y) in cases(it, s, lambda z: (word32(it, it.arr_get(z, a0, k)), word32(it, it.arr_get(z, a1, k)))):
            ok &= r.ob(x == y or eqv(s2, x, y), key, text + ': element k != %s is %s, was %s' % (idx, y, x), fn)
    return ok

def inside(cfg, inner, outer):
    """is a turn of one loop part of a turn of another?"""
    fs = inner['head'].frames
    k = outer['depth'] - 1
    if k >= len(fs) or fs[k].inst != outer['inst'] or fs[k].fid != outer['head'].frames[k].fid: return False
    body = cfg.p.loops(outer['inst']).get(outer['header'], ())
    return fs[k].bb in body and not (inner['depth'] == outer['depth'] and inner['header'] == outer['header'])

def reading_loops(loops): return [l for l in loops if any(io_events(b.trace[len(l['head'].trace):]) for b in l['backs'])]

def lists_tags(cfg, it, l):
    """does a turn of the loop add tags to the profile?"""
    try: po = profile_obj(cfg, it, l)
    except Unsupported: return False
    c = tag_tables(cfg, it, it.root(l['head'], po))[0]
    return any(tag_tables(cfg, it, it.root(b, po))[0] != c for b in l['backs'])

def directory_loop(r, cfg):
    """the transfer of one turn of the directory walk, for any number of tags"""
    outs, loops = open_outcomes(r, cfg, {})
    it = r.it
    o = order(cfg)
    flen = sym(('flen',), 0, (1 << 63) - 1, 64)
    hs = o(F(it, cfg, 0, 4))
    n = 0
    gathered = False
    for l in loops:
        turns = [b for b in l['backs'] if io_events(b.trace[len(l['head'].trace):])]
        if not turns: continue
        r.ob(len(turns) == len(l['backs']), 'turn-reads', 'a turn of the directory walk consumes nothing', OPEN)
        h = l['head']
        po = profile_obj(cfg, it, l)
        ph = it.root(h, po)
        hc, hn, ho, hz, hl, hr = tag_tables(cfg, it, ph)
        pe = it.root(l['entry'], po)
        r.ob(tag_tables(cfg, it, pe)[0] == ZERO, 'first', 'the directory walk starts with %s tags' % (tag_tables(cfg, it, pe)[0],), OPEN)
        # a walk that only gathers the entries, to list them afterwards: settled by the partition alone
        gathers = all(tag_tables(cfg, it, it.root(b, po))[:5] == (hc, hn, ho, hz, hl) for b in turns) and any(lists_tags(cfg, it, x) for x in loops if x is not l and not inside(cfg, x, l))
        if gathers: r.count('walks that gather entries first [%s]' % cfg.name, 1); gathered = True
        ppos = [v for k, v in l['entry'].info.items() if isinstance(k, tuple) and k[0] == 'pos']
        r.ob(ppos == [K(132)], 'start', 'the directory walk starts at offset %s of the file instead of 132' % ppos, OPEN)
        total = None
        for b in turns:
            n += 1
            ev = io_events(b.trace[len(h.trace):])
            r.ob(only_reads(ev), 'turn-ops', 'a turn of the directory walk does more than read', OPEN)
            bs = []
            for e in ev: bs += data_bytes(it, cfg, ('io', e[3], 'data'), b.store.cval(e[4]).c)
            if not r.ob(len(bs) == 12, 'turn-width', 'a turn of the directory walk consumes %d bytes instead of 12' % len(bs), OPEN): continue
            sig, off, size = (o(bs[4 * q:4 * q + 4]) for q in range(3))
            if gathers: continue
            pb = it.root(b, po)
            bc, bn, bo, bz, bl, br = tag_tables(cfg, it, pb)
            for s, limit in cases(it, b, lambda s: flen if it.decide(s, c_ge(hs - flen)) else hs):
                if s.store.ent_eq(bc - hc):
                    r.ob(s.store.ent_ge(off + size - limit - 1), 'skip', 'a tag that lies inside the profile is left out of the directory', OPEN)
                    r.ob((bn, bo, bz, bl) == (hn, ho, hz, hl), 'skip-changes', 'a tag left out changes the directory', OPEN)
                    continue
                if not r.ob(s.store.ent_eq(bc - hc - 1), 'turn-count', 'a turn changes the number of tags from %s to %s' % (hc, bc), OPEN): continue
                r.ob(s.store.ent_ge(limit - off - size), 'accept', 'a tag that reaches beyond the profile is listed', OPEN)
                for nm, a0, a1, w in (('signature', hn, bn, sig), ('offset', ho, bo, off), ('size', hz, bz, size)):
                    for s2, g in cases(it, s, lambda z: word32(it, it.arr_get(z, a1, hc))):
                        r.ob(isinstance(g, Lin) and eqv(s2, g, w), 'turn:' + nm, 'the %s stored for a tag is %s instead of %s' % (nm, g, w), OPEN)
                    unchanged_except(r, it, s, a0, a1, hc, 'turn-other:' + nm, 'listing a tag changes the %s of another' % nm, OPEN)
        # the walk ends only after every announced entry
        announced = o(F(it, cfg, 128, 4))
        for c, c0, (obj, sel) in l['cells']:
            steps = set()
            for b in turns:
                v = it.leaf_at(it.root(b, obj), sel)
                steps.add((v - c).c if isinstance(v, Lin) and (v - c).is_const() else None)
            if steps == {1}: total = c - c0
            if steps == {-1}: total = c0 - c
        if r.ob(total is not None, 'walk', 'no counter of the directory walk moves by one per turn', OPEN):
            for e in l['exits']:
                if any(op_ok(e, ev) is False for ev in e.trace if ev[0] in OPS): continue
                r.ob(e.store.ent_eq(total - announced), 'walk-end', 'the directory walk can end after %s entries although %s are announced' % (total, announced), OPEN)
    r.floor('turns of the directory walk [%s]' % cfg.name, n, 2)
    return gathered

def only_reads(ev): return all(e[1] == 'read' for e in ev)

@prop('C06')
def c06(r):
    r.rule('partition by the number of announced tags: for each successful path the tables equal those of a reference reading of the ICC directory, decided on the path\'s facts')
    r.rule('loop transfer: one turn of the directory walk consumes one 12-byte entry, skips it exactly when its range leaves the profile, and otherwise appends exactly that entry; the walk ends after the announced number of entries')
    r.assume += ['the stream delivers the bytes of the file in order (C12, C13)']
    for cfg in r.cfgs():
        for n in range(0, (4 if cfg.name == 'be' else 3) if r.tier == 'quick' else (5 if cfg.name == 'be' else 4)): partition(r, cfg, n, 'dir')
        if directory_loop(r, cfg) and cfg.name == 'be': partition(r, cfg, 4, 'dir')

class Trial:
    def __init__(self): self.bad = False
    def ob(self, ok, *a):
        if not ok: self.bad = True
        return ok

def link_step(r, cfg, it, l, outer, c, pbs):
    """one step of the search, at the earlier tag c: it stores that tag's name exactly if offset and size are those of the entry being added"""
    h = l['head']
    o = order(cfg)
    bs = []
    for e in io_events(h.trace[len(outer['head'].trace):]): bs += data_bytes(it, cfg, ('io', e[3], 'data'), h.store.cval(e[4]).c)
    if len(bs) != 12: raise Unsupported('the entry searched for is not read in the turn that searches')
    off, size = o(bs[4:8]), o(bs[8:12])
    for b, (bc, bn, bo, bz, bl, br) in pbs:
        ph = it.root(h, profile_obj(cfg, it, l))
        hl = tag_tables(cfg, it, ph)[4]
        w = [x for x in bl[3] if x not in hl[3]] if bl != hl else []
        def same(z):
            x, y = word32(it, it.arr_get(z, bo, c)), word32(it, it.arr_get(z, bz, c))
            return it.decide(z, c_eq(x - off)) and it.decide(z, c_eq(y - size))
        for s, t in cases(it, b, same):
            r.ob(t == bool(w), 'search-match:%s' % ('missed' if t else 'invented'), 'one step of the search %s an earlier tag with %s offset and size' % ('skips' if t else 'links to', 'the same' if t else 'another'), OPEN)
        for x in w:
            for s, (g, e) in cases(it, b, lambda z: (opt_sig(cfg, it, z, x[2]), word32(it, it.arr_get(z, bn, c)))):
                r.ob(g is not None and eqv(s, g, e), 'search-value', 'the link stored is %s instead of %s' % (g, e), OPEN)

def link_elsewhere(r, cfg, it, st, a0, a1, idx):
    """a1[k] == a0[k] for an arbitrary k other than idx"""
    k = sym(('k',), 0, 99, 64)
    for d in (c_ge(idx - k - 1), c_ge(k - idx - 1)):
        s = st.clone()
        if not s.store.assume(d): continue
        for s2, (x, y) in cases(it, s, lambda z: (it.arr_get(z, a0, k), it.arr_get(z, a1, k))):
            r.ob(x == y, 'turn-links-before', 'a turn of the directory walk changes the link of another tag', OPEN)

def link_loops(r, cfg):
    """the search for links inside a turn, where it stores into the link table of the profile"""
    outs, loops = open_outcomes(r, cfg, {})
    it = r.it
    seen = 0; later = False
    walks = reading_loops(loops)
    for l in loops:
        if any(io_events(b.trace[len(l['head'].trace):]) for b in l['backs']): continue
        try: po = profile_obj(cfg, it, l)
        except Unsupported: continue
        ph = it.root(l['head'], po)
        hc, hn, ho, hz, hl, hr = tag_tables(cfg, it, ph)
        pbs = [(b, tag_tables(cfg, it, it.root(b, po))) for b in l['backs']]
        if all(t[4] == hl for b, t in pbs): continue
        if not any(inside(cfg, l, w) for w in walks):
            # links found after the walk: settled by the partition alone
            r.count('links stored after the walk [%s]' % cfg.name, 1); later = True
            continue
        seen += 1
        u = [c for c in l['cells'] if all(isinstance(it.leaf_at(it.root(b, c[2][0]), c[2][1]), Lin) and b.store.ent_eq(it.leaf_at(it.root(b, c[2][0]), c[2][1]) - c[0] - 1) for b, t in pbs)]
        for b, (bc, bn, bo, bz, bl, br) in pbs:
            r.ob((bc, bn, bo, bz) == (hc, hn, ho, hz), 'search-changes', 'searching for links changes the directory', OPEN)
            if bl == hl: continue
            w = [x for x in bl[3] if x not in hl[3]]
            if not r.ob(len(w) == 1 and w[0][0] == 'w', 'search-store', 'one step of the search stores %d links' % len(w), OPEN): continue
            idx, v = w[0][1], w[0][2]
            r.ob(b.store.ent_eq(idx - hc), 'search-index', 'a link is stored for tag %s while tag %s is being added' % (idx, hc), OPEN)
        # the search covers every earlier tag
        if u:
            outer = [w for w in walks if inside(cfg, l, w)]
            def covers(q, c, c0):
                q.ob(c0 == ZERO or (isinstance(c0, Lin) and l['entry'].store.ent_eq(c0)), 'search-first', 'the search for links starts at tag %s' % (c0,), OPEN)
                for e in l['exits']:
                    q.ob(e.store.ent_eq(c - hc), 'search-end', 'the search for links ends at tag %s of %s' % (c, hc), OPEN)
                for w in outer[:1]: link_step(q, cfg, it, l, w, c, pbs)
            # several counters may go up together: one of them is the tag compared
            best = u[0]
            if len(u) > 1:
                for x in u:
                    t = Trial(); covers(t, x[0], x[1])
                    if not t.bad: best = x; break
            covers(r, best[0], best[1])
        # and what it stored is what the turn leaves behind
        for w in walks:
            if not inside(cfg, l, w): continue
            found = [tag_tables(cfg, it, it.root(e, po))[4] for e in l['exits']]
            links = lambda s: tag_tables(cfg, it, it.root(s, po))
            wl = links(w['head'])[4]
            for b in w['backs']:
                bl = links(b)[4]
                r.ob(bl == wl or bl in found, 'turn-links', 'a turn of the directory walk changes links after or besides the search for them', OPEN)
            el = links(l['entry'])[4]
            if el != wl: link_elsewhere(r, cfg, it, l['entry'], wl, el, links(l['entry'])[0])
    if later and cfg.name == 'be': partition(r, cfg, 4, 'link')
    return seen

def lookup_cases(r, cfg, n, pattern):
    """a profile listing n tags with arbitrary signatures and the given links (pattern[i]: index of the linked entry, or None)"""
    pt = cfg.ty('Profile')
    it = Interp(cfg.p, Models())
    po = ('o', ('arg', 0), pt)
    st = State()
    pv = it.root(st, po)
    fs = [it.field(pv, j) for j in range(len(cfg.fnames(pt)))]
    ft = lambda f: cfg.T[pt]['variants'][0]['f'][cfg.fno(pt, f)]['t']
    sg = cfg.ty('Signature')
    names = [it.opq(cfg.ty('u32'), ('tag', j)) for j in range(n)]
    mk_sig = lambda w: ('agg', (w,))
    ot = cfg.T[ft('tag_linked')]['elem']
    none, some = cfg.vno(ot, 'None'), cfg.vno(ot, 'Some')
    fs[cfg.fno(pt, 'tag_count')] = K(n)
    fs[cfg.fno(pt, 'tag_names')] = ('arr', K(100), ('list', tuple([mk_sig(w) for w in names] + [mk_sig(K(SPACES))] * (100 - n))), ())
    fs[cfg.fno(pt, 'tag_linked')] = ('arr', K(100), ('list', tuple([('enum', ot, none, ()) if pattern[j] is None else ('enum', ot, some, (mk_sig(names[pattern[j]]),)) for j in range(n)] + [('enum', ot, none, ())] * (100 - n))), ())
    st.mem[po] = ('agg', tuple(fs))
    return st, names

def patterns(n):
    out = [()]
    for i in range(n): out = [p + (j,) for p in out for j in [None] + list(range(i))]
    return out

def check_lookup(r):
    """a lookup finds the first tag of that name, follows links to a tag that has none, and always ends"""
    cfg = r.be
    n = 0
    for key, follow in (('Profile::search_one_tag', None), ('Profile::search_tag', True), ('Profile::search_tag', False)):
        fs = cfg.fns(key)
        if len(fs) != 1: continue           # not part of the interface
        i = fs[0]
        if i['body']['argc'] != (2 if follow is None else 3): continue
        for k in range(0, 4 if r.tier == 'quick' else 5):
            for pat in patterns(k) if follow is not None else [(None,) * k]:
                st, names = lookup_cases(r, cfg, k, pat)
                it0 = Interp(cfg.p, Models())
                a0 = it0.opq(i['body']['locals'][1], ('arg', 0))
                sig = it0.opq(cfg.ty('u32'), ('wanted',))
                args = [a0, ('agg', (sig,))] + ([] if follow is None else [follow])
                outs = r.analyse(cfg, i, args, st, unroll=140, width=400, exits=4000, undecided=400)
                it = r.it
                if it.loops: raise Unsupported('the lookup among %d tags is not bounded' % k)
                n += len(outs)
                for x in outs:
                    def want(s):
                        cur = sig
                        for hop in range(k + 1):
                            at = None
                            for j in range(k):
                                if it.decide(s, c_eq(names[j] - cur)): at = j; break
                            if at is None or not follow or pat[at] is None: return at
                            cur = names[pat[at]]
                        raise Unsupported('links form a cycle')
                    for s, w in cases(it, x.state, want):
                        for s2, g in cases(it, s, lambda z: None if cfg.T[x.value[1]]['variants'][it.variant_of(z, x.value)]['n'] == 'None' else it.enum_fields(z, x.value, it.variant_of(z, x.value))[0]):
                            r.ob((g is None and w is None) or (g is not None and w is not None and eqv(s2, g, K(w))), 'lookup:%s%s' % (key, '' if follow is None else ':links' if follow else ':plain'),
                                 'looking a tag up among %d tags finds %s instead of %s' % (k, g, w), key)
    r.count('lookup paths', n)

def lookup_any(r, cfg):
    """lookups in a table of any size: the loop that compares names visits them in order from the first and stops at the first match;
    a lookup fails only after all of them; a found tag is handed on only if it has no link or links are not followed"""
    pt = cfg.ty('Profile')
    n = 0
    for key, follow in (('Profile::search_one_tag', None), ('Profile::search_tag', True), ('Profile::search_tag', False)):
        fs = cfg.fns(key)
        if len(fs) != 1 or fs[0]['body']['argc'] != (2 if follow is None else 3): continue
        i = fs[0]
        it = Interp(cfg.p, Models())
        po = ('o', ('arg', 0), pt)
        st = State()
        pv = it.root(st, po)
        cnt = it.field(pv, cfg.fno(pt, 'tag_count'))
        names, links = it.field(pv, cfg.fno(pt, 'tag_names')), it.field(pv, cfg.fno(pt, 'tag_linked'))
        st.store.assume(c_ge(K(100) - cnt))
        sig = it.opq(cfg.ty('u32'), ('wanted',))
        args = [it.opq(i['body']['locals'][1], ('arg', 0)), ('agg', (sig,))] + ([] if follow is None else [follow])
        # (panics and termination are C01's; what cannot be summarised for any size is settled by the partition alone)
        it = Interp(cfg.p, Models(), dict(maxsteps=1500000, exits=4000))
        try: outs = it.run_fn(i['id'], args, st)
        except Unsupported: continue
        if any(x.kind == 'unsupported' for x in outs): continue
        outs = [x for x in outs if x.kind not in ('panic', 'unsupported')]
        name = lambda z, k: word32(it, it.arr_get(z, names, k))
        link = lambda z, k: opt_sig(cfg, it, z, it.arr_get(z, links, k))
        def alias(z, k):
            """k may be known under several counters"""
            return [k] + [c for l in it.loops for c, c0, p in l['cells'] if c != k and z.store.ent_eq(c - k)]
        def named(z, k, w):
            if any(z.store.ent_eq(name(z, c) - w) for c in alias(z, k)): return True
            return it.decide(z, c_eq(name(z, k) - w))
        if not it.loops:
            # a fixed number of comparisons: they must be all there are
            r.count('lookups of a fixed number of turns', 1)
            for x in outs:
                for s, none in cases(it, x.state, lambda z: cfg.T[x.value[1]]['variants'][it.variant_of(z, x.value)]['n'] == 'None'):
                    if not none: continue
                    k = 0
                    while k < 100 and not s.store.ent_ge(K(k) - cnt) and s.store.eval(c_eq(name(s, K(k)) - sig)) is False: k += 1
                    n += 1
                    r.ob(s.store.ent_ge(K(k) - cnt), 'any:gives-up:' + key, 'a lookup fails after %d names have been compared, however many there are' % k, key)
            continue
        # the loops that compare names: a counter from 0, one further per turn
        comparing = []; wanted = [sig]; turning = []
        def sig_at(s, obj, sel):
            try: v = word32(it, it.leaf_at(it.root(s, obj), sel))
            except Exception: return None
            return v if isinstance(v, Lin) else None
        for l in it.loops:
            for obj, sels in l['changed'].items():
                for sel in sels:
                    v = sig_at(l['head'], obj, sel)
                    a = v.single() if v is not None else None
                    if a is not None and a.hi == (1 << 32) - 1 and a.lo == 0: wanted.append(v); turning.append((l, v, obj, sel))
        for l in it.loops:
            for c, c0, (obj, sel) in l['cells']:
                if not all(isinstance(it.leaf_at(it.root(b, obj), sel), Lin) and b.store.ent_eq(it.leaf_at(it.root(b, obj), sel) - c - 1) for b in l['backs']): continue
                if not (isinstance(c0, Lin) and l['entry'].store.ent_eq(c0)): continue
                def target(z):
                    for w in wanted:
                        if z.store.ent_eq(name(z, c) - w): return w
                    return None
                hits = [w for e in l['exits'] if e.store.ent_ge(cnt - c - 1) for s, w in cases(it, e, target) if w is not None]
                if not hits: continue
                w = hits[-1]
                comparing.append((l, c, w))
                for b in l['backs']:
                    n += 1
                    for s, t in cases(it, b, lambda z: it.decide(z, c_eq(name(z, c) - w))):
                        r.ob(not t, 'any:passes-over:' + key, 'the search for a tag passes over one with the wanted name', key)
                break
        # other loops must go from name to name and keep nothing else
        if any(not any(l is m for m, c, w in comparing) and not any(l is m for m, v, o, q in turning) for l in it.loops): continue
        if not comparing: continue
        r.count('lookups summarised for tables of any size', 1)
        for x in outs:
            for s, g in cases(it, x.state, lambda z: None if cfg.T[x.value[1]]['variants'][it.variant_of(z, x.value)]['n'] == 'None' else it.enum_fields(z, x.value, it.variant_of(z, x.value))[0]):
                n += 1
                mine = [c for l, c, w in comparing if s.store.ent_eq(cnt - c) or s.store.ent_eq(cnt - c - 1) and all(not t for z, t in cases(it, s, lambda z: it.decide(z, c_eq(name(z, c) - w))))]
                if g is None:
                    r.ob(bool(mine) or s.store.ent_eq(cnt), 'any:gives-up:' + key, 'a lookup fails before every name has been compared', key)
                    continue
                r.ob(any(s.store.ent_eq(g - c) for l, c, w in comparing), 'any:found:' + key, 'a lookup finds tag %s' % (g,), key)
                r.ob(s.store.ent_ge(cnt - g - 1), 'any:bound:' + key, 'a lookup finds a tag beyond the last', key)
                for s2, k in cases(it, s, lambda z: (link(z, g) if follow else None, follow or named(z, g, sig))):
                    if follow: r.ob(k[0] is None, 'any:linked:' + key, 'a lookup that follows links ends at a tag that is a link', key)
                    else: r.ob(k[1], 'any:name:' + key, 'a lookup finds a tag of another name', key)
        # following a link: the next name wanted is the one the found tag is linked to
        for l, c, obj, sel in turning:
                if not any(c == w for m, k, w in comparing): continue
                c0 = sig_at(l['entry'], obj, sel)
                r.ob(c0 is not None and l['entry'].store.ent_eq(c0 - sig), 'any:first:' + key, 'a lookup begins with another name than the wanted one', key)
                for b in l['backs']:
                    nx = sig_at(b, obj, sel)
                    at = [k for m, k, w in comparing if w == c and b.store.ent_ge(cnt - k - 1)]
                    n += 1
                    ok = False
                    for k in [y for k in at for y in alias(b, k)]:
                        ok = ok or all(nx is not None and g is not None and eqv(s, g, nx) and e for s, (g, e) in cases(it, b, lambda z: (link(z, k), named(z, k, c))))
                    r.ob(ok, 'any:follows:' + key, 'a lookup goes on with a name that is not the link of the tag found', key)
    r.count('lookup obligations in tables of any size', n)

@prop('C07')
def c07(r):
    r.rule('partition by the number of announced tags: each listed tag is linked exactly to the last earlier tag with the same offset and size')
    r.rule('loop transfer of the link search: it visits every earlier tag and stores only for the tag being added')
    r.rule('partition of lookups by table size and link pattern: a lookup finds the first tag of the name, follows links to an unlinked tag and ends')
    r.assume += ['the stream delivers the bytes of the file in order (C12, C13)']
    seen = 0
    for cfg in r.cfgs():
        for n in range(0, (4 if cfg.name == 'be' else 3) if r.tier == 'quick' else (5 if cfg.name == 'be' else 4)): partition(r, cfg, n, 'link')
        seen += link_loops(r, cfg)
    r.count('link searches summarised', seen)
    check_lookup(r)
    lookup_any(r, r.be)

# ---------------------------------------------------------------- C08
@prop('C08')
def c08(r):
    r.rule('total indexing: the signature query returns names[n] exactly when n < count and the default signature otherwise; count and handler queries return the stored values')
    cfg = r.be
    pt = cfg.ty('Profile')
    for key in ('Profile::get_tag_signature', 'Profile::get_tag_count'):
        i = cfg.fn(key)
        it = Interp(cfg.p, Models())
        po = ('o', ('arg', 0), pt)
        st = State()
        pv = it.root(st, po)
        cnt = it.field(pv, cfg.fno(pt, 'tag_count'))
        st.store.assume(c_ge(K(100) - cnt))
        args = [it.opq(t, ('arg', n)) for n, t in enumerate(i['body']['locals'][1:1 + i['body']['argc']])]
        outs = r.analyse(cfg, i, args, st)
        it = r.it
        r.ob(len(outs) > 0, 'dead:' + key, key + ' never returns', key)
        for x in outs:
            r.ob(it.root(x.state, po) == pv, 'mutates:' + key, 'a query changes the profile', key)
            if key.endswith('count'):
                r.ob(eqv(x.state, x.value, cnt), 'count', 'the tag count reported is %s' % (x.value,), key); continue
            n = args[1]
            names = it.field(pv, cfg.fno(pt, 'tag_names'))
            def want(s):
                if it.decide(s, c_ge(cnt - n - 1)): return word32(it, it.arr_get(s, names, n))
                return K(SPACES)
            for s, w in cases(it, x.state, want):
                g = word32(it, x.value)
                r.ob(isinstance(g, Lin) and eqv(s, g, w), 'signature:' + ('listed' if w != K(SPACES) else 'outside'), 'asking for tag n %s gives %s instead of %s' % ('< count' if w != K(SPACES) else '>= count', g, w), key)
    i = cfg.fn('Profile::get_io_handler')
    outs = r.analyse(cfg, i)
    it = r.it
    io = it.field(it.root(State(), ('o', ('arg', 0), pt)), cfg.fno(pt, 'io'))
    for x in outs:
        for s, (a, b) in cases(it, x.state, lambda s: (cfg.T[x.value[1]]['variants'][it.variant_of(s, x.value)]['n'], cfg.T[io[1]]['variants'][it.variant_of(s, io)]['n'])):
            r.ob(a == b, 'handler', 'the stream query answers %s for a profile with %s' % (a, b), 'Profile::get_io_handler')

# ---------------------------------------------------------------- C10
def signals(o): return [e for e in o.state.trace if e[0] == 'callfn']

def err_kind(cfg, v):
    """kind of an error made here, None if it is another operation's error"""
    e = v[3][0]
    if e[0] == 'opq' and isinstance(e[2], tuple) and e[2][0] == 'ioerr': return e[2][1]
    return None

@prop('C10')
def c10(r):
    r.rule('rejection paths: an InvalidData error is returned, after exactly one call of the context\'s error handler with the right code, on exactly the paths whose facts say the magic number is wrong or the announced tag count exceeds 100; success implies neither and no call')
    r.assume += ['the stream delivers the bytes of the file in order (C12, C13)']
    for cfg in r.cfgs():
        o = order(cfg)
        outs, loops = open_outcomes(r, cfg, {})
        it = r.it
        ec = cfg.ty('ErrorCode')
        magic = o(F(it, cfg, 36, 4)); cnt = o(F(it, cfg, 128, 4))
        seen = {}
        for x in outs:
            if 'Read' not in modes(r, cfg, it, x): continue
            sg = signals(x)
            st = x.state
            if is_ok(cfg, x.value):
                seen['ok'] = 1
                r.ob(st.store.ent_eq(magic - MAGIC), 'magic:' + cfg.name, 'a file without the profile signature is accepted', OPEN)
                r.ob(st.store.ent_ge(K(100) - cnt), 'count:' + cfg.name, 'a file announcing more than 100 tags is accepted', OPEN)
                r.ob(not sg, 'signal-ok', 'an accepted file signals an error', OPEN)
                continue
            k = err_kind(cfg, x.value)
            if k is None:
                r.ob(not sg, 'signal-io', 'an I/O error of opening is also signalled', OPEN)
                continue
            r.ob(k == 'InvalidData', 'kind:' + k, 'a malformed profile is reported as %s' % k, OPEN)
            wrong = st.store.ent_ne(magic - MAGIC)
            many = st.store.ent_eq(magic - MAGIC) and st.store.ent_ge(cnt - 101)
            if not r.ob(wrong or many, 'reject:' + cfg.name, 'a well-formed profile is rejected', OPEN): continue
            seen['magic' if wrong else 'many'] = 1
            code = 'BadSignature' if wrong else 'Range'
            if not r.ob(len(sg) == 1, 'signal:%s' % code, 'rejecting a profile signals %d errors instead of one' % len(sg), OPEN): continue
            fv, args = sg[0][1], sg[0][2]
            c = [a for a in args if isinstance(a, tuple) and a[0] == 'enum' and a[1] == ec]
            got = cfg.T[ec]['variants'][c[0][2]]['n'] if c else None
            r.ob(got == code, 'code:%s' % code, 'the error signalled is %s instead of %s' % (got, code), OPEN)
            r.ob(in_key(fv, ('arg', 0)), 'handler', 'the error handler called is not that of the context given', OPEN)
            # nothing is signalled to another context
            r.ob(args[0][0] == 'ptr' and args[0][1][:2] == ('o', ('arg', 0)), 'context', 'the error is signalled to another context', OPEN)
        for k in ('ok', 'magic', 'many'): r.ob(k in seen, 'dead:%s:%s' % (k, cfg.name), 'no path of opening for the case ' + k, OPEN)
        r.count('paths of opening [%s]' % cfg.name, len(outs))

def in_key(k, part):
    if k == part: return True
    return isinstance(k, tuple) and any(in_key(x, part) for x in k)

def mentions(v, part):
    if isinstance(v, Lin): return any(in_key(a.args, part) for a, _ in v.t)
    if v == part: return True
    return isinstance(v, tuple) and any(mentions(x, part) for x in v)

# ---------------------------------------------------------------- C11
@prop('C11')
def c11(r):
    r.rule('open-call contract per access mode: reading opens the given path read-only and existing; writing creates or truncates it, returns a fresh empty profile marked as written without reading anything; the profile\'s stream is the file opened')
    cfg = r.be
    outs, loops = open_outcomes(r, cfg)
    it = r.it
    pt = cfg.ty('Profile')
    seen = set()
    for x in outs:
        for m in modes(r, cfg, it, x):
            ev = [e for e in x.state.trace if e[0] == 'open']
            if not r.ob(len(ev) == 1, 'opens:' + m, 'opening a profile opens %d files' % len(ev), OPEN): continue
            d = dict(ev[0][2])
            r.ob(mentions(ev[0][3], ('arg', 1)), 'path:' + m, 'the file opened is not the one named', OPEN)
            want = dict(read=True, write=False, append=False, truncate=False, create=False, create_new=False) if m == 'Read' else dict(write=True, append=False, truncate=True, create=True, create_new=False)
            for k, v in want.items():
                r.ob(d.get(k) is v, 'flags:%s:%s' % (m, k), 'for mode %s the file is opened with %s = %s' % (m, k, d.get(k)), OPEN)
            others = [e for e in x.state.trace if e[0] in OPS and e[0] not in ('open', 'io')]
            r.ob(not others, 'foreign:' + m, 'opening a profile also performs %s' % [op_desc(e) for e in others], OPEN)
            r.ob(not any(e[1] == 'write' for e in io_events(x.state.trace)), 'writes:' + m, 'opening a profile writes to the file', OPEN)
            if m != 'Read':
                r.ob(not io_events(x.state.trace), 'touches', 'a file just created is read from or moved in', OPEN)
                r.ob(not signals(x), 'signals', 'creating a profile signals an error', OPEN)
                r.ob(is_ok(cfg, x.value) or op_ok(x.state, ev[0]) is False, 'refused', 'creating a profile fails although the file was created', OPEN)
            if is_ok(cfg, x.value):
                seen.add(m)
                p = the_profile(cfg, it, x)
                g = lambda f: it.field(p, cfg.fno(pt, f))
                r.ob(g('is_write') is (m != 'Read'), 'is_write:' + m, 'for mode %s the profile is marked is_write = %s' % (m, g('is_write')), OPEN)
                io = g('io')
                some = io[0] == 'enum' and cfg.T[io[1]]['variants'][io[2]]['n'] == 'Some'
                if r.ob(some, 'stream:' + m, 'the opened profile has no stream', OPEN):
                    q = it.as_ptr(x.state, io[3][0])
                    v = it.load(x.state, q[1], q[2])
                    r.ob(in_key(canon(v), ('open', ev[0][1])), 'stream-file:' + m, 'the profile\'s stream is not the file opened', OPEN)
                if m != 'Read': check_fresh(r, cfg, it, x.state, p, OPEN, ('io', 'is_write'))
    for m in ('Read', 'Write'): r.ob(m in seen, 'dead:' + m, 'opening in mode %s never succeeds' % m, OPEN)

def canon(v):
    return v[2] if isinstance(v, tuple) and v and v[0] == 'opq' else v

def is_now(k):
    """is it the present time, as the clock gave it?"""
    if isinstance(k, tuple) and len(k) == 2 and k[0] == 'now': return True
    if isinstance(k, tuple) and k and k[0] == 'app':
        return bool(re.search(r'::(from|into|naive_utc|with_timezone|to_utc)$', k[1])) and any(is_now(canon(x)) for x in k[2])
    return isinstance(k, tuple) and len(k) == 2 and is_now(k[0])

def check_fresh(r, cfg, it, st, p, fn, skip=()):
    """every field of a profile that was just made"""
    pt = cfg.ty('Profile')
    names = cfg.fnames(pt)
    nums = dict(version=0x02100000, device_class=SPACES, color_space=SPACES, pcs=SPACES, rendering_intent=0, flags=0, manufacturer=0, model=0, attributes=0, creator=0, tag_count=0)
    for j, f in enumerate(names):
        if f in skip: continue
        v = it.field(p, j)
        if f == 'created':
            r.ob(is_now(canon(v)), 'fresh:created', 'the creation time of a new profile is %s, not the present' % (v,), fn); continue
        if f in nums:
            r.ob(word32(it, v) == K(nums[f]), 'fresh:' + f, 'a new profile has %s = %s' % (f, v), fn)
        elif f == 'profile_id':
            b = union_bytes(cfg, it, st, v, cfg.T[pt]['variants'][0]['f'][j]['t'])
            r.ob(all(eqv(st, x, ZERO) for x in b), 'fresh:profile_id', 'a new profile has the id %s' % (b,), fn)
        elif f in ('tag_names', 'tag_sizes', 'tag_offsets', 'tag_linked', 'tag_save_as_raw'):
            k = sym(('k',), 0, 99, 64)
            e = it.arr_get(st, v, k)
            if f == 'tag_names': ok = word32(it, e) == K(SPACES)
            elif f in ('tag_sizes', 'tag_offsets'): ok = e == ZERO
            elif f == 'tag_linked': ok = e[0] == 'enum' and cfg.T[e[1]]['variants'][e[2]]['n'] == 'None'
            else: ok = e is False
            r.ob(ok, 'fresh:' + f, 'a new profile has %s[k] = %s' % (f, e), fn)
            r.ob(v[1] == K(100), 'fresh-size:' + f, 'the table %s has %s entries' % (f, v[1]), fn)
        elif f == 'is_write': r.ob(v is False, 'fresh:is_write', 'a new profile is marked as being written', fn)
        elif f == 'io': r.ob(v[0] == 'enum' and cfg.T[v[1]]['variants'][v[2]]['n'] == 'None', 'fresh:io', 'a new profile has a stream', fn)
        else: r.ob(False, 'fresh-unknown:' + f, 'no rule for the profile field %s' % f, fn)

# ---------------------------------------------------------------- C31
MOST = 128 + 4 + 100 * 12
@prop('C31')
def c31(r):
    r.rule('bounds: on every path of opening, every loop that is not unrolled has a measure that is at most 100 on entry; every request for memory is for at most 4096 elements, whatever the stream delivers; what is read outside the directory walk adds up to at most 132 bytes and one turn of it reads at most 12')
    r.assume += ['text the caller gives (the name of the file) is not the file\'s claim', 'streams read no more than they are asked for']
    n = na = nl = 0
    for cfg in r.cfgs():
        outs, loops = open_outcomes(r, cfg, None, turns=True, alloc=4096)
        it = r.it
        for path, chain, what in it.big:
            r.ob(False, 'alloc:%s:%s' % (sfn(chain[-1]), sfn(path)), 'memory for %s elements is asked for, which nothing bounds' % what, sfn(chain[-1]), None, chain)
        na += it.nalloc
        r.obl += it.nalloc; r.done += it.nalloc - len(it.big)
        for l in loops:
            nl += 1
            r.ob(any(isinstance(x, Lin) and l['entry'].store.ent_ge(K(100) - x) for x in l['turns']) or not l['backs'], 'turns:%s' % sfn(l['path']), 'nothing bounds the number of turns of a loop of %s by 100' % sfn(l['path']), sfn(l['path']))
            for b in l['backs']:
                ev = [e for e in io_events(b.trace[len(l['head'].trace):]) if e[1] == 'read']
                tot = sum((e[4] for e in ev), ZERO)
                r.ob(b.store.ent_ge(K(12) - tot), 'turn', 'one turn of the directory walk reads %s bytes' % tot, sfn(l['path']))
        for o in outs:
            n += 1
            ev = [e for e in io_events(o.state.trace) if e[1] == 'read']
            tot = sum((e[4] for e in ev), ZERO)
            r.ob(isinstance(tot, Lin) and o.state.store.ent_ge(K(132 + 12) - tot), 'total', 'opening reads %s bytes besides the directory' % tot, OPEN)
        r.sample('%s: %d paths, %d loops bounded by 100 turns, %d requests for memory' % (cfg.name, len(outs), len(loops), it.nalloc))
    r.floor('paths of opening', n, 20)
    r.floor('bounded loops', nl, 2)
