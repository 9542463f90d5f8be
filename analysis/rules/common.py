"""Helpers shared by the rule sets."""
from vp import *

def payload(v):
    """(variant number, fields) of an enum value"""
    return v[2], v[3]

def variant(cfg, it, st, v):
    if v[0] == 'enum': return cfg.T[v[1]]['variants'][v[2]]['n']
    return None

def cases(it, st, f, limit=400):
    """runs f on st, splitting the state wherever f needs to know something: [(state, value)]"""
    todo = [st.clone()]; out = []; n = 0
    while todo:
        s = todo.pop(); n += 1
        if n > limit: raise Unsupported('too many cases')
        s0 = s.clone()
        try: out.append((s, f(s)))
        except NeedSplit as e: todo += it.split(s0, e.cond)
        except (Dead, Infeasible): pass
    return out

def io_events(tr): return [e for e in tr if e[0] == 'io']

OPS = ('io', 'fread', 'fread_exact', 'fseek', 'ftell', 'fwrite', 'fwrite_all', 'open', 'fs')
def op_key(e):
    """(key of the outcome fact, key of the error value) of a fallible operation's event"""
    k = e[0]
    if k == 'io': return ('io', e[3])
    if k == 'fs': return ('fs', e[1], e[3])
    if k == 'open': return ('open', e[1])
    if k in ('fread', 'fread_exact'): return (k, e[5])
    if k == 'ftell': return (k, e[2])
    if k == 'fseek': return (k, e[4])
    if k in ('fwrite', 'fwrite_all'): return (k, e[3])
    return None

def op_ok(st, e):
    k = op_key(e)
    return None if k is None else st.store.bools.get(('ok', k))

def op_desc(e):
    if e[0] == 'io': return 'handler.' + e[1]
    if e[0] == 'fs': return short(e[1])
    return {'fread': 'File::read', 'fread_exact': 'File::read_exact', 'fseek': 'File::seek', 'ftell': 'File::stream_position', 'fwrite': 'File::write', 'fwrite_all': 'File::write_all', 'open': 'File open'}.get(e[0], e[0])

def err_keys(v):
    """all value-number keys occurring in an error value"""
    out = set()
    def walk(x, d=0):
        if d > 6 or not isinstance(x, tuple) or not x: return
        if x[0] == 'opq': out.add(x[2])
        elif x[0] == 'enum':
            for y in x[3]: walk(y, d + 1)
        elif x[0] == 'agg':
            for y in x[1]: walk(y, d + 1)
    walk(v)
    return out

def data_bytes(it, cfg, key, n):
    u8 = cfg.ty('u8')
    return [it.opq(u8, (key, '[]', K(j))) for j in range(n)]

def read_bytes(r, cfg, it, o):
    """the bytes all successful handler reads of the path delivered, in order"""
    out = []
    for e in io_events(o.state.trace):
        if e[1] == 'read' and op_ok(o.state, e):
            n = o.state.store.cval(e[4])
            if not n.is_const(): raise Unsupported('read of unknown length')
            out += data_bytes(it, cfg, ('io', e[3], 'data'), n.c)
    return out

def written_bytes(cfg, it, o):
    out = []
    for e in io_events(o.state.trace):
        if e[1] == 'write' and op_ok(o.state, e):
            l = it.arr_list(o.state, e[4])
            if l is None: raise Unsupported('write of unknown length')
            out += l
    return out

def be(bs): return word(list(bs)[::-1])
def le(bs): return word(list(bs))
def order(cfg): return be if cfg.name == 'be' else le

def eqv(st, a, b):
    """are two abstract scalar values equal under the path's facts"""
    if a == b: return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        if st.store.ent_eq(a - b): return True
        x, y = a.single(), b.single()
        # the same array at equal indices
        return (x is not None and y is not None and x.kind == y.kind == 'sym' and isinstance(x.args, tuple) and isinstance(y.args, tuple) and len(x.args) == len(y.args) == 3
                and x.args[:2] == y.args[:2] and x.args[1] == '[]' and st.store.ent_eq(x.args[2] - y.args[2]))
    if isinstance(a, Poly) and isinstance(b, Poly):
        d = a - b
        if d == PZERO: return True
        l = poly_as_lin(d)
        if l is not None: return st.store.ent_eq(l[0])
        return st.store.fsigns(d.scale(1 / d.t[0][1])) == ZER
    return False

def cond_of(v): return v is True or v is False or (isinstance(v, tuple) and v and v[0] in ('ge', 'eq', 'ne', 'f', 'b', 'nb', 'and', 'or'))

def all_eq(st, xs, ys): return len(xs) == len(ys) and all(eqv(st, a, b) for a, b in zip(xs, ys))

def error_discipline(r, fn, outs, loops, what='I/O'):
    """every failed operation of a path surfaces as that path's error; nothing else is reported as one"""
    n = 0
    for o in outs:
        ev = [e for e in o.state.trace if e[0] in OPS]
        failed = [e for e in ev if op_ok(o.state, e) is False]
        v = o.value
        isres = isinstance(v, tuple) and v and v[0] == 'enum' and 'std::result::Result' in r.curcfg.T[v[1]]['s']
        for e in failed:
            n += 1
            if not isres:
                r.ob(False, 'swallowed:%s:%s' % (fn, op_desc(e)), 'the error of %s does not reach the caller' % op_desc(e), fn); continue
            nm = r.curcfg.T[v[1]]['variants'][v[2]]['n']
            ks = set(); ks |= err_keys(v[3][0]) if nm == 'Err' else set()
            mine = [(op_key(f), 'err') for f in failed]
            ok = nm == 'Err' and any(k in ks for k in mine)
            r.ob(ok, 'swallowed:%s:%s' % (fn, op_desc(e)),
                 'the error of %s is %s' % (op_desc(e), 'dropped: the function returns Ok' if nm != 'Err' else 'replaced by another error'), fn)
        # an operation whose outcome is never looked at
        for e in ev:
            if op_ok(o.state, e) is None and op_key(e) is not None:
                r.ob(False, 'unchecked:%s:%s' % (fn, op_desc(e)), 'the outcome of %s is never examined on a path' % op_desc(e), fn)
    for l in loops:
        for b in l['backs']:
            for e in b.trace[len(l['head'].trace):]:
                if e[0] in OPS and op_ok(b, e) is False:
                    n += 1
                    r.ob(False, 'swallowed-loop:%s:%s' % (fn, op_desc(e)), 'the error of %s is dropped and the loop goes on' % op_desc(e), fn)
                elif e[0] in OPS: n += 1; r.ob(True, '', '')
    return n
