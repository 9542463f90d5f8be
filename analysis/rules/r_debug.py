"""Debug output: what every formatting implementation of the library hands to the formatter."""
from . import prop
from .common import *

def is_fn(cfg, t, d=0):
    """function pointers, closures and boxed callables: printed as a placeholder"""
    x = cfg.T[t]
    if x['k'] in ('fnptr', 'fndef', 'closure'): return True
    if x['k'] == 'dyn': return 'Fn' in x['s'].split('(')[0]
    if d > 6: return False
    if x['k'] in ('ref', 'rawptr'): return is_fn(cfg, x['to'], d + 1)
    if x['k'] == 'adt' and x.get('box'): return any(isinstance(a, int) and is_fn(cfg, a, d + 1) for a in x['targs'])
    if x['k'] == 'adt' and x['path'] == 'std::option::Option': return any(isinstance(a, int) and is_fn(cfg, a, d + 1) for a in x['targs'])
    # a closed set of callables only
    if x['k'] == 'adt' and x['kind'] == 'enum' and x.get('local'): 
        fs = [f['t'] for v in x['variants'] for f in v['f']]
        return bool(fs) and all(is_fn(cfg, f, d + 1) for f in fs)
    return False

def text(i):
    if isinstance(i, tuple) and i and i[0] == 'text':
        try: return i[1].decode('utf8')
        except UnicodeDecodeError: return None
    return None

def pieces(ev):
    """(headers, [(label or None, item)], free texts) handed to the formatter on a path"""
    heads = []; parts = []; free = []; open_ = 0; closed = 0
    for e in ev:
        n = e[1].split('::')[-1]; a = e[2]
        if n.endswith('_finish') and n.startswith('debug_struct_field'):
            w = (text(a[1]) or '').split(' ')
            heads.append(w[0])
            vs = list(a[2][1]) if n == 'debug_struct_fields_finish' and isinstance(a[2], tuple) and a[2][0] == 'list' else list(a[2:])
            parts += list(zip(w[1:], vs))
            if len(w) - 1 != len(vs): parts.append((None, None))
        elif n.endswith('_finish') and n.startswith('debug_tuple_field'):
            heads.append(text(a[1]))
            vs = list(a[2][1]) if n == 'debug_tuple_fields_finish' and isinstance(a[2], tuple) and a[2][0] == 'list' else list(a[2:])
            parts += [(None, v) for v in vs]
        elif n == 'debug_c_like_enum_write_str':
            names, at = text(a[1]), a[2]
            at = at.c if isinstance(at, Lin) and at.is_const() else at
            heads.append(names[at:].split(' ')[0] if names is not None and isinstance(at, int) else None)
        elif n in ('debug_struct', 'debug_tuple'): heads.append(text(a[1])); open_ += 1
        elif n == 'field': parts.append((text(a[1]), a[2]) if 'DebugStruct' in e[1] else (None, a[1]))
        elif n in ('finish', 'finish_non_exhaustive'): closed += 1
        elif n in ('write_str', 'pad', 'write_fmt', 'fmt'): free += list(a)
    return heads, parts, free, open_ == closed

def leaves(v, out, d=0):
    """numbers and values that occur in what was handed over, in order"""
    if d > 60: return
    if isinstance(v, Lin): out.append(v); return
    if isinstance(v, tuple):
        for x in v: leaves(x, out, d + 1)
    elif isinstance(v, list):
        for x in v: leaves(x, out, d + 1)

def texts(v, out, d=0):
    if d > 60 or not isinstance(v, tuple) or isinstance(v, Lin): return
    if len(v) == 2 and v[0] == 'text' and isinstance(v[1], bytes): out.append(v[1]); return
    for x in v: texts(x, out, d + 1)

def refers(it, st, item, path, own):
    """the item is a reference to (or a copy of) the part of the argument at path"""
    n = 0
    while isinstance(item, tuple) and item and item[0] == 'ref' and n < 6:
        if item[1][0] == 'o' and item[1][1] == ('arg', 0) and item[2][:len(path)] == path: return True
        if own is not None and item[3] == own: return True
        item = item[3]; n += 1
    return own is not None and item == own

def raw_bytes(cfg, it, st, a0, ty):
    """the bytes of a value that has no named parts"""
    x = cfg.T[ty]
    p = it.as_ptr(st, a0)
    v = it.load(st, p[1], p[2])
    if x['kind'] == 'union':
        for j, f in enumerate(x['variants'][0]['f']):
            t = cfg.T[f['t']]
            if t['k'] == 'array' and cfg.T[t['elem']]['k'] == 'int' and cfg.T[t['elem']]['bits'] == 8: return it.arr_list(st, it.field(v, j)), None
        return None, None
    w = it.field(v, 0)
    return (to_bytes(w, 4)[::-1], w) if isinstance(w, Lin) else (None, None)

@prop('C28')
def debug_output(r):
    r.rule('every implementation of Debug in the library, over all values: no path panics; the header handed to the formatter is the name of the type (or of the variant the path is for); every label names a field and is given that very field (or, for functions, a fixed text); every data field is handed over exactly once')
    r.rule('signatures and profile ids, which have no named parts: the bytes of the value reach the formatter each once, most significant (first) byte first, as text only when they are valid text')
    r.assume += ['the standard library prints what it is handed (derived implementations, DebugStruct, DebugTuple, integers)', 'formatters that cannot be written to return their error']
    n = 0; seen = set()
    for cfg in r.cfgs():
        for i in cfg.p.d['insts']:
            if not i['local'] or i.get('trait') is None and '::fmt' not in i['path']: continue
            if not i['path'].endswith('as std::fmt::Debug>::fmt') or not i.get('body'): continue
            ty = cfg.T[i['body']['locals'][1]]['to']
            x = cfg.T[ty]
            fn = sfn(i['path'])
            if x['k'] != 'adt':
                r.analyse(cfg, i); continue
            name = x['path'].split('::')[-1]
            seen.add(name)
            for o in r.analyse(cfg, i):
                it = r.it
                a0 = it.opq(i['body']['locals'][1], ('arg', 0))
                ev = [e for e in o.state.trace if e[0] == 'dbg']
                try: heads, parts, free, whole = pieces(ev)
                except (TypeError, IndexError, AttributeError): heads, parts, free, whole = [], [], [], False
                for st, var in cases(it, o.state, lambda s: it.variant_of(s, it.load(s, *it.as_ptr(s, a0)[1:3])) if x['kind'] == 'enum' else 0):
                    n += 1
                    one(r, cfg, it, st, i, x, ty, a0, name, var, heads, parts, free, whole, fn)
        for im in cfg.p.impls:
            if im['trait'] == 'std::fmt::Debug': r.ob(any(s in im['self'] for s in seen), 'covered:' + im['self'], 'the Debug implementation of %s was not analysed' % im['self'])
    r.floor('Debug outcomes', n, 40)
    r.floor('types with Debug output', len(seen), 28)

def one(r, cfg, it, st, i, x, ty, a0, name, var, heads, parts, free, whole, fn):
    want = x['variants'][var]['n'] if x['kind'] == 'enum' else name
    fields = x['variants'][var]['f'] if x['kind'] != 'union' else []
    ft = []
    for f in free: texts(f, ft)
    if heads:
        r.ob(heads == [want], 'name:%s:%s' % (name, want), 'the debug output of %s calls it %s' % (want if want == name else name + '::' + want, ', '.join(map(str, heads))), fn)
        r.ob(whole, 'finish:' + name, 'the debug output of %s is not finished exactly once' % name, fn)
    else:
        r.ob(any(want.encode() in b for b in ft), 'name:%s:%s' % (name, want), 'the debug output of %s does not name it' % (want if want == name else name + '::' + want), fn)
    st = st.clone()
    p = it.as_ptr(st, a0)
    base = it.load(st, p[1], p[2])
    plain = x['kind'] == 'union' or (x['kind'] == 'struct' and len(fields) == 1 and fields[0]['n'] == '0' and cfg.T[fields[0]['t']]['k'] == 'int')
    if plain:
        bs, w = raw_bytes(cfg, it, st, a0, ty)
        if not r.ob(bs is not None, 'bytes:' + name, 'the bytes of %s are unknown' % name, fn): return
        shown = []
        for e in st.trace:
            if e[0] == 'pushs': leaves(e[3], shown)
            elif e[0] == 'dbg': leaves(e[2], shown)
        def named(shown):
            got = []
            for v in shown:
                for b in (bs if w is not None and v == w else [v]):
                    if b in bs and not (isinstance(b, Lin) and b.is_const()) and b not in got: got.append(b)
            return got
        got = named(shown)
        if got != list(bs):
            for l, item in parts:
                sg = []; lv = []
                segments(text_of(item), sg)
                for g in sg: leaves(g, lv)
                if named(lv) == list(bs): got = list(bs)
        for l, item in parts:
            sg = []; segments(text_of(item), sg)
            once = [g for g in sg if named_in(g, bs, w)]
            twice = [g for i, g in enumerate(once) if g in once[:i]]
            if not twice and len(once) == 1 and once[0][:1] == ('list',): twice = [b for i, b in enumerate(once[0][1]) if b in bs and not b.is_const() and b in once[0][1][:i]]
            r.ob(not twice, 'twice:%s' % name, 'the debug output of %s shows %s more than once' % (name, short_list(named_in(twice[0], bs, w) if twice else [])), fn)
        valid = [b for k, b in st.store.bools.items() if k[0] == 'ok' and isinstance(k[1], tuple) and k[1] and k[1][0] == 'utf8']
        if got != list(bs) and valid == [True]:
            # shown as text: the value handed over is the text of the bytes
            for l, item in parts:
                t = item[3] if isinstance(item, tuple) and item and item[0] == 'ref' else item
                tb = string_bytes(it, st, t)
                if tb is not None and all_eq(st, tb, bs): got = list(bs)
        r.ob(got == list(bs), 'bytes:%s' % name, 'the debug output of %s shows the bytes %s instead of %s' % (name, short_list(got), short_list(bs)), fn)
        return
    names = [f['n'] for f in fields]
    for l, item in parts:
        if l is None or x['kind'] == 'enum': continue
        if not r.ob(l in names, 'label:%s:%s' % (name, l), 'the debug output of %s labels a part %s, which it does not have' % (name, l), fn): continue
        j = names.index(l); f = fields[j]
        own = it.field(base, j)
        if is_fn(cfg, f['t']):
            other = [g['n'] for k, g in enumerate(fields) if k != j and refers(it, st, item, (('f', k),), None)]
            r.ob(not other, 'own:%s:%s' % (name, l), 'the debug output of %s shows %s under the name %s' % (name, other, l), fn)
            placeholder(r, cfg, it, st, item, (('f', j),), own, name, l, fn)
        else:
            r.ob(refers(it, st, item, (('f', j),), own), 'own:%s:%s' % (name, l), 'the debug output of %s does not show its %s under that name' % (name, l), fn)
    for j, f in enumerate(fields):
        sel = (('v', var), ('f', j)) if x['kind'] == 'enum' else (('f', j),)
        if is_fn(cfg, f['t']):
            if not f['n'].isdigit() and heads: r.ob(sum(1 for l, _ in parts if l == f['n']) == 1, 'shown:%s:%s' % (name, f['n']), 'the debug output of %s does not mention its %s exactly once' % (name, f['n']), fn)
            if x['kind'] == 'enum':
                r.ob(len(parts) == len(fields), 'shown:%s:%s' % (name, want), 'the debug output of %s::%s shows %d of its %d parts' % (name, want, len(parts), len(fields)), fn)
                if j < len(parts): placeholder(r, cfg, it, st, parts[j][1], sel, None, name + '::' + want, f['n'], fn)
            continue
        if x['kind'] == 'enum':
            r.ob(len(parts) == len(fields), 'shown:%s:%s' % (name, want), 'the debug output of %s::%s shows %d of its %d parts' % (name, want, len(parts), len(fields)), fn)
            continue
        own = it.field(base, j)
        k = sum(1 for l, item in parts if (l == f['n'] or l is None) and refers(it, st, item, sel, own))
        if heads: r.ob(k == 1, 'shown:%s:%s' % (name, f['n']), 'the debug output of %s shows its %s %d times instead of once' % (name, f['n'], k), fn)
        else: r.ob(any(refers(it, st, g, sel, own) for g in deep(free)), 'shown:%s:%s' % (name, f['n']), 'the debug output of %s does not show its %s' % (name, f['n']), fn)

def placeholder(r, cfg, it, st, item, path, own, name, label, fn):
    """a function is shown as a fixed text that is not blank"""
    t = []; texts(item, t)
    r.ob(any(b.strip() for b in t), 'placeholder:%s:%s' % (name, label), 'the debug output of %s shows the function %s as no fixed text' % (name, label), fn)
    r.ob(not any(refers(it, st, g, path, own) for g in [item] + deep(item)), 'address:%s:%s' % (name, label), 'the debug output of %s shows the address of its %s' % (name, label), fn)

def deep(v):
    out = []
    def walk(x, d=0):
        if d > 40 or not isinstance(x, (tuple, list)) or isinstance(x, Lin): return
        out.append(x)
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'val': out.append(x[1])
        for y in x: walk(y, d + 1)
    walk(v)
    return out

def named_in(g, bs, w):
    lv = []; leaves(g, lv)
    return [b for v in lv for b in (bs if w is not None and v == w else [v]) if b in bs and not b.is_const()]

def segments(a, out, d=0):
    """the pieces a text was put together from, first to last"""
    if not (isinstance(a, tuple) and len(a) == 4 and a[0] == 'arr') or d > 64: out.append(a); return
    if isinstance(a[2], tuple) and a[2] and a[2][0] == 'sl' and a[2][2] == ZERO: segments(a[2][1], out, d + 1)
    elif a[2] is not None: out.append(a[2])
    for x in a[3]: segments(x[3] if isinstance(x, tuple) and x and x[0] == 'r' else x, out, d + 1)

def text_of(v):
    for _ in range(4):
        if isinstance(v, tuple) and v and v[0] == 'ref': v = v[3]
        elif isinstance(v, tuple) and v and v[0] == 'agg' and len(v[1]) == 1: v = v[1][0]
        elif isinstance(v, tuple) and v and v[0] == 'vec': v = v[1]
    return v

def string_bytes(it, st, v):
    for _ in range(4):
        if isinstance(v, tuple) and v and v[0] == 'agg' and len(v[1]) == 1: v = v[1][0]
        elif isinstance(v, tuple) and v and v[0] == 'vec': v = v[1]
        elif isinstance(v, tuple) and v and v[0] == 'arr': return it.arr_list(st, v)
        else: return None
    return None

def short_list(l): return '[%s]' % ', '.join(str(x)[:24] for x in l[:4]) + ('...' if len(l) > 4 else '')
