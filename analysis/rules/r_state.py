"""Contexts: isolation, locking, defaults, clones, plugins, error dispatch."""
from . import prop
from .common import *
from .r_profile import check_fresh, open_inst, OPEN
from .r_types import text_bytes, num
import icc_table

def insts(cfg): return cfg.I.values() if isinstance(cfg.I, dict) else cfg.I

def refers(x, f):
    """calls f on every dictionary inside a MIR fragment"""
    if isinstance(x, dict):
        f(x)
        for y in x.values(): refers(y, f)
    elif isinstance(x, list):
        for y in x: refers(y, f)

def statics_of(cfg, a, seen=None):
    """statics a constant leads to"""
    seen = seen if seen is not None else set()
    if a in seen: return set()
    seen.add(a)
    al = cfg.p.d['allocs'].get(str(a))
    if al is None: return set()
    if al['k'] == 'static': return {al['path']}
    out = set()
    for x in al.get('rel', []):
        t = x[1] if isinstance(x, list) else None
        if isinstance(t, int): out |= statics_of(cfg, t, seen)
    return out

def fns_of(cfg, a, seen=None):
    """functions whose address a constant leads to"""
    seen = seen if seen is not None else set()
    if a in seen: return set()
    seen.add(a)
    al = cfg.p.d['allocs'].get(str(a))
    if al is None: return set()
    if al['k'] == 'fn': return {al['inst']} if isinstance(al.get('inst'), int) else set()
    out = set()
    for x in al.get('rel', []):
        t = x[1] if isinstance(x, list) else None
        if isinstance(t, int): out |= fns_of(cfg, t, seen)
    return out

def edges(cfg, i):
    """instances whose code may run when i runs (calls and function values), and statics it names"""
    out = set(); st = set()
    def see(d):
        if isinstance(d.get('inst'), int): out.add(d['inst'])
        if 'ptr' in d: st.update(statics_of(cfg, d['ptr'])); out.update(fns_of(cfg, d['ptr']))
        for k in ('t',):
            t = d.get(k)
            if isinstance(t, int) and t < len(cfg.T):
                ty = cfg.T[t]
                if ty['k'] == 'fndef' and isinstance(ty.get('inst'), int): out.add(ty['inst'])
    refers(i['body']['blocks'], see)
    return out, st

GETS = re.compile(r'(^|[^\w])Context\b')

@prop('C21')
def isolation(r):
    r.rule('No function that is given a context reaches the process-wide one, through any chain of calls; a given context is left as it was unless its error handler ran.')
    r.rule('Opening through the process-wide context takes its lock exactly once, before anything is done, waits for it, gives the whole operation and every handler call that context, and releases the lock exactly once at the end; it is never taken again while held.')
    r.assume.append('a poisoned lock (a handler panicked earlier) is not considered; handlers supplied by the user do not themselves lock the process-wide context')
    n = 0
    for cfg in r.cfgs():
        # who reaches the static
        stat = [s for s in cfg.p.d['statics'] if not s['freeze']]
        names = set(s['path'] for s in stat)
        succ = {}; direct = {}
        for i in insts(cfg):
            if not i.get('body'): continue
            e, s = edges(cfg, i)
            succ[i['id']] = e; direct[i['id']] = s & names
        reach = set(k for k in direct if direct[k])
        r.ob(bool(reach), 'no-global', 'no function uses the process-wide context')
        ch = True
        while ch:
            ch = False
            for k, e in succ.items():
                if k not in reach and e & reach: reach.add(k); ch = True
        for i in insts(cfg):
            if not i['local'] or not i.get('body'): continue
            b = i['body']
            takes = any(is_context(cfg, b['locals'][a + 1]) for a in range(b['argc']))
            if takes:
                n += 1; r.fnset.add(sfn(i['path']))
                r.ob(i['id'] not in reach, 'leak:' + sfn(i['path']), 'a function that is given a context reaches the process-wide context', sfn(i['path']), i['span'])
        # the given context is not modified
        for fn, i in [(OPEN, open_inst(cfg))] + [(INIT, x) for x in insts(cfg) if x['local'] and x.get('body') and sfn(x['path']) == INIT]:
            for o in r.analyse(cfg, i):
                it = r.it; n += 1
                t = [e for e in o.state.trace if e[0] in ('lock', 'lazy')]
                r.ob(not t, 'locks:' + fn, 'a process-wide lock is taken although a context is given', fn)
                calls = [e for e in o.state.trace if e[0] == 'callfn']
                prev = None
                for e in calls:
                    r.ob(is_arg(it, o.state, e[2][0], 0), 'other-context:' + fn, 'an error handler is given another context than the one opened with', fn)
                    w = context_writes(it, e[4], prev)
                    r.ob(not w, 'context-changed:' + fn, 'the given context is changed (%s) before its handler is called' % ', '.join(w), fn)
                    prev = ('call', e[1], e[3])
                w = context_writes(it, o.state.mem.items(), prev)
                r.ob(not w, 'context-changed:' + fn, 'the given context is changed (%s)' % ', '.join(w), fn)
        # lock discipline of the convenience function
        key = 'Profile::open_from_file'
        for i in cfg.fns(key):
            for o in r.analyse(cfg, i):
                it = r.it; n += 1
                held = None; taken = 0; freed = 0; acts = 0
                for e in o.state.trace:
                    if e[0] == 'lock':
                        r.ob(held is None, 'relock', 'the lock is taken again while it is held', key)
                        held = e[1]; taken += 1
                        r.ob('GLOBAL' in str(e[1]) or any(s in str(e[1]) for s in names), 'other-lock', 'another lock than that of the process-wide context is taken', key)
                    elif e[0] == 'drop' and 'MutexGuard' in str(e[1]):
                        r.ob(held is not None, 'free', 'the lock is released without being held', key)
                        held = None; freed += 1
                    elif e[0] in OPS or e[0] == 'callfn':
                        acts += 1
                        r.ob(held is not None, 'unlocked:' + e[0], 'part of opening a profile happens without holding the lock', key)
                        if e[0] == 'callfn':
                            p = it.as_ptr(o.state, e[2][0])
                            r.ob('lazy' in str(p[1]), 'handler-context', 'the error handler is not given the process-wide context', key)
                r.ob(taken == 1 and freed == 1, 'lock-once', 'the lock is taken %d times and released %d times' % (taken, freed), key)
                r.ob(acts > 0, 'no-open', 'a path opens nothing', key)
        r.ob(len(cfg.fns(key)) > 0, 'no-fn', 'there is no Profile::open_from_file', key)
    r.floor('functions and paths', n, 8)

def is_context(cfg, t):
    x = cfg.T[t]
    if x['k'] in ('ref', 'rawptr'): return is_context(cfg, x['to'])
    return short(x['s']) == 'Context'

def is_arg(it, st, v, n):
    p = it.as_ptr(st, v)
    return p[1][:2] == ('o', ('arg', n)) and not p[2]

def same_deep(it, x, y):
    """is x the value y, perhaps written out field by field"""
    if x == y: return True
    if not (isinstance(x, tuple) and isinstance(y, tuple) and x and y): return False
    if x[0] == 'agg' and y[0] in ('opq', 'agg'):
        try: return all(same_deep(it, v, it.field(y, j)) for j, v in enumerate(x[1]))
        except Unsupported: return False
    if x[0] == 'enum' and y[0] == 'opq':
        return all(same_deep(it, v, it.field(y, j, variant=x[2])) for j, v in enumerate(x[3]))
    if x[0] == 'vec' and y[0] == 'vec': return same_deep(it, x[1], y[1])
    return False

def context_writes(it, mem, call=None):
    """the parts of the context given as first argument that the analysed code itself has changed"""
    bad = []
    for obj, v in mem:
        if obj[0] not in ('o', 'os'): continue
        k = obj[1]
        while isinstance(k, tuple) and k and isinstance(k[0], tuple): k = k[0]
        mine = k == ('arg', 0) or (call is not None and k == call)
        if not mine: continue
        if obj[0] == 'os': y = ('arr', sym((obj[1], 'len'), 0, (1 << 63) - 1, 64), ('opq', (obj[1], '*'), obj[2]), ())
        elif call is not None and obj[1] == ('arg', 0): y = it.opq(obj[2], (call, 'arg', 0))
        else: y = it.opq(obj[2], (obj[1], '*'))
        if not same_deep(it, v, y):
            d = [j for j in range(it.nfields(v)) if not same_deep(it, it.field(v, j), it.field(y, j))] if v[0] == 'agg' and y[0] in ('opq', 'agg') else []
            t = it.T[obj[2]]
            bad.append(', '.join('%s.%s' % (t['s'].split('::')[-1], t['variants'][0]['f'][j]['n']) for j in d) or t['s'])
    return bad

# ------------------------------------------------------------------ defaults and clones
def deref(it, st, v):
    p = it.as_ptr(st, v)
    return p[1], it.load(st, p[1], p[2])

def check_defaults(r, cfg, it, st, c, fn, user):
    ct = cfg.ty('Context')
    objs = []
    for j, f in enumerate(cfg.T[ct]['variants'][0]['f']):
        v = it.field(c, j); nm = f['n']
        if nm == 'user_data':
            r.ob(user(st, v), 'default:user_data', 'the user data of a new context is %s' % (v,), fn); continue
        o, x = deref(it, st, v)
        objs.append(o)
        xt = cfg.T[cfg.T[f['t']]['targs'][0]]
        cn = short(xt['s'])
        g = [it.field(x, q) for q in range(len(xt['variants'][0]['f']))]
        r.ob(len(g) == 1, 'chunk:' + cn, 'no rule for the fields of %s' % cn, fn)
        w = g[0]
        if nm == 'adaption_state': ok = isinstance(w, Poly) and w == P(1)
        elif nm == 'alarm_codes':
            l = it.arr_list(st, w)
            ok = l is not None and [a for a in l] == [K(0x7F00)] * 3 + [ZERO] * 13
        elif nm == 'error_handler': ok = w[0] == 'fn' and cfg.I[w[1]]['path'].endswith('default_log_error_handler_function')
        elif nm == 'interpolation_plugin': ok = w[0] == 'fn' and cfg.I[w[1]]['path'].endswith('default_interpolatior_factory')
        else: ok = w[0] == 'vec' and w[1][1] == ZERO
        r.ob(ok, 'default:' + nm, 'the %s of a new context is %s' % (nm, w), fn)
    r.ob(len(objs) == 12 and len(set(objs)) == 12 and all(o[0] == 'h' for o in objs), 'chunks', 'the parts of a new context are not 12 separate objects', fn)

def same(cfg, it, st, orig, v, ty, what, bad):
    """is v an equal, independent copy of what lies at orig = (object, path)"""
    t = cfg.T[ty]; s = short(t['s'])
    a = it.load(st, orig[0], orig[1])
    if t['k'] == 'adt' and (s.startswith('Vec<') or s == 'String'):
        path = orig[1] if s != 'String' else orig[1] + (('f', 0),)
        w = v if s != 'String' else (v[1][0] if v[0] == 'agg' else None)
        if v == a and v[0] == 'opq': return  # the string model keeps text by value
        old = it.models.vec_at(it, st, ('ptr', orig[0], path, None))[1]
        if w is None or w[0] != 'vec' or w[1] != old: bad.append((what, 'the list %s' % (w,)))
        return
    if t['k'] == 'adt' and t.get('box'):
        po = it.as_ptr(st, a)
        pn = it.as_ptr(st, v)
        if pn[1] == po[1] or pn[1][0] not in ('h', 'ha'): bad.append((what, 'shares its memory with the original')); return
        e = t['targs'][0]
        if cfg.T[e]['k'] == 'slice':
            x = it.load(st, po[1], po[2]); y = it.load(st, pn[1], pn[2])
            if x != y and not same_array(it, st, x, y): bad.append((what, 'the contents %s' % (y,)))
            return
        same_value(cfg, it, st, (po[1], po[2]), it.load(st, pn[1], pn[2]), e, what, bad); return
    same_value(cfg, it, st, orig, v, ty, what, bad)

def same_array(it, st, x, y):
    if x[0] != 'arr' or y[0] != 'arr' or not st.store.ent_eq(x[1] - y[1]): return False
    k = sym(('k',), 0, (1 << 62), 64)
    return eqv(st, it.arr_get(st, x, k), it.arr_get(st, y, k))

def same_value(cfg, it, st, orig, v, ty, what, bad):
    t = cfg.T[ty]
    a = it.load(st, orig[0], orig[1])
    if t['k'] == 'adt' and t.get('kind') == 'struct':
        for j, f in enumerate(t['variants'][0]['f']):
            same(cfg, it, st, (orig[0], orig[1] + (('f', j),)), it.field(v, j), f['t'], what + '.' + f['n'], bad)
        return
    if t['k'] == 'adt' and t.get('kind') == 'enum':
        va = it.variant_of(st, a); vb = it.variant_of(st, v)
        if va != vb: bad.append((what, 'another variant')); return
        fb = it.enum_fields(st, v, vb)
        for j, f in enumerate(t['variants'][va]['f']):
            same(cfg, it, st, (orig[0], orig[1] + (('vf', va, j),)), fb[j], f['t'], what + '.' + str(j), bad)
        return
    if not (a == v or (isinstance(a, (Lin, Poly)) and eqv(st, a, v))): bad.append((what, '%s' % (v,)))

def same_arg(cfg, it, st, ty, a, v):
    """is v the argument a, as a whole or entry by entry?"""
    if a == v: return True
    if cfg.T[ty]['k'] == 'array':
        x, y = it.arr_list(st, a), it.arr_list(st, v)
        return len(x) == len(y) and all(same_arg(cfg, it, st, cfg.T[ty]['elem'], p, q) for p, q in zip(x, y))
    return isinstance(a, (Lin, Poly)) and isinstance(v, (Lin, Poly)) and eqv(st, a, v)

@prop('C22')
def defaults(r):
    r.rule('A new context holds the given user data and exactly the documented defaults (adaptation 1.0, alarm codes 7F00 in the first three channels, the silent error handler, the standard interpolators, empty plugin lists), each part in an object of its own; the process-wide context starts as a new context without user data; new profiles hold the documented defaults.')
    r.rule('Cloning a context or any of its parts yields an equal value, field by field, list by list, that shares no mutable memory with the original.')
    n = 0
    for cfg in r.cfgs():
        fn = 'Context::new'
        for o in r.analyse(cfg, cfg.fn(fn)):
            n += 1; it = r.it
            arg = it.opq(cfg.fn(fn)['body']['locals'][1], ('arg', 0))
            check_defaults(r, cfg, it, o.state, o.value, fn, lambda s, v: v == arg)
        for s in cfg.p.d['statics']:
            if s['freeze']: continue
            r.ob(len(s.get('init', [])) == 1, 'static-init', 'the initialiser of %s is not a single function' % s['path'])
            for k in s.get('init', []):
                fn = sfn(s['path']) + ' initialiser'
                for o in r.analyse(cfg, cfg.I[k]):
                    n += 1; it = r.it
                    m = o.value
                    mt = cfg.T[cfg.I[k]['body']['locals'][0]]
                    c = None
                    for _ in range(4):
                        if short(mt['s']) == 'Context': c = m; break
                        j = next((q for q, f in enumerate(mt['variants'][0]['f']) if 'Context' in cfg.T[f['t']]['s']), None)
                        if j is None: break
                        m = it.field(m, j); mt = cfg.T[mt['variants'][0]['f'][j]['t']]
                    if r.ob(c is not None, 'static-value', 'the process-wide state is not a context', fn):
                        check_defaults(r, cfg, it, o.state, c, fn, lambda s, v: v[0] == 'enum' and cfg.T[v[1]]['variants'][v[2]]['n'] == 'None')
        for key in ('Profile::new',):
            for o in r.analyse(cfg, cfg.fn(key)):
                n += 1
                check_fresh(r, cfg, r.it, o.state, o.value, key)
        # the default handler does nothing
        for key in ('default_log_error_handler_function',):
            for o in r.analyse(cfg, cfg.fn(key)):
                n += 1
                ev = [e for e in o.state.trace if e[0] != 'drop']
                obj = next((x for x in o.state.mem if x[0] == 'o' and x[1] == ('arg', 0)), None)
                r.ob(not ev and (obj is None or r.it.root(o.state, obj) == r.it.root(State(), obj)), 'silent', 'the default error handler does something: %s' % (ev,), key)
        # accessors of the user data
        key = 'Context::get_user_data'
        for o in r.analyse(cfg, cfg.fn(key)):
            it = r.it; n += 1
            ct = cfg.ty('Context'); ud = cfg.fno(ct, 'user_data')
            v = o.value
            obj = ('o', ('arg', 0), ct)
            have = it.variant_of(o.state, it.load(o.state, obj, (('f', ud),)))
            ot = cfg.T[cfg.T[ct]['variants'][0]['f'][ud]['t']]
            some = ot['variants'][have]['n'] == 'Some'
            got = cfg.T[v[1]]['variants'][v[2]]['n'] == 'Some'
            ok = got == some
            if got:
                p = it.as_ptr(o.state, v[3][0])
                ok = ok and p[1] == obj and p[2] == (('f', ud), ('vf', have, 0))
            r.ob(ok, 'user-data', 'get_user_data returns %s' % (v,), key)
        # a part made from a value holds that value
        for key in sorted(cfg.idx):
            if not key.endswith('Chunk::new') or len(cfg.idx[key]) != 1: continue
            b = cfg.fn(key)['body']; rt = cfg.T[b['locals'][0]]
            if rt['k'] != 'adt' or b['argc'] != len(rt['variants'][0]['f']): continue
            for o in r.analyse(cfg, cfg.fn(key)):
                n += 1; it = r.it
                for j in range(b['argc']):
                    r.ob(same_arg(cfg, it, o.state, b['locals'][j + 1], it.opq(b['locals'][j + 1], ('arg', j)), it.field(o.value, j)),
                         'part:%s:%d' % (key, j), 'the part made from a value holds something else: %s' % (it.field(o.value, j),), key)
        key = '<CIEXYZ as Default>::default'
        for o in r.analyse(cfg, cfg.fn(key)):
            n += 1; ct = cfg.ty('CIEXYZ')
            for f in cfg.fnames(ct):
                v = r.it.field(o.value, cfg.fno(ct, f))
                r.ob(isinstance(v, Poly) and v == P(0), 'black:' + f, 'the default colour has %s = %s' % (f, v), key)
        nc = 0
        for key in sorted(cfg.idx):
            if not key.endswith(' as Clone>::clone'): continue
            for i in cfg.idx[key]:
                ty = i['body']['locals'][0]; nc += 1
                for o in r.analyse(cfg, i):
                    it = r.it
                    def go(s):
                        bad = []
                        same_value(cfg, it, s, (('o', ('arg', 0), ty), ()), o.value, ty, short(cfg.T[ty]['s']), bad)
                        return bad
                    for s, bad in cases(it, o.state, go):
                        n += 1
                        for w, tx in bad: r.ob(False, 'clone:' + w, 'the clone has in %s: %s' % (w, tx), key)
                        if not bad: r.ob(True, '', '')
        r.floor('clone implementations (%s)' % cfg.name, nc, 10)
    r.floor('default and clone outcomes', n, 30)

# ------------------------------------------------------------------ plugins and error dispatch
def handler_of(cfg, it, st, ctx=('arg', 0)):
    ct = cfg.ty('Context')
    obj = ('o', ctx, ct)
    f = cfg.fno(ct, 'error_handler')
    b = it.load(State(), obj, (('f', f),))
    p = it.as_ptr(st, b)
    ht = cfg.ty('LogErrorChunk')
    return it.load(State(), p[1], p[2] + (('f', cfg.fno(ht, 'handler')),))

def text_value(it, st, v):
    b = text_bytes(it, st, v)
    if b is not None: return tuple(b)
    try: w = it.field(v, 0)
    except Exception: return v
    return w[1] if isinstance(w, tuple) and w[0] == 'vec' else v

@prop('C24')
def dispatch(r):
    r.rule('Signalling an error calls the context\'s own error handler exactly once, with that context, the given code and the given text, and does nothing else.')
    n = 0
    for cfg in r.cfgs():
        key = 'Context::signal_error'
        found = [i for i in insts(cfg) if i['local'] and i.get('body') and sfn(i['path']) == key]
        r.ob(len(found) > 0, 'no-fn', 'there is no Context::signal_error')
        for i in found:
            for o in r.analyse(cfg, i):
                it = r.it; st = o.state; n += 1
                calls = [e for e in st.trace if e[0] == 'callfn']
                other = [e for e in st.trace if e[0] != 'callfn' and not (e[0] == 'pushs' and e[1][0] != 'o') and not (e[0] == 'drop' and 'String' in str(e[1]))]
                if not r.ob(len(calls) == 1, 'calls', 'signal_error calls the handler %d times on a path' % len(calls), key): continue
                e = calls[0]
                r.ob(e[1] == handler_of(cfg, it, st), 'handler', 'signal_error calls %s, not the handler of the context' % (e[1],), key)
                r.ob(len(e[2]) == 3 and is_arg(it, st, e[2][0], 0), 'context', 'the handler is given another context', key)
                code = it.opq(i['body']['locals'][2], ('arg', 1))
                r.ob(e[2][1] == code, 'code', 'the handler is given the code %s instead of the signalled one' % (e[2][1],), key)
                tt = cfg.T[i['body']['locals'][3]]
                arg = it.opq(i['body']['locals'][3], ('arg', 2))
                if tt['k'] == 'ref':
                    p = it.as_ptr(st, arg); src = it.load(st, p[1], p[2])
                    v = e[2][2]
                    for _ in range(3):
                        if isinstance(v, tuple) and v[0] == 'agg' and len(v[1]) == 1: v = v[1][0]
                    ok = v[0] == 'vec' and (v[1] == src or same_array(it, st, src, v[1]))
                else: ok = e[2][2] == arg or same_text(it, st, e[2][2], arg)
                r.ob(ok, 'text', 'the handler is given the text %s' % (e[2][2],), key)
                w = context_writes(it, e[4])
                r.ob(not w, 'context-before', 'signal_error changes the context (%s) before it calls the handler' % ', '.join(w), key)
                w = context_writes(it, st.mem.items(), ('call', e[1], e[3]))
                r.ob(not w, 'context-after', 'signal_error changes the context (%s) after the handler has had it' % ', '.join(w), key)
                r.ob(not other, 'effects', 'signal_error does more than call the handler: %s' % (other[:2],), key)
    r.floor('dispatch paths', n, 2)

def same_text(it, st, a, b):
    return text_value(it, st, a) == text_value(it, st, b)

KNOWN = sorted(int.from_bytes(c.encode(), 'big') for k, c in icc_table.SIGNATURES['plugin_type'].items() if k != 'MAGIC')
PMAGIC = int.from_bytes(icc_table.SIGNATURES['plugin_type']['MAGIC'].encode(), 'big')
VERSION = 2131
INIT = 'Context::init_plugin'

class Chain:
    """the plugins of a registration, by position in the chain"""
    def __init__(self, cfg, it):
        self.cfg = cfg; self.it = it; self.t = cfg.ty('Plugin')
        self.f = {n: cfg.fno(self.t, n) for n in ('magic', 'expected_version', 'next')}
        self.f['type'] = next(j for j, x in enumerate(cfg.fnames(self.t)) if x in ('type', 'r#type'))
    def get(self, st, q, f): return self.it.load(st, q[0], q[1] + (('f', self.f[f]),))
    def check(self, st, q):
        """[magic ok, version ok, type ok] as far as known on the path"""
        m = num(self.it, self.get(st, q, 'magic')); v = self.get(st, q, 'expected_version'); t = num(self.it, self.get(st, q, 'type'))
        mk = st.store.eval(c_eq(m - PMAGIC)); vk = st.store.eval(c_ge(K(VERSION) - v))
        tk = None
        for k in KNOWN:
            if st.store.ent_eq(t - k): tk = True
        if tk is None and all(st.store.ent_ne(t - k) for k in KNOWN): tk = False
        return [mk, vk, tk]
    def next(self, st, q):
        """position after q: a plugin, None at the end, '?' when the path does not know"""
        it = self.it
        n = self.get(st, q, 'next')
        try: v = it.variant_of(st, n)
        except NeedSplit: return '?'
        vs = self.cfg.T[n[1]]['variants'][v]
        if vs['n'] == 'None': return None
        a = it.enum_fields(st, n, v)[0]
        p = it.as_ptr(st, a)
        x = self.cfg.T[p[1][2]]
        j = next(k for k, f in enumerate(x['variants'][0]['f']) if f['n'] == 'data')
        return (p[1], p[2] + (('f', j),))
    def pos(self, st, v):
        """the plugin a cursor value stands for: plugin, None, '?' or 'no cursor'"""
        it = self.it
        if not isinstance(v, tuple) or not v: return 'no'
        if v[0] in ('enum', 'opq') and self.cfg.T[v[1]].get('kind') == 'enum' and short(self.cfg.T[v[1]]['s']) == 'Option<&Plugin>':
            try: k = it.variant_of(st, v)
            except NeedSplit: return '?'
            if self.cfg.T[v[1]]['variants'][k]['n'] == 'None': return None
            v = it.enum_fields(st, v, k)[0]
        elif v[0] == 'agg':
            # an iterator or wrapper around the cursor
            for x in v[1]:
                if isinstance(x, tuple) and x and x[0] in ('enum', 'opq', 'ptr', 'agg'):
                    p = self.pos(st, x)
                    if p != 'no': return p
            return 'no'
        if v[0] == 'ptr' and v[1][0] == 'o' and self.plugin_at(v): return (v[1], v[2])
        if v[0] == 'opq' and self.cfg.T[v[1]]['k'] == 'ref' and self.cfg.T[v[1]]['to'] == self.t:
            p = it.as_ptr(st, v); return (p[1], p[2])
        return 'no'
    def plugin_at(self, v):
        x = self.cfg.T[v[1][2]]
        return v[1][2] == self.t and not v[2] or (short(x['s']) == 'ArcInner<Plugin>' and len(v[2]) == 1)
    def skip(self, st, q, upto=8):
        """the first plugin from q on that is not known to be valid on the path"""
        for _ in range(upto):
            if q is None or q == '?': return q
            if self.check(st, q) != [True] * 3: return q
            q = self.next(st, q)
        return '?'

@prop('C23')
def plugins(r):
    r.rule('Registering a chain of plugins succeeds only if every plugin of the chain, to its end, has the plugin magic number, needs no newer version than 2131 and is of one of the nine known types; it fails at the first one that does not, after exactly one call of the context\'s handler with UnknownExtension and the very text it returns.')
    n = 0
    for cfg in r.cfgs():
        i = cfg.fn(INIT)
        # chains of one and two plugins, exactly
        lengths = set()
        for size in (1, 2):
            it0 = Interp(cfg.p, Models(), {})
            st = State(); ch = Chain(cfg, it0)
            q = (('o', ('arg', 1), ch.t), ())
            for k in range(size):
                nx = ch.get(st, q, 'next')
                want = 'Some' if k + 1 < size else 'None'
                st.store.assume(c_eq(it0.discr(nx, nx[1]) - next(d for v, d in cfg.p.discrs(nx[1]) if cfg.T[nx[1]]['variants'][v]['n'] == want)))
                if want == 'Some': q = ch.next(st, q)
            for o in r.analyse(cfg, i, st=st, width=400, exits=4000, undecided=400):
                n += 1; lengths.add(size)
                judge(r, cfg, r.it, o, (('o', ('arg', 1), ch.t), ()))
        r.ob(lengths == {1, 2}, 'chains', 'chains were not analysed exactly', INIT)
        # any chain, by induction over the walk
        outs = r.analyse(cfg, i)
        it = r.it; ch = Chain(cfg, it)
        loops = [l for l in it.loops if not l.get('nested')]
        done = 0
        for l in loops:
            best = None
            for c in sorted(l['changed'], key=str):
                for mode in ('pending', 'checked'):
                    m = walk(r, cfg, it, ch, l, c, mode, outs, i)
                    if m is None: continue
                    if best is None or len(m) < len(best): best = m
            if best is None: continue
            done += 1
            for k, tx in best: r.ob(False, k, tx, INIT)
            if not best: r.ob(True, '', '')
            n += len(l['backs']) + len(outs)
        r.ob(done > 0, 'walk', 'no walk over the whole chain was recognised', INIT)
    r.floor('registration paths', n, 8)

def judge(r, cfg, it, o, first, after=None):
    """a path of the registration of a chain starting at first: the verdict and the report"""
    st = o.state; ch = Chain(cfg, it)
    ok = cfg.T[o.value[1]]['variants'][o.value[2]]['n'] == 'Ok'
    calls = [e for e in st.trace if e[0] == 'callfn']
    q = ch.skip(st, first)
    if ok:
        r.ob(q is None, 'accepts', 'a chain is accepted although not every plugin in it was found valid', INIT)
        r.ob(not calls, 'noise', 'an error is signalled for a chain that is accepted', INIT)
    else:
        r.ob(q not in (None, '?') and False in ch.check(st, q), 'rejects', 'a chain is rejected although its first unchecked plugin is not known to be invalid', INIT)
        report(r, cfg, it, o, calls)

def report(r, cfg, it, o, calls):
    st = o.state
    if not r.ob(len(calls) == 1, 'report-count', 'a rejected plugin is reported %d times' % len(calls), INIT): return
    e = calls[0]
    r.ob(e[1] == handler_of(cfg, it, st), 'report-handler', 'a rejected plugin is reported to another handler', INIT)
    r.ob(is_arg(it, st, e[2][0], 0), 'report-context', 'the handler is given another context', INIT)
    c = e[2][1]
    r.ob(c[0] == 'enum' and cfg.T[c[1]]['variants'][c[2]]['n'] == 'UnknownExtension', 'report-code', 'a rejected plugin is reported as %s' % (c,), INIT)
    r.ob(same_text(it, st, e[2][2], o.value[3][0]), 'report-text', 'the text returned is not the text reported', INIT)

def walk(r, cfg, it, ch, l, cell, mode, outs, inst):
    """violations of the induction over the loop with this cursor; None when the cell is no cursor"""
    def at(s):
        v = it.cells(s).get(cell)
        if v is None: return 'no'
        p = ch.pos(s, v)
        if p in ('no', '?') or mode == 'pending': return p
        if p is None: return 'no'
        return ch.next(s, p)
    bad = []
    if at(l['head']) == 'no': return None
    first = (('o', ('arg', 1), ch.t), ())
    e = l['entry']
    for s, p in cases(it, e, lambda s: (settle(it, ch, s, first), at(s))):
        want, got = p
        if mode == 'checked' and got == 'no': return None
        if got != want: bad.append(('walk-start', 'the walk over the chain does not start with the first plugin'))
    h = l['head']
    def start(s):
        """what is pending at the head, as the state s (a descendant of the head) knows it"""
        v = it.cells(h).get(cell)
        p = ch.pos(s, v)
        if mode == 'checked': p = ch.next(s, p) if p not in (None, '?', 'no') else p
        return p
    for b in l['backs']:
        if any(x[0] == 'callfn' for x in b.trace[len(h.trace):]): bad.append(('walk-noise', 'an error is signalled and the walk goes on'))
        for s, p in cases(it, b, lambda s: (ch.skip(s, need(start(s))), at(s))):
            if p[0] != p[1] or p[0] == '?': bad.append(('walk-step', 'the walk goes on without having found the current plugin valid, or leaves one out'))
    for o in outs:
        st = o.state
        if not through(o, l): continue
        ok = cfg.T[o.value[1]]['variants'][o.value[2]]['n'] == 'Ok'
        q = ch.skip(st, start(st))
        calls = [x for x in st.trace if x[0] == 'callfn']
        if ok:
            if q is not None: bad.append(('walk-accepts', 'a chain is accepted before its end'))
            if calls: bad.append(('walk-noise', 'an error is signalled for a chain that is accepted'))
        elif q in (None, '?') or False not in ch.check(st, q):
            bad.append(('walk-rejects', 'a chain is rejected although its first unchecked plugin is not known to be invalid'))
    return bad

def need(p): return p
def settle(it, ch, s, first): return ch.skip(s, first)
def through(o, l): return any(e[0] == 'loop' and e[1] == l['id'] for e in o.state.trace)

@prop('C29')
def predicates(r):
    r.rule('Each is_... predicate of a plugin type answers true exactly for the variant it names, and exactly one of the nine predicates is true of any value.')
    n = 0
    for cfg in r.cfgs():
        pt = cfg.ty('PluginType')
        names = [v['n'] for v in cfg.T[pt]['variants']]
        used = {}
        for v in names:
            snake = 'is_' + re.sub(r'(?<!^)([A-Z])', r'_\1', v).lower()
            for key in (snake, snake + 's'):
                fns = cfg.fns('PluginType::' + key)
                if fns: used[v] = fns[0]; break
            r.ob(v in used, 'missing:' + v, 'there is no predicate for %s' % v)
        for v, i in used.items():
            fn = 'PluginType::' + i['name']
            seen = set()
            for o in r.analyse(cfg, i):
                it = r.it
                a = it.opq(pt, (('arg', 0), '*'))
                for s, (k, res) in cases(it, o.state, lambda s: (it.variant_of(s, a), it.decide(s, o.value))):
                    n += 1; seen.add(names[k])
                    r.ob(res == (names[k] == v), 'predicate:%s:%s' % (i['name'], names[k]), '%s answers %s for %s' % (i['name'], res, names[k]), fn)
            r.ob(seen == set(names), 'predicate-cases:' + i['name'], 'not all variants are decided by %s' % i['name'], fn)
        r.ob(len(names) == 9, 'variants', 'there are %d kinds of plugins' % len(names))
    r.floor('predicate cases', n, 160)
