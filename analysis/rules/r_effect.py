"""Effects on the outside world, and the life of file handles."""
import re
from . import prop
from .common import *
from .r_state import edges, insts
from .r_profile import open_inst, OPEN, modes, is_ok

# operations without an effect outside the program, among those of std whose code is not part of the analysed program
PURE = re.compile(r'panick|::panic|std::rt::|std::alloc|alloc::|handle_alloc_error|unwrap_failed|expect_failed|std::io::error|std::io::Error|std::io::cursor|std::io::impls|'
                  r'std::path|std::ffi|std::str|std::string|std::num|std::f32|std::f64|cmath|std::fmt|std::hash::SipHasher|std::collections::hash_map::DefaultHasher')
KIND = [('the files it opens', re.compile(r'^std::fs::OpenOptions::_open$|^std::fs::File::(open|create|create_new|options)\b|^std::sys::fs::.*open')),
        ('a file', re.compile(r'^<&?std::fs::File as std::io::(Read|Write|Seek)>::|^std::fs::File::(sync_data|sync_all|metadata|set_len)$')),
        ('the clock', re.compile(r'^std::time::SystemTime::(now|duration_since)$')),
        ('a lock', re.compile(r'^std::sys::sync::mutex|^std::thread::(park|current)$|^std::sys::sync::once|^std::thread::Thread::|^std::sync::once|^std::sys::thread_parking'))]
ASKS = re.compile(r'::(is_dir|is_file|is_symlink|exists|try_exists|metadata|symlink_metadata|canonicalize|read_link|read_dir)$')
OPENERS = ('Profile::open_from_file', 'Profile::open_from_file_thr')

def allowed(kind, fn, path):
    if kind == 'the files it opens': return fn in OPENERS
    if kind == 'a file': return fn in OPENERS or 'IOHandler for std::fs::File' in path
    if kind == 'the clock': return fn in OPENERS + ('Profile::new',)
    if kind == 'a lock': return fn == 'Profile::open_from_file'
    return False

def effect_of(i):
    """the kind of effect a callee outside the analysed program has, or None"""
    p = i['path']
    if i['kind'] in ('intrinsic', 'virtual'): return None
    for k, x in KIND:
        if x.search(p): return k
    if i['crate'] in ('core', 'alloc') or (PURE.search(p) and not ASKS.search(p)): return None
    return 'something else: ' + p

@prop('C32')
def c32(r):
    r.rule('effect inference over the call graph: for every function that users can reach, the operations of the outside world (console, environment, clock, randomness, threads, processes, network, files) that it leads to are among those it is for')
    r.assume += ['a trait object passed in is the caller\'s own stream; handlers and functions installed by the user are the user\'s', 'fmt and memory allocation are no effects']
    n = m = 0
    for cfg in r.cfgs():
        succ = {}; eff = {}
        hidden = {s['path']: cfg.T[s['t']]['s'] for s in cfg.p.d['statics'] if (s['mut'] or not s['freeze']) and 'lcms2' in s['path']}
        for i in insts(cfg):
            if i.get('body'):
                succ[i['id']], st = edges(cfg, i); eff[i['id']] = {}
                for x in st & set(hidden):
                    e = 'a lock' if 'Mutex<' in hidden[x] and 'Context' in hidden[x] else 'state kept between calls: ' + sfn(x)
                    eff[i['id']][e] = i['id']
                for b in i['body']['blocks']:
                    if 'asm' in str(b['t'][0]).lower(): eff[i['id']]['something else: assembly code'] = i['id']
            else:
                e = effect_of(i); m += 1
                succ[i['id']] = set(); eff[i['id']] = {e: i['id']} if e else {}
        ch = True
        while ch:                                     # effect -> the callee it comes through
            ch = False
            for k, es in succ.items():
                for c in es:
                    for e in eff.get(c, ()):
                        if e not in eff[k]: eff[k][e] = c; ch = True
        pub = {x['path'] for x in cfg.p.fns if x['reachable']}
        for i in insts(cfg):
            if not i['local'] or not i.get('body') or i['path'] not in pub: continue
            fn = sfn(i['path']); n += 1; r.fnset.add(fn)
            for e in sorted(eff[i['id']]):
                chain = [i['id']]
                while eff[chain[-1]].get(e) not in (None, chain[-1]) and len(chain) < 40: chain.append(eff[chain[-1]][e])
                r.ob(allowed(e, fn, i['path']), 'effect:%s:%s' % (fn, e), '%s uses %s' % (fn, e), fn, i['span'], [cfg.I[c]['path'] for c in chain])
            if not eff[i['id']]: r.ob(True, '', '')
        for x in ('Profile::open_from_file_thr', '<FileNull as IOHandler>::read'):
            r.ob(any(sfn(i['path']) == x or x.startswith('<') for i in insts(cfg) if i['local']), 'no-fn:' + x, 'there is no ' + x)
    # what an opened profile holds, and whether opening succeeds, does not depend on the clock
    from .r_profile import open_outcomes, the_profile, mentions
    cfg = r.be; pt = cfg.ty('Profile'); k = 0
    for o in open_outcomes(r, cfg)[0]:
        it = r.it; st = o.state; k += 1
        timed = [x for x in list(st.store.bools) + list(st.store.ge) + list(st.store.ne) if mentions(x, 'now')]
        r.ob(not timed, 'clock-decides', 'what opening does depends on the clock', OPEN)
        if not is_ok(cfg, o.value): continue
        read = 'Read' in modes(r, cfg, it, o)
        p = the_profile(cfg, it, o)
        for j, f in enumerate(cfg.fnames(pt)):
            if f == 'created' and not read: continue
            r.ob(not mentions(it.field(p, j), 'now'), 'clock:' + f, 'the %s of a profile that was opened depends on the clock' % f, OPEN)
    r.floor('paths of opening', k, 3)
    r.floor('reachable functions', n, 200)
    r.count('operations outside the program', m)

@prop('C33')
def c33(r):
    r.rule('ownership of open files: on every path of opening a profile, each file handle acquired is either owned by the returned profile through exactly one owner, or released exactly once; a failure leaves none open')
    r.assume += ['dropping a std::fs::File closes it; paths that end in a panic are the subject of C01', 'a handler or stream of the user does not take the profile\'s file']
    from .r_profile import open_outcomes
    for cfg in r.cfgs():
        outs, _ = open_outcomes(r, cfg)
        it = r.it; rt = it.sig_ret if hasattr(it, 'sig_ret') else open_inst(cfg)['body']['locals'][0]
        rt = rt['t'] if isinstance(rt, dict) else rt
        seen = set(); n = 0
        for o in outs:
            st = o.state
            got = [(('open', e[1]), 'ok') for e in st.trace if e[0] == 'open' and st.store.bools.get(('ok', ('open', e[1])))]
            for e in st.trace:
                if e[0] == 'fs':
                    k = ('fs', e[1], e[3])
                    if 'File' in e[1] and st.store.bools.get(('ok', k)): got.append((k, 'ok'))
            closed = list(st.info.get('closed', ()))
            kept = it.models.handles(it, st, rt, o.value)
            ok = is_ok(cfg, o.value)
            for h in got:
                n += 1
                if not r.ob(closed.count(h) + kept.count(h) == 1, 'life:%s:%s' % ('ok' if ok else 'err', (closed.count(h), kept.count(h))),
                            'a file that was opened is %s when opening %s' % ('released or owned %d times' % (closed.count(h) + kept.count(h)) if closed.count(h) + kept.count(h) else 'never released', 'succeeds' if ok else 'fails'), OPEN): continue
            if ok: r.ob(len(set(kept)) == 1, 'kept:%d' % len(set(kept)), 'the profile returned owns %d open files' % len(set(kept)), OPEN)
            else: r.ob(not kept, 'err-kept', 'an error carries an open file', OPEN)
            if got: seen.add((ok, tuple(modes(r, cfg, it, o))))
        for k in ((True, 'Read'), (False, 'Read'), (True, 'Write')):
            r.ob(any(a == k[0] and k[1] in m for a, m in seen), 'dead:%s:%s' % k, 'no path of opening that %s (%s)' % ('succeeds' if k[0] else 'fails after the file was opened', k[1]), OPEN)
        r.count('handles followed [%s]' % cfg.name, n)
