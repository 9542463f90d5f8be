"""Frame of the checks: obtains the resolved program of /repo's current tree, runs one rule set,
prints the verdict and writes the evidence file."""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time, traceback
from fractions import Fraction
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, HERE)
from terms import *
from store import *
from prog import Prog
from interp import *
from models import Models

CONFIGS = {'be': [], 'le': ['--features', 'use_little_endian']}

class Missing(Exception): pass

# ------------------------------------------------------------------ obtaining the program
def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
    e['LD_LIBRARY_PATH'] = root + '/lib'
    return e

def build_driver():
    d = os.path.join(VERIF, 'driver')
    tgt = os.path.join(BUILD, 'driver')
    b = os.path.join(tgt, 'debug', 'mirdump')
    src = max(os.path.getmtime(os.path.join(d, x)) for x in ('src/main.rs', 'Cargo.toml'))
    if not os.path.exists(b) or os.path.getmtime(b) < src:
        e = env(); e['CARGO_TARGET_DIR'] = tgt
        for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER'): e.pop(k, None)
        r = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=e, capture_output=True, text=True)
        if r.returncode: raise SystemExit('driver build failed:\n' + r.stderr[-4000:])
        os.utime(b)
    return b

def dump(cfg):
    """the resolved, monomorphic program of the working tree in one feature configuration"""
    drv = build_driver()
    e = env()
    tgt = os.path.join(BUILD, 'target-' + cfg)
    out = os.path.join(BUILD, cfg + '.json')
    e.update({'CARGO_TARGET_DIR': tgt, 'RUSTC_WORKSPACE_WRAPPER': drv, 'VP_DUMP_CRATE': 'lcms2', 'VP_DUMP_OUT': out, 'CARGO_INCREMENTAL': '0',
              'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on --cap-lints=warn -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums'})
    e.pop('RUSTC_WRAPPER', None)
    for attempt in (0, 1):
        if os.path.exists(out): os.remove(out)
        # defeat cargo's freshness cache for this crate only
        for base, ds, fs in os.walk(tgt):
            for n in list(ds):
                if n.startswith('lcms2'): shutil.rmtree(os.path.join(base, n), ignore_errors=True); ds.remove(n)
            for n in fs:
                if n.startswith(('lcms2', 'liblcms2')):
                    try: os.remove(os.path.join(base, n))
                    except OSError: pass
        r = subprocess.run(['cargo', 'check', '--lib', '--offline'] + (['--locked'] if os.path.exists(os.path.join(REPO, 'Cargo.lock')) else []) + CONFIGS[cfg], cwd=REPO, env=e, capture_output=True, text=True)
        if os.path.exists(out): return Prog(out)
        if attempt == 0: shutil.rmtree(tgt, ignore_errors=True)
    raise SystemExit('the tree does not compile for analysis (%s):\n%s' % (cfg, r.stderr[-4000:]))

# ------------------------------------------------------------------ names
MODS = re.compile(r"\b(?:[A-Za-z_]\w*::)+(?=[A-Za-z_\[<&{(])")
def short(s):
    return MODS.sub('', s) if s else s

def sfn(path):
    """a function's name with its type or trait, without modules"""
    if '<' in path: return short(path)
    return '::'.join(path.split('::')[-2:])

class Cfg:
    """one configuration's program with name lookup that does not depend on module layout"""
    def __init__(self, prog, name):
        self.p = prog; self.T = prog.T; self.I = prog.I; self.name = name
        self.idx = {}
        for r in prog.d['roots']:
            i = prog.I[r]
            if not i.get('body'): continue
            nm = i['path'].split('::')[-1]
            se = i.get('impl_self')
            tr = i.get('impl_trait')
            keys = []
            if se is not None:
                s = short(se)
                keys.append(s + '::' + nm)
                if tr:
                    keys.append('<%s as %s>::%s' % (s, short(tr), nm))
                    full = i.get('impl_trait_full')
                    if full: keys.append('<%s as %s>::%s' % (s, short(full), nm))
            else:
                seg = i['path'].split('::')
                keys.append(nm)
                keys.append('::'.join(seg[-2:]))
            for k in dict.fromkeys(keys): self.idx.setdefault(k, []).append(i)
    def fns(self, key): return self.idx.get(key, [])
    def fn(self, key):
        r = self.idx.get(key, [])
        if len(r) != 1:
            raise Missing('%s function(s) named %s in configuration %s' % (len(r) or 'no', key, self.name))
        return r[0]
    def ty(self, name):
        """type id by short name"""
        if not hasattr(self, '_tys'):
            self._tys = {}
            for n, t in enumerate(self.T):
                self._tys.setdefault(short(t['s']), n)
        r = self._tys.get(name)
        if r is None: raise Missing('type %s in configuration %s' % (name, self.name))
        return r
    def fno(self, ty, field):
        for n, f in enumerate(self.T[ty]['variants'][0]['f']):
            if f['n'] == field: return n
        raise Missing('field %s of %s' % (field, self.T[ty]['s']))
    def fnames(self, ty): return [f['n'] for f in self.T[ty]['variants'][0]['f']]
    def vno(self, ty, variant):
        for n, v in enumerate(self.T[ty]['variants']):
            if v['n'] == variant: return n
        raise Missing('variant %s of %s' % (variant, self.T[ty]['s']))

class OutOfTime(BaseException): pass

class Run:
    """one rule set's run: counters, violations"""
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.viol = []; self.seen = set()
        self.obl = 0; self.done = 0
        self.fnset = set(); self.paths = 0; self.steps = 0; self.callsites = set()
        self.loops = []; self.samples = []; self.rules = []; self.assume = []; self.leaves = {}
        self._cfg = {}; self.counts = {}
    @property
    def be(self): return self.cfg('be')
    @property
    def le(self): return self.cfg('le')
    def cfg(self, name):
        if name not in self._cfg: self._cfg[name] = Cfg(dump(name), name)
        return self._cfg[name]
    def cfgs(self): return [self.be, self.le]
    def rule(self, text): self.rules.append(text)
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(str(s)[:600])
    def V(self, key, text, fn=None, span=None, chain=()):
        """a violation; key identifies it independently of positions"""
        if key in self.seen: return
        self.seen.add(key)
        if not self.viol and getattr(self, 'deadline', None):       # found: little more time for the rest
            left = max(1, int(min(self.deadline - time.time(), 60)))
            signal.alarm(left)
        where = ''
        if fn is not None: where += ' in ' + fn
        if span: where += ' (%s)' % span
        if chain: where += ' via ' + ' -> '.join(sfn(c) for c in chain)
        self.viol.append((key, text + where))
    def ob(self, ok, key, text, fn=None, span=None, chain=()):
        self.obl += 1
        if ok: self.done += 1
        else: self.V(key, text, fn, span, chain)
        return bool(ok)
    def floor(self, what, n, least):
        """a rule that matches fewer instances than were confirmed by hand decides nothing"""
        self.counts[what] = n
        self.ob(n >= least, 'floor:' + what, 'only %d %s found, at least %d expected: the rule no longer covers the code' % (n, what, least))
    # ---- abstract interpretation of one function
    def analyse(self, cfg, inst, args=None, st=None, models=None, names=None, panics='report', **opts):
        """outcomes of the function over every argument (or the given abstract ones)"""
        if isinstance(inst, int): inst = cfg.I[inst]
        it = Interp(cfg.p, models or Models(), dict({'maxsteps': 1500000, **getattr(self, 'opts', {})}, **opts))
        b = inst['body']
        st = st or State()
        if args is None: args = [it.opq(b['locals'][n + 1], ('arg', n)) for n in range(b['argc'])]
        fn = sfn(inst['path'])
        try: outs = it.run_fn(inst['id'], args, st)
        except Unsupported as u:
            outs = []
            self.ob(False, 'undecided:%s:%s' % (fn, u), 'the property could not be established: %s' % u, fn)
        self.paths += len(outs); self.steps += it.steps
        self.obl += it.obligations
        self.done += it.obligations
        for v in it.visited:
            if cfg.I[v]['local']: self.fnset.add(sfn(cfg.I[v]['path']))
        for (a, c), n in it.calls.items():
            if cfg.I[a]['local']: self.callsites.add((a, c))
        for k, n in it.leaves.items(): self.leaves[k] = self.leaves.get(k, 0) + n
        self.loops += it.loops
        self.it = it
        good = []
        for o in outs:
            if o.kind == 'unsupported':
                self.ob(False, 'undecided:%s:%s' % (fn, o.msg), 'the property could not be established on a path: %s' % o.msg, fn, o.span, o.chain)
            elif o.kind == 'panic' and panics == 'report':
                self.ob(False, 'panic:%s:%s:%s' % (fn, sfn(o.chain[-1] if o.chain else ''), str(o.msg).split('(')[0]), 'a path can panic: %s' % (o.msg,), fn, o.span, o.chain)
            elif o.kind == 'panic' and panics == 'ignore': pass
            else: good.append(o)
        un = getattr(it, 'unmodelled', set())
        for u in un:
            self.ob(False, 'unmodelled:%s:%s' % (fn, u), 'a callee outside the analysed program and without a contract: %s' % u, fn)
        self.ob(bool(outs), 'no-path:' + fn, 'no path of the function could be analysed', fn)
        return good

# ------------------------------------------------------------------ main
def known():
    """accepted findings: key -> text"""
    out = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S.*?) :: (.*)$', l.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

def main(pid, tier, rulefn, level='other'):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    r = Run(pid, tier, seed)
    if tier == 'quick':
        def late(*_): raise OutOfTime()
        signal.signal(signal.SIGALRM, late)
        r.deadline = t0 + 720; signal.alarm(720)
    try: rulefn(r)
    except OutOfTime:
        r.deadline = None
        if not r.viol: r.ob(False, 'undecided:time', 'the property could not be established within the time allowed')
    except Missing as m:
        r.ob(False, 'anchor:%s' % m, 'an anchor of the rule is gone: %s' % m)
    except (Unsupported, NeedSplit, Dead) as u:
        if os.environ.get('VP_DEBUG'): raise
        r.ob(False, 'undecided:%s' % u, 'the property could not be established: %r' % u)
    except Exception as x:
        if os.environ.get('VP_DEBUG'): raise
        tb = traceback.format_exc().strip().split('\n')
        r.ob(False, 'undecided:internal', 'the property could not be established (%r; %s)' % (x, tb[-2].strip()))
    signal.alarm(0)
    kn = known()
    new = []
    hit = []
    for key, text in r.viol:
        if (pid, key) in kn: hit.append((key, text))
        else: new.append((key, text))
    rep = os.path.join(VERIF, 'out', pid + '.txt')
    with open(rep, 'w') as f:
        for key, text in new: f.write('VIOLATION %s\n  key: %s\n  %s\n' % (pid, key, text))
        for key, text in hit: f.write('KNOWN-FINDING %s\n  key: %s\n  %s\n' % (pid, key, text))
        f.write('analysed functions:\n')
        for n in sorted(r.fnset): f.write('  %s\n' % n)
    cov = {'explanation': 'static analysis of the type-checked monomorphic MIR of /repo; nothing is executed. Rules: ' + '; '.join(r.rules),
           'functions_analysed': len(r.fnset), 'function_names': sorted(r.fnset)[:500], 'local_call_edges': len(r.callsites), 'abstract_paths': r.paths, 'abstract_steps': r.steps,
           'obligations': r.obl, 'discharged': r.done, 'loops_summarised': len(r.loops), 'instances': r.counts, 'samples': r.samples or ['(none)'],
           'leaf_contracts_used': sorted(r.leaves)[:80]}
    if level == 'proof':
        cov['checker_cmd'] = './check %s' % pid
        cov['trusted_base'] = ['rustc nightly MIR construction', 'analysis/*.py', 'contracts in analysis/models.py']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': r.assume,
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for key, text in hit: print('KNOWN-FINDING: property=%s %s' % (pid, text))
    for key, text in new: print('VIOLATION property=%s replay=%s' % (pid, rep)); print('  [%s] %s' % (key, text))
    if not new: print('OK property=%s obligations=%d functions=%d paths=%d (%.1fs)' % (pid, r.obl, len(r.fnset), r.paths, time.time() - t0))
    return 1 if new else 0
