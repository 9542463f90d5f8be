"""The resolved program: types, monomorphic MIR bodies, constants (produced by the driver)."""
import json, sys

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.T = d['types']
        self.I = {i['id']: i for i in d['insts']}
        self.allocs = d['allocs']
        self.consts = d['consts']; self.statics = d['statics']; self.impls = d['impls']
        self.adts = d['adts']; self.fns = d['fns']; self.skipped = d['skipped']
        self.tyid = {}
        for n, t in enumerate(self.T): self.tyid.setdefault(t['s'], n)
        self._loops = {}
        self._live = {}
        self._uninh = {}
    def ty(self, s): return self.tyid.get(s)
    def ts(self, t): return self.T[t]['s']
    def find(self, path, targs=None):
        """instances of a path (exact)"""
        r = []
        for i in self.d['insts']:
            if i['path'] == path and i.get('body') and i['kind'] == 'item':
                if targs is None or [self.T[t]['s'] if isinstance(t, int) else t for t in i['targs']] == targs:
                    r.append(i)
        return r
    def uninhabited(self, t):
        r = self._uninh.get(t)
        if r is None:
            self._uninh[t] = False
            x = self.T[t]
            k = x['k']
            if k == 'never': r = True
            elif k == 'adt' and x['kind'] == 'enum':
                r = all(any(self.uninhabited(f['t']) for f in v['f']) for v in x['variants'])
            elif k == 'adt' and x['kind'] == 'struct':
                r = any(self.uninhabited(f['t']) for f in x['variants'][0]['f'])
            elif k == 'tuple': r = any(self.uninhabited(f) for f in x['fields'])
            else: r = False
            self._uninh[t] = r
        return r
    def discrs(self, t):
        """[(variant, discriminant value)] of the inhabited variants"""
        x = self.T[t]
        dt = self.T[x['discr_ty']] if x.get('discr_ty') is not None else None
        r = []
        for n, v in enumerate(x['variants']):
            if any(self.uninhabited(f['t']) for f in v['f']): continue
            d = int(v['d'])
            if dt and dt['k'] == 'int' and dt['signed'] and d >= 1 << (dt['bits'] - 1): d -= 1 << dt['bits']
            r.append((n, d))
        return r

    # ---------------------------------------------------------------- control flow
    def succs(self, blk):
        t = blk['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop': return [t[3]] if t[3] is not None else []
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[5]]
        return []
    def loops(self, inst):
        """header -> set of blocks (natural loops of the non-unwinding control flow graph)"""
        r = self._loops.get(inst)
        if r is not None: return r
        bl = self.I[inst]['body']['blocks']
        n = len(bl)
        suc = [self.succs(b) for b in bl]
        seen = []; mark = set(); st = [(0, iter(suc[0]))]; mark.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in mark:
                    mark.add(s); st.append((s, iter(suc[s]))); break
            else:
                seen.append(b); st.pop()
        order = seen[::-1]; num = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in suc[b]: pred[s].append(b)
        dom = {0: 0}; ch = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = dom[a]
                while num[b] > num[a]: b = dom[b]
            return a
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in dom]
                x = ps[0]
                for p in ps[1:]: x = inter(p, x)
                if dom.get(b) != x: dom[b] = x; ch = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = dom[b]
        r = {}; irr = False
        for b in order:
            for s in suc[b]:
                if num[s] <= num[b]:
                    if dominates(s, b):
                        body = r.setdefault(s, {s})
                        todo = [b]
                        while todo:
                            x = todo.pop()
                            if x in body: continue
                            body.add(x); todo += pred[x]
                    else: irr = True
        self._loops[inst] = r
        if irr: r['irreducible'] = True
        return r
