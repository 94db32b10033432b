"""Natural loops and their inductive summaries."""
from terms import *
from values import *
import interp as IP

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'assert': return [t[4]]
    if k == 'call': return [t[6]] if t[6] is not None and t[6] >= 0 else []
    return []

def dominators(n, preds, order):
    idom = {0: 0}
    num = {b: i for i, b in enumerate(order)}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0: continue
            ps = [p for p in preds[b] if p in idom]
            if not ps: continue
            x = ps[0]
            for y in ps[1:]:
                a, c = x, y
                while a != c:
                    while num[a] > num[c]: a = idom[a]
                    while num[c] > num[a]: c = idom[c]
                x = a
            if idom.get(b) != x: idom[b] = x; ch = True
    return idom

def cfg(fn):
    n = len(fn['blocks'])
    sc = [succs(b[1]) for b in fn['blocks']]
    seen = set(); order = []
    stack = [(0, iter(sc[0]))]; seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(sc[s]))); break
        else:
            order.append(b); stack.pop()
    order.reverse()
    preds = {b: [] for b in range(n)}
    for b in order:
        for s in sc[b]: preds[s].append(b)
    return sc, preds, order

def dominates(idom, a, b):
    while True:
        if a == b: return True
        if b == 0 or b not in idom: return False
        b = idom[b]

def analyse(fn):
    sc, preds, order = cfg(fn)
    idom = dominators(len(sc), preds, order)
    back = set(); body = {}
    for b in order:
        for s in sc[b]:
            if dominates(idom, s, b):
                back.add((b, s))
                bs = body.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x in bs: continue
                    bs.add(x); w.extend(preds[x])
    return {'heads': set(body), 'back': back, 'body': body, 'idom': idom, 'succ': sc, 'preds': preds, 'order': order, 'fn': fn}

class Ctx:
    """edge policy of one interpretation region"""
    def __init__(self, I, fr, li): self.I = I; self.fr = fr; self.li = li; self.work = []; self.outs = []
    def edge(self, st, tgt, src, lc):
        r = self.I.enter(st, self.fr, tgt, src, lc, self.li, self)
        if r is not None: self.work.append(r)
    def run(self):
        I = self.I
        while self.work:
            if len(self.work) + len(self.outs) > I.max_paths: raise IP.Limit('paths in ' + self.fr.fn['path'])
            st, bb, lc = self.work.pop()
            for r in I.block(st, self.fr, bb, lc, self.li):
                if r[0] == 'ret': self.ret(r[1])
                elif len(r) == 5: self.edge(r[1], r[2], r[3], r[4])
                else: self.edge(r[1], r[2], bb, lc)
    def ret(self, st): 
        v = st.mem.get(('L', self.fr.fid, 0))
        if v is None: v = self.I.zst(self.fr.fn['locals'][0])
        self.outs.append((st, v))

class Region(Ctx):
    def __init__(self, I, fr, li, head):
        Ctx.__init__(self, I, fr, li)
        self.head = head; self.body = li['body'][head]; self.backs = []; self.exits = []
    def edge(self, st, tgt, src, lc):
        if tgt == self.head: self.backs.append(st); return
        if tgt not in self.body: self.exits.append((st, tgt, src, lc)); return
        Ctx.edge(self, st, tgt, src, lc)

class Phi:
    def __init__(self): self.m = {}      # phi atom -> (entry Lin)

def merge(I, st, v, w, tid, ph, key):
    """value covering v (at entry) and w (at a back edge); ph collects numeric phis"""
    if v is w: return v
    if type(v) is type(w) and v == w: return v
    if isinstance(v, Lin) and isinstance(w, Lin):
        if len(v.t) == 1 and v.c == 0 and v.t[0][0] in ph.m: return v
        k = key
        if k in ph.m2: return lin(ph.m2[k])
        a = IP.fresh('phi', -INF, INF, True)
        ph.m[a] = v; ph.m2[k] = a
        return lin(a)
    if isinstance(v, Cond) and isinstance(w, Cond):
        return c_atom(IP.fresh('phib', 0, 1, True))
    if isinstance(v, Agg) and isinstance(w, Agg) and v.ty == w.ty and v.var == w.var and len(v.fs) == len(w.fs):
        return Agg(v.ty, v.var, [merge(I, st, a, b, None, ph, key + (i,)) for i, (a, b) in enumerate(zip(v.fs, w.fs))])
    if isinstance(v, ItV) and isinstance(w, ItV) and v.kind == w.kind:
        return ItV(v.kind, *[merge(I, st, a, b, None, ph, key + (i,)) for i, (a, b) in enumerate(zip(v.d, w.d))])
    if isinstance(v, RefV) and isinstance(w, RefV):
        if v.base == w.base and len(v.path) == len(w.path) and all(p[0] == q[0] for p, q in zip(v.path, w.path)):
            path = []
            for i, (p, q) in enumerate(zip(v.path, w.path)):
                if p == q: path.append(p)
                elif p[0] == 'i': path.append(('i', merge(I, st, p[1], q[1], None, ph, key + ('p', i))))
                else: raise IP.Undecided('merge refs')
            view = None
            if v.view and w.view: view = tuple(merge(I, st, a, b, None, ph, key + ('w', i)) for i, (a, b) in enumerate(zip(v.view, w.view)))
            return RefV(v.base, tuple(path), view)
        if tid is not None and tid >= 0: return I.fresh_value(tid, 'phir')
        raise IP.Undecided('merge of references')
    if isinstance(v, (Agg, SymV)) and isinstance(w, (Agg, SymV)) and v.ty == w.ty:
        if isinstance(v, SymV) and v.name.startswith('h#phi'): return v
        I.hc += 1
        return SymV('h#phi#%d' % I.hc, v.ty, True)
    if isinstance(v, SeqV) and isinstance(w, SeqV):
        lv, lw = v.length(), w.length()
        if st is not None and lv == lw: return SeqV((('m', None, lv),), v.ety)
        k = key + ('len',)
        n = len(v.segs)
        # already widened: prefix + fresh tail
        if v.segs and v.segs[-1][0] == 'm' and len(v.segs[-1]) > 2 and v.segs[-1][2].single() is not None and v.segs[-1][2].single() in ph.m:
            if w.segs[:n - 1] == v.segs[:-1]:
                return v if v.segs[-1][1] is None or all(s[1] == v.segs[-1][1] for s in w.segs[n - 1:] if s[0] != 's') and not any(s[0] == 's' for s in w.segs[n - 1:]) else SeqV(v.segs[:-1] + (('m', None, v.segs[-1][2]),), v.ety)
            a = IP.fresh('len', 0, INF, True); ph.m[a] = lv
            return SeqV((('m', None, lin(a)),), v.ety)
        if w.segs[:n] == v.segs and len(w.segs) > n:
            a = IP.fresh('grow', 0, INF, True); ph.m[a] = const(0)
            tail = w.segs[n:]
            u = tail[0][1] if tail[0][0] != 's' else None
            same = u is not None and all(s[0] != 's' and s[1] == u for s in tail)
            return SeqV(v.segs + (('m', u if same else None, lin(a)),), v.ety)
        if k in ph.m2: a = ph.m2[k]
        else:
            a = IP.fresh('len', 0, INF, True); ph.m[a] = lv; ph.m2[k] = a
        return SeqV((('m', None, lin(a)),), v.ety)
    if isinstance(v, OpV) and isinstance(w, OpV):
        if v.op == 'phi': return v
        I.hc += 1
        if v.op == 'str' or w.op == 'str':
            if v.op == 'str' and v.imp and v.args and v.args[0][0] == 'phi': return v
            return OpV('str', (('phi', I.hc),), imp=True)
        return OpV('phi', (I.hc,), imp=True)
    if tid is not None and tid >= 0:
        return I.fresh_value(tid, 'phi')
    raise IP.Undecided('merge %r / %r' % (v, w))

def phival(v, w, a):
    """value of phi atom a (occurring in shape v) in concrete w: list of Lin"""
    if isinstance(v, Lin):
        if v.single() is a: return w if isinstance(w, Lin) else None
        return None
    if isinstance(v, Agg) and isinstance(w, Agg):
        for x, y in zip(v.fs, w.fs):
            r = phival(x, y, a)
            if r is not None: return r
    if isinstance(v, ItV) and isinstance(w, ItV):
        for x, y in zip(v.d, w.d):
            r = phival(x, y, a)
            if r is not None: return r
    if isinstance(v, RefV) and isinstance(w, RefV):
        for p, q in zip(v.path, w.path):
            if p[0] == 'i' and q[0] == 'i':
                r = phival(p[1], q[1], a)
                if r is not None: return r
        if v.view and w.view:
            for x, y in zip(v.view, w.view):
                r = phival(x, y, a)
                if r is not None: return r
    if isinstance(v, SeqV) and isinstance(w, SeqV):
        if v.segs and v.segs[-1][0] == 'm' and v.segs[-1][2].single() is a:
            n = len(v.segs) - 1
            if w.segs[:n] == v.segs[:n]:
                return sub(w.length(), SeqV(v.segs[:n], v.ety).length())
            if n == 0: return w.length()
            return None
    return None

def in_value(v, a):
    return phival(v, v, a) is not None

def subst(x, m):
    """substitute atoms of a Lin by Lins (linear occurrences only)"""
    r = const(x.c)
    for a, k in x.t: r = add(r, scale(m.get(a, lin(a)), k))
    return r

def summarise(I, st0, fr, head, lc, li, ctx):
    saved = I.record
    I.record = 0
    try:
        ph = Phi(); ph.m2 = {}
        shape = {}                     # base -> widened value
        lc_in = {k: v for k, v in lc.items() if k not in li['body'][head]}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 14: raise IP.Limit('loop widening in ' + fr.fn['path'])
            s = st0.copy()
            for b, v in shape.items(): s.mem[b] = v
            assume_basic(I, s, fr, ph, shape)
            reg = Region(I, fr, li, head)
            reg.work.append((s, head, dict(lc_in)))
            reg.run()
            changed = False
            for be in reg.backs:
                for b, w in be.mem.items():
                    v = shape.get(b, st0.mem.get(b))
                    if v is None: continue        # created inside the iteration
                    if b[0] == 'L' and b[1] != fr.fid and b[1] > fr.fid: continue
                    if v == w: continue
                    if b[0] == 'L' and b[1] == fr.fid and dead_at(fr, li, head, b[2]): 
                        continue
                    tid = fr.fn['locals'][b[2]] if b[0] == 'L' and b[1] == fr.fid else None
                    m = merge(I, s, v, w, tid, ph, (b,))
                    if m != v: shape[b] = m; changed = True
            if not changed: break
        # locals assigned in the body and dead at the head carry no value
        for b in [b for b in st0.mem if b[0] == 'L' and b[1] == fr.fid and dead_at(fr, li, head, b[2])]:
            pass
        phis = [a for a in ph.m if any(in_value(v, a) for v in shape.values())]
        # candidate invariants: list of Lins l meaning l <= 0, over phis and entry atoms
        cands = []
        entry = {}
        where = {}
        for a in phis:
            for b, v in shape.items():
                if in_value(v, a):
                    where[a] = b
                    e = phival(v, st0.mem[b], a) if b in st0.mem else None
                    if e is None: e = ph.m[a]
                    entry[a] = e
                    break
        steps = {}
        for a in phis:
            ds = set()
            for be in reg.backs:
                w = be.mem.get(where[a])
                nv = phival(shape[where[a]], w, a) if w is not None else None
                ds.add(sub(nv, lin(a)) if nv is not None else None)
            if len(ds) == 1 and None not in ds:
                d, = ds
                if d.is_const(): steps[a] = d.c
        for a in phis:
            e = entry[a]
            cands.append(sub(e, lin(a))); cands.append(sub(lin(a), e))
            if a in steps: a.imp = False
        for i, a in enumerate(phis):
            for b in phis[i + 1:]:
                if a in steps and b in steps:
                    da, db = steps[a], steps[b]
                    # db*(a-ea) == da*(b-eb)
                    x = sub(scale(sub(lin(a), entry[a]), db), scale(sub(lin(b), entry[b]), da))
                    cands.append(x); cands.append(neg(x))
                else:
                    for x in (sub(sub(lin(a), entry[a]), sub(lin(b), entry[b])),):
                        cands.append(x); cands.append(neg(x))
        cands += structural(I, st0, shape, phis)
        # guards seen on the way to the back edges bound the phis
        for be in reg.backs:
            for c in be.cons[len(s.cons):]:
                if any(x in phis for x in c.atoms()):
                    # weaken  l <= 0 (before the step) to the value after one step
                    for k in (0, 1):
                        cands.append(add(c, const(-k)))
                    for a2, q in c.t:
                        if a2 in steps and q > 0: cands.append(add(c, const(-q * steps[a2])))
            for a in phis:
                if a in be.bnd:
                    lo, hi = be.bnd[a]
                    stp = steps.get(a, 0)
                    if hi < INF: cands.append(sub(lin(a), const(hi + max(stp, 0))))
                    if lo > -INF: cands.append(sub(const(lo + min(stp, 0)), lin(a)))
        uniq = []
        for c in cands:
            if c not in uniq: uniq.append(c)
        cands = [c for c in uniq if c.t and st0.decide(c_le(subst(c, entry)), 4) is True]
        for it in range(12):
            s = st0.copy()
            for b, v in shape.items(): s.mem[b] = v
            assume_basic(I, s, fr, ph, shape)
            for c in cands: s.assume(c_le(c))
            reg = Region(I, fr, li, head)
            reg.work.append((s, head, dict(lc_in)))
            reg.run()
            drop = []
            for c in cands:
                for be in reg.backs:
                    m = {}
                    bad = False
                    for a in c.atoms():
                        if a in where:
                            w = be.mem.get(where[a]); nv = phival(shape[where[a]], w, a) if w is not None else None
                            if nv is None: bad = True; break
                            m[a] = nv
                    if bad or be.decide(c_le(subst(c, m)), 4) is not True: drop.append(c); break
            if not drop: break
            cands = [c for c in cands if c not in drop]
        else: cands = []
        # the shape must cover every back edge
    finally:
        I.record = saved
    s = st0.copy()
    for b, v in shape.items(): s.mem[b] = v
    assume_basic(I, s, fr, ph, shape)
    for c in cands: s.assume(c_le(c))
    I.loop_log.append((fr.fn['path'], head, len(phis), len(cands)))
    reg = Region(I, fr, li, head)
    reg.work.append((s, head, dict(lc_in)))
    reg.run()
    for s2, v in reg.outs: ctx.outs.append((s2, v))
    for s2, tgt, src, lc2 in reg.exits:
        ctx.edge(s2, tgt, src, {k: v for k, v in lc2.items() if k != head})

def assume_basic(I, s, fr, ph, shape):
    """type ranges of the phis held in typed locals"""
    for b, v in shape.items():
        if b[0] == 'L' and b[1] == fr.fid:
            ranges(I, s, v, fr.fn['locals'][b[2]])
        else: ranges(I, s, v, None)
def ranges(I, s, v, tid):
    if isinstance(v, Lin):
        if tid is not None:
            ii = I.intinfo(I.ty(tid))
            if ii and v.single() is not None:
                lo, hi = IP.int_range(*ii); s._set_bnd(v.single(), lo, hi)
    elif isinstance(v, Agg):
        t = I.ty(v.ty) if isinstance(v.ty, int) and v.ty >= 0 else None
        if t is None: return
        if t['k'] == 'adt':
            for x, (_, ft) in zip(v.fs, t['v'][v.var]['f']): ranges(I, s, x, ft)
        elif t['k'] == 'tuple':
            for x, ft in zip(v.fs, t['f']): ranges(I, s, x, ft)
        elif t['k'] == 'closure':
            for x, ft in zip(v.fs, t['ups']): ranges(I, s, x, ft)
    elif isinstance(v, ItV):
        for x in v.d:
            if isinstance(x, (Lin,)) and x.single() is not None: s._set_bnd(x.single(), 0, IP.MAXLEN)
            else: ranges(I, s, x, None)
    elif isinstance(v, SeqV):
        for seg in v.segs:
            if seg[0] == 'm' and seg[2].single() is not None: s._set_bnd(seg[2].single(), 0, IP.MAXLEN)

def structural(I, st0, shape, phis):
    out = []
    def walk(v):
        if isinstance(v, ItV):
            if v.kind in ('slice', 'chunks'): out.append(sub(v.d[1], v.d[2])); out.append(neg(v.d[1]))
            if v.kind == 'into': out.append(sub(v.d[1], v.d[0].length()))
            if v.kind == 'take': out.append(neg(v.d[1]))
            for x in v.d: walk(x)
        elif isinstance(v, Agg):
            t = I.ty(v.ty) if isinstance(v.ty, int) and v.ty >= 0 else None
            if t and t['k'] == 'adt' and t['path'].split('::')[-1] in ('Range', 'RangeInclusive') and isinstance(v.fs[0], Lin):
                out.append(sub(v.fs[0], v.fs[1]))
            for x in v.fs: walk(x)
    for v in shape.values(): walk(v)
    return out

_live = {}
def dead_at(fr, li, head, local):
    """local is assigned before any use on every path from head (within the function)"""
    k = (id(fr.fn), head)
    r = _live.get(k)
    if r is None:
        r = live_in(fr.fn, li); _live[k] = r
    return local not in r[head]
_lv = {}
def live_in(fn, li):
    r = _lv.get(id(fn))
    if r is not None: return r
    n = len(fn['blocks'])
    use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
    addr = set()
    def pl_use(p, u, d, write=False):
        if write and not p[1]:
            d.add(p[0])
            return
        if p[0] not in d: u.add(p[0])
        for e in p[1]:
            if isinstance(e, (list, tuple)) and e[0] == 'i' and e[1] not in d: u.add(e[1])
    def op_use(o, u, d):
        if o[0] in ('c', 'm'): pl_use(o[1], u, d)
    for i, bb in enumerate(fn['blocks']):
        u, d = use[i], df[i]
        for s in bb[0]:
            if s[0] == '=':
                rv = s[2]; k = rv[0]
                if k in ('use', 'rep'): op_use(rv[1], u, d)
                elif k in ('ref', 'addr'):
                    pl_use(rv[2], u, d)
                    if not any(e == '*' for e in rv[2][1]): addr.add(rv[2][0])
                elif k in ('bin', 'chk'): op_use(rv[2], u, d); op_use(rv[3], u, d)
                elif k in ('un', 'cast'): op_use(rv[2], u, d)
                elif k in ('discr', 'len'): pl_use(rv[1], u, d)
                elif k == 'agg':
                    for o in rv[4]: op_use(o, u, d)
                pl_use(s[1], u, d, True)
            elif s[0] == 'sd': pl_use(s[1], u, d)
            elif s[0] == 'assume': op_use(s[1], u, d)
        t = bb[1]
        if t[0] == 'switch': op_use(t[1], u, d)
        elif t[0] == 'drop': pass
        elif t[0] == 'assert': op_use(t[1], u, d)
        elif t[0] == 'call':
            if t[1][0] != 'def': op_use(t[1][1], u, d)
            for o in t[2]: op_use(o, u, d)
            pl_use(t[4], u, d, True)
        elif t[0] == 'ret':
            if 0 not in d: u.add(0)
    live = [set(x) for x in use]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in li['succ'][i]: o |= live[s]
            new = use[i] | (o - df[i])
            if new != live[i]: live[i] = new; ch = True
    for s in live: s |= addr
    _lv[id(fn)] = live
    return live
