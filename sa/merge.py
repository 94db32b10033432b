"""Joining the two sides of an undecided branch again where they meet.

Opt-in (Interp.merging): at a two-way branch whose sides come together again inside the same loop
body, both sides are interpreted up to the meeting point; when they leave memory that differs in
integers by a constant (or in truth values) only, the two states become one with values b + (a-b)*[c]."""
from terms import *
from values import *
import loops

class No(Exception): pass

def info(fn, li):
    if 'pd' in li: return li
    n = len(fn['blocks'])
    rets = [b for b in li['order'] if fn['blocks'][b][1][0] == 'ret']
    sc = li['succ']; preds = li['preds']
    # blocks that can reach a return
    can = set(rets); w = list(rets)
    while w:
        for p in preds[w.pop()]:
            if p not in can: can.add(p); w.append(p)
    EX = n
    full = set(can) | {EX}
    pd = {b: set(full) for b in can}; pd[EX] = {EX}
    ch = True
    po = list(reversed(li['order']))
    while ch:
        ch = False
        for b in po:
            if b not in can: continue
            ss = [s for s in sc[b] if s in can]
            if fn['blocks'][b][1][0] == 'ret': ss = ss + [EX]
            x = set.intersection(*[pd[s] for s in ss]) if ss else set(full)
            x.add(b)
            if x != pd[b]: pd[b] = x; ch = True
    ip = {}
    for b in can:
        c = pd[b] - {b}
        # the immediate one is post-dominated by all the others
        for x in c:
            if x != EX and len(pd[x]) == len(c): ip[b] = x
    li['pd'] = ip
    li['live'] = None
    return li

def region(li, bb, J):
    r = set(); w = [s for s in li['succ'][bb]]
    while w:
        b = w.pop()
        if b == J or b in r: continue
        r.add(b)
        if len(r) > 80 or b == bb: return None
        w.extend(li['succ'][b])
    for h in li['body']:
        if h in r and bb in li['body'][h]: return None
    return r

def target(I, fn, li, bb):
    info(fn, li)
    c = li.setdefault('meet', {})
    if bb not in c:
        J = li['pd'].get(bb)
        c[bb] = J if J is not None and region(li, bb, J) is not None else None
    return c[bb]

class Side(loops.Ctx):
    def __init__(self, I, fr, li, J): loops.Ctx.__init__(self, I, fr, li); self.J = J; self.at = []
    def edge(self, st, tgt, src, lc):
        if tgt == self.J: self.at.append((st, src, lc)); return
        loops.Ctx.edge(self, st, tgt, src, lc)

def vmerge(I, a, b, c):
    """the value a where c holds and b where it does not"""
    if a is b: return a
    if type(a) is not type(b): raise No
    if isinstance(a, tuple):
        if len(a) != len(b): raise No
        return tuple(vmerge(I, x, y, c) for x, y in zip(a, b))
    if a == b: return a
    if isinstance(a, Lin):
        d = sub(a, b)
        if not d.is_const(): raise No
        return add(b, scale(I.as_lin(c), d.c))
    if isinstance(a, Cond): return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, Agg):
        if a.ty != b.ty or a.var != b.var or len(a.fs) != len(b.fs): raise No
        return Agg(a.ty, a.var, [vmerge(I, x, y, c) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, SeqV):
        if len(a.segs) != len(b.segs): raise No
        segs = []
        for x, y in zip(a.segs, b.segs):
            if x == y: segs.append(x); continue
            if x[0] != 'e' or y[0] != 'e': raise No
            segs.append(('e', vmerge(I, x[1], y[1], c)))
        return SeqV(segs, a.ety)
    if isinstance(a, ItV):
        if a.kind != b.kind: raise No
        return ItV(a.kind, *vmerge(I, a.d, b.d, c))
    raise No

def live_in(fn, li, J):
    """locals that may be read at or after block J (mention-based, flow-insensitive past J)"""
    c = li.setdefault('livec', {})
    if J in c: return c[J]
    seen = {J}; w = [J]
    while w:
        b = w.pop()
        for s in li['succ'][b]:
            if s not in seen: seen.add(s); w.append(s)
    gen = {}; kill = {}
    for b in seen: gen[b], kill[b] = uses(fn['blocks'][b])
    live = {b: set() for b in seen}
    ch = True
    while ch:
        ch = False
        for b in seen:
            o = set()
            for s in li['succ'][b]: o |= live[s]
            x = gen[b] | (o - kill[b])
            if x != live[b]: live[b] = x; ch = True
    taken = set()
    for blk in fn['blocks']:
        for s in blk[0]:
            if s[0] == '=' and s[2][0] in ('ref', 'addr'): taken.add(s[2][2][0])
    c[J] = live[J] | taken | {0}
    return c[J]

def mentions(x, acc):
    """places are [local, projections]; collect every local mentioned"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], (list, tuple)):
            acc.add(x[0])
        for y in x: mentions(y, acc)
        # an index projection names its local directly
        if len(x) == 2 and x and x[0] in ('i', 'index', 'idx') and isinstance(x[1], int): acc.add(x[1])

def uses(blk):
    gen = set(); kill = set()
    for s in blk[0]:
        acc = set()
        if s[0] == '=':
            mentions(s[2], acc)
            if s[1][1]: acc.add(s[1][0]); mentions(s[1][1], acc)
        else: mentions(s[1:], acc)
        gen |= acc - kill
        if s[0] == '=' and not s[1][1]: kill.add(s[1][0])
    t = blk[1]
    acc = set()
    if t[0] == 'call':
        mentions(t[1:4], acc)
        if t[4][1]: mentions([t[4]], acc)
        gen |= acc - kill
        if not t[4][1]: kill.add(t[4][0])
    elif t[0] == 'ret':
        gen |= {0} - kill
    elif t[0] == 'drop': pass
    else:
        mentions(t, acc); gen |= acc - kill
    return gen, kill

def join(I, fr, li, J, pre, a, b, c):
    """one state for a (where c holds) and b (where it does not)"""
    if a.log != b.log or a.tag != b.tag: raise No
    live = live_in(fr.fn, li, J)
    s = pre.copy()
    mem = {}
    for k in a.mem:
        if k not in b.mem:
            if k[0] != 'L': mem[k] = a.mem[k]
            continue
        x = a.mem[k]; y = b.mem[k]
        if x is y or x == y: mem[k] = x; continue
        try: mem[k] = vmerge(I, x, y, c)
        except No:
            if k[0] == 'L' and k[1] == fr.fid and k[2] not in live: continue
            raise
    for k in b.mem:
        if k not in a.mem and k[0] != 'L': mem[k] = b.mem[k]
    s.mem = mem
    s.facts = pre.facts | (a.facts & b.facts)
    bc = set(b.cons)
    have = set(pre.cons)
    s.cons = tuple(pre.cons) + tuple(x for x in a.cons if x in bc and x not in have)
    for k, (lo, hi) in a.bnd.items():
        if k in b.bnd:
            l2, h2 = b.bnd[k]; n = (min(lo, l2), max(hi, h2))
            s.bnd[k] = n if k not in pre.bnd else (max(n[0], pre.bnd[k][0]), min(n[1], pre.bnd[k][1]))
    for k, m in a.vset.items():
        if k in b.vset and k not in pre.vset: s.vset[k] = m | b.vset[k]
    s.ivm = {}
    return s

def switch(I, st, fr, bb, lc, li, ta, tb, a, b, c):
    """both sides (state, block) of a branch on c; None when they do not meet inside the loop body"""
    J = target(I, fr.fn, li, bb)
    if J is None: return None
    pre = st
    res = []
    for s, t in ((a, ta), (b, tb)):
        x = Side(I, fr, li, J)
        x.edge(s, t, bb, dict(lc))
        x.run()
        if x.outs: return None
        res.append(x.at)
    if len(res[0]) == 1 and len(res[1]) == 1:
        (sa, ra, la), (sb, rb, lb) = res[0][0], res[1][0]
        try:
            m = join(I, fr, li, J, pre, sa, sb, c)
            I.merged = getattr(I, 'merged', 0) + 1
            return [('go', m, J, ra if (ra, J) in li['back'] else rb, la)]
        except No: pass
    out = []
    n = len(res[0]) + len(res[1])
    for side in res:
        for s, src, l in side:
            out.append(('go', s, J, src, l))
    return out
