"""Abstract state: memory + relational numeric facts, with entailment."""
from terms import *

def full_mask(lo, hi):
    return ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
def mask_bounds(m):
    lo = (m & -m).bit_length() - 1
    return lo, m.bit_length() - 1
def mask_vals(m):
    out = []; i = 0
    while m:
        if m & 1: out.append(i)
        m >>= 1; i += 1
    return out

def is_small(a): return a.lo >= 0 and a.hi <= 255

_SE = {}          # (condition, value set) -> its value on all of the set
class State:
    __slots__ = ('mem', 'bnd', 'vset', 'neq', 'cons', 'facts', 'log', 'ivm', 'tag')
    def __init__(self):
        self.mem = {}; self.bnd = {}; self.vset = {}; self.neq = {}
        self.cons = (); self.facts = frozenset(); self.log = (); self.ivm = {}; self.tag = ()
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.bnd = dict(self.bnd); s.vset = dict(self.vset); s.neq = dict(self.neq)
        s.cons = self.cons; s.facts = self.facts; s.log = self.log; s.ivm = {}; s.tag = self.tag
        return s

    # ---------------------------------------------------------- intervals
    def aiv(self, a):
        r = self.ivm.get(a)
        if r is not None: return r
        lo, hi = a.lo, a.hi
        b = self.bnd.get(a)
        if b is not None: lo = max(lo, b[0]); hi = min(hi, b[1])
        m = self.vset.get(a)
        if m:
            l, h = mask_bounds(m); lo = max(lo, l); hi = min(hi, h)
        if a.op is not None:
            l, h = self.opiv(a)
            lo = max(lo, l); hi = min(hi, h)
        self.ivm[a] = (lo, hi)
        return lo, hi
    def opiv(self, a):
        op = a.op
        if op == 'mul':
            l1, h1 = self.iv(a.args[0]); l2, h2 = self.iv(a.args[1])
            c = [_m(l1, l2), _m(l1, h2), _m(h1, l2), _m(h1, h2)]
            return min(c), max(c)
        if op == 'div':
            l1, h1 = self.iv(a.args[0]); l2, h2 = self.iv(a.args[1])
            if l2 > 0 and l1 >= 0:
                return (0 if h2 == INF else l1 // h2), (INF if h1 == INF else h1 // l2)
            if l2 > 0:
                m = max(abs(l1), abs(h1)); return (0 if l1 >= 0 else -abs(l1)), max(h1, 0)
            return -INF, INF
        if op == 'rem':
            l1, h1 = self.iv(a.args[0]); l2, h2 = self.iv(a.args[1])
            if l2 > 0:
                m = h2 - 1
                return (0 if l1 >= 0 else -m), min(m, h1) if l1 >= 0 else m
            return -INF, INF
        if op in ('and',):
            l1, h1 = self.iv(a.args[0]); l2, h2 = self.iv(a.args[1])
            if l1 >= 0 and l2 >= 0: return 0, min(h1, h2)
            if l2 >= 0: return 0, h2
            if l1 >= 0: return 0, h1
            return -INF, INF
        if op in ('or', 'xor'):
            l1, h1 = self.iv(a.args[0]); l2, h2 = self.iv(a.args[1])
            if l1 >= 0 and l2 >= 0 and h1 < INF and h2 < INF:
                return (max(l1, l2) if op == 'or' else 0), (1 << max(int(h1).bit_length(), int(h2).bit_length())) - 1
            return -INF, INF
        if op == 'min':
            l1, h1 = self.iv(a.args[0]); l2, h2 = self.iv(a.args[1]); return min(l1, l2), min(h1, h2)
        if op == 'max':
            l1, h1 = self.iv(a.args[0]); l2, h2 = self.iv(a.args[1]); return max(l1, l2), max(h1, h2)
        if op == 'clamp':
            l1, h1 = self.iv(a.args[0]); lo, hi = a.args[1], a.args[2]
            return max(lo, min(hi, l1)), max(lo, min(hi, h1))
        if op == 'ite':
            l1, h1 = self.iv(a.args[1]); l2, h2 = self.iv(a.args[2]); return min(l1, l2), max(h1, h2)
        return -INF, INF
    def iv(self, x):
        lo = hi = x.c
        for a, k in x.t:
            l, h = self.aiv(a)
            if k > 0: lo += _m(k, l); hi += _m(k, h)
            else: lo += _m(k, h); hi += _m(k, l)
        return lo, hi
    def ub(self, x): return self.iv(x)[1]
    def lb(self, x): return self.iv(x)[0]

    # ---------------------------------------------------------- entailment
    def le(self, g, depth=4):
        """entails g <= 0"""
        if self.ub(g) <= 0: return True
        if not g.t: return False
        if self._single_eval(c_le(g)) is True: return True
        if len(g.t) == 1:
            a, q = g.t[0]
            if a.op == 'div' and q in (1, -1) and not a.args[1].is_const() and self.nn(a.args[0]) and self.lb(a.args[1]) >= 1 and depth > 1:
                # x/y <= k  <=>  x < (k+1)*y;   x/y >= k  <=>  x >= k*y
                if q == 1 and -4096 < g.c <= 0 and self.le(add(sub(a.args[0], scale(a.args[1], 1 - g.c)), const(1)), depth - 1): return True
                if q == -1 and 0 < g.c < 4096 and self.le(sub(scale(a.args[1], g.c), a.args[0]), depth - 1): return True
        cons = self._cons_for(g)
        return self._fm(g, cons, depth, set())
    def _cons_for(self, g):
        cons = list(self.cons)
        # product lemmas: for mul atoms in the goal, multiply constraints on a factor
        muls = [a for a in g.atoms() if a.op == 'mul']
        for c in self.cons:
            for a in c.atoms():
                if a.op == 'mul' and a not in muls: muls.append(a)
        # division: k*d <= x <= k*d + k-1
        done = set()
        def addop(a):
            if a in done: return
            done.add(a)
            if a.op == 'div' and a.args[1].is_const() and a.args[1].c > 0 and self.nn(a.args[0]):
                k = a.args[1].c
                cons.append(sub(scale(lin(a), k), a.args[0]))
                cons.append(add(sub(a.args[0], scale(lin(a), k)), const(-(k - 1))))
            elif a.op == 'div' and self.nn(a.args[0]) and self.lb(a.args[1]) >= 1:
                cons.append(sub(lin(a), a.args[0]))
                l, h = self.aiv(a)
                if h < 4096: cons.append(add(sub(a.args[0], scale(a.args[1], h + 1)), const(1)))
                if 0 < l < 4096: cons.append(sub(scale(a.args[1], l), a.args[0]))
            elif a.op == 'rem' and self.lb(a.args[0]) >= 0 and self.lb(a.args[1]) > 0:
                cons.append(sub(lin(a), a.args[0]))
                cons.append(add(sub(lin(a), a.args[1]), const(1)))
            elif a.op == 'clamp':
                e, lo, hi = a.args
                if self.ub(e) <= hi:
                    cons.append(sub(e, lin(a)))                                     # e <= clamp
                    if self.nn(sub(e, const(lo))): cons.append(sub(lin(a), e))      # e >= lo: clamp = e
                    elif self.nn(sub(const(lo), e)): cons.append(sub(lin(a), const(lo)))
            elif a.op == 'and':
                for x in a.args[:2]:
                    if self.lb(x) >= 0: cons.append(sub(lin(a), x))
            elif a.op == 'min':
                cons.append(sub(lin(a), a.args[0])); cons.append(sub(lin(a), a.args[1]))
            elif a.op == 'max':
                cons.append(sub(a.args[0], lin(a))); cons.append(sub(a.args[1], lin(a)))
                if self.le_iv(sub(a.args[0], a.args[1])): cons.append(sub(lin(a), a.args[1]))
                if self.le_iv(sub(a.args[1], a.args[0])): cons.append(sub(lin(a), a.args[0]))
        for a in g.atoms():
            if a.op: addop(a)
        for c in list(cons):
            for a in c.atoms():
                if a.op: addop(a)
        if muls:
            base = list(cons)
            for m in muls[:12]:
                for x, y in ((m.args[0], m.args[1]), (m.args[1], m.args[0])):
                    if self.lb(y) < 0: continue
                    xa = set(x.atoms())
                    for c in base:
                        if any(a in xa for a in c.atoms()):
                            p = mul_lin(self, c, y)
                            if p is not None: cons.append(p)
                    # bounds of x times y
                    l, h = self.iv(x)
                    if h < INF: cons.append(add(lin(m), scale(y, -h)))
                    if l > -INF: cons.append(add(scale(y, l), neg(lin(m))))
        return cons
    def nn(self, x):
        """cheap proof of x >= 0"""
        if self.lb(x) >= 0: return True
        n = neg(x)
        if any(c.t == n.t and c.c >= n.c for c in self.cons): return True
        for a, k in x.t:
            if a.op == 'clamp' and k < 0 and self.ub(a.args[0]) <= a.args[2]:       # -k*clamp with clamp = lo or e
                e, lo, _ = a.args; r = sub(x, scale(lin(a), k))
                if self.nn(sub(const(lo), e)) and self.nn(add(r, const(k * lo))): return True
                if self.nn(sub(e, const(lo))) and self.nn(add(r, scale(e, k))): return True
            if a.op == 'clamp' and k > 0 and self.ub(a.args[0]) <= a.args[2]:       # clamp >= e
                if self.nn(add(sub(x, scale(lin(a), k)), scale(a.args[0], k))): return True
        return False
    def le_iv(self, g): return self.ub(g) <= 0
    def _fm(self, g, cons, depth, seen):
        if self.ub(g) <= 0: return True
        if depth == 0 or g in seen: return False
        seen.add(g)
        # candidate atoms ordered by how much they hurt
        order = []
        for a, k in g.t:
            l, h = self.aiv(a)
            w = _m(k, h) if k > 0 else _m(k, l)
            order.append((-w, a, k))
        order.sort(key=lambda z: (z[0], z[1].id))
        for _, a, k in order[:4]:
            for c in cons:
                for b, q in c.t:
                    if b is a and (q > 0) == (k > 0):
                        g2 = sub(scale(g, abs(q)), scale(c, abs(k))) if abs(q) != abs(k) else sub(g, c)
                        if len(g2.t) <= 8 and self._fm(g2, cons, depth - 1, seen): return True
        return False
    def _single_eval(self, c):
        """decide c when it depends on one small atom with a value set"""
        d = c.deps()
        if len(d) != 1: return None
        a, = d
        if not is_small(a): return None
        m = self.vset.get(a)
        if m is None:
            lo, hi = self.aiv(a)
            m = full_mask(max(0, lo), min(255, hi)) if lo <= hi else 0
        k = (c, m)
        if k in _SE: return _SE[k]
        if len(_SE) > 400000: _SE.clear()
        t = f = 0; res = None
        for v in mask_vals(m):
            r = eval_cond(c, {a: v})
            if r is None: t = f = 0; break
            if r: t += 1
            else: f += 1
            if t and f: t = f = 0; break
        if t: res = True
        elif f: res = False
        _SE[k] = res
        return res
    def decide(self, c, depth=3):
        k = c.k
        if k == 'const': return c.a
        if c in self.facts: return True
        n = c_not(c)
        if n in self.facts: return False
        if k == 'atom':
            l, h = self.aiv(c.a); 
            if l >= 1: return True
            if h <= 0: return False
            return self._single_eval(c)
        if k == 'natom':
            r = self.decide(n); return None if r is None else not r
        if k == 'le':
            l, h = self.iv(c.a)
            if h <= 0: return True
            if l > 0: return False
            r = self._single_eval(c)
            if r is not None: return r
            if self.le(c.a, depth): return True
            if self.le(n.a, depth): return False
            return None
        if k == 'eq' or k == 'ne':
            l, h = self.iv(c.a)
            if l == h == 0: return k == 'eq'
            if l > 0 or h < 0: return k == 'ne'
            r = self._single_eval(c)
            if r is not None: return r
            x = c.a
            if len(x.t) == 1:
                a, q = x.t[0]
                if (-x.c) % q != 0: return k == 'ne'
                v = -x.c // q
                if v in self.neq.get(a, ()): return k == 'ne'
                m = self.vset.get(a)
                if m is not None and (v < 0 or not (m >> v) & 1): return k == 'ne'
            if self.le(add(x, const(1)), depth) or self.le(add(neg(x), const(1)), depth): return k == 'ne'
            if self.le(x, depth) and self.le(neg(x), depth): return k == 'eq'
            return None
        rs = [self.decide(x) for x in c.a]
        if k == 'and':
            if any(r is False for r in rs): return False
            return True if all(r is True for r in rs) else None
        if any(r is True for r in rs): return True
        return False if all(r is False for r in rs) else None

    # ---------------------------------------------------------- refinement
    def _set_bnd(self, a, lo, hi):
        """returns False when infeasible"""
        l, h = self.aiv(a)
        nl, nh = max(l, lo), min(h, hi)
        if nl > nh: return False
        if (nl, nh) != (l, h):
            self.bnd[a] = (nl, nh); self.ivm = {}
            m = self.vset.get(a)
            if m is not None:
                m &= full_mask(max(0, nl), min(255, nh))
                if not m: return False
                self.vset[a] = m
            ne = self.neq.get(a)
            if ne:
                while nl in ne: nl += 1
                while nh in ne: nh -= 1
                if nl > nh: return False
                self.bnd[a] = (nl, nh)
        return True
    def _filter(self, c):
        d = c.deps()
        if len(d) != 1: return True
        a, = d
        if not is_small(a): return True
        m = self.vset.get(a)
        if m is None:
            lo, hi = self.aiv(a); m = full_mask(max(0, lo), min(255, hi)) if lo <= hi else 0
        nm = 0
        for v in mask_vals(m):
            r = eval_cond(c, {a: v})
            if r is None: return True
            if r: nm |= 1 << v
        if not nm: return False
        if nm != m or a not in self.vset:
            self.vset[a] = nm; self.ivm = {}
        return True
    def assume(self, c):
        """in-place refinement (call on a copy); False when infeasible"""
        k = c.k
        if k == 'const': return c.a
        r = self.decide(c)
        if r is False: return False
        if r is True: return True
        if not self._filter(c): return False
        if k == 'atom':
            ok = self._set_bnd(c.a, 1, 1)
            if ok and c.a.op == 'b2i': ok = self.assume(c.a.args[0])
            return ok
        if k == 'natom':
            ok = self._set_bnd(c.a, 0, 0)
            if ok and c.a.op == 'b2i': ok = self.assume(c_not(c.a.args[0]))
            return ok
        if k == 'le': return self._assume_le(c.a)
        if k == 'eq':
            return self._assume_le(c.a) and self._assume_le(neg(c.a)) and self._inv_eq(c.a)
        if k == 'ne':
            x = c.a
            if len(x.t) == 1:
                a, q = x.t[0]
                if (-x.c) % q == 0:
                    v = -x.c // q
                    if a.op == 'b2i':
                        if v == 0: return self.assume(a.args[0])
                        if v == 1: return self.assume(c_not(a.args[0]))
                    l, h = self.aiv(a)
                    self.neq[a] = self.neq.get(a, frozenset()) | {v}
                    if v == l: return self._set_bnd(a, l + 1, h)
                    if v == h: return self._set_bnd(a, l, h - 1)
                return True
            self.facts = self.facts | {c}
            if self.le(x): return self._assume_le(add(x, const(1)))
            if self.le(neg(x)): return self._assume_le(add(neg(x), const(1)))
            return True
        if k == 'and':
            return all(self.assume(x) for x in c.a)
        if k == 'or':
            live = [x for x in c.a if self.decide(x) is not False]
            if not live: return False
            if len(live) == 1: return self.assume(live[0])
            self.facts = self.facts | {c}
            return True
        return True
    def _inv_eq(self, x):
        # x == 0 with a single op atom: push into the operator when invertible
        if len(x.t) == 1:
            a, q = x.t[0]
            if (-x.c) % q: return False
            v = -x.c // q
            if a.op == 'b2i':
                return self.assume(a.args[0] if v else c_not(a.args[0]))
        return True
    def _assume_le(self, x, top=True):
        if not x.t: return x.c <= 0
        for a, q in x.t:
            rest_lo = x.c
            for b, p in x.t:
                if b is a: continue
                l, h = self.aiv(b)
                rest_lo += _m(p, l) if p > 0 else _m(p, h)
            if rest_lo == -INF: continue
            # q*a <= -rest_lo
            if q > 0:
                if not self._set_bnd(a, -INF, (-rest_lo) // q): return False
            else:
                # a >= rest_lo/(-q)  (ceil)
                if not self._set_bnd(a, -((-rest_lo) // (-q)), INF): return False
        if len(x.t) > 1:
            if x not in self.cons: self.cons = self.cons + (x,)
            # propagate to the other constraints once
            if top:
                at = set(x.atoms())
                for c in self.cons[:-1]:
                    if any(a in at for a in c.atoms()):
                        if not self._assume_le(c, False): return False
        else:
            a, q = x.t[0]
            if a.op is not None and self._push_op(a) is False: return False
            if top:
                for c in self.cons:
                    if any(b is a for b in c.atoms()):
                        if not self._assume_le(c, False): return False
        return True
    def _push_op(self, a):
        """bounds learnt on an opaque op atom, pushed to its argument"""
        l, h = self.bnd.get(a, (a.lo, a.hi))
        if a.op == 'div' and a.args[1].is_const() and a.args[1].c > 0 and self.nn(a.args[0]):
            k = a.args[1].c
            if h < INF: self._assume_le(sub(a.args[0], const(h * k + k - 1)), False)
            if l > 0 and l > -INF: self._assume_le(sub(const(l * k), a.args[0]), False)
        elif a.op == 'div' and self.nn(a.args[0]) and self.lb(a.args[1]) >= 1:
            if 0 < l < 4096 and not self._assume_le(sub(scale(a.args[1], l), a.args[0]), False): return False
            if h < 4096 and not self._assume_le(add(sub(a.args[0], scale(a.args[1], h + 1)), const(1)), False): return False
        elif a.op == 'min' :
            if l > -INF:
                self._assume_le(sub(const(l), a.args[0]), False); self._assume_le(sub(const(l), a.args[1]), False)
        elif a.op == 'max':
            if h < INF:
                self._assume_le(sub(a.args[0], const(h)), False); self._assume_le(sub(a.args[1], const(h)), False)
        elif a.op == 'mul':
            if h == 0 or (l == 0 == h): pass

def _m(a, b):
    if a == 0 or b == 0: return 0
    return a * b

def mul_atom(st, x, y):
    """product of two Lins as a Lin (distributes over sums into mul atoms)"""
    if x.is_const(): return scale(y, x.c)
    if y.is_const(): return scale(x, y.c)
    d = const(x.c * y.c)
    d = add(d, scale(Lin(y.t, 0), x.c)) if x.c else d
    d = add(d, scale(Lin(x.t, 0), y.c)) if y.c else d
    for a, k in x.t:
        for b, q in y.t:
            d = add(d, scale(lin(mono(a, b)), k * q))
    return d

def factors(a):
    if a.op == 'mul':
        return factors(a.args[0].t[0][0]) + factors(a.args[1].t[0][0])
    return [a]

def mono(a, b):
    fs = sorted(factors(a) + factors(b), key=lambda z: z.id)
    r = fs[0]
    for f in fs[1:]:
        lo, hi = -INF, INF
        if r.lo >= 0 and f.lo >= 0: lo, hi = _m(r.lo, f.lo), _m(r.hi, f.hi)
        r = atom(('mul', r.id, f.id), lo, hi, 'mul', (lin(r), lin(f)))
    return r

def mul_lin(st, c, y):
    if len(c.t) * max(1, len(y.t)) > 12: return None
    return mul_atom(st, c, y)
