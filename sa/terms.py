"""Abstract scalar domain: integer-linear terms over interned atoms.

Atoms are either input symbols or opaque operators over terms (hash-consed so that
the same computation is the same atom).  Each atom carries a static default
interval; states refine it.  Lin = sum(coeff*atom)+const."""
import math
INF = float('inf')

class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'imp', 'deps', 'op', 'args', 'name')
    def __repr__(self): return self.name
    def __lt__(self, o): return self.id < o.id

_tab = {}
_atoms = []

def atom(key, lo, hi, op=None, args=(), imp=False, name=None):
    a = _tab.get(key)
    if a is not None: return a
    a = Atom()
    a.id = len(_atoms); a.key = key; a.lo = lo; a.hi = hi
    a.op = op; a.args = args
    if op is None:
        a.deps = frozenset([a]); a.imp = imp
    else:
        d = set(); im = imp
        for x in args:
            if isinstance(x, (Lin, Cond)):
                d |= x.deps(); im = im or x.imprecise()
        a.deps = frozenset(d); a.imp = im
    a.name = name or ('%s(%s)' % (op, ','.join(map(repr, args))) if op else str(key))
    _tab[key] = a; _atoms.append(a)
    return a

def sym(name, lo, hi, imp=False):
    return atom(('sym', name), lo, hi, imp=imp, name=name)

_fresh = [0]
def fresh(prefix, lo, hi, imp=True):
    _fresh[0] += 1
    n = '%s#%d' % (prefix, _fresh[0])
    return atom(('sym', n), lo, hi, imp=imp, name=n)

class Lin:
    __slots__ = ('t', 'c', '_h')
    def __init__(self, t, c):
        self.t = t; self.c = c; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash((self.t, self.c))
        return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __repr__(self):
        if not self.t: return str(self.c)
        s = ''
        for a, k in self.t:
            s += ('+' if k >= 0 else '-') + ('' if abs(k) == 1 else '%s*' % abs(k)) + a.name
        if self.c: s += '%+d' % self.c if isinstance(self.c, int) else '+%s' % self.c
        return s.lstrip('+')
    def is_const(self): return not self.t
    def deps(self):
        if not self.t: return frozenset()
        if len(self.t) == 1: return self.t[0][0].deps
        d = set()
        for a, _ in self.t: d |= a.deps
        return d
    def atoms(self): return [a for a, _ in self.t]
    def imprecise(self): return any(a.imp for a, _ in self.t)
    def single(self):
        """the atom if this is exactly one atom with coeff 1 and no const"""
        if len(self.t) == 1 and self.t[0][1] == 1 and self.c == 0: return self.t[0][0]
        return None

_consts = {}
def const(c):
    r = _consts.get(c)
    if r is None:
        r = Lin((), c); _consts[c] = r
    return r
def lin(a): return Lin(((a, 1),), 0)

def mk(d, c):
    t = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not t: return const(c)
    return Lin(t, c)
def add(x, y):
    if not x.t: 
        if x.c == 0: return y
        return Lin(y.t, x.c + y.c) if y.t else const(x.c + y.c)
    if not y.t:
        if y.c == 0: return x
        return Lin(x.t, x.c + y.c)
    d = dict(x.t)
    for a, k in y.t: d[a] = d.get(a, 0) + k
    return mk(d, x.c + y.c)
def scale(x, k):
    if k == 1: return x
    if k == 0 or not x.t: return const(x.c * k)
    return Lin(tuple((a, c * k) for a, c in x.t), x.c * k)
def neg(x): return scale(x, -1)
def sub(x, y): return add(x, neg(y))

class Cond:
    """boolean term: kind in const/le/eq/ne/atom/natom/and/or"""
    __slots__ = ('k', 'a', '_h')
    def __init__(self, k, a): self.k = k; self.a = a; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash((self.k, self.a))
        return self._h
    def __eq__(self, o): return isinstance(o, Cond) and self.k == o.k and self.a == o.a
    def __repr__(self):
        if self.k == 'const': return str(self.a)
        if self.k == 'le': return '(%r<=0)' % (self.a,)
        if self.k == 'eq': return '(%r==0)' % (self.a,)
        if self.k == 'ne': return '(%r!=0)' % (self.a,)
        if self.k == 'atom': return self.a.name
        if self.k == 'natom': return '!' + self.a.name
        return '(' + (' & ' if self.k == 'and' else ' | ').join(map(repr, self.a)) + ')'
    def deps(self):
        if self.k == 'const': return frozenset()
        if self.k in ('le', 'eq', 'ne'): return self.a.deps()
        if self.k in ('atom', 'natom'): return self.a.deps
        d = set()
        for x in self.a: d |= x.deps()
        return d
    def imprecise(self):
        if self.k == 'const': return False
        if self.k in ('le', 'eq', 'ne'): return self.a.imprecise()
        if self.k in ('atom', 'natom'): return self.a.imp
        return any(x.imprecise() for x in self.a)

TRUE = Cond('const', True); FALSE = Cond('const', False)
def c_le(x):
    if not x.t: return TRUE if x.c <= 0 else FALSE
    return Cond('le', x)
def c_eq(x):
    if not x.t: return TRUE if x.c == 0 else FALSE
    if x.t[0][1] < 0: x = neg(x)
    return Cond('eq', x)
def c_ne(x):
    if not x.t: return TRUE if x.c != 0 else FALSE
    if x.t[0][1] < 0: x = neg(x)
    return Cond('ne', x)
def c_atom(a): return Cond('atom', a)
def c_not(c):
    k = c.k
    if k == 'const': return FALSE if c.a else TRUE
    if k == 'le': return c_le(Lin(tuple((a, -q) for a, q in c.a.t), 1 - c.a.c))  # !(x<=0) -> x>=1 -> 1-x<=0
    if k == 'eq': return Cond('ne', c.a)
    if k == 'ne': return Cond('eq', c.a)
    if k == 'atom': return Cond('natom', c.a)
    if k == 'natom': return Cond('atom', c.a)
    if k == 'and': return Cond('or', tuple(c_not(x) for x in c.a))
    return Cond('and', tuple(c_not(x) for x in c.a))
def c_and(*cs):
    out = []
    for c in cs:
        if c is FALSE or (c.k == 'const' and not c.a): return FALSE
        if c.k == 'const': continue
        if c not in out: out.append(c)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return Cond('and', tuple(out))
def c_or(*cs):
    return c_not(c_and(*[c_not(c) for c in cs]))

# ---------------------------------------------------------------- evaluation
def eval_atom(a, env, memo=None):
    """value of atom under env (dict atom->int); None when not determined"""
    if a in env: return env[a]
    if a.op is None: return None
    f = EVAL.get(a.op)
    if f is None: return None
    vs = []
    for x in a.args:
        if isinstance(x, Lin):
            v = eval_lin(x, env)
            if v is None: return None
            vs.append(v)
        elif isinstance(x, Cond):
            v = eval_cond(x, env)
            if v is None: return None
            vs.append(v)
        else: vs.append(x)
    try: return f(*vs)
    except Exception: return None

def eval_lin(x, env):
    s = x.c
    for a, k in x.t:
        v = eval_atom(a, env)
        if v is None: return None
        s += k * v
    return s

def eval_cond(c, env):
    k = c.k
    if k == 'const': return c.a
    if k in ('le', 'eq', 'ne'):
        v = eval_lin(c.a, env)
        if v is None: return None
        return v <= 0 if k == 'le' else (v == 0 if k == 'eq' else v != 0)
    if k == 'atom':
        v = eval_atom(c.a, env); return None if v is None else bool(v)
    if k == 'natom':
        v = eval_atom(c.a, env); return None if v is None else not v
    vals = [eval_cond(x, env) for x in c.a]
    if k == 'and':
        if any(v is False for v in vals): return False
        return None if any(v is None for v in vals) else True
    if any(v is True for v in vals): return True
    return None if any(v is None for v in vals) else False

def wrapv(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1): v -= 1 << bits
    return v
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
EVAL = {
    'wrap': lambda v, b, s: wrapv(v, b, s),
    'and': lambda a, b, bits, s: wrapv(a & b, bits, s),
    'or': lambda a, b, bits, s: wrapv(a | b, bits, s),
    'xor': lambda a, b, bits, s: wrapv(a ^ b, bits, s),
    'shl': lambda a, b, bits, s: wrapv(a << (b % bits), bits, s),
    'shr': lambda a, b, bits, s: wrapv(a >> (b % bits), bits, s),
    'div': lambda a, b: tdiv(a, b),
    'rem': lambda a, b: a - b * tdiv(a, b),
    'mul': lambda a, b: a * b,
    'not': lambda a, bits, s: wrapv(~a, bits, s),
    'min': lambda a, b: min(a, b),
    'max': lambda a, b: max(a, b),
    'clamp': lambda a, lo, hi: max(lo, min(hi, a)),
    'b2i': lambda c: int(c),
    'ite': lambda c, a, b: a if c else b,
    'f2i': lambda v, bits, sg, *ls: f2i(feval(v, iter(ls)), bits, sg),
    'fcmp': lambda op, a, b, *ls: fcmp(op, a, b, ls),
}
# ---------------------------------------------------------------- 32 bit float terms
import struct, math
def f32(x): return struct.unpack('<f', struct.pack('<f', x))[0]
def fleaves(v):
    """the integer terms a float term is made of, in evaluation order; None when it has an unknown part"""
    if v.op == 'f': return ()
    if v.op == 'fsym': return (lin(sym('float ' + str(v.args[0]), -4, 9)),)
    if v.op == 'i2f': return (v.args[0],)
    if v.op in FOPS:
        r = ()
        for x in v.args:
            y = fleaves(x) if hasattr(x, 'op') else None
            if y is None: return None
            r += y
        return r
    return None
def rnd_away(x): return math.copysign(math.floor(abs(x) + 0.5), x)
FOPS = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': lambda a, b: a / b, 'fround': rnd_away, 'fceil': math.ceil,
        'ffloor': math.floor, 'fneg': lambda a: -a, 'fabs': abs, 'fmax': max, 'fmin': min}
def feval(v, it):
    if v.op == 'f': return v.args[0]
    if v.op in ('i2f', 'fsym'): return f32(float(next(it)))
    return f32(float(FOPS[v.op](*[feval(x, it) for x in v.args])))
def f2i(x, bits, sg):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    return max(lo, min(hi, int(x)))
def fcmp(op, a, b, ls):
    it = iter(ls); x = feval(a, it); y = feval(b, it)
    return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
def fargs(*vs):
    ls = [fleaves(v) for v in vs]
    return None if any(x is None for x in ls) else sum(ls, ())
