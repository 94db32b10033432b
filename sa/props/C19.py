"""colours: how a dot mixes with what is already there"""
from fw import prop
from tables import *
import glob, sys
try: import numpy as np
except ImportError:
    sys.path += glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')
    try: import numpy as np
    except ImportError: np = None

RGBA = TP + 'graphics::RGBA'
CH = 'rgb'
ALPHAS = range(256)

@prop('C19', 'abstract interpretation of the colour functions on symbolic channels; the term of every resulting channel is compared with the reference for every value of the channels it depends on', cases=8, obligations=1500)
def check(c):
    if np is None: raise Undecided('numpy is missing')
    c.guard('blend', blend, c); c.guard('multiply', multiply, c); c.guard('plain', plain, c); c.guard('numbers', numbers, c)
def col(S, name, a):
    t = S.adt(RGBA)
    return Agg(t, 0, [S.I.sym_value(S.fty(t, n), '%s.%s' % (name, n)) for n in CH] + [a])
def run(S, fn, vals):
    st = S.registry()[0].copy()
    rs = [S.ref(st, v) for v in vals]
    S.I.crashes = []
    outs = S.call(RGBA + '::' + fn, rs, st)
    return [(s, S.whnf(s, rs[0])) for s, _ in outs]
# ---- values of a term over all values of up to two unknown bytes
def veval(x, env):
    """vectorised value of a Lin over the assignment of symbols to arrays"""
    r = np.float64(x.c)
    for a, q in x.t: r = r + q * aeval(a, env)
    return r
def aeval(a, env):
    if a in env: return env[a]
    if a.op == 'f2i':
        v, bits, sg = a.args[0], a.args[1], a.args[2]
        f = fev(v, env); lo, hi = (0, (1 << bits) - 1) if not sg else (-(1 << bits - 1), (1 << bits - 1) - 1)
        return np.clip(np.trunc(f.astype(np.float64)), lo, hi)
    if a.op in ('clamp', 'min', 'max', 'div', 'mod', 'mul', 'b2i', 'ite'):
        xs = [veval(y, env) if isinstance(y, Lin) else y for y in a.args]
        if a.op == 'min': return np.minimum(*xs)
        if a.op == 'max': return np.maximum(*xs)
        if a.op == 'mul': return xs[0] * xs[1]
        if a.op == 'div': return np.floor_divide(xs[0], xs[1])
    raise Undecided('value of %s' % a.op)
def fev(v, env):
    F = np.float32
    if v.op == 'f': return F(v.args[0])
    if v.op == 'i2f': return np.asarray(veval(v.args[0], env)).astype(F)
    x = [fev(y, env) for y in v.args]
    if v.op == 'fadd': return (x[0] + x[1]).astype(F)
    if v.op == 'fsub': return (x[0] - x[1]).astype(F)
    if v.op == 'fmul': return (x[0] * x[1]).astype(F)
    if v.op == 'fdiv': return (x[0] / x[1]).astype(F)
    if v.op == 'fround': return (np.sign(x[0]) * np.floor(np.abs(x[0]).astype(np.float64) + 0.5)).astype(F)
    if v.op == 'ffloor': return np.floor(x[0]).astype(F)
    if v.op == 'fceil': return np.ceil(x[0]).astype(F)
    if v.op == 'fmin': return np.minimum(*x)
    if v.op == 'fmax': return np.maximum(*x)
    if v.op == 'fneg': return -x[0]
    raise Undecided('value of %s' % v.op)
GRID = np.meshgrid(np.arange(256.0), np.arange(256.0), indexing='ij') if np else None
def table(c, label, st, got, a, b, want, tol):
    """got (a term over the bytes a and b) against the reference for all 65536 pairs"""
    env = {a: GRID[0], b: GRID[1]}
    try:
        mask = np.ones((256, 256), bool)
        for q, m in st.vset.items():
            if q in env: mask &= np.isin(env[q], [v for v in range(256) if m >> v & 1])
        for q, (lo, hi) in st.bnd.items():
            if q in env: mask &= (env[q] >= lo) & (env[q] <= hi)
        for q, ne in st.neq.items():
            if q in env: mask &= ~np.isin(env[q], list(ne))
        for x in st.cons:
            try: mask &= np.broadcast_to(veval(x, env), (256, 256)) <= 0
            except Undecided: pass
        v = np.broadcast_to(np.asarray(veval(got, env), dtype=np.float64), (256, 256))
    except (Undecided, KeyError, TypeError) as e:
        c.ob(label, None, 'the term %s cannot be tabulated: %s' % (show(got), e)); return
    bad = (np.abs(v - want) > tol) & mask
    c.count('values', int(mask.sum()))
    if not bad.any(): c.ob(label, True); return
    i, j = np.argwhere(bad)[0]
    ok = None if st_imprecise(st) or got.imprecise() else False
    c.ob(label, ok, 'old channel %d and new channel %d give %g, expected %g' % (i, j, v[i, j], want[i, j]), label)
def atom_of(x):
    assert len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0
    return x.t[0][0]
def channels(c, label, st, res, d, s, want, tol):
    S = c.S
    for n in CH: table(c, '%s | %s' % (label, n), st, S.I.as_lin(S.get(st, res, n)), atom_of(S.get(st, d, n)), atom_of(S.get(st, s, n)), want, tol)
def exact(c, label, st, res, exp):
    S = c.S
    for n, x in exp: c.ob('%s | %s' % (label, n), eqv(S, st, S.get(st, res, n), x), '%s is %s, expected %s' % (n, show(S.get(st, res, n)), show(x)), label)
def blend(c):
    S = c.S
    da = lin(sym('paper.a', 0, 255))
    for how in ('blend_foreground', 'blend_foreground_with_alpha'):
        c.count('cases')
        for al in ALPHAS:
            d, s = col(S, 'paper', da), col(S, 'ink', const(al) if how == 'blend_foreground' else lin(sym('ink.a', 0, 255)))
            for st, r in run(S, how, [d, s] + ([const(al)] if how != 'blend_foreground' else [])):
                label = 'blend with alpha %d' % al if how == 'blend_foreground' else 'blend with a given alpha %d' % al
                if al == 255: exact(c, label, st, r, [(n, S.get(st, s, n)) for n in CH] + [('a', const(255))])
                elif al == 0: exact(c, label, st, r, [(n, S.get(st, d, n)) for n in CH] + [('a', da)])
                else:
                    w = al / 255.0
                    channels(c, label, st, r, d, s, GRID[1] * w + GRID[0] * (1 - w), 0.51)
                    exact(c, label, st, r, [('a', da)])
def multiply(c):
    S = c.S; c.count('cases', 2)
    da = lin(sym('paper.a', 0, 255))
    d, s = col(S, 'paper', da), col(S, 'ink', const(0))
    for st, r in run(S, 'multiply_foreground', [d, s]): exact(c, 'multiply with alpha 0', st, r, [(n, S.get(st, d, n)) for n in CH] + [('a', da)])
    s = col(S, 'ink', const(255))
    for st, r in run(S, 'multiply_foreground', [d, s]):
        channels(c, 'multiply', st, r, d, s, GRID[0] * GRID[1] / 255.0, 0.51)
        exact(c, 'multiply', st, r, [('a', da)])
def plain(c):
    S = c.S; c.count('cases', 4)
    st0 = S.registry()[0].copy()
    d = col(S, 'ink', lin(sym('ink.a', 0, 255))); a = lin(sym('alpha', 0, 255))
    for st, r in S.call(RGBA + '::with_alpha', [d, a], st0): exact(c, 'with_alpha', st, r, [(n, S.get(st, d, n)) for n in CH] + [('a', a)])
    for st, r in S.call(RGBA + '::blank', [], st0): exact(c, 'blank', st, r, [(n, const(0)) for n in 'rgba'])
    # equality compares all four
    f = '<%s as std::cmp::PartialEq>::eq' % RGBA
    for k in range(5):
        x = [sym('p%d' % i, 0, 255) for i in range(4)]; y = [x[i] if i != k else sym('q%d' % i, 0, 255) for i in range(4)]
        u = Agg(S.adt(RGBA), 0, [lin(q) for q in x]); v = Agg(S.adt(RGBA), 0, [lin(q) for q in y])
        s0 = st0.copy()
        if k < 4: s0.assume(c_ne(sub(lin(x[k]), lin(y[k]))))
        for st, r in S.call(f, [S.ref(s0, u), S.ref(s0, v)], s0): c.ob('equality %s' % ('same' if k == 4 else 'rgba'[k]), eqv(S, st, r, TRUE if k == 4 else FALSE), 'equality is %s' % show(r))
    # an image as bytes
    t = S.adt(TP + 'graphics::Image'); px = [col(S, 'dot %d' % i, lin(sym('dot %d.a' % i, 0, 255))) for i in range(3)]
    v = S.I.sym_value(t, 'image'); v = S.I.expand(v) if isinstance(v, SymV) else v
    v = S.setp(v, 'pixels', SeqV([('e', q) for q in px], S.adt(RGBA)))
    st1 = st0.copy()
    for st, r in S.call(TP + 'graphics::Image::as_rgba_u8', [S.ref(st1, v)], st1):
        r = S.whnf(st, r); got = r.items() if isinstance(r, SeqV) and r.explicit() else None
        exp = [x for q in px for x in q.fs]
        if got is None: c.ob('image bytes', None, show(r))
        else: c.ob('image bytes', conj([len(got) == len(exp)] + [eqv(S, st, g, x) for g, x in zip(got, exp)]), 'the bytes are %s' % show(r), 'as_rgba_u8')
def numbers(c):
    S = c.S
    f = TP + 'context::RenderColors::color_for_number'
    t = S.adt(TP + 'context::RenderColors'); v = S.I.sym_value(t, 'colors'); v = S.I.expand(v) if isinstance(v, SymV) else v
    for n in range(256):
        exp = {0: 'paper_color', 1: 'color_1', 2: 'color_2', 3: 'color_3'}.get(n - 48 if n >= 48 else n, 'color_1')
        st0 = S.registry()[0].copy(); c.count('cases')
        for st, r in S.call(f, [S.ref(st0, v), const(n)], st0):
            c.ob('colour number %d' % n if n in (0, 1, 2, 3, 48, 49, 50, 51) else 'other colour numbers', eqv(S, st, S.whnf(st, r), S.get(st, v, exp)), 'number %d is %s, expected %s' % (n, show(S.whnf(st, r)), exp), 'color_for_number')
