"""UPC-E: the bars stand for the UPC-A number of the data"""
import itertools, sem
from fw import prop
from tables import *

L = ['0001101', '0011001', '0010011', '0111101', '0100011', '0110001', '0101111', '0111011', '0110111', '0001011']
Gc = [''.join('10'[int(b)] for b in x)[::-1] for x in L]        # even parity: the odd pattern inverted and reversed
PAR = ['EEEOOO', 'EEOEOO', 'EEOOEO', 'EEOOOE', 'EOEEOO', 'EOOEEO', 'EOOOEE', 'EOEOEO', 'EOEOOE', 'EOOEOE']
def expand(d, lt=None):
    """the 11 digits (number system, manufacturer, product) of the seven digits (number system, UPC-E)"""
    n, a, b, c_, e, f, l = d
    lt = l if lt is None else lt
    if l in (0, 1, 2): return [n, a, b, lt, 0, 0, 0, 0, c_, e, f]
    if l == 3: return [n, a, b, c_, 0, 0, 0, 0, 0, e, f]
    if l == 4: return [n, a, b, c_, e, 0, 0, 0, 0, 0, f]
    return [n, a, b, c_, e, f, 0, 0, 0, 0, lt]
def digit(d):
    s = sum(d[0::2]) * 3 + sum(d[1::2])
    return -s % 10
def short(u):
    """is the UPC-A number u (11 digits) one that UPC-E can carry?"""
    m, p = u[1:6], u[6:]
    if u[0] > 1: return False
    if m[2] <= 2 and m[3:] == [0, 0]: return p[:2] == [0, 0]
    if m[3:] == [0, 0]: return p[:3] == [0, 0, 0]
    if m[4] == 0: return p[:4] == [0, 0, 0, 0]
    return p[:4] == [0, 0, 0, 0] and p[4] >= 5
def number(t):
    """the UPC-A digits (12) the data t stands for, None when there is no UPC-E symbol for it"""
    if not t.isdigit() or not t.isascii(): return None
    d = [int(x) for x in t]
    if len(d) == 6: d = [0] + d
    if len(d) == 7: u = expand(d); u = u + [digit(u)]
    elif len(d) == 8: u = expand(d[:7]) + [d[7]]
    elif len(d) == 11: u = d + [digit(d)]
    elif len(d) == 12: u = d
    else: return None
    return u if short(u[:11]) else None
def read(pts):
    """the UPC-A digits a UPC-E symbol stands for, None when it is not one"""
    s = ''.join(map(str, pts))
    if len(s) != 51 or s[:3] != '101' or s[45:] != '010101': return None
    par = ds = ''
    ds = []
    for i in range(6):
        x = s[3 + 7 * i:10 + 7 * i]
        if x in L: ds.append(L.index(x)); par += 'O'
        elif x in Gc: ds.append(Gc.index(x)); par += 'E'
        else: return None
    for n in (0, 1):
        q = par if n == 0 else par.translate({69: 79, 79: 69})
        if q in PAR: return expand([n] + ds) + [PAR.index(q)]
def samples():
    out = ['', '1', '12345', '1234567890', '1234567890123', '12345A', 'ABCDEF', '12 456', '-123456', '123456789O1', '7123456', '21234567', '91200000345']
    for l in range(10): out += ['12345%d' % l, '90807%d' % l, '0425%d1%d' % (l, l), '1654321%d' % l, '1%d34567' % l, '0%d23456%d' % (l, 9 - l)]
    for m in ('12000', '12100', '12200', '12300', '98900', '12340', '12345', '56780', '00000', '10100'):
        for p in ('00000', '00005', '00009', '00012', '00099', '00345', '00999', '01000', '10000', '04005', '00100', '09999'):
            out += ['0' + m + p, '1' + m + p + '7'] if p in ('00005', '00345', '01000', '10000', '00100', '00012') else ['0' + m + p]
    return list(dict.fromkeys(out))

@prop('C26', 'abstract interpretation of GS k with the UPC-E barcode type: on constant data the bars are read back and compared with the UPC-A number of the data; on arbitrary digits every '
      'path of the conversion is shown to expand to the UPC-A number it started from, or to be one no UPC-E symbol exists for; the module patterns are enumerated per number system, check digit and digit',
      data=200, paths=30, patterns=1200)
def check(c):
    ds = samples()
    c.par([ds[i::16] for i in range(16)], lambda w, xs: [w.guard('UPC-E %r' % t, concrete, w, t) for t in xs])
    c.par([(n, f) for n in (6, 7, 8, 11, 12) for f in range(10)], lambda w, j: w.guard('UPC-E of %d digits | paths' % j[0], paths, w, *j))
    c.par(list(itertools.product((0, 1), range(10))), lambda w, j: w.guard('modules', modules, w, *j))
def concrete(c, t):
    S = c.S
    c.count('data')
    want = number(t)
    S.I.crashes = []
    for m in (1, 66):
        raw = [0x1D, 0x6B, m] + ([len(t)] if m == 66 else []) + list(t.encode()) + ([0] if m == 1 else [])
        for s, cmds in S.parse(raw, S.cmd_set()[0].copy()):
            cmd = [x for x in cmds if x.ops == (0x1D, 0x6B)]
            if len(cmd) != 1: continue
            for s2, g in S.handler_call(s, S.ref(s, cmd[0].val), 'get_graphics', [S.ref(s, S.context())]):
                g = S.whnf(s2, g)
                v = S.whnf(s2, g.fs[0]) if isinstance(g, Agg) and g.fs else None
                kind = S.variant(s2, v) if v is not None else None
                label = 'GS k %d data %s' % (m, t)
                if want is None: c.ob(label + ' | reported', None if kind is None else kind == 'Error', 'no UPC-E symbol exists, but it becomes %s' % kind, 'upce'); continue
                if kind != 'Barcode': c.ob(label + ' | drawn', None if kind is None else False, 'becomes %s' % show(v), 'upce'); continue
                p = S.bytes_of(s2, S.get(s2, S.whnf(s2, v.fs[0]), 'points'))
                if p is None: c.ob(label + ' | bars', None, 'bars not constant', 'upce'); continue
                r = read(p)
                c.ob(label + ' | bars', r == want, 'bars read as %s, expected UPC-A %s' % (r and ''.join(map(str, r)), ''.join(map(str, want))), 'upce')
    sem.crash_obs(c, 'UPC-E data %s | no crash' % t, t)
U = 'thermal_parser::utils::barcodes::upce::UPCE'
def fields(S, st, v):
    """the digits of the current representation (number system, six digits, check digit), None when it is another one"""
    v = S.whnf(st, v)
    if not isinstance(v, Agg) or len(v.fs) != 1: return None
    q = S.whnf(st, v.fs[0])
    return q.items() if isinstance(q, SeqV) and q.explicit() and len(q.segs) == 8 else None
def cases(st, x):
    if x.is_const(): return [(st, x.c)]
    out = []
    for v in range(10):
        s = st.copy()
        if s.assume(c_eq(sub(x, const(v)))): out.append((s, v))
    return out
def paths(c, n, last):
    """the symbol of n arbitrary digits, the one that selects the form being `last`"""
    S = c.S; I = S.I
    st = S.registry()[0].copy()
    b = S.sym_bytes(n)
    for x in b: st.assume(c_le(sub(const(48), x))); st.assume(c_le(sub(x, const(57))))
    sel = {6: 5, 7: 6, 8: 6, 11: 3, 12: 3}[n]
    st.assume(c_eq(sub(b[sel], const(48 + last))))
    d = [sub(x, const(48)) for x in b]
    u = d[:11] if n >= 11 else expand(([const(0)] if n == 6 else []) + d[:6 if n == 6 else 7][:-1] + [last], d[sel])
    u = [x if isinstance(x, Lin) else const(x) for x in u]
    label = 'UPC-E of %d digits' % n
    I.crashes = []
    for s, r in S.call(S.fn(U + '::new'), [OpV('str', [('chr', x) for x in b])], st, 120):
        c.count('paths')
        r = S.whnf(s, r); k = S.variant(s, r)
        if k == 'Ok':
            f = fields(S, s, r.fs[0])
            if f is None: c.ob(label + ' | expands to its number', None, 'another representation: %s' % show(r.fs[0]), U); continue
            for s2, l in cases(s, f[6]):
                e = expand(list(f[:6]) + [l])
                rs = [scalar_eq(s2, x if isinstance(x, Lin) else const(x), y) for x, y in zip(e, u)]
                c.ob(label + ' | expands to its number', False if False in rs else None if None in rs else True, 'the symbol %s stands for another number than the data %s' % (show(f), show(u)), U)
                c.ob(label + ' | number system 0 or 1', s2.decide(c_le(sub(f[0], const(1)))), 'number system %s is drawn' % show(f[0]), U)
            if n in (8, 12): c.ob(label + ' | check digit', scalar_eq(s, f[7], d[-1]), 'check digit is %s' % show(f[7]), U)
            else:
                # computed: the weighted sum of all twelve digits is a multiple of ten
                w = const(0)
                for i, x in enumerate(u): w = add(w, scale(x, 3 if i % 2 == 0 else 1))
                q = I.as_lin(I.binop(s, 'Rem', w, const(10), I.find_ty('u32')))
                q = [scalar_eq(s, f[7], sub(const(10), q)), s.decide(c_eq(q)) and scalar_eq(s, f[7], const(0)) if s.decide(c_eq(q)) is not None else None]
                c.ob(label + ' | check digit', True if (q[0] is True and s.decide(c_le(sub(f[7], const(9)))) is not False) or q[1] is True else (False if q == [False, False] else None), 'check digit is %s' % show(f[7]), U)
        elif k == 'Err':
            for nm, cnd in SHORT(u):
                s2 = s.copy()
                ok = s2.assume(c_le(sub(u[0], const(1)))) and all(s2.assume(x) for x in cnd)
                r = True if not ok or infeasible(s2) else (False if model(s2) is not None else None)
                c.ob('%s | only a number without UPC-E form is refused (%s)' % (label, nm), r, 'refused although it has a UPC-E form', U)
        else: c.ob(label + ' | result', None, show(r), U)
    sem.crash_obs(c, label + ' | no crash', label)
def SHORT(u):
    z = lambda *ix: [c_eq(u[i]) for i in ix]
    return [('manufacturer 000-200', z(4, 5, 6, 7) + [c_le(sub(u[3], const(2)))]), ('manufacturer 300-900', z(4, 5, 6, 7, 8) + [c_le(sub(const(3), u[3]))]),
            ('manufacturer 10-90', z(5, 6, 7, 8, 9) + [c_le(sub(const(1), u[4]))]), ('manufacturer 1-9', z(6, 7, 8, 9) + [c_le(sub(const(1), u[5])), c_le(sub(const(5), u[10]))])]
def modules(c, n, chk):
    S = c.S; I = S.I
    st = S.registry()[0].copy()
    t = S.adt(U); fs = I.ty(t)['v'][0]['f']
    if len(fs) != 1 or not I.is_vec(I.ty(fs[0][1])): raise Undecided('another representation of UPCE')
    label = 'UPC-E modules'
    par = PAR[chk] if n == 0 else PAR[chk].translate({69: 79, 79: 69})
    for val in range(10):
        ds = [(val + 3 * j) % 10 for j in range(6)]
        for s, q in S.call(S.fn(U + '::encode'), [S.ref(st, Agg(t, 0, [S.seq_u8([const(x) for x in [n] + ds + [chk]])]))], st.copy()):
            q = S.bytes_of(s, q)
            if q is None: c.ob(label, None, 'not constant', U); continue
            c.count('patterns', 6)
            want = '101' + ''.join((L if p == 'O' else Gc)[x] for p, x in zip(par, ds)) + '010101'
            got = ''.join(map(str, q))
            c.ob('%s | number system %d, check digit %d' % (label, n, chk), got == want, 'digits %s become %s, expected %s' % (ds, got, want), U)
