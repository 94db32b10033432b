"""GS ( k: the stored QR symbol is the encoding of exactly the data, and printing draws the stored symbol"""
from fw import prop
from tables import *
import interp

MODEL = {'Model1': (14, 'Normal'), 'Model2': (40, 'Normal'), 'Micro': (4, 'Micro')}
EC = {'L': 'L', 'M': 'M', 'Q': 'Q', 'H': 'H'}
CAP = [17, 32, 53, 78, 106, 134, 154, 192, 230, 271, 321, 367, 425, 458, 520, 586, 644, 718, 792, 858, 929, 1003, 1091, 1171, 1273, 1367, 1465, 1528, 1628, 1732,
       1840, 1952, 2068, 2188, 2303, 2431, 2563, 2699, 2809, 2953]            # ISO 18004: bytes a version holds at level L
LEN = [0, 1, 5, 17, 18, 32, 33, 78, 79, 106, 107, 271, 272, 458, 459]
LONG = [1003, 1004, 2331, 2953, 2954]
NM = 6            # modules of the stand-in symbol
NAMES = {48: 'PDF417', 49: 'QR code', 50: 'MaxiCode', 51: 'GS1 DataBar', 52: 'composite', 53: 'Aztec', 54: 'DataMatrix'}

@prop('C10', 'abstract interpretation of the parser and of the 2D symbol functions of GS ( k on symbolic data of given lengths and a symbolic printer state: on every path through the '
      'results of the encoder, the arguments of the encoder call the stored symbol comes from, the conversion of its modules, and what printing draws', cases=60, paths=300, obligations=900)
def check(c):
    c.assume.append('the encoder of the qr_code crate is opaque: any call may succeed or fail; a symbol is represented by %d modules of unknown colour' % NM)
    js = []
    for m in MODEL:
        for ec in EC:
            for n in LEN if ec in 'LH' else (5, 33): js.append((m, ec, n))
        if m != 'Micro': js += [(m, 'L', n) for n in LONG]
    js += [(m, 'L', n) for m, k in (('Model1', 14), ('Model2', 40)) for n in CAP[:k] if (m, 'L', n) not in js]
    c.par(sorted(js, key=lambda j: -j[2]), lambda w, j: w.guard('QR %s %s %d bytes' % j, store, w, *j))
    for cn in NAMES:
        for has in (True, False): c.guard('print %s %s' % (NAMES[cn], 'with' if has else 'without'), show_symbol, c, cn, has)
        if cn != 49: c.guard('store %s' % NAMES[cn], other, c, cn)
def lohi(n): return [n & 255, n >> 8]
def hooks(S):
    def vec(I, st, fr, args, inst, atys, dty, line):
        import models
        q = models.freeze(I, st, args[0])
        t = I.ty(dty)
        if not I.is_vec(t) or I.ty(t['targs'][0])['k'] != 'bool': return None
        nm = 'modules of %r' % (q,)
        I.opaque_terms[nm] = ('modules', (q,))
        return [(st, SeqV([('e', c_atom(sym('%s %d' % (nm, i), 0, 1))) for i in range(NM)], t['targs'][0]))]
    for f in S.P.funcs.values():
        if 'gs_code2d' not in f['path']: continue
        for b in f['blocks']:
            t = b[1]
            i = t[1][1]['inst'] if t[0] == 'call' and t[1][0] == 'def' else None
            if i and i['path'].endswith(('QrCode::to_vec', 'QrCode::into_vec')): S.I.hooks[interp.norm_path(i['path'])] = vec
def store(c, m, ec, n):
    S = c.S; I = S.I; hooks(S); S.with_flush_hooks(); c.count('cases')
    label = 'QR %s %s %d bytes' % (m, ec, n)
    ctx = S.context()
    ctx = S.setp(S.setp(ctx, 'code2d.qr_model', S.enum(TP + 'context::QrModel', m)), 'code2d.qr_error_correction', S.enum(TP + 'context::QrErrorCorrection', ec))
    bs = S.sym_bytes(n)
    top, vk = MODEL[m]
    low = next((v for v in range(1, top) if CAP[v - 1] >= n), top)
    I.merging = True; I.max_unroll = 6000
    try: outs = S.stream([0x1D, 0x28, 0x6B] + lohi(n + 3) + [49, 80, 48] + bs, ctx, secs=200)
    finally: I.merging = False; I.max_unroll = 300
    good = set(); failed = False
    for o in outs:
        c.count('paths'); s = o.st
        where = 'qr_store'
        for p, r, a in compare(S, o, s, {'code2d.symbol_storage': None}):
            if p != 'code2d.symbol_storage': c.ob('%s | %s' % (label, p), r, '%s becomes %s' % (p, show(a)), where)
        calls = tried(S, s)
        v = S.whnf(s, S.get(s, o.ctx1, 'code2d', 'symbol_storage')); k = S.variant(s, v)
        if k == 'None':
            failed = True
            c.ob(label + ' | nothing stored only when no version fits', range_ok(calls, low, top, vk, ec, bs, True), 'nothing is stored although of the versions %d to %d only %s failed' % (low, top, names(calls)), where)
            continue
        if k != 'Some': c.ob(label + ' | stored', None if not isinstance(v, Agg) else False, 'stored symbol is %s' % show(v), where); continue
        q = S.whnf(s, v.fs[0])
        pts = S.whnf(s, S.get(s, q, 'points')); term = None
        if isinstance(pts, SeqV) and pts.explicit() and len(pts.items()) == NM:
            term, r = modules(S, s, pts.items())
            c.ob(label + ' | dark modules are 1, light ones 0', r, 'dots are %s' % show(pts), where)
        if term is None: c.ob(label + ' | modules of the encoder', None, 'dots are %s' % show(pts), where); continue
        src = ver(term)
        if src is None: c.ob(label + ' | encoded', None, 'symbol is %s' % show(term), where); continue
        good.add(src[1])
        c.ob(label + ' | encoded data', same_data(S, s, src[3], bs), 'encodes %s' % show(src[3]), where)
        c.ob(label + ' | model and error correction', src[0] == vk and src[2] == EC[ec], 'encoded as %s %d level %s, expected %s level %s' % (src[0], src[1], src[2], vk, EC[ec]), where)
        c.ob(label + ' | version', (src[1] >= low and src[1] <= top) and (src[1] == low or range_ok(calls, low, src[1] - 1, vk, ec, bs, False)),
             'version %d is used, the first of %d to %d that fits is expected; failed before: %s' % (src[1], low, top, names(calls)), where)
        w = S.get(s, q, 'width')
        if isinstance(w, Lin) and w.single() is not None and w.single().op == 'wrap' and isinstance(w.single().args[0], Lin): w = w.single().args[0]
        wt = I.opaque_terms.get(w.single().name) if isinstance(w, Lin) and w.single() is not None and hasattr(w.single(), 'name') else None
        c.ob(label + ' | symbol width', None if wt is None else wt[0].endswith('::width') and wt[1] and wt[1][0] == term, 'width is %s' % show(w), where)
        for f in ('point_width', 'point_height'):
            c.ob('%s | %s' % (label, f), eqv(S, s, S.get(s, q, f), S.get(s, ctx, 'code2d', 'qr_size')), '%s is %s, expected the current module size' % (f, show(S.get(s, q, f))), where)
    c.ob(label + ' | every version up to the largest', good >= set(range(low, top + 1)) or (None if not good else False), 'versions used: %s' % sorted(good), 'qr_store')
    c.ob(label + ' | data that does not fit', True if failed else None, 'no path stores nothing', 'qr_store')
def modules(S, s, items):
    """(term of the symbol, verdict): item i is 1 exactly when module i is dark"""
    for nm, t in S.I.opaque_terms.items():
        if t[0] != 'modules': continue
        bits = [sym('%s %d' % (nm, i), 0, 1) for i in range(NM)]
        if any(bits[0] in x.deps() for x in items[:1] if isinstance(x, (Lin, Cond))):
            return t[1][0], conj(scalar_eq(s, x if isinstance(x, Lin) else S.I.as_lin(x), lin(b)) for x, b in zip(items, bits))
    return None, None
def ver(term):
    """(kind, version, level, data) of a with_version call"""
    if not (isinstance(term, OpV) and term.op == 'lib' and term.args[0].endswith('QrCode::with_version') and len(term.args) == 4): return None
    return vargs(term.args[1:])
def vargs(a):
    v, e = a[1], a[2]
    if not (isinstance(v, Agg) and len(v.fs) == 1 and isinstance(v.fs[0], Lin) and v.fs[0].is_const() and isinstance(e, Agg)): return None
    return VK.get(v.var, '?'), v.fs[0].c, ECV.get(e.var, '?'), a[0]
VK = {0: 'Normal', 1: 'Micro'}
ECV = {0: 'L', 1: 'M', 2: 'Q', 3: 'H'}
def tried(S, s):
    """the encoder calls that failed on this path"""
    r = []
    seen = set()
    def add_(a):
        if a.op == 'okof' and a not in seen and s.aiv(a)[1] == 0:
            seen.add(a); v = vargs(a.key[2]) if a.key[1].endswith('QrCode::with_version') else None
            if v: r.append(v)
    for a in set(s.vset) | set(s.bnd): add_(a)
    for f in s.facts:
        if f.k == 'natom' and f.a.op == 'okof' and f.a not in seen:
            seen.add(f.a); v = vargs(f.a.key[2]) if f.a.key[1].endswith('QrCode::with_version') else None
            if v: r.append(v)
    return r
def names(calls): return ' '.join('%s%d%s' % x for x in sorted({x[:3] for x in calls})) or 'none'
def range_ok(calls, lo, hi, vk, ec, bs, all_):
    return {x[1] for x in calls if x[0] == vk and x[2] == EC[ec]} >= set(range(lo, hi + 1))
def same_data(S, s, d, bs):
    if isinstance(d, SeqV) and d.explicit():
        if len(d.items()) != len(bs): return False
        return conj(scalar_eq(s, x, y) for x, y in zip(d.items(), bs))
    return None
def other(c, cn):
    """data of a symbology that is not supported"""
    S = c.S; S.with_flush_hooks(); c.count('cases')
    label = 'store ' + NAMES[cn]
    for n in (1, 3):
        for o in S.stream([0x1D, 0x28, 0x6B] + lohi(n + 3) + [cn, 80, 48] + S.sym_bytes(n)):
            c.count('paths')
            for p, r, a in compare(S, o, o.st, {'code2d.symbol_storage': 'None'}): c.ob('%s | %s' % (label, p), r, '%s becomes %s' % (p, show(a)), label)
def show_symbol(c, cn, has):
    S = c.S; I = S.I; S.with_flush_hooks(); c.count('cases')
    label = 'print %s %s a stored symbol' % (NAMES[cn], 'with' if has else 'without')
    ctx = S.context()
    old = S.get(None, ctx, 'code2d', 'symbol_storage')
    t = old.ty; inner = I.ty(t)['targs'][0]
    q = I.sym_value(inner, 'stored')
    ctx = S.setp(ctx, 'code2d.symbol_storage', Agg(t, I.variant_index(t, 'Some'), [q]) if has else Agg(t, I.variant_index(t, 'None'), []))
    for s, cmds in S.parse([0x1D, 0x28, 0x6B, 3, 0, cn, 81, 48]):
        cmds = cmds[1:-1]
        if len(cmds) != 1: c.ob(label + ' | one command', None if cmds else False, '%d commands' % len(cmds), label); continue
        for s2, g in S.handler_call(s, S.ref(s, cmds[0].val), 'get_graphics', [S.ref(s, ctx)]):
            c.count('paths')
            g = S.whnf(s2, g); k = S.variant(s2, g)
            v = S.whnf(s2, g.fs[0]) if k == 'Some' else None; kk = S.variant(s2, v) if v is not None else None
            if has: c.ob(label + ' | draws it unchanged', (eqv(S, s2, v.fs[0], q) if kk == 'Code2D' else False) if k is not None else None, 'draws %s' % show(g), label)
            else: c.ob(label + ' | draws nothing', (kk == 'Error' or (k == 'None' and cn != 49)) if k is not None else None, 'draws %s' % show(g), label)
    # the whole command, so that printing leaves the stored symbol in place
    for o in S.stream([0x1D, 0x28, 0x6B, 3, 0, cn, 81, 48], S.setp(ctx, 'code2d.symbol_storage', Agg(t, I.variant_index(t, 'None'), []))):
        c.count('paths')
        if not has:
            bad = [e[1] for e in o.events if e[0] == 'out']
            c.ob(label + ' | nothing is handed to the output', not bad, 'output calls %s' % bad, label)
