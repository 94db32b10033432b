"""stored and buffered graphics: what is printed is what was stored, layer over layer"""
from fw import prop
from tables import *
from props.C31 import lohi, size, bit, images, empty, errors, no_more, COL, RAS

PAPER = {'paper_color': (250, 251, 252), 'color_1': (1, 2, 3), 'color_2': (201, 20, 30), 'color_3': (4, 105, 206)}
NUM = {48: 'paper_color', 49: 'color_1', 50: 'color_2', 51: 'color_3', 0: 'paper_color', 1: 'color_1', 2: 'color_2', 3: 'color_3'}
def L(*data): return [0x1D, 0x28, 0x4C] + lohi(len(data)) + list(data)
def L8(*data): return [0x1D, 0x38, 0x4C] + [(len(data) >> (8 * i)) & 255 for i in range(4)] + list(data)
def define(fn, k1, k2, w, h, layers, lead=L):
    d = [48, fn, 48, k1, k2, len(layers)] + lohi(w) + lohi(h)
    for col, bs in layers: d += [col] + bs
    return lead(*d)
def show_(fn, k1, k2, lead=L): return lead(48, fn, k1, k2, 1, 1)
def buf(how, w, h, col, bs, bx=1, by=1, lead=L): return lead(48, 113 if how == COL else 112, 48, bx, by, col, *(lohi(w) + lohi(h) + bs))
def bprint(fn=50, lead=L): return lead(48, fn)
STORE = {'NV': (67, 68, 69, 66, 65), 'download': (83, 84, 85, 82, 81)}

@prop('C11', 'abstract interpretation of the parser, the graphics functions of GS ( L and GS 8 L and the renderer on command sequences (define, print, delete, buffer, print buffer) with '
      'symbolic key codes and symbolic data bits; the images drawn on every path are compared with the ones the sequence must leave', cases=60, paths=150, obligations=500)
def check(c):
    c.assume.append('images of at most 3 by 3 dots, up to 3 layers, paper and ink colours fixed to distinct values; standard mode')
    js = []
    for lead in ('L', 'L8'):
        for st in STORE:
            for how in (RAS, COL):
                for cols in ((49,), (50, 49), (49, 51, 50), (1, 3)): js.append(('layers', lead, st, how, cols))
                js.append(('keys', lead, st, how, None)); js.append(('redefine', lead, st, how, None))
        for a in STORE:
            for b in STORE:
                js.append(('other store', lead, a, RAS, b)); js.append(('delete', lead, a, RAS, b)); js.append(('delete all', lead, a, RAS, b))
        for how in (RAS, COL):
            for cols in ((49,), (49, 50), (50, 49, 51), (2, 3)): js.append(('buffer', lead, None, how, cols))
            js += [('buffer small', lead, None, how, None), ('buffer again', lead, None, how, None), ('buffer error', lead, None, how, None), ('buffer stretch', lead, None, how, None), ('buffer fn 2', lead, None, how, None)]
        js += [('buffer empty', lead, None, RAS, None), ('undefined', lead, 'NV', RAS, None), ('undefined', lead, 'download', RAS, None)]
    c.par(js, lambda w, j: w.guard(name(*j), run, w, *j))
def name(kind, lead, st, how, x): return '%s%s%s %s%s' % ('GS ( L ' if lead == 'L' else 'GS 8 L ', kind, ' ' + st if st else '', how, ' %s' % (x,) if x else '')
def start(S):
    I = S.I
    ctx = S.setp(S.context(), 'page_mode.enabled', FALSE)
    bg = S.get(None, ctx, 'graphics', 'buffer_graphics')
    ety = I.ty(bg.ty)['targs'][0] if isinstance(bg, SymV) else bg.ety
    ctx = S.setp(ctx, 'graphics.buffer_graphics', SeqV([], ety))
    for n, (r, g, b) in PAPER.items():
        for ch, v in zip('rgb', (r, g, b)): ctx = S.setp(ctx, 'graphics.render_colors.%s.%s' % (n, ch), const(v))
    st = S.cmd_set()[0].copy()
    for p in ('graphics.render_area.x', 'graphics.render_area.y', 'graphics.render_area.w'): st.assume(c_le(sub(S.get(st, ctx, *p.split('.')), const(1 << 20))))
    return st, ctx
def run(c, kind, lead_, store, how, x):
    S = c.S; c.count('cases')
    label = name(kind, lead_, store, how, x)
    lead = L if lead_ == 'L' else L8
    w, h = 2, 1
    n = size(how, w, h)
    col = how == COL
    st, ctx = start(S)
    bs = S.sym_bytes(n * 3)
    A, B, C = bs[:n], bs[n:2 * n], bs[2 * n:]
    one = lambda d, k=49: [(w, h, how, k, d, (1, 1))]
    if store: dr, dc, pr, dl, da = STORE[store]; df = dc if col else dr
    if kind == 'layers':
        lay = [(k, d) for k, d in zip(x, (A, B, C))]
        seq = define(df, 65, 66, w, h, lay, lead) + show_(pr, 65, 66, lead) + show_(pr, 65, 66, lead)
        want = [[(w, h, how, k, d, (1, 1)) for k, d in lay]] * 2
        return judge(c, S, label, seq, st, ctx, lambda s: want)
    if kind == 'keys':
        k = [lin(sym('k%d' % i, 0, 255)) for i in range(4)]
        seq = define(df, k[0], k[1], w, h, [(49, A)], lead) + show_(pr, k[2], k[3], lead)
        other = S.get(st, ctx, 'graphics', 'stored_graphics')
        ctx = S.setp(ctx, 'graphics.stored_graphics', OpV('mapempty'))
        eq = c_and(c_eq(sub(k[0], k[2])), c_eq(sub(k[1], k[3])))
        return judge(c, S, label, seq, st, ctx, lambda s: [one(A)] if s.decide(eq) else [], [eq])
    if kind == 'redefine':
        seq = define(df, 65, 66, w, h, [(49, A)], lead) + define(df, 65, 67, w, h, [(50, B)], lead) + define(df, 65, 66, w, h, [(51, C)], lead) + show_(pr, 65, 66, lead) + show_(pr, 65, 67, lead)
        return judge(c, S, label, seq, st, ctx, lambda s: [one(C, 51), one(B, 50)])
    if kind == 'other store':
        o = STORE[x]
        seq = define(df, 65, 66, w, h, [(49, A)], lead) + define(o[0], 65, 66, w, h, [(50, B)], lead) + show_(pr, 65, 66, lead) + show_(o[2], 65, 66, lead)
        return judge(c, S, label, seq, st, ctx, lambda s: [one(B, 50)] * 2 if x == store else [one(A), one(B, 50)])
    if kind in ('delete', 'delete all'):
        o = STORE[x]
        seq = define(df, 65, 66, w, h, [(49, A)], lead) + define(df, 65, 67, w, h, [(50, B)], lead)
        seq += lead(48, o[3], 65, 66) if kind == 'delete' else lead(48, o[4], 67, 76, 82)
        seq += show_(pr, 65, 66, lead) + show_(pr, 65, 67, lead)
        want = [one(A), one(B, 50)] if x != store else ([one(B, 50)] if kind == 'delete' else [])
        return judge(c, S, label, seq, st, ctx, lambda s: want)
    if kind == 'undefined':
        ctx = S.setp(ctx, 'graphics.stored_graphics', OpV('mapempty'))
        return judge(c, S, label, show_(pr, 65, 66, lead), st, ctx, lambda s: [])
    if kind == 'buffer':
        lay = [(w, h, how, k, d, (1, 1)) for k, d in zip(x, (A, B, C))]
        seq = sum([buf(how, w, h, k, d, lead=lead) for (_, _, _, k, d, _) in lay], []) + bprint(lead=lead)
        return judge(c, S, label, seq, st, ctx, lambda s: [lay])
    if kind == 'buffer small':
        ns = size(how, 3, 3); D = S.sym_bytes(ns, 'e')
        for b in D: st.assume(c_eq(S.op(st, 'BitAnd', b, const(0x5F), 'u8')))
        A = S.sym_bytes(size(how, 2, 2), 'f')
        lay = [(3, 3, how, 49, D, (1, 1)), (2, 2, how, 50, A, (1, 1))]
        return judge(c, S, label, buf(how, 3, 3, 49, D, lead=lead) + buf(how, 2, 2, 50, A, lead=lead) + bprint(lead=lead), st, ctx, lambda s: [lay])
    if kind == 'buffer again':
        seq = buf(how, w, h, 49, A, lead=lead) + bprint(lead=lead) + bprint(lead=lead) + buf(how, w, h, 50, B, lead=lead) + bprint(lead=lead)
        return judge(c, S, label, seq, st, ctx, lambda s: [one(A), one(B, 50)])
    if kind == 'buffer fn 2':
        return judge(c, S, label, buf(how, w, h, 49, A, lead=lead) + bprint(2, lead), st, ctx, lambda s: [one(A)])
    if kind == 'buffer stretch':
        return judge(c, S, label, buf(how, w, h, 51, A, 2, 2, lead) + buf(how, w, h, 49, B, 2, 1, lead) + bprint(lead=lead), st, ctx, lambda s: [[(w, h, how, 51, A, (2, 2)), (w, h, how, 49, B, (2, 1))]])
    if kind == 'buffer error':
        seq = buf(how, w, h, 49, A, lead=lead) + buf(how, w, h, 50, B + [1], lead=lead) + bprint(lead=lead) + bprint(lead=lead) + buf(how, w, h, 50, C, lead=lead) + bprint(lead=lead)
        return judge(c, S, label, seq, st, ctx, lambda s: [one(C, 50)], errs=1)
    if kind == 'buffer empty':
        return judge(c, S, label, bprint(lead=lead) + bprint(2, lead), st, ctx, lambda s: [])
def judge(c, S, label, seq, st, ctx, want, split=(), errs=0):
    I = S.I
    I.merging = True
    try: outs = S.stream(seq, ctx, over={'span_buffer': empty(S)}, st=st, secs=150)
    finally: I.merging = False
    if not outs: c.ob(label + ' | no outcome', False, 'the commands never complete normally', 'bytes')
    for o in outs:
        work = [o.st]
        for cnd in split:
            nxt = []
            for s in work:
                if s.decide(cnd) is not None: nxt.append(s); continue
                for q in (cnd, c_not(cnd)):
                    s2 = s.copy()
                    if s2.assume(q): nxt.append(s2)
            work = nxt
        for s in work:
            if infeasible(s): continue
            c.count('paths')
            def ob(key, r, why):
                if r is False and (st_imprecise(s) or model(s) is None): r = None
                c.ob('%s | %s' % (label, key), r, why, 'graphics functions')
            w = want(s); got = images(o)
            ob('number of images', len(got) == len(w), '%d images are drawn, expected %d' % (len(got), len(w)))
            e = errors(S, o)
            if errs == 0: ob('no error', no_more(e), 'errors: %s' % show(e))
            elif isinstance(e, SeqV): 
                k = sum(1 for q in e.segs if q[0] == 'e'); ob('reported', k == errs, '%d errors are reported, expected %d: %s' % (k, errs, show(e)))
            if len(got) != len(w): continue
            for i, (ev, lay) in enumerate(zip(got, w)): same_image(c, S, s, ob, i, S.whnf(s, ev[2][1]), lay)
            b = S.whnf(s, S.get(s, o.ctx1, 'graphics', 'buffer_graphics'))
            if isinstance(b, SeqV): ob('buffer empty afterwards', scalar_eq(s, b.length(), const(0)), 'buffer holds %s' % show(b))
def same_image(c, S, s, ob, i, img, lay):
    """the layers over one another, the first one giving the size"""
    I = S.I
    W, H = lay[0][0] * lay[0][5][0], lay[0][1] * lay[0][5][1]
    for f, x in (('w', W), ('h', H)): ob('image %d %s' % (i, f), eqv(S, s, S.get(s, img, f), const(x)), '%s is %s, expected %d' % (f, show(S.get(s, img, f)), x))
    px = S.whnf(s, S.get(s, img, 'pixels'))
    if not (isinstance(px, SeqV) and px.explicit() and len(px.items()) == W * H): ob('image %d dots' % i, None, 'dots are %s' % show(px)); return
    for Y in range(H):
        for X in range(W):
            p = S.whnf(s, px.items()[Y * W + X])
            # the bits that decide this dot, topmost layer first
            bits = []
            for (w, h, how, k, d, (sx, sy)) in reversed(lay):
                if X < w * sx and Y < h * sy: bits.append((bit(S, s, d, how, w, h, X // sx, Y // sy), NUM[k]))
            cases = [s]
            for b, _ in bits:
                nxt = []
                for t in cases:
                    if t.decide(b) is not None: nxt.append(t); continue
                    for q in (b, c_not(b)):
                        t2 = t.copy()
                        if t2.assume(q): nxt.append(t2)
                cases = nxt
            for t in cases:
                top = next((n for b, n in bits if t.decide(b) is True), None)
                c.count('dots')
                a = S.get(t, p, 'a')
                r = eqv(S, t, a, const(255 if top else 0))
                if top and r is not False: r = conj([r] + [eqv(S, t, S.get(t, p, ch), const(v)) for ch, v in zip('rgb', PAPER[top])])
                ob('image %d' % i, r, 'dot (%d,%d) is %s, expected %s' % (X, Y, show(p, 160), 'opaque ' + top if top else 'transparent'))
