"""image data: every data bit becomes one block of dots at its row and column"""
from fw import prop
from tables import *

COL, RAS = 'column', 'raster'
def lohi(n): return [n & 255, n >> 8]
def size(how, w, h): return w * ((h + 7) // 8) if how == COL else ((w + 7) // 8) * h
def jobs():
    """label, bytes before the data, layout, width, height, stretch, paint (None: colour 1), data length, bytes after it"""
    r = []
    for m, (h, st) in {0: (8, (2, 3)), 1: (8, (1, 3)), 32: (24, (2, 1)), 33: (24, (1, 1))}.items():
        for w in (1, 2, 5, 9) + ((257,) if m in (1, 33) else ()): r.append(('ESC * m=%d n=%d' % (m, w), [0x1B, 0x2A, m] + lohi(w), COL, w, h, st, None, None, []))
    for m in (0, 1, 2, 3, 48, 49, 50, 51):
        for x, y in ((1, 1), (1, 3), (2, 2), (3, 1)) + (((257, 1), (1, 258)) if m == 0 else ()) if m < 4 else ((2, 2),):
            r.append(('GS v 0 m=%d x=%d y=%d' % (m, x, y), [0x1D, 0x76, 0x30, m] + lohi(x) + lohi(y), RAS, 8 * x, y, {0: (1, 1), 1: (2, 1), 2: (1, 2), 3: (2, 2)}[m % 48], None, None, []))
    for nm, lead, lw in (('GS ( L', [0x1D, 0x28, 0x4C], 2), ('GS 8 L', [0x1D, 0x38, 0x4C], 4)):
        ln = lambda n: [(n >> (8 * i)) & 255 for i in range(lw)]
        dims = ((8, 1), (16, 2), (7, 2), (9, 2), (17, 1), (1, 3), (8, 9), (3, 17), (258, 1), (1, 259)) if lw == 2 else ((9, 2), (3, 9))
        for w, h in dims:
            for how in (RAS, COL):
                n = size(how, w, h)
                for fn, pr in ((67, 69), (83, 85)):
                    r.append(('%s fn=%d w=%d h=%d' % (nm, fn + (how == COL), w, h), lead + ln(2 + 9 + n) + [48, fn + (how == COL), 48, 65, 66, 1] + lohi(w) + lohi(h) + [49],
                              how, w, h, (1, 1), 49, n, lead + ln(6) + [48, pr, 65, 66, 1, 1]))
                for col, bx, by in ((49, 1, 1), (50, 2, 1), (51, 1, 2), (49, 2, 2)) if (w, h) in ((9, 2), (3, 9), (8, 1)) else ((49, 1, 1),):
                    r.append(('%s fn=%d c=%d bx=%d by=%d w=%d h=%d' % (nm, 112 + (how == COL), col, bx, by, w, h), lead + ln(2 + 8 + n) + [48, 112 + (how == COL), 48, bx, by, col] + lohi(w) + lohi(h),
                              how, w, h, (bx, by), col, n, lead + ln(2) + [48, 50]))
    return r

@prop('C31', 'abstract interpretation of the parser, the image commands and the renderer on images of a grid of sizes whose data bytes are symbolic; every dot of the image handed to '
      'the output renderer is compared, as a function of the data bits, with the bit the layout assigns to it', cases=90, dots=10000, obligations=1000)
def check(c):
    c.assume.append('image sizes from a grid covering whole bytes, padded last bytes, one and several rows; standard mode')
    js = jobs()
    js.sort(key=lambda j: -size(j[2], j[3], j[4]))
    c.par(js, lambda w, j: w.guard(j[0], one, w, *j))
    bad = []
    for fn, how in ((67, RAS), (68, COL), (83, RAS), (84, COL), (112, RAS), (113, COL)):
        for d in (-2, -1, 1, 3): bad.append((fn, how, d))
    c.par(bad, lambda w, j: w.guard('GS ( L fn=%d, %+d bytes of data' % (j[0], j[2]), wrong, w, *j))
def start(S):
    ctx = S.context()
    ctx = S.setp(S.setp(ctx, 'page_mode.enabled', FALSE), 'graphics.buffer_graphics', SeqV([], S.I.ty(S.get(None, ctx, 'graphics', 'buffer_graphics').ty)['targs'][0] if isinstance(S.get(None, ctx, 'graphics', 'buffer_graphics'), SymV) else S.get(None, ctx, 'graphics', 'buffer_graphics').ety))
    st = S.cmd_set()[0].copy()
    for p in ('graphics.render_area.x', 'graphics.render_area.y', 'graphics.render_area.w'): st.assume(c_le(sub(S.get(st, ctx, *p.split('.')), const(1 << 20))))
    return st, ctx
def images(o): return [e for e in o.events if e[0] == 'out' and e[1] == 'render_image']
def one(c, label, lead, how, w, h, stretch, paint, dlen, tail):
    S = c.S; I = S.I; c.count('cases')
    n = size(how, w, h)
    bs = S.sym_bytes(n)
    st, ctx = start(S)
    I.merging = True; I.max_unroll = 8000
    try: outs = S.stream(lead + bs + tail, ctx, over={'span_buffer': empty(S)}, st=st, secs=400)
    finally: I.merging = False; I.max_unroll = 300
    if not outs: c.ob(label + ' | no outcome', False, 'the command never completes normally', 'bytes %s' % lead)
    for o in outs:
        ev = images(o)
        s = o.st
        errs = errors(S, o)
        if len(ev) != 1:
            c.ob(label + ' | one image', False if not st_imprecise(s) and model(s) is not None else None, '%d images are drawn, errors: %s' % (len(ev), show(errs)), 'render_image'); continue
        c.ob(label + ' | one image', True, '', 'render_image')
        c.ob(label + ' | no error', no_more(errs), 'errors: %s' % show(errs), 'error_buffer')
        img = S.whnf(s, ev[0][2][1])
        W, H = w * stretch[0], h * stretch[1]
        for f, x in (('w', W), ('h', H)):
            c.ob(label + ' | ' + f, eqv(S, s, S.get(s, img, f), const(x)), '%s is %s, expected %d' % (f, show(S.get(s, img, f)), x), 'Image')
        px = S.whnf(s, S.get(s, img, 'pixels'))
        if not isinstance(px, SeqV): c.ob(label + ' | dots', None, 'dots are %s' % show(px), 'Image'); continue
        c.ob(label + ' | number of dots', scalar_eq(s, px.length(), const(W * H)), '%s dots, expected %d' % (show(px.length()), W * H), 'Image')
        if not (px.explicit() and len(px.items()) == W * H):
            c.ob(label + ' | dots', None, 'dots are not listed one by one', 'Image'); continue
        col = S.get(s, o.ctx0, 'graphics', 'render_colors', {None: 'color_1', 48: 'paper_color', 49: 'color_1', 50: 'color_2', 51: 'color_3'}[paint])
        px = px.items()
        for y in range(h):
            rs = []; why = None
            for x in range(w):
                b = bit(S, s, bs, how, w, h, x, y)
                for k in range(stretch[0] * stretch[1]):
                    X, Y = x * stretch[0] + k % stretch[0], y * stretch[1] + k // stretch[0]
                    p = S.whnf(s, px[Y * W + X]); c.count('dots')
                    r = eqv(S, s, S.get(s, p, 'a'), scale(I.as_lin(b), 255))
                    if r is not False:
                        r = conj([r] + [eqv(S, s, S.get(s, p, ch), S.get(s, col, ch)) or colour_off(S, s, p, col, ch, b) for ch in 'rgb'])
                    rs.append(r)
                    if r is not True and why is None: why = 'dot (%d,%d): alpha %s, expected 255 exactly when %s; colour %s' % (X, Y, show(S.get(s, p, 'a')), show(b), show(p))
            c.ob(label + ' | row %d' % y, conj(rs), why or '', 'Image')
def colour_off(S, s, p, col, ch, b):
    """the colour of a dot that is not drawn does not matter"""
    s2 = s.copy()
    if not s2.assume(b): return True
    return eqv(S, s2, S.get(s2, p, ch), S.get(s2, col, ch))
def bit(S, s, bs, how, w, h, x, y):
    i, k = (x * ((h + 7) // 8) + y // 8, y % 8) if how == COL else (y * ((w + 7) // 8) + x // 8, x % 8)
    return c_ne(S.op(s, 'BitAnd', bs[i], const(0x80 >> k), 'u8'))
def empty(S):
    rt = S.renderer_ty(); t = S.fty(rt, 'span_buffer')
    return SeqV([], S.I.ty(t)['targs'][0])
def errors(S, o): return S.whnf(o.st, o.field('error_buffer'))
def no_more(e):
    """nothing was appended to the error list"""
    if not isinstance(e, SeqV): return None
    return not any(x[0] == 'e' for x in e.segs)
def wrong(c, fn, how, d):
    S = c.S; I = S.I; c.count('cases')
    w, h = 9, 2
    n = size(how, w, h)
    label = 'GS ( L fn=%d, %+d bytes of data' % (fn, d)
    bs = S.sym_bytes(n + d)
    if fn < 100: head = [48, fn, 48, 65, 66, 1] + lohi(w) + lohi(h) + [49]; pr = [0x1D, 0x28, 0x4C, 6, 0, 48, 69 if fn < 80 else 85, 65, 66, 1, 1]
    else: head = [48, fn, 48, 1, 1, 49] + lohi(w) + lohi(h); pr = [0x1D, 0x28, 0x4C, 2, 0, 48, 50]
    st, ctx = start(S)
    I.merging = True; I.max_unroll = 8000
    try: outs = S.stream([0x1D, 0x28, 0x4C] + lohi(len(head) + n + d) + head + bs + pr, ctx, over={'span_buffer': empty(S)}, st=st, secs=400)
    finally: I.merging = False; I.max_unroll = 300
    for o in outs:
        ev = images(o); e = errors(S, o)
        ok = False if ev else (True if no_more(e) is False else (False if no_more(e) else None))
        if ok is False and (st_imprecise(o.st) or model(o.st) is None): ok = None
        c.ob(label + ' | reported, nothing drawn', ok, '%d images drawn, errors: %s' % (len(ev), show(e)), 'render_image')
