"""where bars, 2D symbols and images are drawn, and where printing goes on afterwards"""
from fw import prop
from tables import *
from props.C14 import drawing

G, PM, PA = 'graphics.render_area.', 'page_mode.render_area.', 'page_mode.page_area.'
BAR = [[], [1], [0], [1, 0, 1], [1, 1, 0, 1], [0, 1, 1]]
CODE = [(1, [1]), (2, [1, 0, 0, 1]), (3, [1, 0, 1, 0, 1, 1]), (2, [0, 1, 1, 1, 1, 0]), (3, [1, 1, 1])]
HRI = ('None', 'Above', 'Below', 'Both')
FLOW = ('Inline', 'Block', 'None')
J = ('Left', 'Center', 'Right')

@prop('C12', 'abstract interpretation of the command routine on a graphic with given dots and symbolic dot size, from a symbolic position, print area and line spacing, for every '
      'justification, mode and HRI setting: each rectangle and image handed to the output renderer, and the position afterwards, are compared with the placement formula',
      cases=60, paths=200, obligations=700)
def check(c):
    c.assume.append('coordinates, area sizes and image sizes at most 2^20 dots; the position is inside the print area; dots 1 to 255 wide and high')
    js = []
    for page in (False, True):
        for j in J:
            js += [('bar', page, j, h, k) for h in HRI for k in (range(len(BAR)) if h == 'None' else (1,))]
            js += [('code', page, j, None, k) for k in range(len(CODE))]
            js += [('image', page, j, f, 0) for f in FLOW]
    c.par(js, lambda w, x: w.guard(name(*x), one, w, *x))
def name(kind, page, j, h, k):
    return '%s %s | %s | %s mode' % ({'bar': 'barcode', 'code': '2D symbol', 'image': 'image'}[kind],
        'HRI %s %s' % (h, ''.join(map(str, BAR[k]))) if kind == 'bar' else '%dx%d %s' % (CODE[k][0], len(CODE[k][1]) // CODE[k][0], ''.join(map(str, CODE[k][1]))) if kind == 'code' else h, j, 'page' if page else 'standard')
def one(c, kind, page, j, h, k):
    S = c.S; I = S.I; S.with_flush_hooks(); c.count('cases')
    label = name(kind, page, j, h, k)
    gt = S.adt(TP + 'graphics::GraphicsCommand')
    vn = {'bar': 'Barcode', 'code': 'Code2D', 'image': 'Image'}[kind]
    vi = I.variant_index(gt, vn)
    pt = I.ty(gt)['v'][vi]['f'][0][1]
    g = I.sym_value(pt, 'gfx')
    if isinstance(g, SymV): g = I.expand(g)
    st = S.cmd_set()[0].copy()
    def lim(v, lo, hi): st.assume(c_le(sub(const(lo), v))); st.assume(c_le(sub(v, const(hi))))
    ctx = S.context()
    ctx = S.setp(S.setp(ctx, 'page_mode.enabled', TRUE if page else FALSE), 'text.justify', S.enum(TP + 'context::TextJustify', j))
    for p in (G + 'x', G + 'y', G + 'w', PM + 'x', PM + 'y', PM + 'w', PA + 'x', PA + 'w'): lim(S.get(st, ctx, *p.split('.')), 0, 1 << 20)
    ls = S.get(st, ctx, 'text', 'line_spacing'); lim(ls, 0, 255)
    A = PM if page else G
    x0, y0, W = (S.get(st, ctx, *(A + f).split('.')) for f in 'xyw')
    base = S.get(st, ctx, *(PA + 'x').split('.')) if page else const(0)
    lim(sub(x0, base), 0, 1 << 20); st.assume(c_le(sub(sub(x0, base), W)))
    op = {'bar': (0x1D, 0x6B), 'code': (0x1D, 0x28, 0x6B), 'image': (0x1D, 0x76, 0x30)}[kind]
    if kind == 'bar':
        ctx = S.setp(ctx, 'barcode.human_readable', S.enum(TP + 'context::HumanReadableInterface', h))
        g = S.put(S.put(g, 'points', S.seq_u8([const(x) for x in BAR[k]])), 'hri', S.enum(TP + 'context::HumanReadableInterface', h))
        for f in ('point_width', 'point_height'): lim(S.get(st, g, f), 1, 255)
    elif kind == 'code':
        g = S.put(S.put(g, 'points', S.seq_u8([const(x) for x in CODE[k][1]])), 'width', const(CODE[k][0]))
        for f in ('point_width', 'point_height'): lim(S.get(st, g, f), 1, 255)
    else:
        g = S.put(g, 'flow', S.enum(TP + 'graphics::ImageFlow', h))
        for f in ('w', 'h'): lim(S.get(st, g, f), 0, 1 << 20)
    gv = Agg(gt, vi, [g])
    def vh(st, meth, decl, recv, args, dty):
        if meth == 'get_graphics': return [(st, Agg(dty, I.variant_index(dty, 'Some'), [gv]))]
        if meth == 'get_device_command': return [(st, Agg(dty, I.variant_index(dty, 'None'), []))]
    I.virtual_hook = vh
    rt = S.renderer_ty()
    over = {'span_buffer': SeqV([], I.ty(S.fty(rt, 'span_buffer'))['targs'][0])}
    try: outs = S.stream(drawing(op), ctx, over=over, st=st)
    finally: I.virtual_hook = None
    if not outs: c.ob(label + ' | no outcome', False, 'never completes normally', vn)
    for o in outs:
        c.count('paths')
        # decide what the placement formula depends on
        work = [o.st]
        cs = conds(S, kind, g, j, base, W, x0, k, h)
        for q, cnd in enumerate(cs):
            nxt = []
            for s in work:
                cv = cnd(s); r = s.decide(cv)
                if r is not None: nxt.append(s); continue
                for z in (cv, c_not(cv)):
                    s2 = s.copy()
                    if s2.assume(z): nxt.append(s2)
            work = nxt
        # what ends inside the print area: a column only when those before it do
        if kind != 'image':
            keep = []
            for s in work:
                f = [s.decide(x(s)) for x in cs[1:]]
                if not any(f[i] is False and f[i + 1] is True for i in range(len(f) - 1)) and not (s.decide(cs[0](s)) is True and False in f): keep.append(s)
            work = keep
        for s in work:
            if not infeasible(s): judge(c, S, o, s, label, kind, page, j, h, k, g, base, W, x0, y0, ls, A)
def just(S, s, j, W, w):
    if s.decide(c_le(sub(w, W))) is not True: return const(0)
    d = sub(W, w)
    return const(0) if j == 'Left' else d if j == 'Right' else S.op(s, 'Div', d, const(2))
def gridw(S, kind, g, k, s):
    n = len(BAR[k]) if kind == 'bar' else CODE[k][0]
    return scale(S.get(s, g, 'point_width'), n)
def conds(S, kind, g, j, base, W, x0, k, h):
    if kind == 'image':
        w = S.get(None, g, 'w')
        return [lambda s: c_le(sub(w, W)), lambda s: c_le(sub(w, sub(W, sub(x0, base))))]
    pw = S.get(None, g, 'point_width')
    n = len(BAR[k]) if kind == 'bar' else CODE[k][0]
    return [lambda s: c_le(sub(gridw(S, kind, g, k, s), W))] + [(lambda i: lambda s: fits(S, s, kind, g, j, k, W, i, pw))(i) for i in range(n)]
def fits(S, s, kind, g, j, k, W, i, pw):
    """does column i end inside the print area"""
    return c_le(sub(add(just(S, s, j, W, gridw(S, kind, g, k, s)), scale(pw, i + 1)), W))
def judge(c, S, o, s, label, kind, page, j, h, k, g, base, W, x0, y0, ls, A):
    I = S.I
    got = []; imgs = []; order = []
    for e in o.events:
        if e[0] == 'flush':
            q = S.whnf(s, e[1])
            if not (isinstance(q, SeqV) and q.explicit() and not q.items()): order.append(('text', e))
            continue
        if e[0] != 'out': continue
        if e[1] == 'render_graphics':
            q = S.whnf(s, e[2][1])
            if not isinstance(q, SeqV) or not q.explicit(): c.ob(label + ' | rectangles', None, 'rectangles are %s' % show(q), e[1]); return
            for r in q.items():
                r = S.whnf(s, r)
                if isinstance(r, Agg) and len(r.fs) == 1: r = S.whnf(s, r.fs[0])
                got.append([S.get(s, r, f) for f in ('x', 'y', 'w', 'h')])
            order.append(('bars', e))
        if e[1] == 'render_image': imgs.append(S.whnf(s, e[2][1]))
    def ob(key, r, why): 
        if r is False and (st_imprecise(s) or model(s) is None): r = None
        c.ob(label + ' | ' + key, r, why, 'process_command')
    x, y = None, None
    texts = [e for kd, e in order if kd == 'text']
    if kind == 'image':
        ob('one image', len(imgs) == 1, '%d images are drawn' % len(imgs))
        if len(imgs) != 1: return
        w, hh = S.get(s, g, 'w'), S.get(s, g, 'h')
        X, Y = x0, y0
        if h == 'Inline' and s.decide(c_le(sub(w, sub(W, sub(x0, base))))) is not True: X, Y = base, add(y0, ls)
        if h == 'Block' and not page: X = just(S, s, j, W, w)
        for f, v in (('x', X), ('y', Y), ('w', w), ('h', hh), ('upside_down', S.get(s, g, 'upside_down'))):
            a = S.get(s, imgs[0], f); ob('image ' + f, eqv(S, s, a, v), '%s is %s, expected %s' % (f, show(a), show(v)))
        a, b = S.whnf(s, S.get(s, imgs[0], 'pixels')), S.whnf(s, S.get(s, g, 'pixels'))
        ob('image dots', True if I.same_struct(s, a, b) else None, 'dots change to %s' % show(a))
        if h == 'Inline': x, y = add(X, w), Y
        elif h == 'Block': x, y = (None, None) if page else (const(0), add(y0, hh))
        else: x, y = x0, y0
        ob('nothing else is drawn', not got, '%d rectangles' % len(got))
    else:
        pw, ph = S.get(s, g, 'point_width'), S.get(s, g, 'point_height')
        pts = BAR[k] if kind == 'bar' else CODE[k][1]
        n = len(pts) if kind == 'bar' else CODE[k][0]
        above, below = kind == 'bar' and h in ('Above', 'Both'), kind == 'bar' and h in ('Below', 'Both')
        top = add(y0, ls) if above else y0
        ox = add(base, just(S, s, j, W, gridw(S, kind, g, k, s)))
        want = []
        for i, p in enumerate(pts):
            col, row = i % n, i // n
            if p and s.decide(fits(S, s, kind, g, j, k, W, col, pw)) is True: want.append([add(ox, scale(pw, col)), add(top, scale(ph, row)), pw, ph])
        ob('number of rectangles', len(got) == len(want), '%d rectangles are drawn for %d dark dots inside the print area' % (len(got), len(want)))
        if len(got) == len(want):
            left = list(want)
            for a in got:
                r = None
                for b in left:
                    if conj(eqv(S, s, p, q) for p, q in zip(a, b)) is True: r = b; break
                if r is not None: left.remove(r); ob('rectangle', True, ''); continue
                v = conj(eqv(S, s, p, q) for p, q in zip(a, left[0]))
                ob('rectangle', v, 'drawn at %s, expected %s' % (show(a, 160), show(left[0], 160)))
        rows = len(pts) // n if n else 0
        if kind == 'bar': rows = 1
        y = add(top, scale(ph, rows)); x = base
        seq = [kd for kd, e in order]
        if not got: seq = [q for q in seq if q != 'bars']; 
        exp = (['text'] if above else []) + (['bars'] if got else []) + (['text'] if below else [])
        ob('text and bars in order', seq == exp, 'printed in the order %s, expected %s' % (' '.join(seq), ' '.join(exp)))
        if below: y = add(add(y, const(8)), ls)
        if seq == exp:
            t = S.get(s, g, 'text') if kind == 'bar' else None
            fy = ([y0] if above else []) + ([add(add(top, ph), const(8))] if below else [])
            for e, yy in zip(texts, fy):
                q = S.whnf(s, e[1])
                ok = None
                if isinstance(q, SeqV) and q.explicit(): ok = False if len(q.items()) != 1 else (True if I.same_struct(s, S.whnf(s, q.items()[0]), S.whnf(s, t)) else eqv(S, s, q.items()[0], t))
                ob('human readable text', ok, 'printed text is %s' % show(q))
                a = S.get(s, e[2], *(A + 'y').split('.')); ob('text height', eqv(S, s, a, yy), 'text is printed at y %s, expected %s' % (show(a), show(yy)))
        ob('no image', not imgs, '%d images' % len(imgs))
    exp = {A + 'x': x, A + 'y': y}
    for p, r, a in compare(S, o, s, exp):
        ob('afterwards ' + p, r, '%s becomes %s, expected %s' % (p, show(a), show(exp.get(p, 'unchanged'))))
