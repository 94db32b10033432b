"""image output: every dot of an image, bar, text cell or page reaches its place on the paper, and nothing else changes"""
from fw import prop
from tables import *
import interp, math, struct

TR = 'thermal_renderer::'
IR = TR + 'image_renderer::ImageRenderer'
ORT = '<%s as %srenderer::OutputRenderer<%simage_renderer::ReceiptImage>>::' % (IR, TR, TR)
RGBA = TP + 'graphics::RGBA'
def f32(x): return struct.unpack('<f', struct.pack('<f', x))[0]

class Paper:
    """the reference: rows of (r, g, b) terms"""
    def __init__(self, w, paper, grow=True): self.w = w; self.rows = []; self.paper = paper; self.grow = grow; self.fixed = False
    def height(self, h):
        while len(self.rows) < h and self.w: self.rows.append([self.paper] * self.w)
    def put(self, x, y, w, h, px, mix):
        """px[j][i] or None for a transparent dot"""
        if x >= self.w or (not self.grow and y >= len(self.rows)): return False
        if self.grow: self.height(y + h)
        for j in range(h):
            for i in range(w):
                if x + i < self.w and y + j < len(self.rows) and px[j][i] is not None: self.rows[y + j][x + i] = mix(self.rows[y + j][x + i], px[j][i])
        return True
    def flip(self, x, y, w, h):
        if x + w > self.w: return
        if self.grow: self.height(y + h)
        b = [self.rows[y + j][x:x + w] for j in range(h)]
        for j in range(h): self.rows[y + j][x:x + w] = b[h - 1 - j]
    def turn(self, k):
        """k quarter turns clockwise"""
        for _ in range(k):
            rows = self.rows; h = len(rows); w = self.w if rows else 0
            self.rows = [[rows[h - 1 - i][j] for i in range(h)] for j in range(w)]; self.w = h
    def widen_right(self, w):
        if w > self.w:
            self.rows = [r + [self.paper] * (w - self.w) for r in self.rows]; self.w = w
    def centre(self, w):
        if w < self.w: return
        l = (w - self.w) // 2; r = w - self.w - l
        self.rows = [[self.paper] * l + q + [self.paper] * r for q in self.rows]; self.w = w

@prop('C18', 'abstract interpretation of the image output (begin, drawing calls, page calls, end) on symbolic colours for a grid of sizes and positions; '
      'every colour byte of the finished image is compared, as a term, with a reference canvas', cases=60, paths=60, obligations=2000)
def check(c):
    c.assume.append('the glyph rasterizer (fontdue) is replaced by a stand-in glyph of two known dots')
    c.assume.append('mixing of colours is the code\'s own multiply_foreground, decided by C19')
    cs = cases()
    c.par(range(len(cs)), lambda w, i: w.guard(cs[i][0], one, w, *cs[i]))

def cases():
    r = []
    def add_(name, ops, W=6, PW=8, end=0): r.append((name, ops, W, PW, end))
    I = lambda x, y, w, h, a='full', up=False: ('img', x, y, w, h, a, up)
    add_('nothing printed', []); add_('only feeding', [], end=3)
    for x, y in ((0, 0), (2, 0), (0, 3), (3, 2)): add_('image at %d,%d' % (x, y), [I(x, y, 3, 2)])
    add_('transparent dots', [I(1, 1, 4, 3, 'holes')]); add_('wholly transparent', [I(1, 1, 2, 2, 'none')])
    for x, w in ((3, 4), (3, 5), (5, 4), (0, 9), (6, 2), (7, 3)): add_('image of %d dots at %d on 6' % (w, x), [I(x, 1, w, 2)])
    add_('tall image', [I(1, 0, 2, 9)]); add_('one column', [I(5, 0, 1, 5)]); add_('one row', [I(0, 4, 6, 1)])
    add_('two images overlap', [I(0, 0, 4, 3), I(2, 1, 4, 4, 'holes')]); add_('later image higher up', [I(0, 6, 3, 2), I(1, 1, 3, 2)])
    add_('image then feed', [I(0, 0, 3, 2)], end=7); add_('feed less than image', [I(0, 0, 3, 5)], end=2)
    add_('upside down image', [I(1, 1, 4, 3, 'full', True)]); add_('upside down over earlier', [I(0, 0, 6, 5), I(1, 1, 3, 3, 'holes', True)]); add_('upside down at the edge', [I(4, 0, 2, 4, 'full', True)])
    add_('image after an image too far right', [I(9, 0, 2, 2), I(1, 0, 2, 2)])
    for W, PW in ((6, 6), (6, 7), (6, 9), (5, 8), (1, 4), (7, 12)): add_('margins %d on %d' % (W, PW), [I(0, 0, W, 2), I(0, 3, 1, 1)], W, PW, 5)
    B = lambda x, y, w, h: ('rect', x, y, w, h)
    add_('bars', [B(0, 0, 1, 4), B(2, 0, 2, 4), B(5, 0, 1, 4)]); add_('bar over image', [I(0, 0, 6, 3), B(1, 1, 3, 3)]); add_('several bars at once', [('rects', (0, 1, 2, 2), (3, 0, 1, 5), (4, 4, 3, 1))]); add_('bar cut at the edge', [B(4, 1, 5, 2)])
    T = lambda x, y, n=2, w=2, h=3, **k: ('text', dict(x=x, y=y, n=n, w=w, h=h, **k))
    for x, y in ((0, 0), (1, 2)): add_('text at %d,%d' % (x, y), [T(x, y)])
    add_('text offset', [T(0, 0, off=2)]); add_('one character', [T(3, 1, 1)]); add_('empty text', [T(3, 1, 0)]); add_('three characters', [T(0, 0, 3)])
    add_('text beyond the edge', [T(3, 0, 2)]); add_('text over image', [I(0, 0, 6, 4), T(1, 0, 2)]); add_('text not placed', [T(0, 0, nodim=True)])
    add_('doubled width', [T(0, 0, 1, sx=2)]); add_('two wide characters', [T(0, 0, 3, w=1, sx=2)]); add_('doubled height', [T(0, 0, 2, sy=2)]); add_('doubled both', [T(1, 1, 1, sx=2, sy=2)]); add_('tripled height doubled width', [T(0, 0, 1, sx=2, sy=3)])
    add_('underlined', [T(0, 0, underline=2)], end=8); add_('underlined offset', [T(1, 2, off=1, underline=1)]); add_('struck out', [T(0, 0, 2, 2, 5, strike=1)]); add_('thick strike', [T(0, 1, 2, 2, 5, strike=2)])
    add_('upside down text', [T(1, 1, 2, up=True)]); add_('two spans', [('texts', dict(x=0, y=0, n=1, w=2, h=3), dict(x=2, y=0, n=2, w=2, h=3))])
    add_('small next to tall', [('texts', dict(x=0, y=0, n=1, w=2, h=3), dict(x=2, y=0, n=1, w=2, h=3, sy=2))])
    for nm, st in (('underlined', dict(underline=1)), ('struck out', dict(strike=1)), ('upside down', dict(up=True)), ('fully styled', dict(underline=1, strike=2, up=True))):
        add_('small %s next to tall' % nm, [('texts', dict(x=0, y=4, n=1, w=2, h=3, **st), dict(x=2, y=4, n=1, w=2, h=3, sy=3))])
        add_('tall %s next to small' % nm, [('texts', dict(x=0, y=1, n=1, w=2, h=3, sy=2, **st), dict(x=2, y=1, n=1, w=2, h=3))])
        add_('%s text far down' % nm, [T(1, 9, 2, **st)]); add_('%s text offset over image' % nm, [I(0, 0, 6, 6), T(1, 2, 2, off=1, **st)]); add_('%s text beyond the edge' % nm, [T(3, 1, 2, **st)])
    add_('upside down image far down', [I(1, 8, 3, 3, 'full', True)]); add_('upside down image then text', [I(1, 1, 3, 3, 'holes', True), T(0, 5)]); add_('bars far down', [B(1, 9, 2, 3), B(4, 8, 2, 2)])
    add_('one upside down span of two', [('texts', dict(x=0, y=3, n=1, w=2, h=3, up=True), dict(x=2, y=3, n=2, w=2, h=3))]); add_('second line', [T(0, 0, 3), T(0, 4, 2, underline=1), T(2, 8, 1, sx=2, sy=2)])
    P = lambda rot, w, h: ('area', rot, w, h)
    pg = [('page',)]
    for d in range(4):
        w, h = (4, 3)
        pre = pg + [P(0, w, h)]
        add_('page direction %d' % d, pg + [P(d, *((w, h) if d % 2 == 0 else (h, w))), ('pimg', 0, 0, 2, 2, 'holes', False), ('print', d, 1, 2)])
        add_('page turned %d with content' % d, pre + [('pimg', 1, 0, 2, 3, 'full', False), P(d, *((w, h) if d % 2 == 0 else (h, w))), ('pimg', 0, 0, 1, 2, 'full', False), ('print', d, 0, 0)])
    add_('page grows right', pg + [P(0, 3, 2), ('pimg', 0, 0, 3, 2, 'full', False), P(0, 6, 2), ('pimg', 4, 0, 2, 2, 'full', False), ('print', 0, 0, 0)])
    add_('page grows right by an odd amount', pg + [P(0, 2, 2), ('pimg', 0, 0, 2, 2, 'full', False), P(0, 5, 2), ('print', 0, 0, 0)])
    add_('page grows down', pg + [P(0, 4, 2), ('pimg', 0, 0, 3, 2, 'full', False), P(0, 4, 5), ('pimg', 1, 3, 2, 2, 'full', False), ('print', 0, 0, 0)])
    add_('page one row high', pg + [P(0, 4, 1), ('pimg', 0, 0, 3, 1, 'full', False), ('print', 0, 0, 0)]); add_('page grows by one', pg + [P(0, 4, 2), P(0, 5, 3), ('pimg', 0, 0, 5, 3, 'full', False), ('print', 0, 0, 0)])
    add_('page does not shrink', pg + [P(0, 4, 4), ('pimg', 0, 0, 3, 2, 'full', False), P(0, 2, 2), ('print', 0, 0, 0)])
    add_('content too wide for the page', pg + [P(0, 4, 4), ('pimg', 2, 1, 4, 2, 'full', False), ('print', 0, 0, 0)])
    add_('content too high for the page', pg + [P(0, 4, 4), ('pimg', 1, 2, 2, 4, 'full', False), ('print', 0, 0, 0)])
    add_('narrow content too high for the page', pg + [P(0, 5, 4), ('pimg', 1, 2, 1, 4, 'full', False), ('print', 0, 0, 0)])
    add_('low wide content near the bottom', pg + [P(0, 5, 4), ('pimg', 0, 2, 4, 2, 'full', False), ('print', 0, 0, 0)])
    add_('content below the page', pg + [P(0, 4, 2), ('pimg', 0, 2, 2, 2, 'full', False), ('print', 0, 0, 0)])
    add_('page printed twice', pg + [P(0, 3, 2), ('pimg', 0, 0, 3, 2, 'full', False), ('print', 0, 0, 0), ('pimg', 1, 0, 1, 2, 'full', False), ('print', 0, 0, 3)])
    add_('page printed twice turned', pg + [P(1, 3, 2), ('pimg', 0, 0, 3, 2, 'full', False), ('print', 1, 0, 0), ('pimg', 1, 0, 1, 2, 'full', False), ('print', 1, 0, 4)])
    add_('new page is empty', pg + [P(0, 3, 2), ('pimg', 0, 0, 3, 2, 'full', False), ('print', 0, 0, 0)] + pg + [P(0, 3, 2), ('print', 0, 0, 3)])
    add_('page over earlier print', [I(0, 0, 6, 4)] + pg + [P(0, 3, 2), ('pimg', 0, 0, 2, 2, 'holes', False), ('print', 0, 1, 1)])
    add_('page wider than the paper', pg + [P(0, 9, 2), ('pimg', 0, 0, 9, 2, 'full', False), ('print', 0, 0, 0)])
    add_('page content stays off the paper', pg + [P(0, 3, 2), ('pimg', 0, 0, 3, 2, 'full', False), I(0, 3, 2, 2)])
    add_('page bars and text', pg + [P(0, 6, 4), ('prect', 0, 0, 1, 4), ('ptext', dict(x=2, y=0, n=2, w=2, h=3)), ('print', 0, 0, 0)])
    return r

def colour(S, name, a=255): return Agg(S.adt(RGBA), 0, [S.I.sym_value(S.fty(S.adt(RGBA), n), '%s.%s' % (name, n)) for n in 'rgb'] + [const(a)]) if a is not None else None
class Env: pass
def glyph(S):
    """stand-in for the rasterizer: a glyph of 2x1 dots, the left one solid, in the top left corner of the character"""
    I = S.I
    called = {i['path'] for f in S.P.funcs.values() if f['path'].startswith(TR) for b in f['blocks'] for t in (b[1],) if t[0] == 'call' and t[1][0] == 'def' for i in (t[1][1]['inst'],) if i}
    def set_(path, f):
        for q in called:
            if q.endswith(path): I.hooks[interp.norm_path(q)] = f
    F = lambda x: OpV('f', (float(x),))
    def rasterize(I, st, fr, args, inst, atys, dty, line):
        mt, bt = [x for x in I.ty(dty)['f']]
        m = I.sym_value(mt, 'metrics'); m = I.expand(m) if isinstance(m, SymV) else m
        m = S.setp(S.setp(m, 'width', const(2)), 'height', const(1))
        b = S.get(st, m, 'bounds'); b = I.expand(b) if isinstance(b, SymV) else b
        for n, x in (('xmin', 0), ('ymin', 0), ('width', 2), ('height', 10)): b = S.setp(b, n, F(x))
        return [(st, Agg(dty, 0, [S.setp(m, 'bounds', b), SeqV([('e', const(255)), ('e', const(0))], I.ty(bt)['targs'][0])]))]
    def metrics(I, st, fr, args, inst, atys, dty, line):
        vi = I.variant_index(dty, 'Some'); lt = I.ty(dty)['v'][vi]['f'][0][1]
        m = I.expand(I.sym_value(lt, 'line metrics'))
        for n, x in (('ascent', 12), ('descent', -2)): m = S.setp(m, n, F(x))
        return [(st, Agg(dty, vi, [m]))]
    n = [0]
    def font(I, st, fr, args, inst, atys, dty, line):
        n[0] += 1; vi = I.variant_index(dty, 'Ok')
        return [(st, Agg(dty, vi, [OpV('lib', ('font %d' % n[0], ()))]))]
    set_('fontdue::Font::from_bytes', font); set_('fontdue::Font::rasterize', rasterize); set_('fontdue::Font::horizontal_line_metrics', metrics)
    set_('fontdue::layout::CharacterData::is_control', lambda I, st, fr, args, inst, atys, dty, line: [(st, FALSE)])
def setup(c):
    S = c.S
    if hasattr(S, 'c18'): return S.c18
    e = Env(); glyph(S)
    e.memo = {}
    S.c18 = e
    return e
def mul(c, e, dst, src):
    """the code's own mixing of an opaque colour onto paper"""
    S = c.S; k = (dst, src)
    if k not in e.memo:
        st = S.registry()[0].copy(); t = S.adt(RGBA)
        d = S.ref(st, Agg(t, 0, list(dst) + [const(255)])); s = S.ref(st, Agg(t, 0, list(src) + [const(255)]))
        outs = S.call(RGBA + '::multiply_foreground', [d, s], st)
        if len(outs) != 1: raise Undecided('mixing of colours')
        e.memo[k] = tuple(S.I.as_lin(x) for x in S.whnf(outs[0][0], d).fs[:3])
    return e.memo[k]
def one(c, name, ops, W, PW, end):
    S = c.S; I = S.I; e = setup(c); c.count('cases')
    mix = lambda d, s: mul(c, e, d, s)
    I.crashes = []
    rgb = lambda v: tuple(I.as_lin(x) for x in v.fs[:3])
    paper = colour(S, 'paper'); ink = colour(S, 'ink')
    ctx = S.context()
    for p, v in (('graphics.render_area.w', W), ('graphics.paper_area.w', PW), ('graphics.render_area.x', 0), ('graphics.render_area.y', 0)): ctx = S.setp(ctx, p, const(v))
    ctx = S.setp(S.setp(ctx, 'graphics.render_colors.paper_color', paper), 'text.color', ink)
    ctx = S.setp(ctx, 'page_mode.enabled', FALSE)
    st = S.registry()[0].copy()
    outs = S.call(IR + '::new', [], st)
    if len(outs) != 1: raise Undecided('construction of the image output')
    st, rv = outs[0]
    rr = S.ref(st, rv); cr = S.ref(st, ctx)
    paths = [st]
    def setc(s, p, v): I.store(s, cr.base, (), S.setp(I.load(s, cr.base, ()), p, v))
    def step(meth, args):
        nonlocal paths
        r = []
        for s in paths: r += [s2 for s2, _ in S.call(ORT + meth, [rr] + args(s), s, 120)]
        paths = r
        if len(r) > 64: raise Undecided('too many paths')
    step('begin_render', lambda s: [cr])
    P = Paper(W, rgb(paper)); G = Paper(0, rgb(paper), False)
    nimg = [0]
    def image(op):
        _, x, y, w, h, a, up = op; k = nimg[0]; nimg[0] += 1
        px = []; ref = []
        for j in range(h):
            row = []
            for i in range(w):
                al = 255 if a == 'full' or a == 'holes' and (i * 3 + j * 5) % 4 else 0
                v = colour(S, 'image %d dot %d,%d' % (k, i, j), al); px.append(('e', v)); row.append(rgb(v) if al else None)
            ref.append(row)
        t = S.adt(TP + 'graphics::Image'); v = I.expand(I.sym_value(t, 'image %d' % k)) if isinstance(I.sym_value(t, 'image'), SymV) else I.sym_value(t, 'image %d' % k)
        for n, q in (('pixels', SeqV(px, S.adt(RGBA))), ('x', const(x)), ('y', const(y)), ('w', const(w)), ('h', const(h)), ('upside_down', TRUE if up else FALSE)): v = S.setp(v, n, q)
        return v, ref
    def span(d, k):
        t = S.adt(TP + 'text::TextSpan'); v = I.sym_value(t, 'span %d' % k); v = I.expand(v) if isinstance(v, SymV) else v
        cw, ch = d['w'] * d.get('sx', 1), d['h'] * d.get('sy', 1)
        bg, fg = colour(S, 'background %d' % k), colour(S, 'text %d' % k)
        dt = S.fty(t, 'dimensions'); some = I.variant_index(dt, 'Some'); dim = I.ty(dt)['v'][some]['f'][0][1]
        dv = I.sym_value(dim, 'dimensions'); dv = I.expand(dv) if isinstance(dv, SymV) else dv
        for n, q in (('x', d['x']), ('y', d['y']), ('w', cw * d['n']), ('h', ch)): dv = S.setp(dv, n, const(q))
        for n, q in (('character_width', const(cw)), ('character_height', const(ch)), ('base_character_width', const(d['w'])), ('base_character_height', const(d['h'])), ('text', OpV('str', (('lit', 'ABCDEF'[:d['n']]),))),
                     ('underline', const(d.get('underline', 0))), ('strikethrough', const(d.get('strike', 0))), ('upside_down', TRUE if d.get('up') else FALSE), ('font', S.enum(TP + 'context::Font', 'A')),
                     ('background_color', bg), ('text_color', fg), ('dimensions', Agg(dt, I.variant_index(dt, 'None'), []) if d.get('nodim') else Agg(dt, some, [dv]))): v = S.setp(v, n, q)
        return v, bg, fg
    def draw_text(cv, d, bg, fg, maxh):
        if d.get('nodim'): return
        off = d.get('off', 0); cw, ch = d['w'] * d.get('sx', 1), d['h'] * d.get('sy', 1)
        ratio = f32(f32(f32(12.0) * f32(1.68)) * f32(0.0315))
        y0 = max(0, int(f32(f32(maxh * ratio) - f32(ch * ratio)))) if maxh > ch else 0
        sc = max(d.get('sx', 1), d.get('sy', 1)); bw, bh = d['w'] * sc, d['h'] * sc
        big = [[rgb(bg)] * bw for _ in range(bh)]; big[0][0] = rgb(fg)
        cell = big if sc == 1 else [[big[int(j * bh / ch)][int(i * bw / cw)] for i in range(cw)] for j in range(ch)]
        for i in range(d['n']): cv.put(d['x'] + off + i * cw, d['y'] + y0, cw, ch, cell, mix)
        base = int(f32(ch * ratio))
        line = lambda yy, n: cv.put(d['x'] + off, yy, cw * d['n'], n, [[rgb(fg)] * (cw * d['n'])] * n, mix)
        if d.get('underline'): line(d['y'] + y0 + 3 + base, 1)
        if d.get('strike'): line(d['y'] + y0 + int(f32(ch / 2.5)), d['strike'])
        if d.get('up'): cv.flip(d['x'] + off, d['y'] + y0, cw * d['n'], ch)
    ROT = ('R0', 'R90', 'R180', 'R270')
    rots = [x['n'] for x in I.ty(S.adt(TP + 'context::Rotation'))['v']]
    rot = lambda k: S.enum(TP + 'context::Rotation', {1: 'R90', 2: 'R180', 3: 'R270'}[k] if k else next(n for n in rots if n not in ROT[1:]))
    DIRS = ('TopLeft2Right', 'TopRight2Bottom', 'BottomRight2Left', 'BottomLeft2Top')
    facing = 0
    for op in ops:
        k = op[0]; page = k.startswith('p') and k not in ('page', 'print')
        cv = G if page else P
        for s in paths: setc(s, 'page_mode.enabled', TRUE if page else FALSE)
        kk = k[1:] if page else k
        if kk == 'img':
            v, ref = image(op)
            step('render_image', lambda s: [cr, S.ref(s, v)])
            cv.put(op[1], op[2], op[3], op[4], ref, mix)
            if op[6]: cv.flip(op[1], op[2], op[3], op[4])
        elif kk in ('rect', 'rects'):
            rs = [op[1:]] if kk == 'rect' else op[1:]
            vg = S.adt(TP + 'graphics::VectorGraphic'); rt = S.adt(TP + 'graphics::Rectangle')
            items = []
            for x, y, w, h in rs:
                r = I.sym_value(rt, 'r'); r = I.expand(r) if isinstance(r, SymV) else r
                for n, q in (('x', x), ('y', y), ('w', w), ('h', h)): r = S.setp(r, n, const(q))
                items.append(('e', Agg(vg, I.variant_index(vg, 'Rectangle'), [r])))
                cv.put(x, y, w, h, [[rgb(ink)] * w] * h, mix)
            step('render_graphics', lambda s: [cr, S.ref(s, SeqV(items, vg))])
        elif kk in ('text', 'texts'):
            ds = op[1:]; sp = [span(d, nimg[0] * 10 + i) for i, d in enumerate(ds)]; nimg[0] += 1
            maxh = max(d['h'] * d.get('sy', 1) for d in ds); off = ds[0].get('off', 0)
            step('render_text', lambda s: [cr, S.ref(s, SeqV([('e', x[0]) for x in sp], S.adt(TP + 'text::TextSpan'))), const(off), const(maxh), S.enum(TP + 'context::TextJustify', 'Left')])
            for d, (v, bg, fg) in zip(ds, sp): draw_text(cv, d, bg, fg, maxh)
        elif k == 'page':
            step('page_begin', lambda s: [cr]); G = Paper(0, rgb(paper), False); facing = 0
        elif k == 'area':
            _, r, w, h = op
            step('page_area_changed', lambda s: [cr, rot(r), const(w), const(h)])
            G.turn(r); G.widen_right(w); G.height(h)
        elif k == 'print':
            _, d, x, y = op
            for s in paths:
                setc(s, 'page_mode.direction', S.enum(TP + 'context::PrintDirection', DIRS[0])); setc(s, 'page_mode.enabled', TRUE)
                setc(s, 'graphics.render_area.x', const(x)); setc(s, 'graphics.render_area.y', const(y))
            # the direction whose turn back to the standard one is d quarter turns counter-clockwise, by the code's own table
            dv = direction(c, e, d)
            for s in paths: setc(s, 'page_mode.direction', dv)
            step('render_page', lambda s: [cr])
            Q = Paper(G.w, G.paper, False); Q.rows = [list(r) for r in G.rows]; Q.turn((4 - d) % 4)
            P.put(x, y, Q.w, len(Q.rows), Q.rows, lambda a, b: b)
            for s in paths: setc(s, 'graphics.render_area.x', const(0)); setc(s, 'graphics.render_area.y', const(0))
    for s in paths: setc(s, 'graphics.render_area.y', const(end)); setc(s, 'page_mode.enabled', FALSE)
    P.centre(PW); P.height(end)
    r = []
    for s in paths: r += S.call(ORT + 'end_render', [rr, cr], s, 120)
    for (f, kind, desc), bad in crash_sites(I).items():
        c.ob('%s | no crash | %s %s in %s' % (name, kind, desc, f), False if bad else None, '%s %s can fail in %s' % (kind, desc, f), f)
    c.ob('%s | finishes' % name, bool(r) or None, 'no path reaches the end', name)
    for s, v in r:
        c.count('paths')
        w, h = (I.as_lin(S.get(s, v, n)) for n in ('width', 'height'))
        c.ob('%s | width' % name, eqv(S, s, w, const(PW)), 'image width %s, expected %d' % (show(w), PW), name)
        c.ob('%s | height' % name, eqv(S, s, h, const(len(P.rows))), 'image height %s, expected %d' % (show(h), len(P.rows)), name)
        b = S.whnf(s, S.get(s, v, 'bytes'))
        if not isinstance(b, SeqV) or not b.explicit(): c.ob('%s | dots' % name, None, 'image bytes are %s' % show(b), name); continue
        got = b.items(); exp = [x for row in P.rows for p in row for x in p]
        if len(got) != len(exp):
            c.ob('%s | size' % name, None if st_imprecise(s) or model(s) is None else False, '%d bytes, expected %d' % (len(got), len(exp)), name); continue
        bad = None; und = None
        for i, (a, x) in enumerate(zip(got, exp)):
            if a == x: c.ob('%s | dots' % name, True); continue
            q = eqv(S, s, a, x)
            if q is True: c.ob('%s | dots' % name, True)
            elif q is False: bad = bad or (i, a, x)
            else: und = und or (i, a, x)
        z = bad or und
        det = 'colour byte %d of dot (%d, %d) is %s, expected %s' % (z[0] % 3, z[0] // 3 % PW, z[0] // 3 // PW, show(z[1]), show(z[2])) if z else ''
        if z: c.ob('%s | dots' % name, False if bad else None, det, name)

def direction(c, e, d):
    """the print direction reached from the standard one by d clockwise quarter turns of the page, as ESC T reports it"""
    S = c.S; I = S.I
    if not hasattr(e, 'dirs'):
        e.dirs = {}
        t = S.adt(TP + 'context::PrintDirection')
        f = TP + 'context::PageModeContext::calculate_directional_rotation'
        for x in I.ty(t)['v']:
            st = S.registry()[0].copy()
            a = S.ref(st, S.enum(TP + 'context::PrintDirection', 'TopLeft2Right')); b = S.ref(st, S.enum(TP + 'context::PrintDirection', x['n']))
            pm = S.ref(st, S.get(st, S.context(), 'page_mode'))
            outs = S.call(f, [pm, a, b], st)
            if len(outs) == 1:
                n = S.variant(outs[0][0], outs[0][1])
                e.dirs[{'R90': 1, 'R180': 2, 'R270': 3}.get(n, 0)] = S.enum(TP + 'context::PrintDirection', x['n'])
    if d not in e.dirs: raise Undecided('print direction of %d quarter turns' % d)
    return e.dirs[d]
