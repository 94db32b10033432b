"""HTML output: one row per printed thing at its place, text as text, pages as pictures"""
from fw import prop
from tables import *
from props import C18
import interp, re, html
from html.parser import HTMLParser

TR = 'thermal_renderer::'
HR = TR + 'html_renderer::HtmlRenderer'
ORT = '<%s as %srenderer::OutputRenderer<%shtml_renderer::ReceiptHtml>>::' % (HR, TR, TR)
ALL = ''.join(chr(i) for i in range(0x20, 0x7f)) + '\u00e9\u20ac'
BASELINE = 0.78
VOID = {'img', 'rect', 'meta', 'br', 'link', 'input', 'hr'}

class Tree(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True); self.root = ['', {}, []]; self.st = [self.root]
    def handle_starttag(self, tag, attrs):
        n = [tag, dict(attrs), []]; self.st[-1][2].append(n)
        if tag not in VOID: self.st.append(n)
    def handle_startendtag(self, tag, attrs): self.st[-1][2].append([tag, dict(attrs), []])
    def handle_endtag(self, tag):
        for i in range(len(self.st) - 1, 0, -1):
            if self.st[i][0] == tag: del self.st[i:]; break
    def handle_data(self, d): self.st[-1][2].append(d)
def find(n, tag):
    if n[0] == tag: return n
    for x in n[2]:
        if isinstance(x, list):
            r = find(x, tag)
            if r: return r
    return None
def style(s):
    r = {}
    for p in (s or '').split(';'):
        k, c, v = p.partition(':')
        if c: r[k.strip()] = v.strip()
    return r

@prop('C20', 'abstract interpretation of the HTML output on symbolic positions and colours; the finished document is split into its rows and every position, size, class, text and picture of '
      'each row is compared with the reference', cases=30, paths=30, obligations=300)
def check(c):
    c.assume.append('the png and base64 crates are opaque: a picture is represented by the dots handed to the encoder')
    c.assume.append('the glyph rasterizer (fontdue) is replaced by a stand-in glyph of two known dots')
    cs = cases()
    c.par(range(len(cs)), lambda w, i: w.guard(cs[i][0], one, w, *cs[i]))
def cases():
    r = []
    def a(name, ops, y0=0, end=0): r.append((name, ops, y0, end))
    T = lambda *ds, **k: ('text', [dict(dict(x=0, y=0, w=12, h=24, t='Ab'), **d) for d in ds], k.get('off', 0))
    a('nothing printed', []); a('only feeding', [], 0, 77); a('feeding before', [], 30, 77)
    a('every character', [T(dict(t=ALL))]); a('markup', [T(dict(t='<b>bold</b> &amp; <img src=x onerror=y>'))]); a('quotes', [T(dict(t='it\'s "quoted"'))])
    for n in ('receipt-style', 'content', 'color-0', 'color-1', 'color-2', 'color-3'): a('text {{%s}}' % n, [T(dict(t='{{%s}}' % n))])
    a('spaces', [T(dict(t='  a  b '))])
    a('text position', [T(dict(x='X', y='Y'))]); a('text offset', [T(dict(x='X', y=40), off='O')]); a('rows', [T(dict(y=10)), T(dict(y=34)), T(dict(y=90))], 5, 200)
    a('two spans', [T(dict(x=5, y=10), dict(x=29, y=10, t='<'))]); a('small next to tall', [T(dict(x=5, y=10), dict(x=29, y=10, h=72), dict(x=60, y=10, h=48))])
    for k in ('bold', 'italic', 'upside_down'): a(k, [T({k: True})])
    for k in ('underline', 'strikethrough'):
        for n in (1, 2, 5): a('%s %d' % (k, n), [T({k: n})])
    for n in (1, 2, 3, 4, 5, 6, 7, 8):
        a('wide %d' % n, [T(dict(sw=n))]); a('high %d' % n, [T(dict(sh=n))])
    a('wide and high', [T(dict(sw=3, sh=2))]); a('everything', [T(dict(bold=True, italic=True, upside_down=True, underline=2, strikethrough=2, sw=8, sh=8, font='B', fg='color_2', bg='color_3'))])
    for f in 'ABC': a('font %s' % f, [T(dict(font=f))])
    for fg in ('paper_color', 'color_1', 'color_2', 'color_3'):
        for bg in ('paper_color', 'color_1', 'color_2', 'color_3'):
            if fg == 'color_1' or bg == 'paper_color' or (fg, bg) == ('paper_color', 'color_1'): a('%s on %s' % (fg, bg), [T(dict(fg=fg, bg=bg))])
    I = lambda x, y, w, h, al='full', up=False: ('img', x, y, w, h, al, up)
    a('image', [I('X', 'Y', 3, 2)]); a('image with holes', [I(3, 8, 4, 3, 'holes')]); a('image without dots', [I(0, 5, 0, 3), I(0, 9, 4, 0), I(1, 20, 1, 1)]); a('image between text', [T(dict(y=0)), I(2, 30, 2, 3), T(dict(y=40))], 0, 100)
    a('image above earlier content', [T(dict(y=50)), I(2, 30, 2, 3)])
    a('row below one that starts above earlier content', [T(dict(y=50)), I(2, 30, 2, 3), T(dict(y=40)), I(2, 90, 2, 3), T(dict(y=10)), ('rects', (10, 45, 2, 5)), T(dict(y=54))], 0, 120)
    a('ends above earlier content', [T(dict(y=50)), T(dict(y=10))], 0, 60)
    a('bars', [('rects', (10, 5, 2, 40), (14, 5, 4, 40), (22, 5, 2, 40))], 0, 60); a('one bar', [('rects', (10, 5, 2, 40))]); a('bars of several heights', [('rects', (10, 9, 2, 40), (14, 5, 4, 10), (3, 30, 2, 50))]); a('bars then text', [('rects', (0, 5, 2, 40)), T(dict(y=60))])
    P = [('page',), ('area', 0, 6, 4)]
    a('page', P + [('pimg', 1, 0, 2, 2, 'full', False), ('print', 3, 20, 0)], 0, 30)
    a('page stays off the paper', P + [('pimg', 1, 0, 2, 2, 'full', False), T(dict(y=10))])
    for d in range(4): a('page direction %d' % d, [('page',), ('area', 0, 4, 3), ('pimg', 1, 0, 2, 3, 'full', False), ('area', d, *((4, 3) if d % 2 == 0 else (3, 4))), ('pimg', 0, 0, 1, 2, 'full', False), ('print', 0, 7, d)])
    a('page grows', [('page',), ('area', 0, 3, 2), ('pimg', 0, 0, 3, 2, 'full', False), ('area', 0, 7, 3), ('print', 0, 0, 0)])
    a('tall page grows', [('page',), ('area', 0, 2, 5), ('pimg', 0, 0, 2, 2, 'full', False), ('area', 0, 4, 3), ('print', 0, 0, 0)])
    a('tall page of a smaller height', [('page',), ('area', 0, 5, 2), ('pimg', 0, 0, 2, 2, 'full', False), ('area', 0, 4, 4), ('print', 0, 0, 0)])
    a('second document', [T(dict(y=10)), I(2, 40, 2, 3), ('again',), T(dict(y=20))], 5, 60)
    a('content too large for the page', P + [('pimg', 4, 2, 4, 4, 'full', False), ('print', 0, 0, 0)])
    a('page printed twice', P + [('pimg', 1, 0, 2, 2, 'full', False), ('print', 0, 0, 0), ('pimg', 1, 1, 2, 2, 'full', False), ('print', 0, 10, 0)])
    a('new page is empty', P + [('pimg', 1, 0, 2, 2, 'full', False), ('print', 0, 0, 0)] + P + [('print', 0, 10, 0)])
    a('empty page', [('page',), ('print', 0, 10, 0), T(dict(y=30))])
    a('page bars and text', P + [('prect', 0, 0, 1, 4), ('ptext', dict(x=2, y=0, n=2, w=2, h=3)), ('print', 0, 0, 0)])
    return r

def hooks(c):
    S = c.S; I = S.I
    called = {i['path'] for f in S.P.funcs.values() if f['path'].startswith(TR) for b in f['blocks'] for t in (b[1],) if t[0] == 'call' and t[1][0] == 'def' for i in (t[1][1]['inst'],) if i}
    def set_(path, f):
        for q in called:
            if re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', q)).replace('::::', '::').endswith(path): I.hooks[interp.norm_path(q)] = f
    def okv(dty, v): return Agg(dty, I.variant_index(dty, 'Ok'), [v])
    def oty(dty): return I.ty(dty)['targs'][0]
    def enc(I, st, fr, args, inst, atys, dty, line): return [(st, OpV('lib', ('encoder', (args[0], args[1], args[2]))))]
    def hdr(I, st, fr, args, inst, atys, dty, line):
        e = S.whnf(st, args[0])
        return [(st, okv(dty, OpV('lib', ('writer', e.args[1]))))]
    def wr(I, st, fr, args, inst, atys, dty, line):
        w = S.whnf(st, args[0]); ref, ww, hh = w.args[1]
        data = I.read_seq(st, args[1]) if isinstance(args[1], RefV) else S.whnf(st, args[1])
        st.tag = (st.tag or ()) + (('png', ww, hh, data),)
        r = args and ref
        k = len([x for x in st.tag if x[0] == 'png']) - 1
        I.store(st, ref.base, ref.path, OpV('lib', ('png', (k,))))
        return [(st, okv(dty, I.zst(oty(dty))))]
    def b64(I, st, fr, args, inst, atys, dty, line):
        v = S.whnf(st, args[-1]) if not (isinstance(args[-1], RefV) and args[-1].view is not None) else I.deref_val(st, RefV(args[-1].base, args[-1].path))
        if not (isinstance(v, OpV) and v.op == 'lib' and v.args[0] == 'png'): return None
        return [(st, OpV('str', (('v', OpV('base64', (v.args[1][0],))),)))]
    unit_ok = lambda I, st, fr, args, inst, atys, dty, line: [(st, okv(dty, I.zst(oty(dty))))]
    unit_ = lambda I, st, fr, args, inst, atys, dty, line: [(st, I.zst(dty))]
    set_('Encoder::new', enc); set_('Encoder::write_header', hdr); set_('Writer::write_image_data', wr); set_('Writer::finish', unit_ok)
    def fmt(I, st, fr, args, inst, atys, dty, line):
        v = S.whnf(st, args[1]); ti = I.ty(atys[1])
        st.tag = (st.tag or ()) + (('fmt', ti['v'][v.var]['n'] if isinstance(v, Agg) else None),)
        return [(st, I.zst(dty))]
    set_('Encoder::set_color', fmt); set_('Encoder::set_depth', fmt); set_('Engine::encode', b64); set_('Engine>::encode', b64)
def num(st, S, e, env):
    """expected number: a constant, or the named unknown"""
    return const(e) if isinstance(e, int) else env[e]
def one(c, name, ops, y0, end):
    S = c.S; I = S.I; c.count('cases')
    e = C18.setup(c)
    if not hasattr(S, 'c20'): hooks(c); S.c20 = True
    mix = lambda d, s: C18.mul(c, e, d, s)
    rgb = lambda v: tuple(I.as_lin(x) for x in v.fs[:3])
    I.crashes = []
    env = {k: lin(sym('pos ' + k, 0, 5000)) for k in 'XYO'}
    n_ = lambda x: num(None, S, x, env)
    cols = {k: Agg(S.adt(C18.RGBA), 0, [const(v) for v in q]) for k, q in (('paper_color', (250, 251, 252, 255)), ('color_1', (1, 2, 3, 255)), ('color_2', (170, 2, 3, 255)), ('color_3', (1, 2, 187, 255)))}
    ctx = S.context()
    for k, v in cols.items(): ctx = S.setp(ctx, 'graphics.render_colors.' + k, v)
    ink = C18.colour(S, 'ink'); ctx = S.setp(ctx, 'text.color', ink); ctx = S.setp(ctx, 'page_mode.enabled', FALSE)
    for p, v in (('graphics.render_area.y', y0), ('graphics.render_area.x', 0)): ctx = S.setp(ctx, p, const(v))
    for p in ('w', 'x', 'y'): ctx = S.setp(ctx, 'graphics.paper_area.' + p, lin(sym('paper ' + p, 0, 5000)))
    outs = S.call(HR + '::new', [], S.registry()[0].copy())
    if len(outs) != 1: raise Undecided('construction of the HTML output')
    st, rv = outs[0]
    st.tag = ()
    rr = S.ref(st, rv); cr = S.ref(st, ctx); paths = [st]
    def setc(p, v):
        for s in paths: I.store(s, cr.base, (), S.setp(I.load(s, cr.base, ()), p, v))
    def step(meth, args):
        nonlocal paths
        r = []
        for s in paths: r += [s2 for s2, _ in S.call(ORT + meth, [rr] + args(s), s, 120)]
        paths = r
        if len(r) > 64: raise Undecided('too many paths')
    step('begin_render', lambda s: [cr])
    paper = cols['paper_color']
    rows = [dict(y=const(0), h=const(y0), el=None)]
    last = [const(y0)]
    exp = [(const(y0), const(0), None)]
    def row(y, h, el):
        exp.append((h, ('gap', y, last[0]), el)); last[0] = add(y, h)
    G = C18.Paper(0, rgb(paper), False); npng = [0]; nimg = [0]
    def image(op):
        _, x, y, w, h, al, up = op; k = nimg[0]; nimg[0] += 1
        px, ref = [], []
        for j in range(h):
            q = []
            for i in range(w):
                A = 255 if al == 'full' or (i * 3 + j * 5) % 4 else 0
                v = C18.colour(S, 'image %d dot %d,%d' % (k, i, j), A); px.append(('e', v)); q.append(rgb(v) if A else None)
            ref.append(q)
        t = S.adt(TP + 'graphics::Image'); v = I.sym_value(t, 'image %d' % k); v = I.expand(v) if isinstance(v, SymV) else v
        for n, q in (('pixels', SeqV(px, S.adt(C18.RGBA))), ('x', n_(x)), ('y', n_(y)), ('w', const(w)), ('h', const(h)), ('upside_down', TRUE if up else FALSE)): v = S.setp(v, n, q)
        return v, ref, [z for p in px for z in p[1].fs]
    def span(d, k):
        t = S.adt(TP + 'text::TextSpan'); v = I.sym_value(t, 'span %d' % k); v = I.expand(v) if isinstance(v, SymV) else v
        dt = S.fty(t, 'dimensions'); some = I.variant_index(dt, 'Some'); dim = I.ty(dt)['v'][some]['f'][0][1]
        dv = I.sym_value(dim, 'dimensions'); dv = I.expand(dv) if isinstance(dv, SymV) else dv
        for n, q in (('x', n_(d['x'])), ('y', n_(d['y'])), ('w', const(d['w'] * len(d['t']))), ('h', const(d['h']))): dv = S.setp(dv, n, q)
        F = lambda x: OpV('f', (float(x),)); B = lambda k: TRUE if d.get(k) else FALSE
        for n, q in (('character_width', const(d['w'])), ('character_height', const(d['h'])), ('base_character_width', const(d['w'])), ('base_character_height', const(d['h'])), ('text', OpV('str', (('lit', d['t']),))),
                     ('bold', B('bold')), ('italic', B('italic')), ('upside_down', B('upside_down')), ('underline', const(d.get('underline', 0))), ('strikethrough', const(d.get('strikethrough', 0))),
                     ('stretch_width', F(d.get('sw', 1))), ('stretch_height', F(d.get('sh', 1))), ('font', S.enum(TP + 'context::Font', d.get('font', 'A'))),
                     ('background_color', cols[d.get('bg', 'paper_color')]), ('text_color', cols[d.get('fg', 'color_1')]), ('dimensions', Agg(dt, some, [dv]))): v = S.setp(v, n, q)
        return v
    def classes(d):
        r = set()
        for k, n in (('bold', 'b'), ('italic', 'i'), ('upside_down', 'upd')):
            if d.get(k): r.add(n)
        for k, n in (('strikethrough', 's'), ('underline', 'u')):
            if d.get(k, 0) > 0: r.add(n)
            if d.get(k, 0) > 1: r.add(n + 'd')
        for k, n in (('sw', 'w'), ('sh', 'h')):
            if d.get(k, 1) > 1: r |= {'%s%d' % (n, d[k]), 'str'}
        f = d.get('font', 'A')
        if f != 'A': r.add('f' + f.lower())
        fg = {'paper_color': 'fg_0', 'color_1': None, 'color_2': 'fg_2', 'color_3': 'fg_3'}[d.get('fg', 'color_1')]
        bg = {'paper_color': None, 'color_1': 'bg_1', 'color_2': 'bg_2', 'color_3': 'bg_3'}[d.get('bg', 'paper_color')]
        return r | {x for x in (fg, bg) if x}
    for op in ops:
        k = op[0]; page = k.startswith('p') and k not in ('page', 'print')
        setc('page_mode.enabled', TRUE if page else FALSE)
        if k == 'text':
            _, ds, off = op
            sp = [span(d, nimg[0] * 10 + i) for i, d in enumerate(ds)]; nimg[0] += 1
            maxh = max(d['h'] for d in ds)
            step('render_text', lambda s: [cr, S.ref(s, SeqV([('e', x) for x in sp], S.adt(TP + 'text::TextSpan'))), n_(off), const(maxh), S.enum(TP + 'context::TextJustify', 'Left')])
            b = C18.f32(BASELINE)
            els = [('span', add(n_(off), n_(d['x'])), const(max(0, int(C18.f32(C18.f32(maxh * b) - C18.f32(d['h'] * b))))), classes(d), d['t']) for d in ds]
            row(n_(ds[0]['y']), const(maxh), els)
        elif k == 'ptext':
            t2 = dict(op[1]); n = t2.pop('n'); dd = dict(t2, t='ABCDEF'[:n])
            v = span(dd, nimg[0] * 10); nimg[0] += 1
            v = S.setp(S.setp(v, 'background_color', C18.colour(S, 'pbg')), 'text_color', C18.colour(S, 'pfg'))
            step('render_text', lambda s: [cr, S.ref(s, SeqV([('e', v)], S.adt(TP + 'text::TextSpan'))), const(0), const(dd['h']), S.enum(TP + 'context::TextJustify', 'Left')])
            cell = [[rgb(S.get(None, v, 'background_color'))] * dd['w'] for _ in range(dd['h'])]; cell[0][0] = rgb(S.get(None, v, 'text_color'))
            for i in range(n): G.put(dd['x'] + i * dd['w'], dd['y'], dd['w'], dd['h'], cell, mix)
        elif k in ('img', 'pimg'):
            v, ref, raw = image(op)
            step('render_image', lambda s: [cr, S.ref(s, v)])
            if page: G.put(op[1], op[2], op[3], op[4], ref, mix)
            elif op[3] and op[4]: row(n_(op[2]), const(op[4]), [('img', n_(op[1]), const(op[3]), const(op[4]), raw, npng[0])]); npng[0] += 1
            else: row(n_(op[2]), const(op[4]), [])
        elif k in ('rects', 'prect'):
            rs = op[1:] if k == 'rects' else [op[1:]]
            vg = S.adt(TP + 'graphics::VectorGraphic'); rt = S.adt(TP + 'graphics::Rectangle'); items = []
            for x, y, w, h in rs:
                r = I.sym_value(rt, 'r'); r = I.expand(r) if isinstance(r, SymV) else r
                for n, q in (('x', x), ('y', y), ('w', w), ('h', h)): r = S.setp(r, n, const(q))
                items.append(('e', Agg(vg, I.variant_index(vg, 'Rectangle'), [r])))
                if page: G.put(x, y, w, h, [[rgb(ink)] * w] * h, mix)
            step('render_graphics', lambda s: [cr, S.ref(s, SeqV(items, vg))])
            if not page:
                x0 = min(r[0] for r in rs); y0_ = min(r[1] for r in rs); W = max(r[0] + r[2] for r in rs) - x0; H = max(r[1] + r[3] for r in rs) - y0_
                row(const(y0_), const(H), [('svg', const(x0), const(W), const(H), [(x - x0, y - y0_, w, h) for x, y, w, h in rs])])
        elif k == 'again':
            r = []
            for s in paths: r += [s2 for s2, _ in S.call(ORT + 'end_render', [rr, cr], s, 120)]
            paths = r; setc('graphics.render_area.y', const(y0)); step('begin_render', lambda s: [cr])
            exp.clear(); exp.append((const(y0), const(0), None)); last[0] = const(y0)
        elif k == 'page':
            step('page_begin', lambda s: [cr]); G = C18.Paper(0, rgb(paper), False)
        elif k == 'area':
            _, r, w, h = op
            rots = [x['n'] for x in I.ty(S.adt(TP + 'context::Rotation'))['v']]
            rv_ = S.enum(TP + 'context::Rotation', {1: 'R90', 2: 'R180', 3: 'R270'}[r] if r else next(n for n in rots if n not in ('R90', 'R180', 'R270')))
            step('page_area_changed', lambda s: [cr, rv_, const(w), const(h)])
            G.turn(r); G.widen_right(w); G.height(h)
        elif k == 'print':
            _, x, y, d = op
            setc('graphics.render_area.x', const(x)); setc('graphics.render_area.y', const(y)); setc('page_mode.enabled', TRUE); setc('page_mode.direction', C18.direction(c, e, d))
            step('render_page', lambda s: [cr])
            Q = C18.Paper(G.w, G.paper, False); Q.rows = [list(r) for r in G.rows]; Q.turn((4 - d) % 4)
            if Q.w and Q.rows: row(const(y), const(len(Q.rows)), [('img', const(x), const(Q.w), const(len(Q.rows)), [z for r in Q.rows for p in r for z in p + (const(255),)], npng[0])]); npng[0] += 1
            else: row(const(y), const(0), [])
    setc('graphics.render_area.y', const(end)); setc('page_mode.enabled', FALSE)
    r = []
    for s in paths: r += S.call(ORT + 'end_render', [rr, cr], s, 120)
    for (f, kind, desc), bad in crash_sites(I).items():
        c.ob('%s | no crash | %s %s in %s' % (name, kind, desc, f), False if bad else None, '%s %s can fail in %s' % (kind, desc, f), f)
    c.ob('%s | finishes' % name, bool(r) or None, 'no path reaches the end', name)
    for s, v in r:
        c.count('paths')
        judge(c, S, s, S.whnf(s, S.get(s, v, 'content')), name, exp, last[0], end)

def judge(c, S, s, text, name, exp, last, end):
    I = S.I
    if not (isinstance(text, OpV) and text.op == 'str'): c.ob('%s | document' % name, None, 'the document is %s' % show(text)); return
    toks = []; src = ''
    for p in text.args:
        if p[0] == 'lit': src += p[1]
        elif p[0] == 'display' and isinstance(p[1], Lin) and len(p) == 2: src += '\ue000%d\ue001' % len(toks); toks.append(p[1])
        elif p[0] == 'upper_hex' and isinstance(p[1], Lin) and p[1].is_const(): src += '%02X' % p[1].c
        elif p[0] == 'v': src += '\ue002%d\ue003' % len(toks); toks.append(p[1])
        else: c.ob('%s | document' % name, None, 'the document has an unknown part %s' % show(p[1] if len(p) > 1 else p)); return
    def ob(key, ok, det):
        if ok is False and (st_imprecise(s) or model(s) is None): ok = None
        c.ob('%s | %s' % (name, key), ok, det, name)
    def n(x):
        x = (x or '').strip()
        x = x[:-2] if x.endswith('px') else x
        m = re.fullmatch('\ue000(\\d+)\ue001', x)
        if m: return toks[int(m.group(1))]
        return const(int(x)) if re.fullmatch('-?\\d+', x) else None
    def same(key, got, e):
        g = n(got)
        ob(key, False if g is None else eqv(S, s, g, e), '%s is %s, expected %s' % (key, got if g is None else show(g), show(e)))
    def ismark(q): return re.search('\\{\\{[a-z0-9-]+\\}\\}', q)
    t = Tree(); t.feed(src); t.close()
    sec, art = find(t.root, 'section'), find(t.root, 'article')
    css = find(t.root, 'style')
    if sec is None or art is None: ob('document', False, 'the document has no receipt section'); return
    if css is not None:
        cs = ''.join(x for x in css[2] if isinstance(x, str))
        ob('style sheet', not ismark(cs), 'a colour of the style sheet is not filled in')
        for k, h in (('fg_0', '#FAFBFCFF'), ('fg_2', '#AA0203FF'), ('fg_3', '#0102BBFF'), ('bg_1', '#010203FF'), ('bg_2', '#AA0203FF'), ('bg_3', '#0102BBFF')):
            m = re.search('\\.%s\\s*\\{[^}]*color:\\s*(#[0-9A-Fa-f]+)' % k, cs)
            ob('colour class %s' % k, bool(m) and m.group(1).upper() == h, 'class %s has colour %s, expected %s' % (k, m and m.group(1), h))
    ss = style(sec[1].get('style'))
    pa = lambda k: lin(sym('paper ' + k, 0, 5000))
    same('paper width', ss.get('width'), pa('w')); same('left padding', ss.get('padding-left'), pa('x'))
    g = n(ss.get('padding-bottom')); f = sub(const(end), last)
    d = None if g is None else (eqv(S, s, g, f) if s.decide(c_le(neg(f))) is True else eqv(S, s, g, const(0)) if s.decide(c_le(f)) is True else split(S, s, g, f))
    ob('bottom padding', False if g is None else d, 'the paper ends %s, expected %s' % (show(g), show(f)))
    ps = [x for x in art[2] if isinstance(x, list) or x.strip()]
    if len(ps) != len(exp) or any(not isinstance(p, list) or p[0] != 'p' for p in ps):
        ob('rows', False, '%d rows, expected %d' % (len(ps), len(exp))); return
    ob('rows', True, '')
    for i, (p, (h, gap, els)) in enumerate(zip(ps, exp)):
        st_ = style(p[1].get('style'))
        same('row height', st_.get('height'), h)
        if isinstance(gap, tuple):
            f = sub(gap[1], gap[2]); g = n(st_.get('margin-top'))
            d = None if g is None else (eqv(S, s, g, f) if s.decide(c_le(neg(f))) is True else eqv(S, s, g, const(0)) if s.decide(c_le(f)) is True else split(S, s, g, f))
            ob('row position', False if g is None else d, 'row %d starts %s below the one before, expected %s' % (i, st_.get('margin-top') if g is None else show(g), show(f)))
        elif i: same('row position', st_.get('margin-top'), gap)
        kids = [x for x in p[2] if isinstance(x, list) or x.strip()]
        els = els or []
        if len(kids) != len(els) or any(not isinstance(x, list) or x[0] != q[0] for x, q in zip(kids, els)):
            ob('content', False, 'row %d holds %s, expected %s' % (i, [x[0] if isinstance(x, list) else x for x in kids], [q[0] for q in els])); continue
        for x, q in zip(kids, els):
            sx = style(x[1].get('style'))
            same('left position', sx.get('left'), q[1])
            if q[0] == 'span':
                same('baseline', sx.get('top'), q[2])
                cl = set((x[1].get('class') or '').split())
                ob('classes', cl == q[3], 'classes %s, expected %s' % (sorted(cl), sorted(q[3])))
                tx = ''.join(y if isinstance(y, str) else '<%s>' % y[0] for y in x[2])
                ob('text', tx == q[4], 'text reads %r, expected %r' % (tx, q[4]))
            elif q[0] == 'img':
                same('image width', x[1].get('width'), q[2])
                m = re.fullmatch('data:image/png;base64,\\s*\ue002(\\d+)\ue003', x[1].get('src') or '')
                b = toks[int(m.group(1))] if m else None
                pngs = [z for z in s.tag if z[0] == 'png']
                if not m or not (isinstance(b, OpV) and b.op == 'base64'): ob('image source', None if m else False, 'source %s' % x[1].get('src')); continue
                k = b.args[0]
                _, w, hh, data = pngs[k]
                fm = {z[1] for z in s.tag if z[0] == 'fmt'}
                ob('picture format', None if None in fm else fm == {'Rgba', 'Eight'}, 'pictures are encoded as %s' % sorted(map(str, fm)))
                ob('picture width', eqv(S, s, w, q[2]), 'picture width %s, expected %s' % (show(w), show(q[2]))); ob('picture height', eqv(S, s, hh, q[3]), 'picture height %s, expected %s' % (show(hh), show(q[3])))
                if not isinstance(data, SeqV) or not data.explicit(): ob('picture', None, show(data)); continue
                got = data.items()
                if len(got) != len(q[4]): ob('picture', False, '%d bytes, expected %d' % (len(got), len(q[4]))); continue
                for a, z in zip(got, q[4]): ob('picture', True if a == z else eqv(S, s, a, z), 'a picture byte is %s, expected %s' % (show(a), show(z)))
            else:
                same('drawing width', x[1].get('width'), q[2]); same('drawing height', x[1].get('height'), q[3])
                rs = [z for z in x[2] if isinstance(z, list) and z[0] == 'rect']
                got = [tuple(n(z[1].get(k)) for k in ('x', 'y', 'width', 'height')) for z in rs]
                want = [tuple(const(z) for z in w) for w in q[4]]
                ob('bar colour', all(z[1].get('fill') == 'black' for z in rs), 'bars are filled %s' % [z[1].get('fill') for z in rs])
                ob('bars', sorted(map(repr, got)) == sorted(map(repr, want)), 'bars %s, expected %s' % (got, want))
def split(S, s, g, f):
    """g is max(0, f)"""
    a = s.copy(); b = s.copy(); r = []
    if a.assume(c_le(neg(f))): r.append(eqv(S, a, g, f))
    if b.assume(c_le(f)): r.append(eqv(S, b, g, const(0)))
    return conj(r)
