from fw import prop
from tables import *

G, PM = 'graphics.render_area.', 'page_mode.render_area.'
def word(b): return add(b[0], scale(b[1], 256))
def satsub(st, a, b):
    d = sub(a, b)
    if st.decide(c_le(neg(d))) is True: return d
    if st.decide(c_le(d)) is True: return const(0)
    return lin(atom(('max', d, const(0)), 0, INF, 'max', (d, const(0))))

class E:
    """access to the pre-state of an outcome"""
    def __init__(self, S, o, st, b): self.S = S; self.o = o; self.st = st; self.b = b
    def old(self, p): return self.S.get(self.st, self.o.ctx0, *p.split('.'))
    def units(self, v, axis):
        return self.S.op(self.st, 'Div', v, self.old('graphics.%s_motion_unit' % axis))
    def direction(self): return self.S.variant(self.st, self.old('page_mode.direction'))

def esc_dollar(e, page):
    v = e.units(word(e.b), 'h')
    if not page: return {G + 'x': v}
    p, r = 'page_mode.page_area.', PM
    d = e.direction()
    if d == 'TopLeft2Right': return {r + 'x': add(e.old(p + 'x'), v)}
    if d == 'BottomRight2Left': return {r + 'x': satsub(e.st, add(e.old(p + 'x'), e.old(r + 'w')), v)}
    if d == 'BottomLeft2Top': return {r + 'y': add(e.old(p + 'y'), v)}
    if d == 'TopRight2Bottom': return {r + 'y': None}
def gs_dollar(e, page):
    if not page: return {}
    v = e.units(word(e.b), 'v')
    p, r = 'page_mode.page_area.', PM
    d = e.direction()
    if d == 'TopLeft2Right': return {r + 'y': add(e.old(p + 'y'), v)}
    if d == 'BottomRight2Left': return {r + 'y': add(e.old(p + 'y'), satsub(e.st, e.old(r + 'h'), v))}
    if d == 'TopRight2Bottom': return {r + 'x': add(e.old(p + 'x'), v)}
    if d == 'BottomLeft2Top': return {r + 'x': add(e.old(p + 'x'), satsub(e.st, e.old(r + 'w'), v))}
def gs_backslash(e, page):
    if not page: return {}
    w = word(e.b)
    hi = e.st.decide(c_le(add(neg(w), const(32768))))
    if hi is None: return None
    if hi: w = add(w, const(-65536))
    u = e.old('graphics.v_motion_unit')
    d = lin(atom(('Div', w, u), -32768, 32767, 'div', (w, u)))
    y = add(e.old(PM + 'y'), d)
    if e.st.decide(c_le(neg(y))) is True: return {PM + 'y': y}
    if e.st.decide(c_le(y)) is True: return {PM + 'y': const(0)}
    return {PM + 'y': lin(atom(('max', y, const(0)), 0, INF, 'max', (y, const(0))))}
def gs_p(e, page):
    x, y = e.b
    if e.st.decide(c_eq(x)) is not False or e.st.decide(c_eq(y)) is not False:
        return {'graphics.h_motion_unit': None, 'graphics.v_motion_unit': None}
    dpi = e.old('graphics.dots_per_inch')
    def q(v):
        d = e.S.op(e.st, 'Div', dpi, v)
        return lin(atom(('clamp', d, 1, 255), 1, 255, 'clamp', (d, 1, 255)))
    return {'graphics.h_motion_unit': q(x), 'graphics.v_motion_unit': q(y)}
def advance(dist, back=False):
    def f(e, page):
        A = PM if page else G
        y = e.old(A + 'y')
        d = dist(e)
        return {A + 'x': e.old('page_mode.page_area.x') if page else const(0), A + 'y': satsub(e.st, y, d) if back else add(y, d)}
    return f
def lines(n): return lambda e: e.S.op(e.st, 'Mul', e.old('text.line_spacing'), n(e) if callable(n) else const(n))
SMALL = [G + 'x', G + 'y', PM + 'x', PM + 'y', PM + 'w', PM + 'h', 'page_mode.page_area.x', 'page_mode.page_area.y']
CASES = [((0x1B, 0x24), 'ESC $ absolute horizontal', 2, esc_dollar), ((0x1D, 0x24), 'GS $ absolute vertical', 2, gs_dollar),
         ((0x1D, 0x5C), 'GS \\ relative vertical', 2, gs_backslash), ((0x1D, 0x50), 'GS P motion units', 2, gs_p),
         ((0x1B, 0x4A), 'ESC J feed', 1, advance(lambda e: e.b[0])), ((0x1B, 0x64), 'ESC d feed lines', 1, advance(lines(lambda e: e.b[0]))),
         ((0x1B, 0x65), 'ESC e reverse feed lines', 1, advance(lines(lambda e: e.b[0]), True)),
         ((0x1D, 0x56, 0), 'GS V 0 cut', 0, advance(lines(2))), ((0x1D, 0x56, 49), 'GS V 49 cut', 0, advance(lines(2))),
         ((0x1D, 0x56, 65), 'GS V 65 feed and cut', 1, advance(lambda e: add(lines(2)(e), e.b[0]))),
         ((0x1D, 0x56, 66), 'GS V 66 feed and cut', 1, advance(lambda e: add(lines(2)(e), e.b[0]))),
         ((0x1D, 0x56, 98), 'GS V 98 feed and cut', 1, advance(lambda e: add(lines(2)(e), e.b[0])))]

@prop('C07', 'for each positioning command: abstract interpretation of parser and command routine with symbolic operands and a symbolic Context '
      'in standard and in page mode; each outcome must give the cursor the value of the motion-unit formula and change nothing else', cases=22, obligations=40)
def check(c):
    c.assume.append('cursor, area and unit fields of the prior printer state are at most 2^30 dots')
    c.S.with_flush_hooks()
    for ops, label, n, f in CASES:
        for page in (False, True):
            c.count('cases')
            c.guard('%s | %s mode' % (label, 'page' if page else 'standard'), one, c, ops, '%s | %s mode' % (label, 'page' if page else 'standard'), n, f, page)
def one(c, ops, label, n, f, page):
    S = c.S
    b = S.sym_bytes(n)
    ctx = S.setp(S.context(), 'page_mode.enabled', TRUE if page else FALSE)
    outs = S.stream(list(ops) + b, ctx)
    if not outs: c.ob(label, False, 'never completes normally', label)
    for o in outs:
        sts = [o.st]
        if f is gs_backslash and page:
            sts = []
            for cnd in (c_le(add(neg(word(b)), const(32768))), c_le(add(word(b), const(-32767)))):
                s = o.st.copy()
                if s.assume(cnd): sts.append(s)
        if f is gs_p:
            sts = []
            for zero in (True, False):
                s = o.st.copy()
                cnd = c_and(c_ne(b[0]), c_ne(b[1]))
                if s.assume(c_not(cnd) if zero else cnd): sts.append(s)
        for st in sts:
            if not all(st.assume(c_le(sub(S.get(st, o.ctx0, *p.split('.')), const(1 << 30)))) for p in SMALL): continue
            exp = f(E(S, o, st, b), page)
            if exp is None: c.ob(label, None, 'case'); continue
            for p, r, a in compare(S, o, st, exp):
                c.ob('%s | %s' % (label, p), r, '%s becomes %s, expected %s' % (p, show(a), show(exp.get(p, 'unchanged'))), 'bytes ' + ' '.join('%02X' % x for x in ops))
