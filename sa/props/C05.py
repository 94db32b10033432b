from fw import prop
from tables import *

def off_on(n): return bool(n & 1)
FONT = {0: 'A', 48: 'A', 1: 'B', 49: 'B', 2: 'C', 50: 'C', 3: 'D', 51: 'D', 4: 'E', 52: 'E', 97: 'SpecialA', 98: 'SpecialB'}
def font(n): return FONT.get(n, 'A')
def font_fields(f): return {'text.font': f, 'text.character_width': 12 if f == 'A' else 9, 'text.character_height': 24 if f == 'A' else 17}
P = 'graphics.render_colors.'
def color(n): return Same(P + {0: 'paper_color', 48: 'paper_color', 50: 'color_2', 2: 'color_2', 51: 'color_3', 3: 'color_3'}.get(n, 'color_1'))
def pick(d, default): return lambda n: d.get(n, default)
def print_mode(n):
    r = font_fields('B' if n & 1 else 'A')
    r.update({'text.bold': bool(n & 8), 'text.height_mult': 2 if n & 16 else 1, 'text.width_mult': 2 if n & 32 else 1,
              'text.underline': 'On' if n & 128 else 'Off'})
    return r
def invert(n):
    on = bool(n & 1)
    return {'text.invert': on, 'text.background_color': Same(P + ('color_1' if on else 'paper_color')), 'text.color': Same(P + ('paper_color' if on else 'color_1'))}

STYLE = [  # opcode, description, operand -> effect
    ((0x1B, 0x45), 'ESC E emphasis', lambda n: {'text.bold': off_on(n)}),
    ((0x1B, 0x34), 'ESC 4 italic', lambda n: {'text.italic': off_on(n)}),
    ((0x1B, 0x7B), 'ESC { upside-down', lambda n: {'text.upside_down': off_on(n)}),
    ((0x1D, 0x62), 'GS b smoothing', lambda n: {'text.smoothing': off_on(n)}),
    ((0x1B, 0x47), 'ESC G double-strike', lambda n: {'text.strikethrough': 'Double' if n & 1 else 'Off'}),
    ((0x1B, 0x2D), 'ESC - underline', lambda n: {'text.underline': {1: 'On', 49: 'On', 2: 'Double', 50: 'Double'}.get(n, 'Off')}),
    ((0x1B, 0x4D), 'ESC M font', lambda n: font_fields(font(n))),
    ((0x1D, 0x21), 'GS ! size', lambda n: {'text.height_mult': (n & 7) + 1, 'text.width_mult': (n >> 4 & 7) + 1}),
    ((0x1B, 0x21), 'ESC ! print mode', print_mode),
    ((0x1B, 0x61), 'ESC a justification', lambda n: {'text.justify': {1: 'Center', 49: 'Center', 2: 'Right', 50: 'Right'}.get(n, 'Left')}),
    ((0x1B, 0x72), 'ESC r colour', lambda n: {'text.color': Same(P + ('color_2' if n in (1, 49) else 'color_1'))}),
    ((0x1D, 0x42), 'GS B invert', invert),
    ((0x1B, 0x33), 'ESC 3 line spacing', lambda n: {'text.line_spacing': n}),
]

@prop('C05', 'for each text-formatting opcode: abstract interpretation of the parser on the opcode and symbolic operand bytes, then of '
      'Renderer::process_command from a symbolic Context; every outcome, for each of the 256 operand values it admits, must give each '
      'Context field the value of the ESC/POS table and leave every other Context field at its previous value', commands=15, obligations=3000)
def check(c):
    S = c.S; S.with_flush_hooks()
    for op, label, spec in STYLE:
        c.count('commands')
        c.guard(label, run_table, c, op, label, 1, lambda v, bs, spec=spec: spec(v))
    # ESC 2: back to the power-on line spacing
    c.count('commands'); c.guard('ESC 2', esc2, c)
    c.count('commands'); c.guard('GS ( N', effects, c)

def default_ctx(S, o):
    d = S.get(o.st, o.ctx0, 'default')
    k = S.variant(o.st, d)
    if k == 'None': return None
    if k != 'Some': raise Undecided('default presence')
    d = S.whnf(o.st, d)
    return S.I.proj(o.st, d, ('v', S.I.variant_index(d.ty, 'Some'), 0)) if isinstance(d, SymV) else d.fs[0]

def esc2(c):
    S = c.S
    for o in S.stream([0x1B, 0x32]):
        dv = default_ctx(S, o)
        exp = {} if dv is None else {'text.line_spacing': S.get(o.st, dv, 'text', 'line_spacing')}
        for p, r, a in compare(S, o, o.st, exp):
            c.ob('ESC 2 default line spacing | ' + p, r, '%s becomes %s' % (p, show(a)), 'bytes 1B 32')

def effects(c):
    """GS ( N pL pH fn m [a]"""
    S = c.S
    for n, label in ((2, 'fn m'), (3, 'fn m a')):
        bs = S.sym_bytes(n)
        fn, m = bs[0], bs[1]
        for o in S.stream([0x1D, 0x28, 0x4E, n, 0] + bs):
            for f in cand(o.st, fn.atoms()[0])[0]:
                s1 = bind(o.st, [(fn, f)])
                if s1 is None: continue
                for mv in (cand(s1, m.atoms()[0])[0] if f in (48, 49, 50) else [None]):
                    s2 = s1 if mv is None else bind(s1, [(m, mv)])
                    if s2 is None: continue
                    for av in (cand(s2, bs[2].atoms()[0])[0] if f == 50 and n == 3 and mv in (48, 49, 50, 51) else [None]):
                        s3 = s2 if av is None else bind(s2, [(bs[2], av)])
                        if s3 is None: continue
                        exp = {}
                        if f == 48: exp = {'text.color': color(mv)}
                        elif f == 49: exp = {'text.background_color': color(mv)}
                        elif f == 50:
                            exp = {'text.shadow_color': color(mv)}
                            if av is not None: exp['text.shadow'] = av not in (0, 48)
                            elif n == 2: exp['text.shadow'] = False
                            else: exp['text.shadow'] = S.get(s3, o.ctx1, 'text', 'shadow')
                        for p, r, a in compare(S, o, s3, exp):
                            c.ob('GS ( N character effects fn %s | %s' % (f if f in (48, 49, 50) else 'other', p), r,
                                 'fn=%s m=%s a=%s: %s becomes %s' % (f, mv, av, p, show(a)), 'bytes 1D 28 4E')
