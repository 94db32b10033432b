"""the style a piece of text is collected with"""
from fw import prop
from tables import *
from props.C24 import CTX

DPI = (203, 180, 360)
SAME = [('font', 'text.font'), ('bold', 'text.bold'), ('italic', 'text.italic'), ('inverted', 'text.invert'), ('upside_down', 'text.upside_down'), ('justify', 'text.justify'),
        ('base_character_width', 'text.character_width'), ('base_character_height', 'text.character_height'), ('background_color', 'text.background_color'),
        ('text_color', 'text.color')]
@prop('C13', 'abstract interpretation of the parser and renderer on text, HT, LF and CR from a symbolic printer state; every field of the collected span is '
      'compared with the printer state it must be taken from', cases=12, spans=12, obligations=200)
def check(c):
    for label, bs in (('text', [None]), ('text of two bytes', [None, None]), ('HT', [0x09]), ('LF', [0x0A]), ('CR', [0x0D])):
        for dpi in DPI: c.guard('%s at %d dpi' % (label, dpi), one, c, label, bs, dpi)
def one(c, label, bs, dpi):
    S = c.S; S.with_flush_hooks(); c.count('cases')
    ctx = S.setp(S.context(), 'graphics.dots_per_inch', const(dpi))
    s = iter(S.sym_bytes(4)); bs = [next(s) if b is None else b for b in bs]
    st = S.cmd_set()[0].copy()
    for b in bs:
        if not isinstance(b, int): st.assume(c_le(sub(const(0x20), b)))
    for o in S.stream(bs, ctx, st=st):
        q = S.whnf(o.st, o.field('span_buffer'))
        if not isinstance(q, SeqV) or not q.segs or q.segs[-1][0] != 'e': c.ob(label + ' | collected', None, 'pending text %s' % show(q)); continue
        c.count('spans')
        v = q.segs[-1][1]
        g = lambda p: S.get(o.st, o.ctx0, *p.split('.'))
        for n, p in SAME: chk(c, S, o, label, v, n, g(p), 'the current ' + p)
        for n, a, b in (('character_width', 'text.character_width', 'text.width_mult'), ('character_height', 'text.character_height', 'text.height_mult')):
            chk(c, S, o, label, v, n, S.op(o.st, 'Mul', g(a), g(b)), '%s times %s' % (a, b))
        for n, p in (('stretch_width', 'text.width_mult'), ('stretch_height', 'text.height_mult')):
            chk(c, S, o, label, v, n, S.I.cast(o.st, 'IntToFloat', g(p), S.u8(), S.fty(v.ty, n)), p)
        for n, p in (('underline', 'text.underline'), ('strikethrough', 'text.strikethrough')):
            for k in ('Off', 'On', 'Double'):
                s2 = assume_variant(S, o.st, g(p), k)
                if s2 is None: continue
                e = const(int({'Off': 0, 'On': 1, 'Double': 2}[k] * dpi / 96.0))
                c.ob('%s | %s' % (label, n), eqv(S, s2, S.get(s2, v, n), e), '%s is %s with %s %s at %d dpi, expected %s' % (n, show(S.get(s2, v, n)), p, k, dpi, show(e)), label)
        c.ob('%s | dimensions' % label, S.variant(o.st, S.get(o.st, v, 'dimensions')) in ('None', None), 'dimensions %s' % show(S.get(o.st, v, 'dimensions')), label)
def assume_variant(S, st, v, name):
    v = S.whnf(st, v); t = S.I.ty(v.ty); s2 = st.copy()
    return s2 if s2.assume(c_eq(sub(S.I.discr_lin(s2, v, v.ty), const(S.I.variant_discr(t, S.I.variant_index(t['id'] if 'id' in t else v.ty, name)))))) else None
def chk(c, S, o, label, v, n, e, what):
    a = S.get(o.st, v, n)
    c.ob('%s | %s' % (label, n), eqv(S, o.st, a, e), '%s of the collected text is %s, expected %s (%s)' % (n, show(a), show(e), what), label)
