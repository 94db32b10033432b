"""power-on state and ESC @"""
from fw import prop
import interp
from tables import *
from props.C01 import OPS, complete
from props.C03 import FIXED, hexs
from props.C05 import default_ctx
from props.C24 import CTX

W = (255, 255, 255, 255); K = (0, 0, 0, 255)
POWER_ON = {'text.character_width': 12, 'text.character_height': 24, 'text.character_set': 0, 'text.code_table': 0, 'text.justify': 'Left', 'text.font': 'A', 'text.bold': False,
    'text.italic': False, 'text.underline': 'Off', 'text.strikethrough': 'Off', 'text.invert': False, 'text.width_mult': 1, 'text.height_mult': 1, 'text.upside_down': False,
    'text.line_spacing': 24, 'text.color': K, 'text.background_color': W, 'text.shadow': False, 'text.smoothing': False, 'text.tabs': [8] * 32,
    'barcode.human_readable': 'None', 'barcode.width': 3, 'barcode.height': 40, 'barcode.font': 'A', 'code2d.symbol_storage': 'None', 'code2d.qr_size': 3, 'code2d.qr_error_correction': 'L',
    'graphics.render_colors.paper_color': W, 'graphics.render_colors.color_1': K, 'graphics.render_area.x': 0, 'graphics.render_area.w': 609, 'graphics.dots_per_inch': 203,
    'graphics.v_motion_unit': 1, 'graphics.h_motion_unit': 1, 'graphics.buffer_graphics': [], 'page_mode.enabled': False, 'page_mode.direction': 'TopLeft2Right', 'page_mode.previous_direction': 'TopLeft2Right',
    **{'page_mode.%s_area.%s' % (a, k): 0 for a in ('logical', 'render', 'page') for k in 'xywh'}}
@prop('C17', 'abstract interpretation of Context::new (compared field by field with the power-on table, and with the snapshot it keeps), of every command (the snapshot '
      'stays untouched) and of ESC @ from a symbolic printer state (every setting becomes that of the snapshot)', fields=60, commands=50, obligations=200)
def check(c):
    c.guard('power-on state', power_on, c)
    c.guard('ESC @', init, c)
    c.guard('stored graphics', stored, c)
    for o in OPS: c.guard('snapshot ' + hexs(o), snapshot, c, o)
def leaf(S, st, v):
    v = S.whnf(st, v)
    if isinstance(v, Lin) and v.is_const(): return v.c
    if isinstance(v, Cond) and v.k == 'const': return bool(v.a)
    if isinstance(v, SeqV) and v.explicit(): return [leaf(S, st, x) for x in v.items()]
    if isinstance(v, Agg):
        t = S.I.ty(v.ty)
        if t['k'] == 'adt' and len(t['v']) > 1: return t['v'][v.var]['n']
        return tuple(leaf(S, st, x) for x in v.fs)
    return ('?', v)
def power_on(c):
    S = c.S
    outs = S.call(S.fn(CTX + 'Context::new'), [])
    for st, ctx in outs:
        d = S.whnf(st, S.get(st, ctx, 'default'))
        ok = isinstance(d, Agg) and S.variant(st, d) == 'Some'
        c.ob('power-on | a snapshot for ESC @ is kept', ok, 'default is %s' % show(d), CTX + 'Context::new')
        for p, want in POWER_ON.items():
            c.count('fields')
            a = leaf(S, st, S.get(st, ctx, *p.split('.')))
            c.ob('power-on | ' + p, None if isinstance(a, tuple) and a and a[0] == '?' else a == want, '%s starts as %r, expected %r' % (p, a, want), CTX + 'Context::new')
        if ok:
            dv = S.whnf(st, d.fs[0])
            for n in S.fields(dv.ty):
                if n == 'default': continue
                c.count('fields')
                r = S.I.same_struct(st, S.get(st, ctx, n), S.get(st, dv, n)) or eqv(S, st, S.get(st, ctx, n), S.get(st, dv, n))
                c.ob('power-on | snapshot of ' + n, r, 'the snapshot differs from the power-on state in %s' % n, CTX + 'Context::new')
KEEP = ('graphics.render_area.y', 'graphics.stored_graphics')
def init(c):
    S = c.S; S.with_flush_hooks()
    for pm in (FALSE, TRUE):
        label = 'ESC @ in %s mode' % ('page' if pm == TRUE else 'standard')
        n = 0
        for o in S.stream([0x1B, 0x40], S.setp(S.context(), 'page_mode.enabled', pm)):
            dv = default_ctx(S, o)
            if dv is None: continue            # Context::new always keeps a snapshot
            n += 1
            dv = S.whnf(o.st, dv)
            for grp in ('text', 'barcode', 'code2d', 'graphics', 'page_mode'):
                leaves(c, S, o, label, grp, S.get(o.st, o.ctx1, grp), S.get(o.st, dv, grp), S.get(o.st, o.ctx0, grp), pm)
            c.ob(label + ' | snapshot kept', S.I.same_struct(o.st, S.get(o.st, o.ctx0, 'default'), S.get(o.st, o.ctx1, 'default')), 'the power-on snapshot changes', label)
            outs = [e for e in o.events if e[0] == 'out']
            said = [S.variant(o.st, e[2][1]) for e in outs if e[1] == 'device_command']
            c.ob(label + ' | output is told', 'Initialize' in said, 'device commands %s' % said, label)
            ends = sum(1 for e in outs if e[1] == 'page_end')
            c.ob(label + ' | page ended', ends == (1 if pm == TRUE else 0), '%d page_end calls' % ends, label)
            prints = [e[1] for e in outs if e[1] not in ('device_command', 'page_end')]
            c.ob(label + ' | nothing else printed', not prints, 'output calls %s' % prints, label)
        c.ob(label + ' | completes', n > 0 or None, 'no outcome', label)
def leaves(c, S, o, label, path, a, want, old, pm):
    """compare leaf by leaf with the snapshot"""
    I = S.I
    if path == 'page_mode.enabled': want = FALSE
    if path == 'graphics.stored_graphics': return
    if path == 'graphics.render_area.y': want = old
    exp = [I.expand(x) if isinstance(x, SymV) and I.ty(x.ty)['k'] == 'adt' and len(I.ty(x.ty)['v']) == 1 else x for x in (a, want, old)]
    if all(isinstance(x, Agg) and I.ty(x.ty)['k'] == 'adt' and len(I.ty(x.ty)['v']) == 1 for x in exp) and not path.endswith('color'):
        for n in S.fields(exp[0].ty): leaves(c, S, o, label, path + '.' + n, *[S.get(o.st, x, n) for x in exp], pm)
        return
    c.count('fields')
    r = True if I.same_struct(o.st, a, want) else eqv(S, o.st, a, want)
    c.ob('%s | %s' % (label, path), r, '%s becomes %s, expected %s' % (path, show(a), 'its previous value' if path in KEEP else show(want)), label)
def stored(c):
    """NV graphics survive ESC @, download graphics do not"""
    S = c.S; S.with_flush_hooks()
    mt = S.fty(S.fty(S.adt(CTX + 'Context'), 'graphics'), 'stored_graphics')
    kt, vt = S.I.ty(mt)['targs'][:2]
    st0, cmds = S.parse([0x1B, 0x40])[0]
    get = [f for f in (S.P.funcs.values()) if f['path'].startswith('std::collections::HashMap') and f['path'].endswith('::get')]
    for storage in ('Disc', 'Ram'):
        fs = S.I.ty(kt)['v'][0]['f']
        key = Agg(kt, 0, [S.enum(TP + 'graphics::ImageRefStorage', storage) if n == 'storage' else S.I.sym_value(t, 'key.' + n) for n, t in fs])
        img = S.I.sym_value(vt, 'stored')
        ctx = S.context()
        ctx = S.setp(ctx, 'graphics.stored_graphics', OpV('mapins', (S.get(st0, ctx, 'graphics', 'stored_graphics'), key, img)))
        for o in S.stream([0x1B, 0x40], ctx):
            dv = default_ctx(S, o)
            if dv is None: continue
            m = S.get(o.st, o.ctx1, 'graphics', 'stored_graphics')
            ot = [t['id'] for t in S.P.types if t and t['k'] == 'adt' and t['path'] == 'std::option::Option' and S.I.ty(t['targs'][0])['k'] == 'ref' and S.I.ty(t['targs'][0])['e'] == vt]
            if not ot: raise Undecided('type of a stored graphics lookup')
            import models
            dm = S.get(o.st, dv, 'graphics', 'stored_graphics')
            for s2, v in models.map_get(S.I, o.st.copy(), m, key, ot[0], interp.Frame(0, S.fn(CTX + 'Context::new'), 0, None)):
                there = S.variant(s2, v)
                same = there == 'Some' and S.I.same_struct(s2, S.whnf(s2, v.fs[0]), img)
                if storage == 'Disc': c.ob('ESC @ | NV graphics are kept', bool(same) or (None if m == dm else False), 'an NV graphic is %s after ESC @' % ('another one' if there == 'Some' else 'gone'), 'ESC @')
                else: c.ob('ESC @ | download graphics are deleted', not same, 'a download graphic survives ESC @', 'ESC @')
def snapshot(c, op):
    S = c.S; S.with_flush_hooks(); c.count('commands')
    S.I.virtual_hook = lambda st, meth, decl, recv, args, dty: [(st, Agg(dty, S.I.variant_index(dty, 'None'), []))] if meth == 'get_graphics' else None
    try:
        bs = list(op) + S.sym_bytes(FIXED[op]) if op in FIXED else complete(op)
        for o in S.stream(bs):
            c.ob('snapshot | untouched by ' + hexs(op), S.I.same_struct(o.st, S.get(o.st, o.ctx0, 'default'), S.get(o.st, o.ctx1, 'default')), 'the power-on snapshot changes', hexs(op))
    finally: S.I.virtual_hook = None
