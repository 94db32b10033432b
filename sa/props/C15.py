"""device actions: what the output is told and asked to do by every command"""
from fw import prop
from tables import *
from props.C01 import OPS, complete
from props.C03 import FIXED, hexs
from props.C14 import GRAPHICS, PAYLOAD

# command -> (page mode) -> output calls: a string is a device_command notification ('Name', operand terms...), ('!', method) another output call
def std(*a): return lambda b, page: [] if page else list(a)
def pg(*a): return lambda b, page: list(a) if page else []
def both(*a): return lambda b, page: [x(b) if callable(x) else x for x in a]
END = [('EndPrint',), ('!', 'get_render_errors'), ('!', 'end_render')]
ACTIONS = {(0x18, 0x40): both(('Cancel',)), (0x0C,): lambda b, page: [('EndPageMode',), ('!', 'page_end'), ('PrintPageMode',), ('!', 'render_page')] if page else END,
    (0x1B, 0x40): lambda b, page: ([('EndPageMode',), ('!', 'page_end')] if page else []) + [('Initialize',)], (0x1B, 0x0C): pg(('PrintPageMode',), ('!', 'render_page')),
    (0x1B, 0x53): pg(('EndPageMode',), ('!', 'page_end')), (0x1B, 0x4C): both(('BeginPageMode',), ('!', 'page_begin')),
    (0x1B, 0x57): pg(('ChangePageArea',), ('!', 'page_area_changed')), (0x1B, 0x54): pg(('ChangePageModeDirection',), ('!', 'page_area_changed')),
    (0x1B, 0x4A): both(lambda b: ('Feed', b[0])), (0x1B, 0x64): both(lambda b: ('FeedLine', b[0])), (0x1B, 0x65): both(lambda b: ('FeedLine', neg(b[0]))),
    (0x1B, 0x61): both(('Justify', 'text.justify')), (0x1D, 0x21): both(('SetTextWidth', 'text.width_mult'), ('SetTextHeight', 'text.height_mult')),
    (0x1B, 0x44): both(lambda b: ('ChangeTabs', b[0], b[1]))}
INERT = [(0x1B, 0x70), (0x1B, 0x3D), (0x1B, 0x63, 0x33), (0x1B, 0x63, 0x34), (0x1B, 0x63, 0x35), (0x1D, 0x49), (0x1D, 0x28, 0x48), (0x1D, 0x28, 0x47), (0x18, 0x40)]
CUTS = [(m, 'FullCut', False) for m in (0, 48)] + [(m, 'PartialCut', False) for m in (1, 49)] + [(m, 'FullCut', True) for m in (65, 97, 103)] + [(m, 'PartialCut', True) for m in (66, 98, 104)]

@prop('C15', 'abstract interpretation of every command with symbolic operands in both modes; the sequence of output calls on each path is compared with a table of '
      'device actions, and the commands without effect must leave the whole printer state alone', commands=50, paths=120, obligations=200)
def check(c):
    S = c.S; S.with_flush_hooks()
    for op in OPS:
        if op == (0x1D, 0x56): continue
        c.guard(hexs(op), one, c, op, hexs(op), list(op) + S.sym_bytes(FIXED[op]) if op in FIXED else complete(op), ACTIONS.get(op, lambda b, page: []))
    for m, kind, feed in CUTS:
        bs = S.sym_bytes(1) if feed else []
        c.guard('GS V %d' % m, one, c, (0x1D, 0x56), 'GS V m=%d' % m, [0x1D, 0x56, m] + bs, lambda b, page, kind=kind, feed=feed: [(kind,)] + ([('Feed', b[0])] if feed else []), bs)
    for o, pl in (((0x1D, 0x28, 0x4C), [0, 0]), ((0x1D, 0x38, 0x4C), [0, 0, 0, 0])):
        for fn in (0, 1, 2, 3, 4, 48, 49, 50, 51, 52, 64, 65, 66, 69, 80, 81, 82, 85):
            act = [('ClearBufferGraphics',)] if fn in (2, 50) else []
            bs = S.sym_bytes(4)
            c.guard('GS L fn %d' % fn, one, c, o, 'GS %s L fn=%d' % ('8' if o[1] == 0x38 else '(', fn), list(o) + [6] + pl[1:] + [48, fn] + bs, lambda b, page, act=act: act)
    for cn in range(48, 55):
        bs = S.sym_bytes(2)
        c.guard('GS ( k transmit', one, c, (0x1D, 0x28, 0x6B), 'GS ( k cn=%d fn=82' % cn, [0x1D, 0x28, 0x6B, 4, 0, cn, 82] + bs, lambda b, page: [], bs, True)
    for role, exp in (('begin_parsing', [('BeginPrint',), ('!', 'begin_render')]), ('end_parsing', END)): c.guard(role, marker, c, role, exp)
def none_drawn(S):
    S.I.virtual_hook = lambda st, meth, decl, recv, args, dty: [(st, Agg(dty, S.I.variant_index(dty, 'None'), []))] if meth == 'get_graphics' else None
def one(c, op, label, bs, exp, operands=None, inert=False):
    S = c.S; c.count('commands')
    b = operands if operands is not None else [x for x in bs[len(op):] if not isinstance(x, int)]
    none_drawn(S)
    try:
        for pm in (FALSE, TRUE):
            page = pm == TRUE
            st0 = S.cmd_set()[0].copy()
            ctx = S.setp(S.context(), 'page_mode.enabled', pm)
            for o in S.stream(bs, ctx):
                c.count('paths')
                judge(c, S, o, '%s | %s mode' % (label, 'page' if page else 'standard'), exp(b, page))
                if inert or op in INERT:
                    for p, a in o.changed().items():
                        c.ob('%s | no effect' % label, eqv(S, o.st, a, S.get(o.st, o.ctx0, *p.split('.'))), '%s becomes %s' % (p, show(a)), label)
    finally: S.I.virtual_hook = None
def judge(c, S, o, label, exp):
    got = []
    for e in o.events:
        if e[0] != 'out': continue
        if e[1] == 'device_command': got.append(S.whnf(o.st, e[2][1]))
        elif e[1] != 'set_debug_profile': got.append(e[1])
    names = [S.variant(o.st, g) if not isinstance(g, str) else '!' + g for g in got]
    want = ['!' + x[1] if x[0] == '!' else x[0] for x in exp]
    # notifications and requests are two independent sequences
    for what, f in (('notifications', lambda n: n[0] != '!'), ('requests', lambda n: n[0] == '!')):
        a, w = [n for n in names if n is None or f(n)], [n for n in want if f(n)]
        ok = a == w or (None if None in a or st_imprecise(o.st) or model(o.st) is None else False)
        c.ob('%s | %s' % (label, what), ok, 'the output gets %s, expected %s' % (a, w), label)
        if a != w: return
    for g, x in zip([g for g in got if not isinstance(g, str)], [x for x in exp if x[0] != '!']):
        fs = g.fs if isinstance(g, Agg) else ()
        for a, e in zip(fs, x[1:]):
            if isinstance(e, str): e = S.get(o.st, o.ctx1, *e.split('.'))
            c.ob('%s | %s operand' % (label, x[0]), eqv(S, o.st, a, e), '%s operand is %s, expected %s' % (x[0], show(a), show(e)), label)
        c.ob('%s | %s operands' % (label, x[0]), len(fs) == len(x) - 1 or None, '%d operands' % len(fs), label)
def marker(c, role, exp):
    S = c.S; c.count('commands')
    for o in S.run(S.registry()[1][role], S.seq_u8([])):
        c.count('paths')
        judge(c, S, o, role, exp)
