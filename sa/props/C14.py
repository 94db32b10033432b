"""order of pending text relative to other commands"""
from fw import prop
from tables import *
from props.C01 import OPS, complete
from props.C03 import FIXED, hexs
from props.C24 import SMALL
import interp

TEXT = {(0x09,): 'HT', (0x0A,): 'LF', (0x0D,): 'CR'}
STYLE = {(0x1B, 0x45), (0x1B, 0x34), (0x1B, 0x7B), (0x1D, 0x62), (0x1B, 0x47), (0x1B, 0x2D), (0x1B, 0x4D), (0x1D, 0x21), (0x1B, 0x21), (0x1B, 0x52),
         (0x1B, 0x74), (0x1B, 0x72), (0x1D, 0x42), (0x1D, 0x28, 0x4E)}
GRAPHICS = {(0x1D, 0x6B), (0x1D, 0x76, 0x30), (0x1B, 0x2A), (0x1D, 0x28, 0x4C), (0x1D, 0x38, 0x4C), (0x1D, 0x28, 0x6B)}
_K = [None, None, 1, 1, 0, 1, 0, 49, None, None]
PAYLOAD = {67: _K, 68: _K, 83: _K, 84: _K, 112: [48, 1, 1, 49, 1, 0, 1, 0, None, None], 113: [48, 1, 1, 49, 1, 0, 1, 0, None, None]}
DRAWN = ('None', 'Error', 'Image', 'Barcode', 'Code2D')

@prop('C14', 'abstract interpretation of every opcode (symbolic operands) on a renderer with unknown pending text; the order of the text flush, the first '
      'output call and the first context change is read off every path', cases=90, paths=300, obligations=400)
def check(c):
    c.assume.append('coordinates and area sizes at most 2^30 dots; what get_graphics returns is arbitrary')
    jobs = [(o, hexs(o), None) for o in OPS] + [(o, hexs(o) + ' drawing ' + d, d) for o in sorted(GRAPHICS) for d in DRAWN] + \
           [((0x1D, 0x28, 0x6B), 'GS ( k cn %d fn %d' % (cn, fn), [0x1D, 0x28, 0x6B, 4, 0, cn, fn, None, None]) for cn in range(48, 55) for fn in list(range(65, 74)) + [80, 81, 82]] + \
           [(o, 'GS %s L fn %d' % (o[1:2] == (0x28,) and '(' or '8', fn), list(o) + ([12, 0] if o[1] == 0x28 else [12, 0, 0, 0]) + [48, fn] + PAYLOAD.get(fn, [None] * 10))
            for o in ((0x1D, 0x28, 0x4C), (0x1D, 0x38, 0x4C)) for fn in (0, 1, 2, 3, 4, 48, 49, 50, 51, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113)] + \
           [('text', 'printable text', [None, None]), ('unknown', 'unknown command', [0x1B, 0x01]), ('end', 'end of the input', None)]
    c.par(jobs, lambda w, j: w.guard(j[1], one, w, *j))
def drawing(op):
    return [0x1D, 0x28, 0x6B, 3, 0, 49, 81, 48] if op == (0x1D, 0x28, 0x6B) else complete(op)
def hook(S, drawn):
    """whatever a command draws, one graphic of the given kind (None: any result)"""
    gt = S.adt(TP + 'graphics::GraphicsCommand')
    def vh(st, meth, decl, recv, args, dty):
        if meth != 'get_graphics': return None
        if drawn is None or drawn == 'None': return [(st, Agg(dty, S.I.variant_index(dty, 'None'), []))]
        i = S.I.variant_index(gt, drawn); f = S.I.ty(gt)['v'][i]['f']
        return [(st, Agg(dty, S.I.variant_index(dty, 'Some'), [Agg(gt, i, [S.I.sym_value(t, 'gfx%d' % k) for k, (n, t) in enumerate(f)])]))]
    S.I.virtual_hook = vh
def one(c, op, label, how):
    S = c.S; S.with_flush_hooks(); c.count('cases')
    drawn = how if isinstance(how, str) else None
    if isinstance(how, list):
        s = S.sym_bytes(sum(1 for x in how if x is None)); it = iter(s)
        bs = [next(it) if x is None else x for x in how]
    elif op == 'end': bs = []
    elif op in FIXED: bs = list(op) + S.sym_bytes(FIXED[op])
    else: bs = drawing(op) if drawn else complete(op)
    ctx = S.context()
    if op in GRAPHICS:
        hook(S, drawn)
        ctxs = []
        for pm in (FALSE, TRUE):
            for h in (('None', 'Above', 'Below', 'Both') if drawn == 'Barcode' else (None,)):
                x = S.setp(S.setp(ctx, 'page_mode.enabled', pm), 'text.justify', S.enum(TP + 'context::TextJustify', 'Left'))
                ctxs.append(x if h is None else S.setp(x, 'barcode.human_readable', S.enum(TP + 'context::HumanReadableInterface', h)))
    else: ctxs = [ctx]
    try:
        for x in ctxs:
            st = S.cmd_set()[0].copy()
            for p in SMALL: st.assume(c_le(sub(S.get(st, x, *p.split('.')), const(1 << 30))))
            if op == 'text':
                for b in bs: st.assume(c_le(sub(const(0x20), b)))
            for o in (S.run(S.registry()[1]['end_parsing'], S.seq_u8([]), st, x) if op == 'end' else S.stream(bs, x, st=st)): c.count('paths'); judge(c, S, o, op, label)
    finally: S.I.virtual_hook = None
def vacuous(st): return not st_imprecise(st) and infeasible(st)
def verdict(c, o, key, ok, why, op):
    if ok is False and (st_imprecise(o.st) or model(o.st) is None): ok = None
    c.ob(key, ok, why, 'process_command on %s' % (hexs(op) if isinstance(op, tuple) else op))
def judge(c, S, o, op, label):
    if op == 'end': c.ob(label + ' | ends the print', any(e[0] == 'out' and e[1] == 'end_render' for e in o.events) or None, 'no end_render call', op)
    b0, b1 = S.whnf(o.st, S.get(o.st, o.before, 'span_buffer')), S.whnf(o.st, o.field('span_buffer'))
    ev = o.events
    flushes = [i for i, e in enumerate(ev) if e[0] == 'flush']; outs = [i for i, e in enumerate(ev) if e[0] == 'out']
    chg = o.changed()
    same = S.I.same_struct(o.st, b0, b1)
    what = '%d flushes, output %s, context changes %s' % (len(flushes), [ev[i][1] for i in outs], sorted(chg)[:4])
    if op == 'text' or op in TEXT:
        verdict(c, o, label + ' | waits in order', not flushes and not outs and not chg, what, op)
        if not flushes: verdict(c, o, label + ' | appended to the pending text', appended(S, o.st, b0, b1), 'pending text becomes %s' % show(b1), op)
        return
    if op in STYLE:
        verdict(c, o, label + ' | leaves text pending', not flushes and same, what, op)
        return
    empty0 = o.st.decide(c_eq(b0.length())) if isinstance(b0, SeqV) else None
    if empty0 is True: return
    if not flushes:
        if not same: verdict(c, o, label + ' | pending text is printed', False if isinstance(b1, SeqV) and b1.explicit() else None, 'pending text is dropped or changed', op)
        else: verdict(c, o, label + ' | pending text is printed first', not outs and not chg, 'pending text is not printed; ' + what, op)
        return
    f = ev[flushes[0]]
    verdict(c, o, label + ' | pending text is printed first', not [i for i in outs if i < flushes[0]], what, op)
    verdict(c, o, label + ' | only what was pending', S.I.same_struct(o.st, f[1], b0), 'printed with %s' % show(f[1]), op)
    d = diff(S, o.st, o.ctx0, f[2])
    verdict(c, o, label + ' | printed before the state changes', not d, 'pending text is printed after %s changed' % sorted(d)[:3], op)
    verdict(c, o, label + ' | nothing left pending', isinstance(b1, SeqV) and b1.explicit() and not b1.items() or (None if not isinstance(b1, SeqV) or not b1.explicit() else False), 'pending text after the command: %s' % show(b1), op)
def appended(S, st, a, b):
    a, b = a.segs if isinstance(a, SeqV) else None, b.segs if isinstance(b, SeqV) else None
    if a is None or b is None: return None
    if len(b) != len(a) + 1 or b[-1][0] != 'e': return False if not any(p[0] not in 'es' for p in b) else None
    return all(x == y for x, y in zip(a, b))
