"""one output per print, every error reported once"""
from fw import prop
from tables import *
from props.C01 import OPS, complete
from props.C03 import FIXED, hexs
from props.C14 import GRAPHICS, hook, drawing
from props.C24 import SMALL
import interp

K = 'renderer::RenderErrorKind'
@prop('C22', 'abstract interpretation of Renderer::render on command lists of every length up to 3 (commands and what they leave in the buffers arbitrary) and of every '
      'command on unknown buffers; what is appended to the error and output buffers on each path is compared with the errors and outputs raised', cases=60, paths=100, obligations=200)
def check(c):
    for k in range(4 if c.tier == 'quick' else 7): c.guard('render of %d commands' % k, render, c, k)
    for n in range(4):
        c.guard('end of print with %d output errors' % n, end, c, n)
        for pre in range(3 if n else 1): c.guard('end of print with %d output errors after %d' % (n, pre), end, c, n, pre)
    c.guard('end of print, repeated messages', end, c, 3, 2, ('a', 'a', 'b'))
    c.guard('end of print, message seen before', end, c, 2, 2, ('m1', 'm0'))
    for bs, label in (([0x1B, 0x01], 'unknown ESC'), ([0x1D, 0xFF], 'unknown GS'), ([0x10], 'lone DLE'), ([0x1D, 0x28, 0x6B, 3, 0, 49, 200, 1], 'unknown subcommand')): c.guard(label, unknown, c, bs, label)
    for op in OPS: c.guard('quiet ' + hexs(op), quiet, c, op)
    for d in ('Error', 'Image', 'Barcode', 'Code2D'): c.guard('graphics ' + d, graphic, c, d)
def fn_render(S):
    for k in S.P.by_path.get(TR + "renderer::Renderer::<'a, Output>::render", []): return S.P.funcs[k]
    raise Missing('function Renderer::render')
def buf(S, st, v, n): return S.whnf(st, S.get(st, v, n))
def render(c, k):
    """each command once, in order; the buffers are handed over and left empty"""
    S = c.S; I = S.I; c.count('cases')
    st = S.cmd_set()[0].copy(); st.tag = ()
    ct = S.adt(TP + 'command::Command')
    pf = interp.norm_path(S.process_fn()['path'])
    parse = [p for p in S.P.by_path if p.endswith('parse_esc_pos')]
    if not parse: raise Missing('function parse_esc_pos')
    cmds = [(lambda v: I.expand(v) if isinstance(v, SymV) else v)(I.sym_value(ct, 'cmd%d' % i)) for i in range(k)]
    # any handler: those of real commands
    real = [x for x in S.registry()[2] if x.kind != 'Subcommand'][:3] or S.registry()[2][:3]
    cmds = [S.put(v, 'handler', real[i % len(real)].val.fs[S.fidx(ct, 'handler')]) for i, v in enumerate(cmds)]
    rv = S.renderer_val(S.context())
    outs = [I.sym_value(I.ty(S.fty(rv.ty, 'output_buffer'))['targs'][0], 'o%d' % i) for i in range(k)]
    errs = [I.sym_value(I.ty(S.fty(rv.ty, 'error_buffer'))['targs'][0], 'e%d' % i) for i in range(k)]
    def h_parse(I, st, fr, args, inst, atys, dty, line):
        st.tag = st.tag + (('parsed', I.deref_val(st, args[0]) if isinstance(args[0], RefV) else args[0]),)
        return [(st, SeqV([('e', v) for v in cmds], ct))]
    def h_proc(I, st, fr, args, inst, atys, dty, line):
        i = sum(1 for e in st.tag if e[0] == 'cmd')
        st.tag = st.tag + (('cmd', I.deref_val(st, args[1])),)
        r = args[0]
        for n, xs in (('output_buffer', outs), ('error_buffer', errs)):
            ix = S.fidx(rv.ty, n); q = S.whnf(st, I.deref_val(st, r).fs[ix])
            if i < k: I.store(st, r.base, r.path + (('f', ix),), SeqV(q.segs + (('e', xs[i]),), q.ety))
        return [(st, I.zst(dty))]
    hooks = dict(I.hooks)
    try:
        for p in parse: I.hooks[interp.norm_path(p)] = h_parse
        I.hooks[pf] = h_proc
        rr = S.ref(st, rv); data = S.sym_data('input'); br = S.ref(st, data)
        n = 0
        for s2, out in S.call(fn_render(S), [rr, br], st):
            n += 1; c.count('paths')
            done = [e[1] for e in s2.tag if e[0] == 'cmd']
            ok = len(done) == k and all(S.I.same_struct(s2, a, b) for a, b in zip(done, cmds))
            c.ob('render | every command is processed once, in order', ok or (None if len(done) == k else False), '%d of %d commands are processed' % (len(done), k), 'Renderer::render')
            p = [e[1] for e in s2.tag if e[0] == 'parsed']
            c.ob('render | the whole input is parsed once', len(p) == 1 and S.I.same_struct(s2, S.whnf(s2, p[0]), data), 'parsed %s' % show(p), 'Renderer::render')
            after = I.load(s2, rr.base, ())
            for n_, xs, b in (('output', outs, 'output_buffer'), ('errors', errs, 'error_buffer')):
                got = S.whnf(s2, S.get(s2, out, n_)); was = S.whnf(s2, rv.fs[S.fidx(rv.ty, b)])
                want = SeqV(was.segs + tuple(('e', x) for x in xs), was.ety)
                same = isinstance(got, SeqV) and S.I.same_struct(s2, got, want)
                c.ob('render | all %s are returned in order' % n_, True if same else eqv(S, s2, got, want), '%s is %s' % (n_, show(got)), 'Renderer::render')
                left = buf(S, s2, after, b)
                c.ob('render | no %s is kept for the next print' % n_, isinstance(left, SeqV) and left.explicit() and not left.segs or (False if isinstance(left, SeqV) else None), '%s is left with %s' % (b, show(left)), 'Renderer::render')
            ch = diff(S, s2, rv.fs[S.fidx(rv.ty, 'context')], after.fs[S.fidx(rv.ty, 'context')])
            c.ob('render | the printer state carries over', not ch, 'render itself changes %s' % sorted(ch)[:3], 'Renderer::render')
            extra = [e[1] for e in s2.tag if e[0] == 'out' and e[1] != 'set_debug_profile']
            c.ob('render | no other output call', not extra, 'output calls %s' % extra, 'Renderer::render')
        c.ob('render | completes', n > 0 or None, 'no outcome')
    finally: I.hooks.clear(); I.hooks.update(hooks)
def appended(S, o, name):
    """what a command appended to a buffer: a list, or None when it cannot be told"""
    a, b = buf(S, o.st, o.before, name), buf(S, o.st, o.after, name)
    if not isinstance(a, SeqV) or not isinstance(b, SeqV) or b.segs[:len(a.segs)] != a.segs or any(s[0] != 'e' for s in b.segs[len(a.segs):]):
        return [] if S.I.same_struct(o.st, a, b) else None
    return [s[1] for s in b.segs[len(a.segs):]]
def expect(c, S, o, label, name, want):
    got = appended(S, o, name)
    if got is None: c.ob(label, None, '%s becomes %s' % (name, show(buf(S, o.st, o.after, name)))); return
    ok = len(got) == len(want) and conj(w(g) for w, g in zip(want, got))
    c.ob(label, ok, 'adds %s to the %s, expected %d' % (show(got), name, len(want)), label)
def err(S, o, kind, text=None):
    def f(e):
        k = S.variant(o.st, S.get(o.st, e, 'kind'))
        if k is None: return None
        if k != kind: return False
        return True if text is None else True if S.I.same_struct(o.st, S.whnf(o.st, S.get(o.st, e, 'description')), S.whnf(o.st, text)) else eqv(S, o.st, S.get(o.st, e, 'description'), text) or None
    return f
def lit(t): return OpV('str', (('lit', t),))
def held(S, n, texts=()):
    """an error buffer holding n errors"""
    rt = S.renderer_ty(); et = S.I.ty(S.fty(rt, 'error_buffer'))['targs'][0]
    out = []
    for i in range(n):
        e = S.I.sym_value(et, 'was%d' % i); e = S.I.expand(e) if isinstance(e, SymV) else e
        out.append(('e', S.put(e, 'description', lit('m%d' % i))))
    return SeqV(out, et)
def end(c, n, pre=None, lits=None):
    S = c.S; S.with_flush_hooks(); c.count('cases')
    old = S.I.decided_dyn
    texts = [lit(t) for t in lits] if lits else [OpV('str', (('v', S.I.sym_value(S.u8(), 'msg%d' % i)),)) for i in range(n)]
    over = None if pre is None else {'error_buffer': held(S, pre)}
    def dyn(I, st, fr, decl, recv, args, atys, dty, line):
        r = old(I, st, fr, decl, recv, args, atys, dty, line)
        if r is not None and decl.endswith('::get_render_errors'): return [(s, SeqV([('e', t) for t in texts], I.ty(dty)['targs'][0])) for s, _ in r]
        if r is not None and decl.endswith('::end_render'): r[0][0].tag = r[0][0].tag + (('result', r[0][1]),)
        return r
    S.I.decided_dyn = dyn
    try:
        st = S.cmd_set()[0]
        runs = [('end of the input', S.run(S.registry()[1]['end_parsing'], S.seq_u8([]), over=over)), ('FF', S.stream([0x0C], S.setp(S.context(), 'page_mode.enabled', FALSE), over=over))]
        for label, outs in runs:
            for o in outs:
                c.count('paths')
                expect(c, S, o, '%s | %d output errors are reported' % (label, n), 'error_buffer', [err(S, o, 'ChildRenderError', t) for t in texts])
                res = [e[1] for e in o.events if e[0] == 'result']
                c.ob(label + ' | one output', len(res) == 1, '%d end_render calls' % len(res), label)
                if len(res) == 1: expect(c, S, o, label + ' | the output is returned', 'output_buffer', [lambda g, r=res[0]: S.I.same_struct(o.st, g, r) or None])
    finally: S.I.decided_dyn = old
def unknown(c, bs, label):
    S = c.S; S.with_flush_hooks(); c.count('cases')
    for o in S.stream(bs):
        c.count('paths')
        expect(c, S, o, 'unknown command is reported once | ' + label, 'error_buffer', [err(S, o, 'UnknownCommand')])
        expect(c, S, o, 'unknown command yields no output | ' + label, 'output_buffer', [])
        bad = sorted(o.changed()); outs = [e[1] for e in o.events if e[0] == 'out']
        c.ob('unknown command has no other effect | ' + label, not bad and not outs, 'changes %s, output calls %s' % (bad[:3], outs), label)
def quiet(c, op):
    S = c.S; S.with_flush_hooks(); c.count('cases')
    hook(S, 'None')
    try:
        bs = list(op) + S.sym_bytes(FIXED[op]) if op in FIXED else complete(op)
        ctx = S.setp(S.context(), 'page_mode.enabled', TRUE) if op == (0x0C,) else S.context()
        for o in S.stream(bs, ctx):
            c.count('paths')
            for n in ('error_buffer', 'output_buffer'): expect(c, S, o, '%s | adds nothing to the %s' % (hexs(op), n), n, [])
    finally: S.I.virtual_hook = None
def graphic(c, d):
    S = c.S; S.with_flush_hooks(); c.count('cases')
    gt = S.adt(TP + 'graphics::GraphicsCommand')
    hook(S, d)
    try:
        for op in sorted(GRAPHICS):
            x = S.setp(S.setp(S.setp(S.context(), 'page_mode.enabled', FALSE), 'text.justify', S.enum(TP + 'context::TextJustify', 'Left')), 'barcode.human_readable', S.enum(TP + 'context::HumanReadableInterface', 'None'))
            st = S.cmd_set()[0].copy()
            for p in SMALL: st.assume(c_le(sub(S.get(st, x, *p.split('.')), const(1 << 30))))
            for o in S.stream(drawing(op), x, st=st):
                c.count('paths')
                i = S.I.variant_index(gt, 'Error')
                want = [err(S, o, 'GraphicsError', S.I.sym_value(S.I.ty(gt)['v'][i]['f'][0][1], 'gfx0'))] if d == 'Error' else []
                expect(c, S, o, '%s | %s' % (hexs(op), 'the error is reported once' if d == 'Error' else 'no error is reported'), 'error_buffer', want)
                if d == 'Error':
                    outs = [e[1] for e in o.events if e[0] == 'out' and e[1] != 'device_command']
                    c.ob(hexs(op) + ' | nothing is drawn', not outs, 'output calls %s' % outs, hexs(op))
    finally: S.I.virtual_hook = None
