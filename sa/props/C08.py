from fw import prop
from tables import *
from props.C07 import satsub, word, SMALL, PM
PA, LA = 'page_mode.page_area.', 'page_mode.logical_area.'
DIRS = ['TopLeft2Right', 'BottomLeft2Top', 'BottomRight2Left', 'TopRight2Bottom']     # quarter turns
ROT = ['R0', 'R90', 'R180', 'R270']
def tmax(st, a, b):
    d = sub(a, b)
    if st.decide(c_le(neg(d))) is True: return a
    if st.decide(c_le(d)) is True: return b
    return lin(atom(('max', a, b), 0, INF, 'max', (a, b)))

def areas(st, d, l, pw, ph):
    """render area (x,y,w,h) and grown page size for logical area l on a page of pw x ph, in its own orientation"""
    x, y, w, h = l
    if d == 0: r = (x, y, w, h)
    elif d == 2: r = (satsub(st, pw, add(x, w)), y, w, h)
    elif d == 3: r = (satsub(st, pw, add(y, h)), satsub(st, ph, add(x, w)), h, w)
    else: r = (satsub(st, pw, add(y, h)), x, h, w)
    return r, tmax(st, add(r[0], r[2]), pw), tmax(st, add(r[1], r[3]), ph)
def expect(st, d, l, pw, ph):
    r, w, h = areas(st, d, l, pw, ph)
    return {PM + 'x': r[0], PM + 'y': r[1], PM + 'w': r[2], PM + 'h': r[3], PA + 'x': r[0], PA + 'y': r[1], PA + 'w': w, PA + 'h': h}, w, h
def out_events(o): return [(e[1], e[2]) for e in o.events if e[0] == 'out' and e[1] != 'device_command']
def enabled(S, st, v): return S.get(st, v, 'page_mode', 'enabled')

@prop('C08', 'abstract interpretation of parser and command routine for each page mode command, for every direction operand, every current direction '
      'and symbolic areas; areas, direction and the page_area_changed / page_begin / page_end / render_page calls must follow the page geometry',
      cases=18, obligations=600)
def check(c):
    c.assume.append('area fields of the prior printer state are at most 2^30 dots')
    c.S.with_flush_hooks()
    jobs = [('W', d) for d in range(4)] + [('T', d) for d in range(4)] + [('stdW', 0), ('stdT', 0)] + [('mode', i) for i in range(8)]
    c.par(jobs, one)
def one(c, job):
    k, i = job
    c.count('cases')
    {'W': esc_w, 'T': esc_t, 'stdW': std, 'stdT': std, 'mode': mode}[k](c, i if k in 'WTmode' else k)
def small(S, o, st): return all(st.assume(c_le(sub(S.get(st, o.ctx0, *p.split('.')), const(1 << 30)))) for p in SMALL + [PA + 'w', PA + 'h'] + [LA + x for x in 'xywh'])
def start(S, d=None, on=True):
    ctx = S.setp(S.context(), 'page_mode.enabled', TRUE if on else FALSE)
    if d is not None: ctx = S.setp(ctx, 'page_mode.direction', S.enum(TP + 'context::PrintDirection', DIRS[d]))
    return ctx
def old(S, st, o, p): return S.get(st, o.ctx0, *p.split('.'))
def verify(c, o, st, exp, ev, label):
    S = c.S
    for p, r, a in compare(S, o, st, exp):
        c.ob('%s | %s' % (label, p), r, '%s becomes %s, expected %s' % (p, show(a), show(exp.get(p, 'unchanged'))), label)
    got = out_events(o)
    ok = [m for m, _ in got] == [m for m, *_ in ev]
    c.ob(label + ' | calls', ok, 'output renderer calls %s, expected %s' % ([m for m, _ in got], [m for m, *_ in ev]), label)
    if not ok: return
    for (m, vals), (_, *args) in zip(got, ev):
        for j, x in enumerate(args):
            if isinstance(x, dict):     # fields of the Context the call sees
                for p, v in x.items():
                    a = S.get(st, vals[0], *p.split('.'))
                    c.ob('%s | %s sees %s' % (label, m, p), eqv(S, st, a, v), '%s is %s during the call' % (p, show(a)), label)
            else:
                if isinstance(x, str): x = S.enum(TP + 'context::Rotation', x)
                c.ob('%s | %s argument %d' % (label, m, j), eqv(S, st, vals[j], x), 'passes %s, expected %s' % (show(vals[j]), show(x)), label)

def esc_w(c, d):
    S = c.S; label = 'ESC W in page mode, direction %s' % DIRS[d]
    b = S.sym_bytes(8)
    outs = S.stream([0x1B, 0x57] + b, start(S, d))
    if not outs: c.ob(label, False, 'never completes normally', label)
    for o in outs:
        st = o.st
        if not small(S, o, st): continue
        u = [S.op(st, 'Div', word(b[2 * i:2 * i + 2]), old(S, st, o, 'graphics.%s_motion_unit' % 'hv'[i % 2])) for i in range(4)]
        exp, w, h = expect(st, d, u, old(S, st, o, PA + 'w'), old(S, st, o, PA + 'h'))
        for n, v in zip('xywh', u): exp[LA + n] = v
        exp['page_mode.previous_direction'] = DIRS[d]
        verify(c, o, st, exp, [('page_area_changed', {PM + n: exp[PM + n] for n in 'xywh'}, 'R0', w, h)], label)
def esc_t(c, d):
    S = c.S; pre = 'ESC T in page mode, direction %s' % DIRS[d]
    n = S.sym_bytes(1)[0]
    outs = S.stream([0x1B, 0x54, n], start(S, d))
    seen = set()
    for o in outs:
        for v in cand(o.st, n.atoms()[0])[0]:
            st = bind(o.st, [(n, v)])
            if st is None or not small(S, o, st): continue
            seen.add(v)
            t = {0: 0, 48: 0, 1: 1, 49: 1, 2: 2, 50: 2, 3: 3, 51: 3}.get(v, 0)
            pw, ph = old(S, st, o, PA + 'w'), old(S, st, o, PA + 'h')
            if (t - d) % 2: pw, ph = ph, pw
            exp, w, h = expect(st, t, [old(S, st, o, LA + x) for x in 'xywh'], pw, ph)
            exp['page_mode.direction'] = DIRS[t]; exp['page_mode.previous_direction'] = DIRS[d]
            label = '%s to %s' % (pre, DIRS[t] if v in (0, 1, 2, 3, 48, 49, 50, 51) else 'unknown')
            verify(c, o, st, exp, [('page_area_changed', {PM + x: exp[PM + x] for x in 'xywh'}, ROT[(t - d) % 4], w, h)], label)
    c.ob(pre + ' | all operands', len(seen) == 256 or None, '%d operand values' % len(seen), pre)
def std(c, k):
    S = c.S; label = 'ESC %s in standard mode' % k[3]
    outs = S.stream([0x1B, ord(k[3])] + S.sym_bytes(8 if k[3] == 'W' else 1), start(S, None, False))
    if not outs: c.ob(label, False, 'never completes normally', label)
    for o in outs: verify(c, o, o.st, {}, [], label)
def mode(c, i):
    S = c.S; on = bool(i & 1)
    nm, bs = [('ESC L', [0x1B, 0x4C]), ('ESC S', [0x1B, 0x53]), ('FF', [0x0C]), ('ESC FF', [0x1B, 0x0C])][i // 2]
    label = '%s in %s mode' % (nm, 'page' if on else 'standard')
    outs = S.stream(bs, start(S, None, on))
    if not outs: c.ob(label, False, 'never completes normally', label)
    for o in outs:
        st = o.st
        if not small(S, o, st): continue
        gx, gy = 'graphics.render_area.x', 'graphics.render_area.y'
        page = {gx: const(0), gy: add(old(S, st, o, gy), old(S, st, o, PA + 'h'))}
        at = {gx: old(S, st, o, gx), gy: old(S, st, o, gy)}
        en = 'page_mode.enabled'
        if nm == 'ESC L': exp, ev = {en: TRUE}, [('page_begin',)]
        elif nm == 'ESC S': exp, ev = {en: FALSE}, [('page_end',)] if on else []
        elif nm == 'FF' and on: exp, ev = dict(page, **{en: FALSE}), [('page_end',), ('render_page', at)]
        elif nm == 'FF': exp, ev = {}, [('get_render_errors',), ('end_render',)]
        elif on: exp, ev = page, [('render_page', at)]
        else: exp, ev = {}, []
        verify(c, o, st, exp, ev, label)
