from fw import prop
from tables import *
from props.C08 import old
CTX = TP + 'context::'
def lit(t): return OpV('str', (('lit', t),))
SMALL = ['graphics.render_area.' + k for k in 'xyw'] + ['page_mode.render_area.' + k for k in 'xyw'] + ['page_mode.page_area.x', 'text.line_spacing']
def lmax(st, a, b):
    d = sub(a, b)
    if st.decide(c_le(neg(d))) is True: return a
    if st.decide(c_le(d)) is True: return b
    return lin(atom(('max', a, b), 0, INF, 'max', (a, b)))
def split_on(work, cond):
    """[(state, bool)]: both sides of a condition the state does not decide"""
    out = []
    for b, c in ((True, cond), (False, c_not(cond))):
        s = work.copy()
        if s.assume(c): out.append((s, b))
    return out

class Word:
    def __init__(self, span, text): self.span = span; self.text = text
def layout(S, st, ctx, words, tabs):
    """[(state, lines [[(span index, text, x, y)]], x, y)]: the reference layout, one entry per case"""
    page = S.get(st, ctx, 'page_mode', 'enabled') == TRUE
    A = 'page_mode.render_area.' if page else 'graphics.render_area.'
    g = lambda s, p: S.get(s, ctx, *p.split('.'))
    base = g(st, 'page_mode.page_area.x') if page else const(0)
    W, ls = g(st, A + 'w'), g(st, 'text.line_spacing')
    res = []
    def newline(s, cur, y):
        h = ls
        for i in cur: h = lmax(s, h, words[i[0]].height)
        return base, add(y, h)
    work = [(st, 0, g(st, A + 'x'), g(st, A + 'y'), (), ())]
    while work:
        s, k, x, y, cur, lines = work.pop()
        if len(res) + len(work) > 4000: raise Limit('layout cases')
        if k == len(words):
            res.append((s, lines + ((cur,) if cur else ()), x, y)); continue
        w = words[k]; cw = w.cw
        if w.text == '\n':
            nx, ny = newline(s, cur, y)
            work.append((s, k + 1, nx, ny, (), lines + ((cur,) if cur else ()))); continue
        if w.text == '\t':
            pos = const(0); rest = [s]
            for t in tabs:
                nxt = []
                for r in rest:
                    for s2, b in split_on(r, c_le(add(sub(x, pos), const(1)))):
                        if b: work.append((s2, k + 1, pos, y, cur, lines))
                        else: nxt.append(s2)
                rest = nxt
                pos = add(pos, scale(cw, t))
            for r in rest: work.append((r, k + 1, x, y, cur, lines))
            continue
        n = len(w.text); width = scale(cw, n)
        for s1, fit in fits(s, W, x, base, width):
            if fit: work.append((s1, k + 1, add(x, width), y, cur + ((k, w.text, x, y),), lines)); continue
            for s2, small in split_on(s1, c_le(sub(width, W))):
                if small:
                    nx, ny = newline(s2, cur, y)
                    work.append((s2, k + 1, add(nx, width), ny, ((k, w.text, nx, ny),), lines + ((cur,) if cur else ()))); continue
                for s3, first in count(s2, W, x, base, cw, n):
                    for s4, per in chars_in(s3, W, cw, n):
                        parts = [w.text[:first]]; i = first
                        while i < n: parts.append(w.text[i:i + max(per, 1)]); i += max(per, 1)
                        cx, cy, cc, ll = x, y, cur, lines
                        for j, t in enumerate(parts):
                            cc = cc + ((k, t, cx, cy),)
                            if j < len(parts) - 1:
                                cx, cy = newline(s4, cc, cy); ll = ll + (cc,); cc = ()
                            else: cx = add(cx, scale(cw, len(t)))
                        work.append((s4, k + 1, cx, cy, cc, ll))
    return res
def fits(s, W, x, base, width):
    """the remaining width is max(0, W - max(0, x - base))"""
    out = []
    for s1, right in split_on(s, c_le(sub(base, x))):
        used = sub(x, base) if right else const(0)
        for s2, room in split_on(s1, c_le(sub(used, W))):
            out += split_on(s2, c_le(sub(width, sub(W, used)))) if room else split_on(s2, c_le(width))
    return out
def count(s, W, x, base, cw, n):
    """how many characters of width cw fit into the rest of the line (0..n-1)"""
    out = []
    for s1, right in split_on(s, c_le(sub(base, x))):
        used = sub(x, base) if right else const(0)
        for s2, room in split_on(s1, c_le(sub(used, W))):
            out += chars_in(s2, sub(W, used), cw, n) if room else [(s2, 0)]
    return out
def chars_in(s, W, cw, n):
    out = []
    for k in range(n):
        s2 = s.copy()
        if s2.assume(c_le(sub(scale(cw, k), W))) and s2.assume(c_le(add(sub(W, scale(cw, k + 1)), const(1)))): out.append((s2, k))
    return out

CASES = [(t, m, j) for t in [('ab',), ('a', '\n', 'b'), ('\n', '\n'), ('a', 'b'), ('ab cd',), ('a ', 'b', '\n', 'c')] for m in (0, 1) for j in ('Left', 'Center', 'Right')] + \
        [(t, 0, 'Left') for t in [('\t', 'a'), ('a', '\t', 'b'), ('a', '\t', '\t'), ('abcd',), ('a', 'bcd', '\n', 'e')]]
DEEP = [(('ab', 'cd', 'ef'), 0, 'Left'), (('a b c',), 0, 'Center'), (('abcde',), 1, 'Right'), (('ab ', '\n', 'cde', '\n'), 1, 'Left')]
@prop('C24', 'abstract interpretation of the text flush on words with symbolic character sizes, cursor, area and line spacing; every render_text call '
      '(words, positions, justification offset, line height, style) and the final cursor are compared with a reference line breaker',
      cases=30, lines=200, obligations=2000)
def check(c):
    c.assume.append('coordinates and area sizes at most 2^30 dots; character widths 1 to 96 dots; tab stops every 8 characters')
    c.par(CASES + (DEEP if c.tier == 'thorough' else []), lambda w, j: w.guard('%s %s %s' % (j[0], 'page' if j[1] else 'standard', j[2]), one, w, *j))
def span_ty(S): return S.I.ty(S.fty(S.renderer_ty(), 'span_buffer'))['targs'][0]
def one(c, texts, page, just):
    S = c.S; c.count('cases')
    label = '%s | %s mode | %s' % ('+'.join(texts).replace('\n', 'LF').replace('\t', 'HT'), 'page' if page else 'standard', just)
    st = S.cmd_set()[0].copy(); st.tag = ()
    ctx = S.setp(S.context(), 'page_mode.enabled', TRUE if page else FALSE)
    tabs = [8] * 4
    ctx = S.setp(ctx, 'text.tabs', SeqV([('e', const(t)) for t in tabs], S.u8()))
    for p in SMALL: st.assume(c_le(sub(S.get(st, ctx, *p.split('.')), const(1 << 30))))
    tid = span_ty(S); J = S.enum(CTX + 'TextJustify', just)
    spans, words = [], []
    for i, t in enumerate(texts):
        v = S.I.sym_value(tid, 'span%d' % i)
        v = S.I.expand(v) if isinstance(v, SymV) else v
        v = S.put(S.put(v, 'text', lit(t)), 'justify', J)
        cw, h = S.get(st, v, 'character_width'), S.get(st, v, 'character_height')
        st.assume(c_le(sub(cw, const(96)))); st.assume(c_le(sub(const(1), cw))); st.assume(c_le(sub(h, const(1 << 16))))
        spans.append(v)
        parts = []; cur = ''
        for ch in t:
            cur += ch
            if ch.isspace(): parts.append(cur); cur = ''
        if cur: parts.append(cur)
        for p in parts:
            w = Word(v, p); w.cw = cw; w.height = h; words.append(w)
    rv = S.renderer_val(ctx, {'span_buffer': SeqV([('e', v) for v in spans], tid)})
    rr = S.ref(st, rv)
    f = S.fn(S.flush_fns()[0])
    n = 0
    A = 'page_mode.render_area.' if page else 'graphics.render_area.'
    for s2, _ in S.call(f, [rr], st, 120):
        o = Outcome(S, s2, rv, S.I.load(s2, rr.base, ()))
        if st_imprecise(s2): c.ob(label, None, 'imprecise path'); continue
        sb = S.whnf(s2, o.field('span_buffer'))
        c.ob(label + ' | buffer emptied', True if isinstance(sb, SeqV) and sb.explicit() and not sb.items() else False if isinstance(sb, SeqV) and sb.explicit() else None, 'pending text left: %s' % show(sb), label)
        got = [(e[1], e[2]) for e in o.events if e[0] == 'out']
        for s3, lines, x, y in layout(S, s2, ctx, words, tabs):
            n += 1
            if infeasible(s3): continue
            compare_lines(c, S, s3, o, got, lines, words, J, just, A, label)
            for p, r, a in compare(S, o, s3, {A + 'x': x, A + 'y': y}):
                c.ob('%s | cursor %s' % (label, p.split('.')[-1] if p.startswith(A) else p), r, '%s becomes %s, expected %s' % (p, show(a), show(x if p.endswith('.x') else y)), label)
    c.ob(label + ' | completes', True if n else None, 'no outcome', label)
STYLE = ['font', 'character_width', 'character_height', 'base_character_width', 'base_character_height', 'bold', 'italic', 'underline', 'strikethrough', 'stretch_width',
         'stretch_height', 'inverted', 'upside_down', 'justify', 'background_color', 'text_color']
def compare_lines(c, S, st, o, got, lines, words, J, just, A, label):
    ok = [m for m, _ in got] == ['render_text'] * len(lines)
    if not ok:
        c.ob(label + ' | lines', False if decided_path(st) else None, '%d lines are rendered (%s), expected %d' % (len(got), [m for m, _ in got], len(lines)), label); return
    c.ob(label + ' | lines', True)
    for (m, vals), line in zip(got, lines):
        c.count('lines')
        q = S.whnf(st, vals[1])
        if not isinstance(q, SeqV) or not q.explicit(): c.ob(label + ' | words', None, 'spans %s' % show(q)); continue
        items = q.items()
        txt = [S.text(st, S.get(st, x, 'text')) for x in items]
        want = [t for _, t, _, _ in line]
        c.ob(label + ' | words', None if None in txt else txt == want or (False if decided_path(st) else None), 'a line holds %r, expected %r' % (txt, want), label)
        if txt != want: continue
        total, h = const(0), const(0)
        for v, (k, t, x, y) in zip(items, line):
            d = S.whnf(st, S.get(st, v, 'dimensions'))
            if not isinstance(d, Agg) or S.variant(st, d) != 'Some': c.ob(label + ' | position', False, 'word %r has no position: %s' % (t, show(d)), label); continue
            w = words[k]
            for nme, e in (('x', x), ('y', y), ('w', scale(w.cw, len(t))), ('h', w.height)):
                a = S.get(st, d.fs[0], nme)
                c.ob('%s | word %s' % (label, nme), eqv(S, st, a, e), 'word %r has %s %s, expected %s' % (t, nme, show(a), show(e)), label)
            for nme in STYLE:
                c.ob('%s | style %s' % (label, nme), eqv(S, st, S.get(st, v, nme), S.get(st, w.span, nme)), 'word %r is printed with %s %s' % (t, nme, show(S.get(st, v, nme))), label)
            total = add(total, scale(w.cw, len(t))); h = lmax(st, h, w.height)
        W = S.get(st, o.ctx0, *(A + 'w').split('.'))
        if just == 'Left': exp = [(st, const(0))]
        else:
            exp = []
            for s2, room in split_on(st, c_le(add(sub(total, W), const(1)))):
                exp.append((s2, const(0) if not room else sub(W, total) if just == 'Right' else S.op(s2, 'Div', sub(W, total), const(2))))
        for s2, e in exp:
            if consistent(s2, {}): c.ob(label + ' | justification', eqv(S, s2, vals[2], e), 'offset %s, expected %s' % (show(vals[2]), show(e)), label)
        c.ob(label + ' | line height', eqv(S, st, vals[3], h), 'height %s, expected %s' % (show(vals[3]), show(h)), label)
        c.ob(label + ' | line justification', eqv(S, st, vals[4], J), 'passes %s' % show(vals[4]), label)
def decided_path(st): return not st_imprecise(st) and model(st) is not None
