from fw import prop
from tables import *
D = 'text.decoder.'
HI = {
  1: '\u2581\u2582\u2583\u2584\u2585\u2586\u2587\u2588\u258f\u258e\u258d\u258c\u258b\u258a\u2589\u253c\u2534\u252c\u2524\u251c?\u2500\u2502\u2595\u250c\u2510\u2514\u2518\u256d\u256e\u2570\u256f?' +
     ''.join(chr(0xFF61 + i) for i in range(63)) + '\u2550\u255e\u256a\u2561\u25e2\u25e3\u25e5\u25e4\u2660\u2665\u2666\u2663\u25cf\u25cb\u2571\u2572\u2573\u5186\u5e74\u6708\u65e5\u6642\u5206\u79d2\u3012\u5e02\u533a\u753a\u6751\u4eba\u2593?',
  11: '\xc7\xfc\xe9\xe2\xe4\xe0\u0386\xe7\xea\xeb\xe8\xef\xee\u0388\xc4\u0389\u038a?\u038c\xf4\xf6\u038e\xfb\xf9\u038f\xd6\xdc\u03ac\xa3\u03ad\u03ae\u03af\u03ca\u0390\u03cc\u03cd\u0391\u0392\u0393\u0394\u0395\u0396\u0397\xbd\u0398\u0399\xab\xbb'
      '\u2591\u2592\u2593\u2502\u2524\u039a\u039b\u039c\u039d\u2563\u2551\u2557\u255d\u039e\u039f\u2510\u2514\u2534\u252c\u251c\u2500\u253c\u03a0\u03a1\u255a\u2554\u2569\u2566\u2560\u2550\u256c\u03a3\u03a4\u03a5\u03a6\u03a7\u03a8\u03a9\u03b1\u03b2\u03b3\u2518\u250c\u2588\u2584\u03b4\u03b5\u2580'
      '\u03b6\u03b7\u03b8\u03b9\u03ba\u03bb\u03bc\u03bd\u03be\u03bf\u03c0\u03c1\u03c3\u03c2\u03c4\xb4?\xb1\u03c5\u03c6\u03c7\xa7\u03c8?\xb0\xa8\u03c9\u03cb\u03b0\u03ce\u25a0?',
  12: '\xc7\xfc\xe9\xe2\xe4\xe0\u0109\xe7\xea\xeb\xe8\xef\xee\xec\xc4\u0108\xc9\u010b\u010a\xf4\xf6\xf2\xfb\xf9\u0130\xd6\xdc\u011d\xa3\u011c\xd7\u0135\xe1\xed\xf3\xfa\xf1\xd1\u011e\u011f\u0124\u0125?\xbd\u0134\u015f\xab\xbb\u2591\u2592\u2593\u2502\u2524\xc1\xc2\xc0\u015e\u2563\u2551\u2557\u255d\u017b\u017c\u2510'
      '\u2514\u2534\u252c\u251c\u2500\u253c\u015c\u015d\u255a\u2554\u2569\u2566\u2560\u2550\u256c\xa4??\xca\xcb\xc8\u0131\xcd\xce\xcf\u2518\u250c\u2588\u2584?\xcc\u2580\xd3\xdf\xd4\xd2\u0120\u0121\xb5\u0126\u0127\xda\xdb\xd9\u016c\u016d\xb7\xb4??\u2113\u0149\u02d8\xa7\xf7\xb8\xb0\xa8\u02d9?\xb3\xb2\u25a0?'}
PY = {0: 'cp437', 2: 'cp850', 3: 'cp860', 4: 'cp863', 5: 'cp865', 13: 'cp857'}
OPEN = {2: (0xF0,), 13: (0xD5, 0xE7, 0xF2)}          # soft hyphen shown as a hyphen, positions without a character
POS = [0x23, 0x24, 0x40, 0x5B, 0x5C, 0x5D, 0x5E, 0x60, 0x7B, 0x7C, 0x7D, 0x7E]
INTL = {1: '#$\u00e0\u00b0\u00e7\u00a7^`\u00e9\u00f9\u00e8\u00a8', 2: '#$\u00a7\u00c4\u00d6\u00dc^`\u00e4\u00f6\u00fc\u00df', 3: '\u00a3$@[\\]^`{|}~', 4: '#$@\u00c6\u00d8\u00c5^`\u00e6\u00f8\u00e5~',
  5: '#\u00a4\u00c9\u00c4\u00d6\u00c5\u00dc\u00e9\u00e4\u00f6\u00e5\u00fc', 6: '#$@\u00b0\\\u00e9^\u00f9\u00e0\u00f2\u00e8\u00ec', 7: '\u20a7$@\u00a1\u00d1\u00bf^`\u00a8\u00f1}~', 8: '#$@[\u00a5]^`{|}~',
  9: '#\u00a4\u00c9\u00c6\u00d8\u00c5\u00dc\u00e9\u00e6\u00f8\u00e5\u00fc', 10: '#$\u00c9\u00c6\u00d8\u00c5\u00dc\u00e9\u00e6\u00f8\u00e5\u00fc', 11: '#$\u00e1\u00a1\u00d1\u00bf\u00e9`\u00ed\u00f1\u00f3\u00fa',
  12: '#$\u00e1\u00a1\u00d1\u00bf\u00e9\u00fc\u00ed\u00f1\u00f3\u00fa', 13: '#$@[\u20a9]^`{|}~', 14: '#$\u017d\u0160\u0110\u0106\u010c\u017e\u0161\u0111\u0107\u010d', 15: '#\u00a5@[\\]^`{|}~'}
DIGITS = {66: 0x966, 67: 0x9E6, 68: 0xBE6, 69: 0xC66, 70: 0x9E6, 71: 0xB66, 72: 0xCE6, 73: 0xD66, 74: 0xAE6, 75: 0xA66, 82: 0x966}
def table(n, m):
    """256 expected characters, None where the definition leaves the position open"""
    t = [chr(b) for b in range(128)]
    if n in HI: t += [None if c == '?' else c for c in HI[n]]
    else: t += [None if b in OPEN.get(n, ()) else bytes([b]).decode(PY.get(n, 'cp437'), 'replace') for b in range(128, 256)]
    if n not in HI and n not in PY: t[128:] = [bytes([b]).decode('cp437') for b in range(128, 256)]
    if m in INTL:
        for p, c in zip(POS, INTL[m]): t[p] = c
    if m in DIGITS:
        for i in range(10): t[0x30 + i] = chr(DIGITS[m] + i)
    if m in (16, 17):
        for p in [0x23, 0x24, 0x2A] + POS: t[p] = None
    return t
for _n in HI: assert len(HI[_n]) == 128, (_n, len(HI[_n]))

@prop('C16', 'abstract interpretation of parser and command routine for ESC t and ESC R from every prior code table and character set, and of text bytes: '
      'the decoder left in the Context must hold the reference table of (code table, character set), and a text run must become the characters its bytes select in it',
      selections=2, pairs=500, texts=40, obligations=600)
def check(c):
    c.S.with_flush_hooks()
    for op, label in ((0x74, 'ESC t'), (0x52, 'ESC R')): c.guard(label, select, c, op, label)
    intro = {o[0] for o in c.S.by_ops() if o} | {0x10, 0x1B, 0x1C, 0x1D}
    jobs = [(n, 0) for n in (0, 1, 2, 3, 4, 5, 11, 12, 13, 6, 99)] + [(0, m) for m in sorted(INTL) + sorted(DIGITS) + [16, 17, 40]] + [(2, 2), (1, 8)]
    c.par(jobs, lambda w, j: w.guard('text %d/%d' % j, text, w, j, intro))
    c.guard('order', order, c)
    c.guard('utf8', utf8, c)
def select(c, op, label):
    S = c.S
    c.count('selections')
    b = S.sym_bytes(1)
    outs = S.stream([0x1B, op] + b)
    seen = set()
    for o in outs:
        st = o.st
        old = S.get(st, o.ctx0, 'text', 'character_set' if op == 0x74 else 'code_table')
        q = S.whnf(st, S.get(st, o.ctx1, *(D + 'table').split('.')))
        if not isinstance(q, SeqV) or not q.explicit():
            c.ob(label + ' | decoder', None, 'table not explicit: %s' % show(q)); continue
        tab = [S.text(st, x) for x in q.items()]
        u = S.whnf(st, S.get(st, o.ctx1, *(D + 'use_utf8_table').split('.')))
        uc = u.a if isinstance(u, Cond) and u.k == 'const' else None
        memo = {}
        for v in cand(st, b[0].atoms()[0])[0]:
            s1 = bind(st, [(b[0], v)])
            if s1 is None: continue
            for w in cand(s1, old.atoms()[0])[0] if not old.is_const() else [old.c]:
                n, m = (v, w) if op == 0x74 else (w, v)
                seen.add((v, w))
                cn = (n if n in PY or n in HI or n == 255 else -1, m if m in INTL or m in DIGITS or m in (16, 17) else -1)
                if cn in memo and uc is not None and uc == (n == 255): continue
                exp = table(n, m)
                k = '%s | code table %s set %s' % (label, n if n in PY or n in HI or n == 255 else 'other', m if m in INTL or m in DIGITS or m in (16, 17) else 'other')
                bad = [i for i in range(256) if exp[i] is not None and (i >= len(tab) or tab[i] is None or tab[i] != exp[i])] if n != 255 else []
                memo[cn] = 1
                c.ob(k, not bad if not any(i < len(tab) and tab[i] is None for i in bad) else None,
                     'byte %s decodes to %r, expected %r' % ('%02X' % bad[0] if bad else '', tab[bad[0]] if bad and bad[0] < len(tab) else None, exp[bad[0]] if bad else None), label)
                s2 = bind(s1, [(old, w)])
                if s2 is not None: c.ob(label + ' | UTF-8 switch', eqv(S, s2, u, TRUE if n == 255 else FALSE), 'code table %d: use_utf8 is %s' % (n, show(u)), label)
        for p, r, a in compare(S, o, st, {'text.code_table' if op == 0x74 else 'text.character_set': b[0], 'text.decoder': None}):
            c.ob('%s | %s' % (label, p), r, '%s becomes %s' % (p, show(a)), label)
    c.count('pairs', len(seen))
    c.ob(label + ' | all pairs', len(seen) == 65536 or None, '%d (code table, character set) pairs' % len(seen), label)
def spans(S, o):
    q = S.whnf(o.st, o.field('span_buffer'))
    return q.items() if isinstance(q, SeqV) and q.explicit() else None
def text(c, j, intro):
    S = c.S; n, m = j
    exp = table(n, m)
    bs = [b for b in range(256) if b not in intro and exp[b] is not None]
    want = ''.join(exp[b] for b in bs)
    label = 'text in code table %d, character set %d' % (n, m)
    outs = S.stream([0x1B, 0x52, m, 0x1B, 0x74, n] + bs, over={'span_buffer': SeqV((), span_ty(S))}, secs=120)
    if not outs: c.ob(label, False, 'never completes normally', label)
    for o in outs:
        q = spans(S, o)
        t = S.text(o.st, S.get(o.st, q[0], 'text')) if q and len(q) == 1 else None
        c.count('texts')
        i = next((i for i, (a, b) in enumerate(zip(t, want)) if a != b), min(len(t), len(want))) if t is not None else 0
        c.ob(label, None if t is None else t == want, 'text run reads %r..., expected %r...' % (t and t[i:i + 6], want[i:i + 6]), label)
def span_ty(S):
    return S.I.ty(S.fty(S.renderer_ty(), 'span_buffer'))['targs'][0]
def order(c):
    """with an arbitrary decoder table: each byte becomes its own table entry, in order, nothing else added"""
    S = c.S
    b = S.sym_bytes(3)
    st = S.cmd_set()[0].copy()
    for x in b: st.assume(c_le(sub(const(0x20), x)))
    ctx = S.setp(S.context(), D + 'use_utf8_table', FALSE)
    for o in S.stream(b, ctx, {'span_buffer': SeqV((), span_ty(S))}, st):
        q = spans(S, o)
        t = S.whnf(o.st, S.get(o.st, q[0], 'text')) if q and len(q) == 1 else None
        tq = S.get(o.st, o.ctx0, *(D + 'table').split('.'))
        want = tuple(('sym', 'ctx.text.decoder.table[d%d]*' % i) for i in range(3))
        c.ob('text run | every byte through the table in order', True if isinstance(t, OpV) and t.args == want else None, 'text is %s' % show(t), 'text')
        for p, r, a in compare(S, o, o.st, {}): c.ob('text run | %s' % p, r, 'text changes %s' % p, 'text')
def utf8(c):
    """in UTF-8 mode the run is decoded from exactly its own bytes"""
    S = c.S
    b = S.sym_bytes(3)
    st = S.cmd_set()[0].copy()
    for x in b: st.assume(c_le(sub(const(0x20), x)))
    ctx = S.setp(S.context(), D + 'use_utf8_table', TRUE)
    for o in S.stream(b, ctx, {'span_buffer': SeqV((), span_ty(S))}, st):
        q = spans(S, o)
        t = S.whnf(o.st, S.get(o.st, q[0], 'text')) if q and len(q) == 1 else None
        ok = isinstance(t, OpV) and len(t.args) == 1 and 'cow' in repr(t.args[0]) and all(repr(x) in repr(t.args[0]) for x in b)
        c.ob('text run | UTF-8', True if ok else (False if isinstance(t, OpV) and 'table' in repr(t) else None), 'text is %s' % show(t), 'text')
