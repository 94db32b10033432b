"""no crash: every command, cut off anywhere, from the power-on state and after every setting"""
from fw import prop
from tables import *
from props.C01 import OPS, complete
from props.C03 import FIXED, VAR, hexs
from props import C10
import interp, re, time

CTX = TP + 'context::Context::new'
N = None                                     # an arbitrary byte
def text(*s): return [ord(x) for x in ''.join(s)]
HEAD = {(0x1D, 0x28, 0x4C): lambda n: [n & 255, n >> 8], (0x1D, 0x28, 0x6B): lambda n: [n & 255, n >> 8], (0x1D, 0x38, 0x4C): lambda n: [n & 255, n >> 8, 0, 0]}
GSL = (0, 1, 2, 3, 4, 48, 49, 50, 51, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113)

DATA = [('nothing', []), ('DLE', [0x10])] + [('%d %s' % (n, nm), (b * n)[:n]) for nm, b in (('digits', [0x31]), ('letters', [0x41]), ('stars', [0x2A]), ('bad UTF-8', [0xFF]), ('two byte characters', [0xC3, 0xA9]), ('braces', [0x7B])) for n in (1, 2, 7, 8, 11, 12, 13, 14, 30)] + \
       [('%s at the end of %d' % (nm, n), [0x31] * n + b) for nm, b in (('two byte character', [0xC3, 0xA9]), ('bad UTF-8', [0xE2, 0x82])) for n in (6, 7, 10, 11, 12)] + [('letter, digits, letter', text('A123B')), ('code B', text('{BNo.{C12')), ('code C odd', text('{C1')), ('code switch at the end', text('{BA{'))]
STORE = (67, 68, 83, 84); BUFFER = (112, 113)
# settings and states that later commands calculate with
SET = [('GS P', [0x1D, 0x50, N, N]), ('GS !', [0x1D, 0x21, N]), ('ESC !', [0x1B, 0x21, N]), ('ESC 3', [0x1B, 0x33, N]), ('ESC M', [0x1B, 0x4D, N]), ('ESC $', [0x1B, 0x24, N, N]), ('GS \\', [0x1D, 0x5C, N, N]),
       ('ESC a', [0x1B, 0x61, N]), ('ESC D', [0x1B, 0x44, N, N]), ('ESC -', [0x1B, 0x2D, N]), ('ESC t', [0x1B, 0x74, N]), ('ESC R', [0x1B, 0x52, N]), ('GS w', [0x1D, 0x77, N]), ('GS h', [0x1D, 0x68, N]),
       ('GS H', [0x1D, 0x48, N]), ('GS f', [0x1D, 0x66, N]), ('ESC {', [0x1B, 0x7B, N]), ('ESC L', [0x1B, 0x4C]), ('ESC L W', [0x1B, 0x4C, 0x1B, 0x57] + [N] * 8), ('ESC L T', [0x1B, 0x4C, 0x1B, 0x54, N]),
       ('ESC L GS $', [0x1B, 0x4C, 0x1D, 0x24, N, N]), ('ESC L W zero', [0x1B, 0x4C, 0x1B, 0x57] + [0] * 8), ('text', [0x41, 0x20, 0x62]), ('text HT', [0x41, 0x09]), ('ESC e', [0x1B, 0x65, N]), ('ESC J', [0x1B, 0x4A, N]),
       ('QR model', [0x1D, 0x28, 0x6B, 4, 0, 49, 65, N, N]), ('QR module', [0x1D, 0x28, 0x6B, 3, 0, 49, 67, N]), ('QR level', [0x1D, 0x28, 0x6B, 3, 0, 49, 69, N]), ('QR data', [0x1D, 0x28, 0x6B, 5, 0, 49, 80, 48, 0x41, 0x42]),
       ('PDF columns', [0x1D, 0x28, 0x6B, 3, 0, 48, 65, N]), ('PDF rows', [0x1D, 0x28, 0x6B, 3, 0, 48, 66, N]), ('PDF module', [0x1D, 0x28, 0x6B, 3, 0, 48, 67, N]), ('PDF height', [0x1D, 0x28, 0x6B, 3, 0, 48, 68, N]),
       ('PDF level', [0x1D, 0x28, 0x6B, 4, 0, 48, 69, N, N]), ('PDF data', [0x1D, 0x28, 0x6B, 5, 0, 48, 80, 48, 0x41, 0x42]), ('GS L buffer', [0x1D, 0x28, 0x4C, 11, 0, 48, 112, 48, 1, 1, 49, 1, 0, 1, 0, N]),
       ('GS L store', [0x1D, 0x28, 0x4C, 12, 0, 48, 67, 48, 65, 66, 1, 1, 0, 1, 0, 49, N]), ('GS ( N', [0x1D, 0x28, 0x4E, 2, 0, 48, N]), ('ESC W', [0x1B, 0x57] + [N] * 8)]
# what is done in that state
ACT = [('text LF', [0x41, 0x20, 0x62, 0x63, 0x0A]), ('HT', [0x41, 0x09, 0x42, 0x09, 0x0A]), ('CR', [0x41, 0x0D]), ('ESC J', [0x1B, 0x4A, N]), ('ESC d', [0x1B, 0x64, N]), ('ESC e', [0x1B, 0x65, N]), ('FF', [0x41, 0x0C]), ('ESC FF', [0x41, 0x1B, 0x0C]),
       ('GS V', [0x1D, 0x56, 65, N]), ('ESC $', [0x1B, 0x24, N, N, 0x41, 0x0A]), ('GS \\', [0x1D, 0x5C, N, N, 0x41, 0x0A]), ('GS $', [0x1D, 0x24, N, N, 0x41, 0x0A]), ('GS k', [0x1D, 0x6B, 4, 0x41, 0]), ('GS k B', [0x1D, 0x6B, 73, 3, 0x7B, 0x42, 0x41]),
       ('QR', [0x1D, 0x28, 0x6B, 3, 0, 49, 81, N]), ('PDF', [0x1D, 0x28, 0x6B, 3, 0, 48, 81, N]), ('ESC *', [0x1B, 0x2A, 33, 1, 0, 0xA5, 0x0F, 0]), ('GS v 0', [0x1D, 0x76, 0x30, N, 1, 0, 1, 0, 0xA5]),
       ('GS L print', [0x1D, 0x28, 0x4C, 2, 0, 48, 50]), ('GS L recall', [0x1D, 0x28, 0x4C, 6, 0, 48, 69, 65, 66, N, N]), ('ESC L', [0x1B, 0x4C, 0x41, 0x0C]), ('ESC W', [0x1B, 0x57] + [N] * 8 + [0x41, 0x0A]), ('ESC T', [0x1B, 0x54, N, 0x41, 0x0A]),
       ('ESC S', [0x41, 0x1B, 0x53, 0x42, 0x0A]), ('ESC @', [0x1B, 0x40, 0x41, 0x0A]), ('GS P', [0x1D, 0x50, N, N, 0x41, 0x0A]), ('ESC 2', [0x1B, 0x32, 0x0A]), ('ESC 3', [0x1B, 0x33, N, 0x0A]), ('GS !', [0x41, 0x1D, 0x21, N, 0x42, 0x0A])]

PLACES = [('at the start', []), ('near the edge', [0x1B, 0x24, 0xF4, 0x01]), ('off the paper', [0x1B, 0x24, 0xFF, 0xFF]), ('far left', [0x1D, 0x5C, 0x00, 0x80]), ('in a narrow page', [0x1B, 0x4C, 0x1B, 0x57, 0, 0, 0, 0, 5, 0, 5, 0]),
          ('in an empty page', [0x1B, 0x4C, 0x1B, 0x57] + [0] * 8), ('in a turned page', [0x1B, 0x4C, 0x1B, 0x57, 0, 0, 0, 0, 200, 0, 90, 0, 0x1B, 0x54, 1]), ('in a page behind the edge', [0x1B, 0x4C, 0x1D, 0x24, 0xFF, 0xFF, 0x1B, 0x24, 0xFF, 0xFF])]
TEXTS = [('word', text('ab') + [0x0A]), ('long word', text('W' * 70) + [0x0A]), ('words', text('one two three four five six seven eight nine ten') + [0x0A]), ('spaces', text(' ' * 80) + [0x0A]), ('tabs', text('a\tb\t\tc\td\te\tf\tg\th\ti') + [0x0A]),
         ('tab at the end', text('W' * 44 + '\t' + 'W' * 9) + [0x0A]), ('words and spaces', text('W' * 40 + '    ' + 'W' * 40 + ' ') + [0x0A]), ('several lines', text('ab\n\n\ncd\r\n') + [0x0A]), ('mixed sizes', text('ab') + [0x1D, 0x21, 0x70] + text('WWWWWWWW') + [0x1D, 0x21, 0] + text('cd ef') + [0x0A])]
def cases(tier):
    r = []
    def a(name, b): r.append((name, b))
    a('nothing', [])
    for op in OPS:
        h = hexs(op)
        n = FIXED.get(op)
        if n is not None:
            for k in range(n + 1): a('%s + %d' % (h, k), list(op) + [N] * k)
            continue
        if op == (0x1D, 0x6B):
            for m in list(range(7)) + list(range(65, 80)):
                for nm, d in DATA: a('%s %d %s' % (h, m, nm), list(op) + [m] + ([len(d)] if m >= 65 else []) + d + ([0] if m < 65 else []))
                a('%s %d cut' % (h, m), list(op) + [m] + ([5] if m >= 65 else []) + [0x41]); a('%s %d only' % (h, m), list(op) + [m])
            for k in range(2): a('%s + %d' % (h, k), list(op) + [N] * k)
        elif op == (0x1B, 0x2A):
            for m in (0, 1, 32, 33):
                for w in (0, 1, 2):
                    for k in range((3 if m > 1 else 1) * w + 1): a('%s %d %d + %d' % (h, m, w, k), list(op) + [m, w, 0] + [N] * k)
                for k in (0, 1, 2, 5): a('%s %d large + %d' % (h, m, k), list(op) + [m, N, N] + [0x41] * k)
            for k in range(4): a('%s + %d' % (h, k), list(op) + [N] * k)
        elif op == (0x1D, 0x76, 0x30):
            for w in (0, 1, 2):
                for q in (0, 1, 2):
                    for k in {0, 1, w * q} if w * q else (0,): a('%s %dx%d + %d' % (h, w, q, k), list(op) + [N, w, 0, q, 0] + [N] * k)
            for k in range(6): a('%s + %d' % (h, k), list(op) + [N] * k)
            for m in range(4):
                for k in range(2): a('%s %d any size + %d' % (h, m, k), list(op) + [m, N, N, N, N] + [0x41] * k)
        elif op in HEAD:
            n = len(HEAD[op](0))
            for k in range(n + 1): a('%s + %d' % (h, k), list(op) + [N] * k)
            for k in range(4): a('%s any %d' % (h, k), list(op) + HEAD[op](k) + [N] * k)
            if op[1:] == (0x28, 0x6B):
                for cn in range(48, 55):
                    for fn in list(range(65, 74)) + [80, 81, 82]:
                        for k in range(2, 6): a('%s cn %d fn %d + %d' % (h, cn, fn, k), list(op) + HEAD[op](k) + [cn, fn] + [N] * (k - 2))
                    for k in (3, 4, 6): a('%s cn %d store %d print' % (h, cn, k), list(op) + HEAD[op](k) + [cn, 80, 48] + [0x41] * (k - 3) + list(op) + HEAD[op](3) + [cn, 81, N])
            else:
                for fn in GSL:
                    for k in range(2, 10 if fn in STORE + BUFFER else 9): a('%s fn %d + %d' % (h, fn, k), list(op) + HEAD[op](k) + [48, fn] + [N] * (k - 2))
                    a('%s fn %d cut' % (h, fn), list(op) + HEAD[op](9) + [48, fn, N])
                for fn in STORE + BUFFER:
                    for tone in (48, 52):
                        for w, q in ((0, 0), (0, 1), (1, 0), (1, 1), (9, 2), (2, 9), (300, 1), (1, 300), (65535, 65535)):
                            for b in (0, 1, 2):
                                for k in (0, 1, 2, 3, 4):
                                    sz = [w & 255, w >> 8, q & 255, q >> 8]
                                    p = [48, fn, tone, 65, 66, b] + sz + ([49, 0xA5, 0x0F, 50, 0x3C][:k]) if fn in STORE else [48, fn, tone, b, b, 49] + sz + [0xA5, 0x0F, 0x3C, 1][:k]
                                    a('%s fn %d tone %d %dx%d b %d + %d' % (h, fn, tone, w, q, b, k), list(op) + HEAD[op](len(p)) + p + list(op) + (HEAD[op](2) + [48, 50] if fn in BUFFER else HEAD[op](6) + [48, 69 if fn < 80 else 85, 65, 66, 1, 1]))
        else:
            for k in range({(0x1D, 0x28, 0x4E): 3, (0x1D, 0x56): 2}.get(op, 5)): a('%s + %d' % (h, k), list(op) + [N] * k)
    for cp in [0, 1, 2, 3, 4, 5, 16, 17, 18, 19, 255]: a('code page %d' % cp, [0x1B, 0x74, cp] + list(range(0x20, 256)) + [0x0A])
    for cp in range(18): a('character set %d' % cp, [0x1B, 0x52, cp] + list(range(0x20, 256)) + [0x0A])
    for j in (0, 1, 2):
        for sz in (0, 0x77, 0x11):
            for pn, pl in PLACES:
                for tn, t in TEXTS: a('justify %d size %02X %s %s' % (j, sz, pn, tn), [0x1B, 0x61, j, 0x1D, 0x21, sz] + pl + t)
    for n1, b1 in SET:
        for n2, b2 in ACT: a('%s then %s' % (n1, n2), b1 + b2)
    return r

@prop('C04', 'abstract interpretation of the whole path from the bytes to the output calls, from the power-on state, with arbitrary operand bytes; every index, '
      'arithmetic operation, unwrap, division and panic met on the way is an obligation', cases=500, paths=800, obligations=500)
def check(c):
    interp.MAXLEN = 1 << 20
    c.assume.append('what the barcode and QR code encoders return has at most 2^20 elements')
    end = time.time() + (600 if c.tier == 'quick' else 3000)
    c.par([x + (end,) for x in long_cases()] + [x + (end,) for x in cases(c.tier)], lambda w, j: w.guard(j[0], one, w, *j))
def long_cases():
    """commands whose data has any length the format allows: the bytes up to the first data byte, then one run of unknown bytes"""
    r = []
    for cn in range(48, 55):
        pre = [0x1D, 0x28, 0x6B, 4, 0, cn, 80, 48, 0x41]
        r.append(('store %d, data of any length' % cn, pre, (1, 65532, None)))
        if cn == 49:
            for m in (49, 50, 51): r.append(('QR model %d, data of any length' % m, [0x1D, 0x28, 0x6B, 4, 0, 49, 65, m, 0] + pre, (1, 65532, None)))
    for m in range(7): r.append(('barcode %d, data of any length' % m, [0x1D, 0x6B, m, 0x41, 0], (1, 1 << 20, None)))
    for m in range(65, 80): r.append(('barcode %d, data of any length' % m, [0x1D, 0x6B, m, 1, 0x41], (1, 254, None)))
    r.append(('unknown function with data of any length', [0x1D, 0x28, 0x6B, 4, 0, 99, 99, 48, 0x41], (0, 65532, None)))
    return r
def fresh(c):
    S = c.S
    if not hasattr(S, 'c04'):
        outs = S.call(S.fn(CTX), [], S.cmd_set()[0].copy())
        if len(outs) != 1: raise Undecided('power-on state')
        S.c04 = outs[0]
    return S.c04
def lengthen(S, st, cmds, big):
    """the bytes after the first big[0] of the last command's data become a run of up to big[1] unknown bytes"""
    keep, top, at = big
    for c in reversed(cmds[1:-1]):
        d = S.whnf(st, S.get(st, c.val, 'data'))
        if isinstance(d, SeqV) and d.explicit() and len(d.items()) > keep - 1 and d.items():
            n = lin(sym('d900.len', 0, top))
            c.val = S.put(c.val, 'data', SeqV(tuple(('e', n if i == at else x) for i, x in enumerate(d.items()[:keep])) + (('s', 'd900', const(0), n),), S.u8()))
            return True
    return False
def empties(S, rt):
    r = {}
    for n in S.fields(rt):
        t = S.I.ty(S.fty(rt, n))
        if t['k'] == 'adt' and t['path'].endswith('vec::Vec'): r[n] = SeqV((), t['targs'][0])
    return r
def one(c, name, how, big=None, end=1e12):
    if not isinstance(big, tuple): big, end = None, big or end
    if time.time() > end: raise Undecided('time budget')
    S = c.S; I = S.I; c.count('cases')
    st, ctx = fresh(c)
    C10.hooks(S)
    s = S.sym_bytes(sum(1 for x in how if x is N)); it = iter(s); st = st.copy()
    bs = [next(it) if x is N else x for x in how]
    I.crashes = []
    over = empties(S, S.renderer_ty())
    n = 0
    I.merging = True; I.max_unroll = 3000; S.limit = time.time() + 12
    try:
        for s1, cmds in S.parse(bs, st, 30):
            if big and not lengthen(S, s1, cmds, big): raise Undecided('the command with the data')
            for o in S.run_seq(cmds, s1, ctx, 30, over): n += 1
    finally:
        I.merging = False; I.max_unroll = 300; S.limit = None
        c.count('paths', n)
        sites = crash_sites(I, 4, lambda a: re.fullmatch(r'd[0-9]+(\.len|\[.*)?|R\.debug_profile\..*', str(a.name))); I.crashes = None
        for (f, kind, desc), bad in sites.items():
            c.ob('%s in %s: %s' % (kind, f, desc), False if bad else None, '%s: %s %s can fail' % (name, kind, desc), f)
    c.ob(name, bool(n) or None, 'no path reaches the end')
