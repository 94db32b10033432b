"""thermal text: what a file spells, and files written for commands read back as their bytes"""
from fw import prop
from tables import *
from props.C01 import streams, hexs, run_stream, spell
from props.C02 import LONG, spelled
import models as MD, sem, itertools

TF = TP + 'thermal_file::'
CONSTS = dict(NUL=0, ESC=0x1B, HT=9, LF=10, FF=12, CR=13, GS=0x1D, FS=0x1C, DLE=0x10, CAN=0x18)

# ------------------------------------------------------------------ numbers written out
def digits(st, x, n):
    """the n characters of the decimal form of x, and the state in which x has n digits"""
    lo, hi = (0, 10, 100)[n - 1], (9, 99, 255)[n - 1]
    s = st.copy()
    if not s.assume(c_and(c_le(sub(const(lo), x)), c_le(sub(x, const(hi))))): return None
    cs = []
    for i in range(n):
        top = 50 if n == 3 else 57
        c = lin(atom(('dec', x, n, i), 49 if i == 0 and n > 1 else 48, top if i == 0 else 57, 'dec', (), name='digit %d/%d of %r' % (i, n, x)))
        MD.NUM[c] = (10, x, n, i); cs.append(c)
    return s, cs
def hexdigits(x, kind):
    cs = []
    for i in range(2):
        c = lin(atom(('hex', kind, x, i), 48, 70 if kind == 'upper_hex' else 102, 'hex', (), name='hex digit %d of %r' % (i, x)))
        MD.NUM[c] = (16, x, 2, i); cs.append(c)
    return cs
def spelled_chars(st, v, window):
    """[(state, characters)] of a written string; decimal numbers outside the window are taken to have three digits"""
    work = [(st, [])]; k = 0
    for p in v.args:
        if p[0] == 'lit': work = [(s, cs + [const(ord(c)) for c in p[1]]) for s, cs in work]
        elif p[0] == 'chr': work = [(s, cs + [p[1]]) for s, cs in work]
        elif p[0] == 'display' and isinstance(p[1], Lin) and len(p) == 2:
            nx = []
            for n in (1, 2, 3) if window[0] <= k < window[1] else (3,):
                for s, cs in work:
                    r = digits(s, p[1], n)
                    if r: nx.append((r[0], cs + r[1]))
            work = nx; k += 1
        elif p[0] in ('upper_hex', 'lower_hex') and isinstance(p[1], Lin) and len(p) == 4 and p[2] >> 24 & 1 and p[3] == 2:
            work = [(s, cs + hexdigits(p[1], p[0])) for s, cs in work]
        else: raise Undecided('written text %r' % (p[:3] + (hex(p[2]),) + p[3:] if len(p) > 2 else p,))
    return work
def numbers(v): return sum(1 for p in v.args if p[0] == 'display')

# ------------------------------------------------------------------ writing and reading back
def roundtrip(c, label, bs):
    """bs: byte terms; every outcome of parsing them is written as a file and read again"""
    S = c.S; I = S.I; I.utf8_chars = True
    def f(st, bt, m, toks, cmds):
        c.guard('%s %s' % (label, spell(m)), back, c, label, st, cmds, m)
    run_stream(c, bs, f)
def back(c, label, st, cmds, m):
    S = c.S; I = S.I
    ct = S.adt(TP + 'command::Command')
    I.crashes = []
    sts = [(st.copy(), [])]
    for x in cmds: sts = [(s2, acc + it) for s, acc in sts for s2, it in spelled(S, s, x)]
    for s0, bt in sts:
      ref = S.ref(s0, SeqV([('e', x.val) for x in cmds], ct))
      for s1, t in S.call(TF + 'cmds_to_thermal', [ref], s0):
        v = MD.sval(I, s1, t); n = numbers(v)
        if any(p[0] == 'lossy' for p in v.args):
            c.ob('written and read back | %s' % label, False, '%s: text bytes that are not UTF-8 are replaced in the written file' % spell(m), 'cmds_to_thermal'); continue
        for w in ([(0, n)] if n <= 3 else [(i, i + 2) for i in range(n - 1)]):
            for s2, cs in spelled_chars(s1, v, w):
                r = S.ref(s2, MD.of_chars(cs))
                for s3, out in S.call(TF + 'parse_str', [r], s2.copy()):
                    q = S.whnf(s3, out)
                    if not isinstance(q, SeqV) or not q.explicit(): raise Undecided('bytes of the file')
                    q = q.items()
                    res = False if len(q) != len(bt) else conj(eqv(S, s3, a, b) for a, b in zip(q, bt))
                    c.ob('written and read back | %s' % label, res, '%s is written as %s which reads as %s' % (spell(m), text(cs), show(q, 100)), 'cmds_to_thermal / parse_str')
    sem.crash_obs(c, 'written and read back | no crash | %s' % label, spell(m), 8)
def text(cs): return repr(''.join(chr(x.c) if x.is_const() else '?' for x in cs))[:160]

# ------------------------------------------------------------------ reference reader
def white(c): return c_or(*[c_eq(sub(c, const(w))) for w in (9, 10, 12, 13, 32)])
def is_(c, t): return c_eq(sub(c, const(ord(t)))) if isinstance(t, str) else c_eq(sub(c, t))
def word_is(cs, w): return c_and(*[is_(c, t) for c, t in zip(cs, w)]) if len(cs) == len(w) else FALSE
def between(c, l, h): return c_and(c_le(sub(const(ord(l)), c)), c_le(sub(c, const(ord(h)))))
def number(st, cs, base):
    """[(state, value term or None)]"""
    work = [(st, const(0))]; out = []
    for c in cs:
        nx = []
        for s, acc in work:
            rest = s
            for l, h, z in (('0', '9', 48),) + ((('A', 'F', 55), ('a', 'f', 87)) if base == 16 else ()):
                y = None
                for s2, b in MD.split(rest, between(c, l, h)):
                    if b: nx.append((s2, add(scale(acc, base), sub(c, const(z)))))
                    else: y = s2
                rest = y
                if rest is None: break
            if rest is not None: out.append((rest, None))
        work = nx
    return out + work
def word(st, cs):
    """the bytes a word stands for -> [(state, bytes or None when left open)]"""
    for n, b in CONSTS.items():
        r = MD.split(st, word_is(cs, n)); hit = [s for s, x in r if x]; st = ([s for s, x in r if not x] or [None])[0]
        if hit and st is None: return [(hit[0], [const(b)])]
        if hit: return [(hit[0], [const(b)])] + word(st, cs)
    out = []
    own = [b for c in cs for b in MD.cbytes(st, c)]
    if len(cs) >= 2:
        r = MD.split(st, c_and(is_(cs[0], '0'), is_(cs[1], 'x'))); hit = [s for s, x in r if x]; st = ([s for s, x in r if not x] or [None])[0]
        if hit: out += [(s, [v] if v is not None and 1 <= len(cs) - 2 <= 2 else None) for s, v in number(hit[0], cs[2:], 16)]
        if st is None: return out
        r = MD.split(st, is_(cs[0], '+')); hit = [s for s, x in r if x]; st = ([s for s, x in r if not x] or [None])[0]
        out += [(s, None) for s in hit]
        if st is None: return out
    for s, v in number(st, cs, 10):
        if v is None: out.append((s, own)); continue
        for s2, b in MD.split(s, c_le(sub(v, const(255)))): out.append((s2, [v] if b else own))
    return out
def line(st, cs):
    """[(state, bytes or None)] of one line"""
    if len(cs) >= 3:
        r = MD.split(st, word_is(cs[:3], "'//")); out = [(s, []) for s, x in r if x]; rest = [s for s, x in r if not x]
    else: out = []; rest = [st]
    for s in rest:
        for s2, b in MD.split(s, c_and(*[MD.is_ws(c) for c in cs]) if cs else TRUE):
            if not b: out += scan(s2, cs, 0, [], None)
            else: out += [(s3, [] if w else None) for s3, w in MD.split(s2, c_and(*[white(c) for c in cs]) if cs else TRUE)]      # other kinds of white space: left open
    return out
def scan(st, cs, i, acc, w):
    """w: start of the word being read"""
    def end(s, nxt):                   # close the word, then continue with nxt(state, bytes)
        if w is None: return nxt(s, acc)
        out = []
        for s2, b in word(s, cs[w:i]): out += nxt(s2, None if acc is None or b is None else acc + b)
        return out
    if i == len(cs): return end(st, lambda s, a: [(s, a)])
    out = []; c = cs[i]; ws = quo = oth = None
    for s, b in MD.split(st, white(c)):
        if b: ws = s
        else:
            for s2, b2 in MD.split(s, is_(c, '"')):
                if b2: quo = s2
                else: oth = s2
    if ws is not None: out += end(ws, lambda s, a: scan(s, cs, i + 1, a, None))
    if quo is not None: out += end(quo, lambda s, a: quoted(s, cs, i + 1, a))
    if oth is not None: out += scan(oth, cs, i + 1, acc, i if w is None else w)
    return out
def quoted(st, cs, i, acc):
    if acc is None or i == len(cs): return [(st, None)]       # no closing quote: left open
    out = []; c = cs[i]; rest = st
    r = dict((b, s) for s, b in MD.split(rest, is_(c, '"')))
    if True in r: out += scan(r[True], cs, i + 1, acc, None)
    if False not in r: return out
    r = dict((b, s) for s, b in MD.split(r[False], is_(c, '\\')))
    if True in r:
        if i + 1 == len(cs): out.append((r[True], None))
        else:
            d = cs[i + 1]
            for s, b in MD.split(r[True], c_or(is_(d, '\\'), is_(d, '"'))):
                out += quoted(s, cs, i + 2, acc + [d]) if b else quoted(s, cs, i + 1, acc + [const(92)])
    if False in r: out += quoted(r[False], cs, i + 1, acc + MD.cbytes(st, c))
    return out
def reference(st, cs):
    """[(state, bytes or None)] of a file; the line structure of the given characters is fixed"""
    work = [(st, [], [])]            # state, bytes so far, current line
    def close(s, acc, cur):
        return [(s2, None if acc is None or b is None else acc + b) for s2, b in line(s, cur)]
    for c in cs:
        nx = []
        for s, acc, cur in work:
            for s2, b in MD.split(s, is_(c, '\n')):
                if b: nx += [(s3, a, []) for s3, a in close(s2, acc, cur)]
                else: nx.append((s2, acc, cur + [c]))
        work = nx
    return [r for s, acc, cur in work for r in close(s, acc, cur)]

A, U2, U3, U4 = object(), object(), object(), object()
def templates(tier):
    T = lambda *p: [x for q in p for x in (list(q) if isinstance(q, str) else [q])]
    yield 'any characters', T(A, A, A)
    if tier == 'thorough': yield 'any characters', T(A, A, A, A); yield 'quoted', T('"', A, A, A, A, '"')
    yield 'quoted', T('"', A, A, A, '"'); yield 'quoted', T('"', A, A, A, A); yield 'quoted', T('"\\\\', A, A, '"'); yield 'quoted', T('"\\', A, '\\', A, '"'); yield 'quoted', T('"a" "', A, '" 5')
    yield 'hex', T('0x', A, A); yield 'hex', T('0x', A); yield 'hex', T('0x', A, A, A); yield 'hex', T('0x4', A, ' 0x', A, '5')
    yield 'decimal', T(A, A); yield 'decimal', T('1', A, A); yield 'decimal', T('2', A, A); yield 'decimal', T('25', A); yield 'decimal', T('255 ', A, ' 256 1000'); yield 'decimal', T('0 00 007 ', A)
    for n in CONSTS:
        yield 'constant', T(n); yield 'constant', T(A, n); yield 'constant', T(n, A); yield 'constant', T(n, ' ', A, ' ', n)
        for i in range(len(n)): yield 'constant', T(n[:i], A, n[i + 1:])
    yield 'comment', T("'//", A, A); yield 'comment', T(A, "'// x"); yield 'comment', T("'", A, "/ESC"); yield 'comment', T("'/", A, 'ESC'); yield 'comment', T(A, '//ESC'); yield 'comment', T("'// x ", A, '\nESC'); yield 'comment', T("ESC '// ", A)
    yield 'next to quotes', T('ab"', A, '"cd'); yield 'next to quotes', T('ESC"@"', A, '1'); yield 'next to quotes', T('"', A, '""', A, '"'); yield 'next to quotes', T('7"a"8"b"', A)
    yield 'lines', T('ESC\n', A, '\nGS'); yield 'lines', T('"a"\r\n', A); yield 'lines', T(A, '\n\n', A); yield 'lines', T('"a', A, '\nESC "@"\n'); yield 'lines', T('\n\n5\n ', A, '\n')
    for n, U in (('2', U2), ('3', U3), ('4', U4)):
        yield 'characters of %s bytes' % n, T('"', U, '"'); yield 'characters of %s bytes' % n, T('a', U, ' 5'); yield 'characters of %s bytes' % n, T('"x', U, '" ', A); yield 'characters of %s bytes' % n, T('"', U, '\\"', U, '"')
        yield 'characters of %s bytes' % n, T(U, '"', A, '"'); yield 'characters of %s bytes' % n, T("'// ", U, '\n', A)
BYTES = {id(U2): ((0xC3, 0xDF), (0x80, 0xBF)), id(U3): ((0xE4, 0xEC), (0x80, 0xBF), (0x80, 0xBF)), id(U4): ((0xF1, 0xF3), (0x80, 0xBF), (0x80, 0xBF), (0x80, 0xBF))}
def reader(c, label, tpl):
    S = c.S; I = S.I; I.utf8_chars = True
    st = S.registry()[0].copy(); cs = []; I.crashes = []
    for i, t in enumerate(tpl):
        if isinstance(t, str): cs.append(const(ord(t)))
        elif t is A: cs.append(lin(sym('c%d' % i, 0, 127)))
        else:
            bs = [lin(sym('u%d.%d.%d' % (len(BYTES[id(t)]), i, k), l, h)) for k, (l, h) in enumerate(BYTES[id(t)])]
            (s2, r), = MD.utf8_chars(st, bs); st = s2; cs += r
    r = S.ref(st, MD.of_chars(cs))
    for s1, out in S.call(TF + 'parse_str', [r], st):
        q = S.whnf(s1, out)
        if not isinstance(q, SeqV) or not q.explicit(): raise Undecided('bytes of the file')
        q = q.items()
        for s2, want in reference(s1, cs):
            if want is None: continue
            res = False if len(q) != len(want) else conj(eqv(S, s2, a, b) for a, b in zip(q, want))
            c.ob('reads | %s' % label, res, '%s reads as %s, expected %s' % (example(s2, cs), show(q, 100), show(want, 100)), 'parse_str')
    sem.crash_obs(c, 'reads | no crash | %s' % label, ''.join(t if isinstance(t, str) else '?' for t in tpl), 8)
def example(st, cs):
    r = ''
    for x in cs:
        l, h = st.iv(x); r += chr(l) if l == h else '?'
    return repr(r)

@prop('C30', 'abstract interpretation of parse_str on files with arbitrary characters, compared with a reference reader, and of cmds_to_thermal followed by parse_str on the commands parsed from '
      'byte strings with arbitrary bytes: the bytes read back must be the bytes parsed', obligations=500)
def check(c):
    c.par(cases(c.tier), one)
def data_cases():
    for n in (9, 10, 11, 31, 32, 33, 64, 65): yield 'barcode of %d bytes' % n, [0x1D, 0x6B, 73, n] + [None] * n
    yield 'text', [None] * 2 + [0xC3, 0xA9]; yield 'text', [0x41, 0xC3, None, 0x22, None]; yield 'text', [0x5C, None, 0x5C, 0x22]; yield 'text', [0x22, 0x5C, None]
    yield 'text of many characters', [0x41] * 40 + [None]
def cases(tier):
    r = [('read', label, t) for label, t in templates(tier)]
    for label, its in list(streams('quick')) + LONG + list(data_cases()): r.append(('bytes', label, its))
    # the same with the unknown bytes fixed: the reader's choices on written numbers are then all decided
    seen = set()
    for label, its in LONG + list(data_cases()) + [x for x in streams('quick') if 'after' in x[0]]:
        for v in (0xA5, 0x99, 0x05) if 'after' not in label else (0xA5,):
            b = tuple(v if x is None else x for x in its)
            if b not in seen and None in its: seen.add(b); r.append(('bytes', '%s of %02X' % (label, v), list(b)))
    return r
def one(c, it):
    kind, label, its = it
    c.count('files read' if kind == 'read' else 'byte strings written and read back')
    if kind == 'read': c.guard('reads %s %s' % (label, ''.join(x if isinstance(x, str) else '?' for x in its)), reader, c, label, its); return
    key = '%s %s' % (label, hexs([b for b in its if b is not None]))
    c.guard(key, roundtrip, c, label, its)
