"""tokenisation of byte streams: reference lexer over byte sets against the parser's outcome partition"""
from fw import prop
from tables import *
from props.C03 import FIXED, VAR, hexs
import state

ALL = (1 << 256) - 1
def bits(*v):
    m = 0
    for x in v: m |= 1 << x
    return m
OPS = sorted(set(FIXED) | set(VAR))
TRIE = {}
for o in OPS:
    n = TRIE
    for b in o: n = n.setdefault(b, {})
    n[None] = o
ESCAPES = (0x10, 0x1B, 0x1C, 0x1D)          # DLE ESC FS GS introduce commands, known or not
HEADER = {o: max(len(h) for h, _, _ in v) for o, v in VAR.items()}
KNOWN_M = {(0x1D, 0x6B): bits(*range(0, 7), *range(65, 80)), (0x1D, 0x56): bits(0, 1, 48, 49)}

class Tok:
    __slots__ = ('kind', 'ops', 'a', 'z', 'opn')
    def __init__(self, kind, ops, a, z, opn): self.kind = kind; self.ops = ops; self.a = a; self.z = z; self.opn = opn
    def __repr__(self): return '%s[%d:%d]%s' % (self.kind, self.a, self.z, hexs(self.ops) if self.ops else '')

def takes(cur, masks):
    """does the open command take the next byte: yes / no / ('split', index, mask)"""
    o = cur.ops; n = cur.z - cur.a - cur.opn; d = masks[cur.a + cur.opn:cur.z]
    if o in FIXED: return n < FIXED[o]
    def one(i, m):
        x = d[i]
        if not x & ~m: return True
        if not x & m: return False
        return ('split', cur.a + cur.opn + i, m)
    def val(i):
        if d[i] & (d[i] - 1): return None
        return d[i].bit_length() - 1
    if o == (0x1D, 0x6B):
        if n == 0: return True
        k = one(0, KNOWN_M[o])
        if k is not True: return k
        k = one(0, bits(*range(7)))
        if isinstance(k, tuple): return k
        if k:
            for i in range(1, n):
                z = one(i, bits(0))
                if isinstance(z, tuple): return z
                if z: return False
            return True
        if n == 1: return True
        for v in range(n - 1):              # n-2 data bytes taken; declared count among the possible values
            pass
        return one_gt(d[1], n - 2, cur.a + cur.opn + 1)
    if o == (0x1D, 0x56):
        if n == 0: return True
        if n >= 2: return False
        k = one(0, KNOWN_M[o])
        return k if isinstance(k, tuple) else (not k)
    h = HEADER[o]
    if n < h: return True
    vs = [val(i) for i in range(h)]
    if o == (0x1B, 0x2A):
        if None in vs: return 'open'
        N = (vs[1] + 256 * vs[2]) * (3 if vs[0] in (32, 33) else 1)
    elif o == (0x1D, 0x76, 0x30):
        if None in vs: return 'open'
        N = (vs[1] + 256 * vs[2]) * (vs[3] + 256 * vs[4])
    elif o == (0x1D, 0x28, 0x4E):
        if None in vs: return 'open'
        N = vs[0] + 256 * vs[1]
    else:
        k = 4 if h == 6 else 2
        if None in vs[:k]: return 'open'
        N = max(0, sum(v << 8 * i for i, v in enumerate(vs[:k])) - 2)
    return n - h < N
def one_gt(mask, k, idx):
    m = ALL & ~((1 << (k + 1)) - 1)
    if not mask & ~m: return True
    if not mask & m: return False
    return ('split', idx, m)

def lex(masks):
    """[(masks, tokens)] : the reference reading of a byte string given as one set per byte"""
    out = []
    work = [(tuple(masks), 0, (), TRIE, None, None)]        # masks, position, finished tokens, trie node, start of the opcode being matched, open token
    while work:
        m, i, done, node, s0, cur = work.pop()
        if i == len(m):
            toks = list(done)
            if cur: toks.append(cur)
            if s0 is not None: toks.append(Tok('unknown', None, s0, i, 0))
            out.append((m, toks)); continue
        if node is TRIE and cur is not None and cur.kind == 'cmd':
            k = takes(cur, m)
            if k == 'open': continue
            if isinstance(k, tuple):
                for mm in (m[k[1]] & k[2], m[k[1]] & ~k[2]):
                    if mm: work.append((m[:k[1]] + (mm,) + m[k[1] + 1:], i, done, node, s0, cur))
                continue
            if k: work.append((m, i + 1, done, node, s0, Tok('cmd', cur.ops, cur.a, i + 1, cur.opn))); continue
        rest = m[i]
        for b in node:
            if b is None or not rest >> b & 1: continue
            m2 = m[:i] + (1 << b,) + m[i + 1:]
            nx = node[b]; a = s0 if s0 is not None else i
            if None in nx: work.append((m2, i + 1, done + ((cur,) if cur else ()), TRIE, None, Tok('cmd', nx[None], a, i + 1, i + 1 - a)))
            else: work.append((m2, i + 1, done, nx, a, cur))
            rest &= ~(1 << b)
        if not rest: continue
        first = m[s0] if s0 is not None else None
        if s0 is None:
            esc = rest & bits(*ESCAPES); txt = rest & ~bits(*ESCAPES)
            if esc: work.append((m[:i] + (esc,) + m[i + 1:], i + 1, done + ((cur,) if cur else ()), TRIE, None, Tok('unknown', None, i, i + 1, 0)))
            if txt:
                m2 = m[:i] + (txt,) + m[i + 1:]
                if cur is not None and cur.kind in ('text', 'unknown'): work.append((m2, i + 1, done, TRIE, None, Tok(cur.kind, None, cur.a, i + 1, 0)))
                else: work.append((m2, i + 1, done + ((cur,) if cur else ()), TRIE, None, Tok('text', None, i, i + 1, 0)))
            continue
        m2 = m[:i] + (rest,) + m[i + 1:]
        dn = done + ((cur,) if cur else ())
        if not first & ~bits(*ESCAPES): work.append((m2, i + 1, dn, TRIE, None, Tok('unknown', None, s0, i + 1, 0)))
        else: work.append((m2, i, dn + (Tok('unknown', None, s0, i, 0),), TRIE, None, None))       # CAN alone: the byte after it is read afresh
    return out

PACKET = {(0x1D, 0x28, 0x4C): 4, (0x1D, 0x28, 0x6B): 4, (0x1D, 0x38, 0x4C): 6}
def complete(o):
    """a concrete complete use of opcode o"""
    if o in FIXED: return list(o) + [0x41] * FIXED[o]
    return list(o) + {(0x1D, 0x6B): [65, 1, 0x41], (0x1B, 0x2A): [0, 1, 0, 0x41], (0x1D, 0x76, 0x30): [0, 1, 0, 1, 0, 0x41], (0x1D, 0x28, 0x4C): [4, 0, 48, 69, 0x41, 0x41],
                      (0x1D, 0x28, 0x6B): [3, 0, 49, 67, 0x41], (0x1D, 0x28, 0x48): [3, 0, 48, 48, 0x41], (0x1D, 0x28, 0x47): [3, 0, 48, 48, 0x41],
                      (0x1D, 0x38, 0x4C): [4, 0, 0, 0, 48, 69, 0x41, 0x41], (0x1D, 0x28, 0x4E): [1, 0, 0x41], (0x1D, 0x56): [65, 0x41]}[o]

def streams(tier):
    """(label, bytes) with None for an arbitrary byte"""
    yield 'start', [None] * 3
    deep = tier == 'thorough'
    pre = [('text', [0x41]), ('unknown', [0x1B, 0x01])] + [(hexs(o), complete(o)) for o in OPS] + [('GS k NUL', [0x1D, 0x6B, 4, 0x41, 0])]
    two = sorted({o[:2] for o in OPS if len(o) == 3})
    for name, b in pre:
        yield 'after ' + name, b + [None] * (3 if deep or name in ('text', 'unknown', '1D 6B', '1D 28 6B', '0A') else 2)
        for t in two: yield 'after ' + name, b + list(t) + [None]

    # every function number of the packets, also when it equals the symbol number or is that of another symbol
    for cn in list(range(47, 56)) + [0, 1, 65, 255]:
        yield 'functions', [0x1D, 0x28, 0x6B, 3, 0, cn, None, 0x41]
    for m in (48, 0, 49, 255):
        yield 'functions', [0x1D, 0x28, 0x4C, 4, 0, m, None, 0x41, 0x41]
        yield 'functions', [0x1D, 0x38, 0x4C, 4, 0, 0, 0, m, None, 0x41, 0x41]

def cmd_name(cmd): return '%s(%s)' % (cmd.name, cmd.kind)
def run_stream(c, items, f):
    """f(key suffix, st, byte terms, tokens, commands)"""
    S = c.S
    bs = [const(b) if b is not None else lin(sym('s%d' % i, 0, 255)) for i, b in enumerate(items)]
    for st, cmds in S.parse(bs):
        masks = []
        for b in bs:
            if b.is_const(): masks.append(1 << b.c)
            else:
                a = b.atoms()[0]
                masks.append(st.vset.get(a, None) or bits(*cand(st, a)[0]))
        for m, toks in lex(masks):
            s = st.copy()
            for b, old, new in zip(bs, masks, m):
                if old != new:
                    a = b.atoms()[0]; s.vset[a] = new; s.ivm = {}
            f(s, bs, m, toks, cmds)

def spell(m): return ' '.join('%02X' % (x.bit_length() - 1) if not x & (x - 1) else '??' for x in m)
@prop('C01', 'abstract interpretation of Parser::parse_bytes on every byte string of up to three arbitrary bytes, from the start and after each supported '
      'command, text and unknown command; the resulting partition of byte values is compared token by token with a reference lexer built from the ESC/POS opcode table',
      streams=200, obligations=1000)
def check(c):
    S = c.S
    def one(c, it):
        label, items = it
        c.count('streams')
        c.guard(label + ' ' + hexs([b for b in items if b is not None]), run_stream, c, items, tokens(c, label))
    c.par(streams(c.tier), one)

L_FN = {0, 48, 1, 49, 2, 50, 4, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113}
K_FN = {48: {65, 66, 67, 69, 70, 80, 81, 82}, 49: {65, 67, 69, 80, 81, 82}, 50: {65, 80, 81, 82}, 51: {67, 71, 80, 81, 82}, 52: {67, 71, 72, 80, 81, 82},
        53: {66, 67, 69, 80, 81, 82}, 54: {66, 67, 80, 81, 82}}
def supported(t, m):
    """the packet names a supported function: True / False / None when only some of the byte sets do"""
    k = t.a + t.opn + PACKET[t.ops]
    cn, fn = [[v for v in range(256) if m[i] >> v & 1] for i in (k - 2, k - 1)]
    r = {(v in L_FN) if t.ops[-1] == 0x4C else v in K_FN.get(u, ()) for u in cn for v in fn}
    return r.pop() if len(r) == 1 else None

def tokens(c, label):
    S = c.S
    def g(st, bs, m, toks, cmds):
        for i, t in enumerate(toks):            # byte sets that hold both supported and unsupported functions
            if t.kind == 'cmd' and t.ops in PACKET and t.z - t.a - t.opn >= PACKET[t.ops] and supported(t, m) is None:
                k = t.a + t.opn + PACKET[t.ops] - 1
                for v in range(256):
                    if m[k] >> v & 1:
                        s2 = st.copy(); s2.vset[bs[k].atoms()[0]] = 1 << v; s2.ivm = {}
                        m2 = m[:k] + (1 << v,) + m[k + 1:]
                        if supported(t, m2) is not None: g(s2, bs, m2, toks, cmds)
                        else: c.ob('functions | %s' % label, None, 'several symbols on one path', 'Parser')
                return
        key = 'tokens %s' % label
        got = cmds[1:-1]
        want = toks
        c.ob(key, len(got) == len(want), '%s is read as %s, expected %s' % (spell(m), [cmd_name(x) for x in got], want), 'Parser')
        if len(got) != len(want): return
        for t, x in zip(want, got):
            if t.kind == 'cmd' and t.ops in PACKET and (t.z - t.a - t.opn < PACKET[t.ops] or supported(t, m) is False): t = Tok('unknown', None, t.a, t.z, 0)
            if t.kind == 'cmd':
                k = hexs(t.ops)
                ok = x.ops == t.ops if t.ops not in PACKET else starts(S, st, x, t, bs)
                if x.kind == 'Unknown' or (x.kind == 'Text' and x.ops == ()): ok = False
                c.ob('opcode %s | %s' % (k, label), ok, '%s is read as %s' % (spell(m), cmd_name(x)), x.hpath)
            elif t.kind == 'text':
                c.ob('text | %s' % label, x.kind == 'Text' and x.ops == (), '%s: text is read as %s' % (spell(m), cmd_name(x)), x.hpath)
            else:
                c.ob('unknown | %s' % label, x.kind == 'Unknown', '%s: an unsupported sequence is read as %s' % (spell(m), cmd_name(x)), x.hpath)
    return g

def starts(S, st, x, t, bs):
    q = S.whnf(st, S.get(st, x.val, 'commands'))
    if not isinstance(q, SeqV) or not q.explicit(): return None
    it = q.items()
    k = t.opn + PACKET[t.ops]
    return len(it) == k and conj(eqv(S, st, a, b) for a, b in zip(it, bs[t.a:t.a + k]))
