"""operand lengths: Command::push as a counting automaton, decided for every length by induction on the bytes taken"""
from fw import prop
from tables import *
import sem

def word(a, b): return add(a, scale(b, 256))
FIXED = {'09': 0, '0A': 0, '0C': 0, '0D': 0, '18 40': 0, '1B 0C': 0, '1B 21': 1, '1B 24': 2, '1B 2D': 1, '1B 32': 0, '1B 33': 1, '1B 34': 1, '1B 3D': 1,
         '1B 40': 0, '1B 44': 2, '1B 45': 1, '1B 47': 1, '1B 4A': 1, '1B 4C': 0, '1B 4D': 1, '1B 52': 1, '1B 53': 0, '1B 54': 1, '1B 57': 8, '1B 61': 1,
         '1B 63 33': 1, '1B 63 34': 1, '1B 63 35': 1, '1B 64': 1, '1B 65': 1, '1B 70': 3, '1B 72': 1, '1B 74': 1, '1B 7B': 1, '1D 21': 1, '1D 24': 2,
         '1D 42': 1, '1D 48': 1, '1D 49': 1, '1D 50': 2, '1D 5C': 2, '1D 62': 1, '1D 66': 1, '1D 68': 1, '1D 77': 1}
FIXED = {tuple(int(x, 16) for x in k.split()): v for k, v in FIXED.items()}
def packet(S, st, h):
    p = word(h[0], h[1])
    return lin(atom(('clamp', add(p, const(-2)), 0, 4294967295), 0, 4294967295, 'clamp', (add(p, const(-2)), 0, 4294967295)))
def packet32(S, st, h):
    p = add(word(h[0], h[1]), add(scale(h[2], 65536), scale(h[3], 16777216)))
    return lin(atom(('clamp', add(p, const(-2)), 0, 4294967295), 0, 4294967295, 'clamp', (add(p, const(-2)), 0, 4294967295)))
# opcode -> [(header bytes: int = that value, None = any), data bytes declared, label)]
VAR = {
    (0x1D, 0x6B): [([m, None], lambda S, st, h: h[1], 'GS k m=%d' % m) for m in range(65, 80)],
    (0x1B, 0x2A): [([m, None, None], (lambda f: lambda S, st, h: scale(word(h[1], h[2]), f))(f), 'ESC * m=%d' % m) for m, f in ((0, 1), (1, 1), (32, 3), (33, 3))],
    (0x1D, 0x76, 0x30): [([None] * 5, lambda S, st, h: S.op(st, 'Mul', word(h[1], h[2]), word(h[3], h[4])), 'GS v 0')],
    (0x1D, 0x28, 0x4C): [([None] * 4, packet, 'GS ( L')], (0x1D, 0x28, 0x6B): [([None] * 4, packet, 'GS ( k')],
    (0x1D, 0x28, 0x48): [([None] * 4, packet, 'GS ( H')], (0x1D, 0x28, 0x47): [([None] * 4, packet, 'GS ( G')],
    (0x1D, 0x38, 0x4C): [([None] * 6, packet32, 'GS 8 L')],
    (0x1D, 0x28, 0x4E): [([None] * 2, lambda S, st, h: word(h[0], h[1]), 'GS ( N')],
    (0x1D, 0x56): [([m], lambda S, st, h: const(0), 'GS V m=%d' % m) for m in (0, 1, 48, 49)] + [([m], lambda S, st, h: const(1), 'GS V m=%d' % m) for m in (65, 66, 97, 98, 103, 104)],
}
def hexs(b): return ' '.join('%02X' % x for x in b)

def push(S, st, ref, b):
    """Command::push -> [(state, accepted?)] with the answer decided in each state"""
    r = []
    for s, v in S.call(sem.TP + 'command::Command::push', [ref, b], st):
        v = S.I.as_cond(v)
        k = s.decide(v)
        if k is not None: r.append((s, k)); continue
        for val, cnd in ((True, v), (False, c_not(v))):
            s2 = s.copy()
            if s2.assume(cnd): r.append((s2, val))
    return r

def start(S, cmd):
    st = S.registry()[0].copy()
    return st, S.ref(st, cmd.val)

@prop('C03', 'Command::push of every registered command run abstractly on symbolic operand bytes: fixed-size commands accept exactly their operand count; '
      'for commands with a length header the state after the header is generalised to an arbitrary number L of data bytes already taken (fields that '
      'count bytes become L) and the step is shown inductive: the next byte is accepted iff L is below the length the header declares, and is appended unchanged', commands=55, obligations=300)
def check(c):
    S = c.S
    reg = S.by_ops()
    for ops in sorted(FIXED): c.count('commands'); c.guard(hexs(ops), fixed, c, reg, ops)
    for ops in sorted(VAR):
        c.count('commands')
        for hdr, n, label in VAR[ops]: c.guard(label, variable, c, reg, ops, hdr, n, label)
    c.count('commands'); c.guard('GS k NUL terminated', nul, c, reg)
    c.guard('text', text, c)

def entry(c, reg, ops, label):
    if ops not in reg: c.ob('%s | registered' % label, False, 'no command is registered for %s' % hexs(ops), 'command set'); return None
    return reg[ops]
def data(S, s, ref): return S.whnf(s, S.get(s, ref, 'data'))
def seq_is(S, s, q, items):
    if not isinstance(q, SeqV) or not q.explicit(): return None
    if len(q.items()) != len(items): return False
    return conj(eqv(S, s, a, b) for a, b in zip(q.items(), items))

def fixed(c, reg, ops):
    S = c.S; label = hexs(ops); cmd = entry(c, reg, ops, label)
    if cmd is None: return
    n = FIXED[ops]
    bs = S.sym_bytes(n + 1, 'p')
    work = [start(S, cmd)]
    for i in range(n + 1):
        nxt = []
        for st, ref in work:
            for s, ok in push(S, st, ref, bs[i]):
                c.ob('%s | operand count' % label, ok == (i < n), 'byte %d after %s is %s, the command has %d operand bytes' % (i + 1, label, 'taken' if ok else 'refused', n), cmd.hpath)
                c.ob('%s | operands stored' % label, seq_is(S, s, data(S, s, ref), bs[:min(i + 1, n)]), 'operand bytes are stored as %s' % show(data(S, s, ref)), cmd.hpath)
                nxt.append((s, ref))
        work = nxt

def feed(S, st, ref, items):
    work = [(st, True)]
    for b in items:
        nxt = []
        for s, ok in work:
            for s2, k in push(S, s, ref, b): nxt.append((s2, ok and k))
        work = nxt
    return work

def handler_loc(S, s, ref):
    """heap base holding the handler object"""
    cv = S.I.load(s, ref.base, ())
    h = cv.fs[S.fidx(cv.ty, 'handler')]
    if not isinstance(h, BoxV): raise Undecided('handler %r' % (h,))
    return h.base

def variable(c, reg, ops, hdr, nf, label):
    S = c.S; cmd = entry(c, reg, ops, label)
    if cmd is None: return
    st, ref = start(S, cmd)
    bs = S.sym_bytes(len(hdr), 'h')
    items = [const(x) if x is not None else b for x, b in zip(hdr, bs)]
    for s, ok in feed(S, st, ref, items):
        c.ob('%s | header' % label, ok, 'a header byte is refused', cmd.hpath)
        if not ok: continue
        N = nf(S, s, items)
        a, b0 = [lin(sym('q%d' % i, 0, 255)) for i in range(2)]
        # base case: no data byte taken yet
        base = data(S, s, ref)
        if not base.explicit(): raise Undecided('header data')
        step(c, S, s, ref, base.items(), [], N, const(0), a, label, cmd)
        h0 = handler_fields(S, s, ref)
        # two concrete data bytes show which fields count
        for s1, k1 in push(S, s, ref, a):
            if not k1: continue
            d1 = data(S, s1, ref); h1 = handler_fields(S, s1, ref)
            c2 = [(s2, handler_fields(S, s2, ref)) for s2, k2 in push(S, s1, ref, b0) if k2]
            if not c2:
                # never a second byte: covered by the concrete steps
                step(c, S, s1, ref, d1.items()[:-1], [a], N, const(1), b0, label, cmd); continue
            s2, h2 = c2[0]
            L = lin(sym('L', 1, 1 << 33))
            gen = s1.copy()
            hb = handler_loc(S, gen, ref); hv = S.I.load(gen, hb, ())
            counters = []
            for i, (x, y) in enumerate(zip(h1, h2)):
                if eqv(S, s2, x, y) is True: continue
                if isinstance(x, Lin) and isinstance(y, Lin) and s2.decide(c_eq(add(sub(y, x), const(-1)))) is True:
                    hv = hv.with_(i, add(L, add(x, const(-1)))); counters.append(i); continue
                raise Undecided('handler field %d changes from %s to %s' % (i, show(x), show(y)))
            S.I.store(gen, hb, (), hv)
            pre = d1.items()[:len(d1.items()) - 1]
            cv = S.I.load(gen, ref.base, ())
            S.I.store(gen, ref.base, (), S.put(cv, 'data', SeqV([('e', x) for x in pre] + [('s', 'taken', const(0), L)], S.u8())))
            if not gen.assume(c_le(sub(L, N))): continue          # bytes taken so far never exceed N (re-established by each step)
            step(c, S, gen, ref, pre, None, N, L, b0, label, cmd, hv, counters)

def handler_fields(S, s, ref):
    v = S.I.load(s, handler_loc(S, s, ref), ())
    return v.fs if isinstance(v, Agg) else ()

def step(c, S, s, ref, pre, taken, N, L, b, label, cmd, hv=None, counters=()):
    for s2, ok in push(S, s, ref, b):
        r = sem.scalar_eq(s2, c_le(add(sub(L, N), const(1))), TRUE if ok else FALSE)          # L < N
        c.ob('%s | data length' % label, r, 'a byte is %s after %s data bytes when the header declares %s' % ('taken' if ok else 'refused', L, show(N)), cmd.hpath)
        if ok:
            q = data(S, s2, ref)
            if taken is not None:
                r = seq_is(S, s2, q, list(pre) + list(taken) + [b])
                if r is False and not taken: r = seq_is(S, s2, q, [b])      # header dropped once it has been read
            else:
                n = len(pre)
                r = isinstance(q, SeqV) and len(q.segs) == n + 2 and q.segs[n][0] == 's' and q.segs[n][1] == 'taken' and q.segs[n + 1][0] == 'e'
                r = conj([r or None, eqv(S, s2, q.segs[n + 1][1], b)] + [eqv(S, s2, q.segs[i][1], pre[i]) for i in range(n)]) if r else None
                for i, (x, y) in enumerate(zip(hv.fs, handler_fields(S, s2, ref))):
                    e = add(x, const(1)) if i in counters else x
                    c.ob('%s | induction' % label, True if eqv(S, s2, e, y) is True else None, 'field %d is not inductive' % i, cmd.hpath)
            c.ob('%s | data kept in order' % label, r, 'data becomes %s' % show(q), cmd.hpath)

def nul(c, reg):
    S = c.S; ops = (0x1D, 0x6B); cmd = entry(c, reg, ops, 'GS k')
    if cmd is None: return
    for m in range(7):
        label = 'GS k m=%d' % m
        st, ref = start(S, cmd)
        L = lin(sym('L', 0, 1 << 33))
        for s, ok in feed(S, st, ref, [const(m)]):
            c.ob(label + ' | header', ok, 'm refused', cmd.hpath)
            pre = data(S, s, ref)
            h0 = handler_fields(S, s, ref)
            g = s.copy(); cv = S.I.load(g, ref.base, ())
            S.I.store(g, ref.base, (), S.put(cv, 'data', SeqV((('s', 'taken', const(0), L),), S.u8())))
            b = lin(sym('b', 0, 255)); b2 = lin(sym('b2', 0, 255))
            c.ob(label + ' | header', seq_is(S, s, pre, []), 'data after m is %s' % show(pre), cmd.hpath)
            for s2, ok in push(S, g, ref, b):
                c.ob(label + ' | takes bytes up to NUL', ok, 'a byte before the NUL is refused', cmd.hpath)
                for zero in (True, False):
                    s3 = s2.copy()
                    if not s3.assume(c_eq(b) if zero else c_ne(b)): continue
                    if zero:
                        for s4, k in push(S, s3, ref, b2):
                            c.ob(label + ' | ends at NUL', not k, 'bytes after the NUL are still taken as barcode data', cmd.hpath)
                    else:
                        q = data(S, s3, ref)
                        ok3 = isinstance(q, SeqV) and len(q.segs) == 2 and q.segs[0][:2] == ('s', 'taken') and q.segs[1][0] == 'e' or None
                        c.ob(label + ' | data kept in order', conj([ok3, eqv(S, s3, q.segs[-1][1], b)]), 'data becomes %s' % show(q), cmd.hpath)
                        for x, y in zip(h0, handler_fields(S, s3, ref)):
                            c.ob(label + ' | induction', True if eqv(S, s3, x, y) is True else None, 'handler state changes inside the data', cmd.hpath)

def text(c):
    S = c.S; st, roles, _ = S.registry()
    for r in ('default', 'unknown'):
        s = st.copy(); cv = S.put(roles[r].val, 'data', SeqV((('s', 'taken', const(0), lin(sym('L', 0, 1 << 33))),), S.u8())); ref = S.ref(s, cv)
        b = lin(sym('b', 0, 255))
        for s2, ok in push(S, s, ref, b):
            q = data(S, s2, ref)
            c.ob('%s | collects every byte' % r, ok and conj([len(q.segs) == 2 and q.segs[0][:2] == ('s', 'taken'), eqv(S, s2, q.segs[-1][1], b)]), 'data becomes %s' % show(q), roles[r].hpath)
