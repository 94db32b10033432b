"""no input byte is lost, duplicated or reordered between the input and the command list"""
from fw import prop
from tables import *
from props.C01 import *

def spelled(S, st, cmd):
    """(opcode ++ data) of a parsed command as the command itself reports them -> [(state, [byte terms])]"""
    q = S.whnf(st, S.get(st, cmd.val, 'commands')), S.whnf(st, S.get(st, cmd.val, 'data'))
    if cmd.kind == 'Unknown': return [(st, items(q[1]))]
    s = st.copy(); ref = S.ref(s, cmd.val)
    out = []
    for s2, v in S.handler_call(s, ref, 'get_command_bytes'):
        out.append((s2, items(S.whnf(s2, v.fs[0])) + items(S.whnf(s2, v.fs[1]))))
    return out
def items(q):
    if not isinstance(q, SeqV) or not q.explicit(): raise Undecided('byte list %r' % (q,))
    return q.items()

# whole packets / data commands with arbitrary data bytes (None)
LONG = [('barcode counted', [0x1D, 0x6B, 73, 3, None, None, None, 0x0A]), ('barcode NUL terminated', [0x1D, 0x6B, 4, 0x2A, 0x30, 0x2A, 0, 0x0A]),
        ('barcode NUL terminated, any data', [0x1D, 0x6B, 4, None, None, 0, 0x0A]), ('bit image', [0x1B, 0x2A, 33, 1, 0, None, None, None, 0x0A]), ('bit image 8 dot', [0x1B, 0x2A, 0, 2, 0, None, None, 0x0A]),
        ('raster image', [0x1D, 0x76, 0x30, None, 2, 0, 1, 0, None, None, 0x0A]), ('raster image empty', [0x1D, 0x76, 0x30, 0, 0, 0, 1, 0, 0x0A]),
        ('character effects', [0x1D, 0x28, 0x4E, 2, 0, None, None, 0x0A]), ('print area', [0x1B, 0x57] + [None] * 8 + [0x0A]), ('pulse', [0x1B, 0x70] + [None] * 3 + [0x0A])]
LONG += [('GS ( k cn=%d fn=%d' % (cn, fn), [0x1D, 0x28, 0x6B, 4, 0, cn, fn, None, None, 0x0A]) for cn, fs in K_FN.items() for fn in sorted(fs)]
LONG += [('GS ( L fn=%d' % fn, [0x1D, 0x28, 0x4C, 5, 0, 48, fn, None, None, None, 0x0A]) for fn in sorted(L_FN)]
LONG += [('GS 8 L fn=%d' % fn, [0x1D, 0x38, 0x4C, 5, 0, 0, 0, 48, fn, None, None, None, 0x0A]) for fn in sorted(L_FN)]
LONG += [(l + ', end of input', b[:-1]) for l, b in LONG]
LONG += [('GS ( k function only, end of input', [0x1D, 0x28, 0x6B, 2, 0, 49, 81]), ('GS ( L function only, end of input', [0x1D, 0x28, 0x4C, 2, 0, 48, 50])]

@prop('C02', 'abstract interpretation of Parser::parse_bytes on byte strings with arbitrary bytes (as in C01, plus every data-carrying command with arbitrary data bytes); '
      'in every outcome the bytes that the parsed commands report through get_command_bytes, joined in order, must be the input bytes', streams=300, obligations=800)
def check(c):
    def one(c, it):
        label, its = it
        c.count('streams')
        c.guard(label + ' ' + hexs([b for b in its if b is not None]), run_stream, c, its, conserve(c, label))
    c.par(list(streams(c.tier)) + LONG, one)

def conserve(c, label):
    S = c.S
    def g(st, bs, m, toks, cmds):
        want = list(bs)
        sts = [(st, [])]
        for x in cmds[1:-1]: sts = [(s2, acc + it) for s, acc in sts for s2, it in spelled(S, s, x)]
        # an unterminated NUL-terminated barcode may get its terminator back
        t = toks[-1] if toks else None
        if t is not None and t.kind == 'cmd' and t.ops == (0x1D, 0x6B) and t.z - t.a > 2 and m[t.a + 2] & bits(*range(7)) and not any(x == 1 for x in m[t.a + 3:t.z]):
            c.ob('bytes | %s' % label, None if any(x & 1 for x in m[t.a + 3:t.z]) else conj([len(it) in (len(want), len(want) + 1) and conj(eqv(S, s, a, b) for a, b in zip(it, want)) for s, it in sts]), spell(m), 'Parser')
            return
        for s, it in sts:
            r = False if len(it) != len(want) else conj(eqv(S, s, a, b) for a, b in zip(it, want))
            c.ob('bytes | %s' % label, r, '%s: the commands hold %s' % (spell(m), show(it, 120)), 'Parser')
    return g
