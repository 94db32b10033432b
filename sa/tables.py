"""Operand-table decision: a command's effect on the Context, for every operand value and
every prior state, compared with a specification table."""
from sem import *

class Same:
    """expected: the value another Context path had before the command"""
    def __init__(self, path): self.path = path
class Default:
    """expected: the value stored in the power-on defaults (context.default) at this path"""
    def __init__(self, path): self.path = path

def expect_val(S, st, ctx0, tid, e):
    """the specification value e as an abstract value of type tid"""
    I = S.I
    if isinstance(e, Same): return S.get(st, ctx0, *e.path.split('.'))
    if isinstance(e, (Val, Lin, Cond)): return e
    t = I.ty(tid)
    if isinstance(e, str): return Agg(tid, I.variant_index(tid, e), ())
    if isinstance(e, bool): return TRUE if e else FALSE
    if isinstance(e, int): return const(e)
    if isinstance(e, (list, tuple)): return SeqV([('e', const(x)) for x in e], t['targs'][0] if 'targs' in t else t['e'])
    raise ValueError(e)

def leaf_type(S, tid, path):
    for n in path.split('.'): tid = S.fty(tid, n)
    return tid

def compare(S, o, st, exp, whole='context'):
    """yields (path, verdict, actual) for every specified or changed Context path of outcome o"""
    ctid = o.ctx0.ty if isinstance(o.ctx0, (Agg, SymV)) else None
    for p, e in exp.items():
        if e is None: continue          # may change, not specified here
        a = S.get(st, o.ctx1, *p.split('.'))
        x = expect_val(S, st, o.ctx0, leaf_type(S, ctid, p), e)
        yield p, eqv(S, st, a, x), a
    for p, a in o.changed().items():
        if any(p == k or p.startswith(k + '.') or k.startswith(p + '.') for k in exp): continue
        yield p, eqv(S, st, a, S.get(st, o.ctx0, *p.split('.'))), a

def show(v, n=80):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'

def run_table(c, ops, label, nbytes, spec, extra=None, sub=None):
    """ops: leading bytes; the command's nbytes operand bytes stay symbolic; the whole byte string goes through the parser
    and the renderer's command routine. spec(value of the operand byte enumerated, [all operand terms]) -> {path: expected}.
    sub: index of the operand byte to enumerate (default 0; None with nbytes 0)"""
    S = c.S
    bs = S.sym_bytes(nbytes)
    outs = S.stream(list(ops) + bs)
    if not outs: c.ob(label + ' | no outcome', False, 'the command never completes normally', label)
    seen = set()
    k = 0 if sub is None else sub
    where = 'bytes %s' % ' '.join('%02X' % b for b in ops)
    for o in outs:
        vals = [None] if nbytes == 0 or sub == -1 else cand(o.st, bs[k].atoms()[0])[0]
        for v in vals:
            st = o.st if v is None else bind(o.st, [(bs[k], v)])
            if st is None: continue
            seen.add(v)
            for p, r, a in compare(S, o, st, spec(v, bs)):
                c.ob('%s | %s' % (label, p), r, 'operand %s: %s becomes %s, expected %s' % (
                    v if v is not None else 'any', p, show(a), show(spec(v, bs).get(p, 'unchanged'))), where)
            if extra: extra(c, o, st, v, label)
    if nbytes and sub != -1:
        c.ob(label + ' | all operands', len(seen) == 256 or None, '%d of 256 operand values reach a normal return' % len(seen), where)
    return outs
