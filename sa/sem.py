"""Semantic view of the code base built on the abstract interpreter: the command
registry, command evaluation over symbolic operands and a symbolic Context, and
queries over the resulting outcome partition."""
import time
import dump, mir, interp, state, random, itertools
from interp import Undecided, Limit
from values import *
from terms import *

TP = 'thermal_parser::'
TR = 'thermal_renderer::'

class Missing(Exception):
    """an anchor the property rests on is not in the analysed program"""

class Cmd:
    __slots__ = ('name', 'ops', 'kind', 'dk', 'val', 'handler', 'hpath', 'role')
    def __repr__(self): return '<%s %s %s/%s>' % (self.name, ' '.join('%02X' % b for b in self.ops), self.kind, self.dk)

class Sem:
    def __init__(self, log=None):
        t0 = time.time()
        d, self.hash = dump.dump()
        self.P = mir.Program([d + '/thermal_parser.json', d + '/thermal_renderer.json'])
        self.I = interp.Interp(self.P)
        self.I.decided_dyn = self._dyn
        self.dyn_state = {}
        self.load_s = time.time() - t0
        self._reg = None

    # ------------------------------------------------------------ basics
    def fn(self, path):
        f = self.P.fn(path)
        if f is None: raise Missing('function %s' % path)
        return f
    def fn_opt(self, path): return self.P.fn(path)
    def adt(self, path):
        t = self.I.ty_by_path(path)
        if t is None: raise Missing('type %s' % path)
        return t
    def fields(self, tid, var=0): return [n for n, _ in self.I.ty(tid)['v'][var]['f']]
    def fidx(self, tid, name, var=0):
        for i, (n, _) in enumerate(self.I.ty(tid)['v'][var]['f']):
            if n == name: return i
        raise Missing('field %s of %s' % (name, self.I.tname(tid)))
    def fty(self, tid, name, var=0): return self.I.ty(tid)['v'][var]['f'][self.fidx(tid, name, var)][1]
    def get(self, st, v, *names):
        """follow a field path through aggregates, references and boxes"""
        I = self.I
        for n in names:
            v = self.whnf(st, v)
            if isinstance(v, SymV): v = I.expand(v)
            if not isinstance(v, Agg): raise Undecided('field %s of %r' % (n, v))
            v = v.fs[n] if isinstance(n, int) else v.fs[self.fidx(v.ty, n, v.var)]
        return v
    def whnf(self, st, v):
        while isinstance(v, (RefV, BoxV, RcV)) and not (isinstance(v, RefV) and v.view is not None):
            v = self.I.load(st, v.base, v.path if isinstance(v, RefV) else ())
        if isinstance(v, RefV): v = self.I.read_seq(st, v)
        return v
    def put(self, v, name, x):
        return v.with_(self.fidx(v.ty, name, v.var), x)
    def setp(self, v, path, x):
        """v with the field at a dotted path replaced"""
        n, _, rest = path.partition('.')
        if isinstance(v, SymV): v = self.I.expand(v)
        return self.put(v, n, self.setp(v.fs[self.fidx(v.ty, n, v.var)], rest, x) if rest else x)
    def op(self, st, o, a, b, t='u32'):
        """arithmetic on terms as the analysed program would compute it"""
        for x in self.P.types:
            if x and x['k'] in ('int', 'uint') and x['name'] == t: return self.I.binop(st, o, a, b, x['id'])
        raise Undecided('type ' + t)
    def variant(self, st, v):
        """variant name of an enum value when determined"""
        v = self.whnf(st, v)
        t = self.I.ty(v.ty)
        if isinstance(v, Agg): return t['v'][v.var]['n']
        d = self.I.discr_lin(st, v, v.ty)
        r = [x['n'] for i, x in enumerate(t['v']) if st.decide(c_eq(sub(d, const(self.I.variant_discr(t, i))))) is not False]
        if len(r) == 1: return r[0]
        return None
    def enum(self, path, variant, *fs):
        t = self.adt(path)
        try: return Agg(t, self.I.variant_index(t, variant), fs)
        except KeyError: raise Missing('variant %s::%s' % (path, variant))
    def text(self, st, v):
        v = self.whnf(st, v)
        if isinstance(v, OpV) and v.op == 'str' and all(p[0] == 'lit' for p in v.args): return ''.join(p[1] for p in v.args)
        return None
    def bytes_of(self, st, v):
        v = self.whnf(st, v)
        if not isinstance(v, SeqV) or not v.explicit(): return None
        r = []
        for x in v.items():
            if not (isinstance(x, Lin) and x.is_const()): return None
            r.append(x.c)
        return tuple(r)
    def bump(self, secs=60):
        self.I.steps = 0; self.I.deadline = min(time.time() + secs, getattr(self, 'limit', None) or 1e12)
    def call(self, fn, args, st=None, secs=60):
        if isinstance(fn, str): fn = self.fn(fn)
        self.bump(secs)
        return self.I.call_fn(fn, args, st or state.State())
    def ref(self, st, v): return RefV(self.I.new_heap(st, v))

    # ------------------------------------------------------------ registry
    def as_cmd(self, st, v, role='command'):
        v = self.whnf(st, v)
        c = Cmd(); c.val = v; c.role = role
        c.ops = self.bytes_of(st, self.get(st, v, 'commands')); c.name = self.text(st, self.get(st, v, 'name'))
        c.kind = self.variant(st, self.get(st, v, 'kind')); c.dk = self.variant(st, self.get(st, v, 'data_kind'))
        c.handler = self.whnf(st, self.get(st, v, 'handler'))
        c.hpath = self.I.tname(c.handler.ty)
        if c.ops is None:
            q = self.whnf(st, self.get(st, v, 'commands'))
            if not isinstance(q, SeqV) or not q.explicit(): raise Undecided('a command of unknown content')
        if role != 'parsed' and (c.ops is None or c.name is None or c.kind is None or c.dk is None): raise Undecided('registry entry %r' % (v,))
        return c
    def registry(self):
        """(state, {role: Cmd}, [commands]) as built by command_sets::esc_pos::new"""
        if self._reg is None:
            outs = self.call(TP + 'command_sets::esc_pos::new', [])
            if len(outs) != 1: raise Undecided('command set construction has %d outcomes' % len(outs))
            st, v = outs[0]
            roles = {r: self.as_cmd(st, self.get(st, v, r), r) for r in ('default', 'unknown', 'begin_parsing', 'end_parsing')}
            seq = self.whnf(st, self.get(st, v, 'commands'))
            if not seq.explicit(): raise Undecided('command list')
            self._reg = (st, roles, [self.as_cmd(st, x) for x in seq.items()], v)
        return self._reg[:3]
    def cmd_set(self): self.registry(); return self._reg[0], self._reg[3]
    def by_ops(self):
        return {c.ops: c for c in self.registry()[2]}
    def subcommands(self, cmd):
        """[(ops, Cmd)] for a Subcommand-kind entry, read from whatever command list the handler holds"""
        st = self.registry()[0]
        out = []
        ct = self.adt(TP + 'command::Command')
        for f in cmd.handler.fs if isinstance(cmd.handler, Agg) else ():
            try: w = self.whnf(st, f)
            except Undecided: continue
            if isinstance(w, SeqV) and w.ety == ct and w.explicit():
                for x in w.items(): out.append(self.as_cmd(st, x, 'subcommand'))
        return out

    # ------------------------------------------------------------ OutputRenderer stand-in
    def _dyn(self, I, st, fr, decl, recv, args, atys, dty, line):
        if 'OutputRenderer' not in decl: return None
        m = decl.split('::')[-1]
        vals = []
        for a in args[1:]:
            try: vals.append(I.deref_val(st, a) if isinstance(a, (RefV, BoxV)) else a)
            except Undecided: vals.append(a)
        k = sum(1 for e in st.tag if e[0] == 'out')
        st.tag = st.tag + (('out', m, tuple(vals)),)
        if self.I.ty(dty)['k'] == 'tuple' and not self.I.ty(dty)['f']: return [(st, I.zst(dty))]
        return [(st, I.sym_value(dty, 'out%d.%s' % (k, m)))]

    # ------------------------------------------------------------ running one command
    def sym_bytes(self, n, name='d'): return [lin(sym('%s%d' % (name, i), 0, 255)) for i in range(n)]
    def seq_u8(self, items):
        return SeqV([('e', x) for x in items], self.u8())
    def u8(self):
        for t in self.P.types:
            if t and t['k'] == 'int' and t['b'] == 8 and not t['s']: return t['id']
    def sym_data(self, name='data'):
        return SeqV((('s', name, const(0), lin(sym(name + '.len', 0, interp.MAXLEN))),), self.u8())
    def context(self, name='ctx'): return self.I.expand(self.I.sym_value(self.adt(TP + 'context::Context'), name)) if isinstance(self.I.sym_value(self.adt(TP + 'context::Context'), name), SymV) else self.I.sym_value(self.adt(TP + 'context::Context'), name)
    ARITY = dict(Empty=0, Single=1, Double=2, Triple=3, Quad=4, Octet=8)

    def process_fn(self):
        for k in self.P.by_path.get(TR + "renderer::Renderer::<'a, Output>::process_command", []):
            return self.P.funcs[k]
        # a renamed helper: the Renderer method taking (&mut self, &Command)
        ct = self.adt(TP + 'command::Command')
        for f in self.P.funcs.values():
            if f['path'].startswith(TR + 'renderer::Renderer') and f['nargs'] == 2 and '{closure' not in f['path']:
                t1, t2 = self.I.ty(f['locals'][1]), self.I.ty(f['locals'][2])
                if t1['k'] == 'ref' and t1.get('m') and t2['k'] == 'ref' and t2['e'] == ct and \
                   self.I.ty(t1['e'])['k'] == 'adt' and self.I.ty(t1['e'])['path'] == TR + 'renderer::Renderer': return f
        raise Missing('Renderer method that processes one Command')
    def renderer_ty(self): return self.I.ty(self.process_fn()['locals'][1])['e']
    def renderer_val(self, ctx, over=None):
        rt = self.renderer_ty()
        v = self.I.sym_value(rt, 'R')
        if isinstance(v, SymV): v = self.I.expand(v)
        v = self.put(v, 'context', ctx)
        for k, x in (over or {}).items(): v = self.put(v, k, x)
        return v
    def flush_fns(self):
        """Renderer methods taking only &mut self from which OutputRenderer::render_text is reached"""
        out = []
        for f in self.P.funcs.values():
            if f['path'].startswith(TR + 'renderer::Renderer') and f['nargs'] == 1 and '{closure' not in f['path'] and self.reaches(f, 'render_text'):
                out.append(f['path'])
        if not out: raise Missing('Renderer text flush method')
        return sorted(set(out))
    def reaches(self, f, meth, seen=None):
        seen = seen if seen is not None else set()
        if f['key'] in seen: return False
        seen.add(f['key'])
        for bb in f['blocks']:
            t = bb[1]
            if t[0] == 'call' and t[1][0] == 'def':
                i = t[1][1]['inst']; p = i['path'] if i else t[1][1]['decl']
                if p.endswith('::' + meth) and 'OutputRenderer' in p: return True
                if i and i['key'] in self.P.funcs and self.P.funcs[i['key']]['path'].startswith(TR) and self.reaches(self.P.funcs[i['key']], meth, seen): return True
        return False
    def with_flush_hooks(self):
        """treat the text flush as one atomic observable event"""
        S = self
        def hook(I, st, fr, args, inst, atys, dty, line):
            if not args: return None
            r = args[0]
            rv = I.deref_val(st, r)
            st.tag = st.tag + (('flush', rv.fs[S.fidx(rv.ty, 'span_buffer')], rv.fs[S.fidx(rv.ty, 'context')]),)
            I.store(st, r.base, r.path + (('f', S.fidx(rv.ty, 'span_buffer')),), SeqV((), I.ty(S.fty(rv.ty, 'span_buffer'))['targs'][0]))
            return [(st, I.zst(dty))]
        for p in self.flush_fns(): self.I.hooks[interp.norm_path(p)] = hook

    def run(self, cmd, data, st=None, ctx=None, secs=60, over=None, kind=None):
        """process_command on one command; -> [Outcome]"""
        st = (st or self.registry()[0]).copy(); st.tag = ()
        ctx = ctx if ctx is not None else self.context()
        cv = self.put(cmd.val, 'data', data)
        if kind is not None: cv = self.put(cv, 'kind', kind)
        rv = self.renderer_val(ctx, over)
        rr = self.ref(st, rv); cr = self.ref(st, cv)
        outs = self.call(self.process_fn(), [rr, cr], st, secs)
        res = []
        for s2, _ in outs:
            r2 = self.I.load(s2, rr.base, ())
            res.append(Outcome(self, s2, rv, r2))
        return res

    # ------------------------------------------------------------ byte streams
    def parse(self, items, st=None, secs=60):
        """Parser::parse_bytes on a byte string (concrete and symbolic bytes mixed) -> [(state, [Cmd])]"""
        st0, cs = self.cmd_set()
        st = (st or st0).copy(); st.tag = ()
        outs = self.call(self.fn(TP + 'parser::Parser::new'), [cs], st, secs)
        res = []
        for s1, pv in outs:
            pr = self.ref(s1, pv); br = self.ref(s1, items if isinstance(items, SeqV) else self.seq_u8([const(x) if isinstance(x, int) else x for x in items]))
            for s2, v in self.call(self.fn(TP + 'parser::Parser::parse_bytes'), [pr, br], s1, secs):
                q = self.whnf(s2, v)
                if not q.explicit(): raise Undecided('command list of parse_bytes')
                res.append((s2, [self.as_cmd(s2, x, 'parsed') for x in q.items()]))
        return res
    def handler_call(self, st, cmd_ref, meth, extra=()):
        """call a CommandHandler method on the handler of the command behind cmd_ref, with (&self, &command, *extra)"""
        I = self.I
        cv = I.load(st, cmd_ref.base, cmd_ref.path)
        h = cv.fs[self.fidx(cv.ty, 'handler')]
        if not isinstance(h, BoxV): raise Undecided('handler %r' % (h,))
        hv = I.load(st, h.base, ())
        if not isinstance(hv, Agg): raise Undecided('handler %r' % (hv,))
        for (ty, tr), ms in self.P.vtables.items():
            if ty == hv.ty and meth in ms:
                inst = ms[meth]
                self.bump(60)
                if inst['key'] in self.P.funcs: return I.call_fn(self.P.funcs[inst['key']], [RefV(h.base), cmd_ref] + list(extra), st)
        raise Missing('method %s of %s' % (meth, I.tname(hv.ty)))
    def run_seq(self, cmds, st, ctx=None, secs=60, over=None):
        """process_command on each command in turn, same Renderer"""
        st = st.copy(); st.tag = ()
        ctx = ctx if ctx is not None else self.context()
        rv = self.renderer_val(ctx, over)
        work = [(st, self.ref(st, rv))]
        for c in cmds:
            nxt = []
            for s, rr in work:
                cr = self.ref(s, c.val)
                for s2, _ in self.call(self.process_fn(), [rr, cr], s, secs): nxt.append((s2, rr))
            work = nxt
        return [Outcome(self, s, rv, self.I.load(s, rr.base, ())) for s, rr in work]
    def stream(self, items, ctx=None, over=None, st=None, secs=60):
        """parse the bytes and process what lies between the begin and end markers"""
        r = []
        for s, cmds in self.parse(items, st, secs): r += self.run_seq(cmds[1:-1], s, ctx, secs, over)
        return r

class Outcome:
    def __init__(self, S, st, before, after):
        self.S = S; self.st = st; self.before = before; self.after = after
        self.ctx0 = before.fs[S.fidx(before.ty, 'context')]; self.ctx1 = after.fs[S.fidx(after.ty, 'context')]
        self.events = st.tag
    def field(self, *names): return self.S.get(self.st, self.after, *names)
    def changed(self): return diff(self.S, self.st, self.ctx0, self.ctx1)
    def changed_all(self): return diff(self.S, self.st, self.before, self.after)

def diff(S, st, a, b, path=()):
    """{field path: new value} of the leaves where b is not provably a"""
    I = S.I
    if a is b or a == b: return {}
    if isinstance(a, SymV) and isinstance(b, Agg) and I.ty(a.ty)['k'] == 'adt' and len(I.ty(a.ty)['v']) == 1: a = I.expand(a)
    if isinstance(b, SymV) and isinstance(a, Agg) and I.ty(b.ty)['k'] == 'adt' and len(I.ty(b.ty)['v']) == 1: b = I.expand(b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and len(I.ty(a.ty).get('v', ())) == 1:
        r = {}
        for (n, _), x, y in zip(I.ty(a.ty)['v'][0]['f'], a.fs, b.fs): r.update(diff(S, st, x, y, path + (n,)))
        return r
    if isinstance(a, (Lin, Cond)) and isinstance(b, (Lin, Cond)):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if st.decide(c_eq(sub(a, b))) is True: return {}
    if I.same_struct(st, a, b): return {}
    return {'.'.join(path): b}

# ---------------------------------------------------------------- deciding equality of abstract values
import random, itertools
def consistent(st, env):
    """False when the assignment contradicts the path condition of st"""
    for a, m in st.vset.items():
        v = eval_atom(a, env)
        if v is not None and not (v >= 0 and (m >> v) & 1): return False
    for a, (lo, hi) in st.bnd.items():
        v = eval_atom(a, env)
        if v is not None and not lo <= v <= hi: return False
    for a, ne in st.neq.items():
        v = eval_atom(a, env)
        if v is not None and v in ne: return False
    for c in st.cons:
        v = eval_lin(c, env)
        if v is not None and v > 0: return False
    for c in st.facts:
        if eval_cond(c, env) is False: return False
    return True
def st_deps(st):
    d = set()
    for x in list(st.vset) + list(st.bnd) + list(st.neq): d |= x.deps
    for c in st.cons: d |= c.deps()
    for c in st.facts: d |= c.deps()
    return d
def st_imprecise(st):
    return any(a.imp for a in st_deps(st))
def cand(st, a):
    """(values, exhaustive)"""
    m = st.vset.get(a)
    lo, hi = st.aiv(a)
    if m is not None: return state.mask_vals(m), True
    if hi - lo <= 255:
        ne = st.neq.get(a, ())
        return [v for v in range(int(lo), int(hi) + 1) if v not in ne], True
    lo = int(max(lo, -(1 << 62))); hi = int(min(hi, 1 << 62))
    r = random.Random(7)
    c = {lo, lo + 1, lo + 2, hi, hi - 1, (lo + hi) // 2} | {v for v in (0, 1, 2, 3, 7, 8, 9, 100, 255, 256, 257, 1000, 65535) if lo <= v <= hi}
    for _ in range(6): c.add(r.randint(lo, hi)); c.add(r.randint(max(lo, 0), min(hi, 5000)) if lo <= 5000 and hi >= 0 else lo)
    return sorted(c), False
SPLIT = ('clamp', 'min', 'max', 'ite', 'wrap', 'b2i')
def op_atoms(x, out):
    """op atoms in x, innermost first"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            if a.op is not None and a not in out:
                for y in a.args: op_atoms(y, out)
                if a not in out: out.append(a)
    elif isinstance(x, Cond):
        if x.k in ('le', 'eq', 'ne'): op_atoms(x.a, out)
        elif x.k in ('atom', 'natom'): op_atoms(lin(x.a), out)
        elif x.k != 'const':
            for y in x.a: op_atoms(y, out)
    return out
def subst(st, x, a, r):
    if isinstance(x, Lin):
        if not any(b is a or b.op is not None for b, _ in x.t): return x
        out = const(x.c)
        for b, k in x.t: out = add(out, scale(r if b is a else subst_atom(st, b, a, r), k))
        return out
    if isinstance(x, Cond):
        if x.k == 'const': return x
        if x.k in ('le', 'eq', 'ne'): return {'le': c_le, 'eq': c_eq, 'ne': c_ne}[x.k](subst(st, x.a, a, r))
        if x.k in ('atom', 'natom'):
            y = r if x.a is a else subst_atom(st, x.a, a, r)
            if y.single() is not None: return Cond(x.k, y.single())
            return c_ne(y) if x.k == 'atom' else c_eq(y)
        f = c_and if x.k == 'and' else c_or
        return f(*[subst(st, y, a, r) for y in x.a])
    return x
def subst_atom(st, b, a, r):
    if b.op is None: return lin(b)
    n = tuple(subst(st, y, a, r) for y in b.args)
    if n == b.args: return lin(b)
    if b.op == 'mul': return state.mul_atom(st, n[0], n[1])
    if all(not isinstance(y, (Lin, Cond)) or (y.is_const() if isinstance(y, Lin) else y.k == 'const') for y in n):
        v = eval_atom_args(b, n)
        if v is not None: return const(v)
    return lin(atom((b.key[0],) + n, b.lo, b.hi, b.op, n))
def eval_atom_args(b, n):
    f = EVAL.get(b.op)
    if f is None: return None
    try: return f(*[y.c if isinstance(y, Lin) else y.a if isinstance(y, Cond) else y for y in n])
    except Exception: return None
def split_cases(st, a):
    g = a.args
    if a.op == 'clamp': return [(c_le(sub(g[0], const(g[1]))), const(g[1])), (c_le(sub(const(g[2]), g[0])), const(g[2])), (c_and(c_le(sub(const(g[1] + 1), g[0])), c_le(sub(g[0], const(g[2] - 1)))), g[0])] if g[1] < g[2] else [(TRUE, const(g[1]))]
    if a.op == 'min': return [(c_le(sub(g[0], g[1])), g[0]), (c_le(add(sub(g[1], g[0]), const(1))), g[1])]
    if a.op == 'max': return [(c_le(sub(g[0], g[1])), g[1]), (c_le(add(sub(g[1], g[0]), const(1))), g[0])]
    if a.op == 'ite': return [(g[0], g[1]), (c_not(g[0]), g[2])]
    if a.op == 'b2i': return [(g[0], const(1)), (c_not(g[0]), const(0))]
    if a.op == 'wrap':
        lo, hi = st.iv(g[0]); bits, sg = g[1], g[2]
        base = -(1 << (bits - 1)) if sg else 0
        if lo == -INF or hi == INF: return None
        p0, p1 = (int(lo) - base) >> bits, (int(hi) - base) >> bits
        if p1 - p0 > 4: return None
        r = []
        for p in range(p0, p1 + 1):
            x = add(g[0], const(-(p << bits)))
            r.append((c_and(c_le(sub(const(base), x)), c_le(sub(x, const(base + (1 << bits) - 1)))), x))
        return r
def prove_eq(st, a, b, depth=6, done=()):
    """equality of two terms by splitting on the piecewise operators in them"""
    if isinstance(a, Lin):
        if st.decide(c_eq(sub(a, b))) is True: return True
    else:
        ra, rb = st.decide(a), st.decide(b)
        if ra is not None and ra == rb: return True
        if a == b: return True
    if depth == 0: return None
    todo = op_atoms(b, op_atoms(a, []))
    own = len(todo)
    for c in list(st.cons) + list(st.facts):
        op_atoms(c, todo)
    for i, x in enumerate(todo):
        if x.op not in SPLIT or x.imp or i >= own and any(x is y for y in done): continue
        cs = split_cases(st, x)
        if cs is None: continue
        for cond, rep in cs:
            s = st.copy()
            if not s.assume(cond): continue
            ok = True
            for c in s.cons:
                if x in op_atoms(c, []) and not s.assume(c_le(subst(s, c, x, rep))): ok = False; break
            for c in s.facts if ok else ():
                if x in op_atoms(c, []) and not s.assume(subst(s, c, x, rep)): ok = False; break
            if not ok: continue
            if prove_eq(s, subst(s, a, x, rep), subst(s, b, x, rep), depth - 1, done + (x,)) is not True: return None
        return True
    return None
def scalar_eq(st, a, b, limit=70000):
    """True / False (with a witness) / None"""
    if isinstance(a, Cond) != isinstance(b, Cond):
        a = a if isinstance(a, Cond) else c_ne(a); b = b if isinstance(b, Cond) else c_ne(b)
    if a == b: return True
    if isinstance(a, Lin):
        r = st.decide(c_eq(sub(a, b)))
        if r is True: return True
    else:
        ra, rb = st.decide(a), st.decide(b)
        if ra is not None and ra == rb: return True
    deps = sorted(a.deps() | b.deps(), key=lambda x: x.id)
    if a.imprecise() or b.imprecise() or any(d.imp for d in deps) or st_imprecise(st): return None
    if prove_eq(st, a, b) is True: return True
    val = eval_lin if isinstance(a, Lin) else eval_cond
    more = sorted(st_deps(st) - set(deps), key=lambda x: x.id)
    cs = [cand(st, d) for d in deps]
    n = 1
    for c, _ in cs: n *= max(1, len(c))
    if n <= limit and all(e for _, e in cs):
        unk = False
        tried = 0
        for vs in itertools.product(*[c for c, _ in cs]):
            env = dict(zip(deps, vs))
            x, y = val(a, env), val(b, env)
            if x is None or y is None: unk = True; continue
            if x != y and consistent(st, env):
                if witness(st, env, more): return False
                unk = True; tried += 1
                if tried >= 200: return None
        return None if unk else True
    if isinstance(a, Lin):
        for d in (sub(a, b), sub(b, a)):
            s2 = st.copy()
            if s2.assume(c_le(add(d, const(1)))):
                env = model(s2, deps, 4)
                if env is not None:
                    x, y = val(a, env), val(b, env)
                    if x is not None and y is not None and x != y: return False
    rnd = random.Random(11); tried = 0
    for i in range(300):
        env = {d: (c[0] if i == 0 else c[-1] if i == 1 else rnd.choice(c)) for d, (c, _) in zip(deps, cs)}
        x, y = val(a, env), val(b, env)
        if x is None or y is None or x == y: continue
        if consistent(st, env):
            tried += 1
            if witness(st, env, more): return False
            if tried >= 20: return None
    return None
def witness(st, env, more):
    """extend env over the remaining path-condition atoms to a full model of the path condition"""
    s = st.copy()
    for a, v in env.items():
        if not s.assume(c_eq(sub(lin(a), const(v)))): return False
    return model(s, (), 3, env) is not None
def infeasible(st):
    """the bounds of some operation contradict what the path condition implies about it"""
    for a, (l, h) in st.bnd.items():
        if a.op and (l > a.lo and st.le(sub(lin(a), const(l - 1))) or h < a.hi and st.le(sub(const(h + 1), lin(a)))): return True
    cl = [(a, l, h) for a, (l, h) in st.bnd.items() if a.op == 'clamp' and (l > a.args[1] or h < a.args[2])]
    if cl:
        st = st.copy()
        for a, l, h in cl:             # strictly inside one end: the clamped value is on the other side of it
            if l > a.args[1] and not st.assume(c_le(sub(lin(a), a.args[0]))): return True
            if h < a.args[2] and not st.assume(c_le(sub(a.args[0], lin(a)))): return True
    if any(c.k == 'le' and st.le(add(neg(c.a), const(1))) for c in (c_le(x) for x in st.cons)): return True
    return any(f.k == 'or' and all(st.decide(x) is False for x in f.a) for f in st.facts)
def model(st, extra=(), tries=6, env0=None):
    """a concrete assignment satisfying the path condition of st, built atom by atom with propagation; None when none was found"""
    atoms_ = sorted((st_deps(st) | set(extra)) - set(env0 or ()), key=lambda x: x.id)
    rnd = random.Random(5)
    for t in range(tries):
        s = st.copy(); env = dict(env0 or {}); ok = True
        order = list(atoms_)
        if t: rnd.shuffle(order)
        for a in order:
            m = s.vset.get(a); lo, hi = s.aiv(a)
            if m is not None: cs = state.mask_vals(m); cs = cs if len(cs) <= 4 else [cs[0], cs[-1]] + [rnd.choice(cs) for _ in range(6)]
            else:
                lo, hi = int(max(lo, -(1 << 62))), int(min(hi, 1 << 62))
                if lo > hi: ok = False; break
                cs = [lo, min(lo + 1, hi), hi, (lo + hi) // 2] + [rnd.randint(lo, hi), rnd.randint(lo, min(hi, lo + 5000)), rnd.randint(lo, min(hi, lo + 60))]
                if t: rnd.shuffle(cs)
            for v in cs:
                s2 = s.copy()
                if s2.assume(c_eq(sub(lin(a), const(v)))):
                    s = s2; env[a] = v; break
            else: ok = False; break
        if ok and consistent(st, env): return env
    return None
def crash_sites(I, limit=200, inputs=None):
    """(function, kind, description, True/None) of the collected obligations that fail: True when a concrete input reaches the failure"""
    r = {}; tries = {}
    for st, cond, fr, kind, desc, line in I.crashes or ():
        loc = interp.fr_local(fr)
        k = ('%s' % loc.fn['path'] if loc else '?', kind, desc)
        if r.get(k) is True: continue
        s = st.copy()
        ok = s.assume(c_not(cond))
        if ok is False: continue
        tries[k] = tries.get(k, 0) + 1
        if tries[k] > limit: r.setdefault(k, None); continue
        if inputs and any(not inputs(a) for a in st_deps(s) if not a.op): r.setdefault(k, None); continue
        m = None if st_imprecise(s) or cond.imprecise() else model(s)
        r[k] = True if m is not None else r.get(k)
    return r
def crash_obs(c, label, where, limit=20, inputs=None):
    """one obligation per construct of the collected ones that can fail (index, unwrap, overflow, panic), and one for the rest"""
    I = c.S.I
    sites = crash_sites(I, limit, inputs); I.crashes = None
    c.ob(label, True)
    for (f, kind, desc), bad in sites.items():
        c.ob('%s | %s %s in %s' % (label, kind, desc, f), False if bad else None, '%s: %s %s can fail in %s' % (where, kind, desc, f), f)
def conj(rs):
    r = True
    for x in rs:
        if x is False: return False
        if x is None: r = None
    return r
def eqv(S, st, a, b, fuel=12):
    I = S.I
    if fuel == 0: return None
    try:
        a = S.whnf(st, a); b = S.whnf(st, b)
    except Undecided: return None
    if a is b or a == b: return True
    if isinstance(a, (Lin, Cond)) and isinstance(b, (Lin, Cond)): return scalar_eq(st, a, b)
    if isinstance(a, (SymV, Agg)) and isinstance(b, (SymV, Agg)):
        if a.ty != b.ty: return False if not (val_imprecise(a) or val_imprecise(b)) else None
        t = I.ty(a.ty)
        if t['k'] == 'adt' and len(t['v']) == 1 or t['k'] in ('tuple', 'closure'):
            if isinstance(a, SymV): a = I.expand(a)
            if isinstance(b, SymV): b = I.expand(b)
            if not (isinstance(a, Agg) and isinstance(b, Agg)): return None
            return conj(eqv(S, st, x, y, fuel - 1) for x, y in zip(a.fs, b.fs))
        if t['k'] == 'adt':
            r = scalar_eq(st, I.discr_lin(st, a, a.ty), I.discr_lin(st, b, b.ty))
            if r is not True: return r
            va = a.var if isinstance(a, Agg) else None; vb = b.var if isinstance(b, Agg) else None
            if va is None and vb is None:
                if all(not v['f'] for v in t['v']): return True
                for i in range(len(t['v'])):
                    if st.decide(c_eq(sub(I.discr_lin(st, a, a.ty), const(I.variant_discr(t, i))))) is True: va = vb = i
                if va is None: return None
            i = va if va is not None else vb
            if not t['v'][i]['f']: return True
            return conj(eqv(S, st, I.proj(st, a, ('v', i, j)) if isinstance(a, SymV) else a.fs[j],
                            I.proj(st, b, ('v', i, j)) if isinstance(b, SymV) else b.fs[j], fuel - 1) for j in range(len(t['v'][i]['f'])))
        return None
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        if a.explicit() and b.explicit():
            if len(a.segs) != len(b.segs): return False
            return conj(eqv(S, st, x, y, fuel - 1) for x, y in zip(a.items(), b.items()))
        r = scalar_eq(st, a.length(), b.length())
        if r is False: return False
        n = a.length() if a.length().is_const() else b.length()
        if n.is_const() and n.c <= 600 and r is True:
            return conj(eqv(S, st, I.seq_get(st, a, const(i)), I.seq_get(st, b, const(i)), fuel - 1) for i in range(n.c))
        if r is True and len(a.segs) == len(b.segs):
            ok = True
            for p, q in zip(a.segs, b.segs):
                if p[0] == q[0] == 'e': x = eqv(S, st, p[1], q[1], fuel - 1)
                elif p[0] == q[0] == 's': x = True if p == q else (None if p[1] == q[1] else None)
                else: x = None
                ok = conj([ok, x])
            return ok
        return None
    if isinstance(a, OpV) and isinstance(b, OpV):
        if fargs(a, b) is not None:
            if val_imprecise(a) or val_imprecise(b): return None
            r = scalar_eq(st, c_atom(atom(('fcmp', 'Eq', a, b), 0, 1, 'fcmp', ('Eq', a, b) + fargs(a, b), name='f==(%r,%r)' % (a, b))), TRUE)
            return r
        if a.op == 'str' == b.op and all(p[0] == 'lit' for p in a.args + b.args): return ''.join(p[1] for p in a.args) == ''.join(p[1] for p in b.args)
        return None
    return None
def bind(st, pairs):
    """refine st with atom=value; None when infeasible"""
    s = st.copy()
    for a, v in pairs:
        if not s.assume(c_eq(sub(a, const(v)))): return None
    return s
