"""Trace-partitioned abstract interpreter over the dumped MIR.

A function is interpreted over abstract states (memory of immutable value trees plus
numeric facts).  Control flow splits at switches whose outcome the facts do not
determine; loops are unrolled while their exits are determined and summarised by an
inductive-invariant fixpoint otherwise.  No code is executed and no solver is used."""
import struct, math, sys, time
from terms import *
from state import *
from values import *
sys.setrecursionlimit(20000)

class Limit(Exception): pass
class Undecided(Exception):
    """the analysis lost the precision needed"""

INT_BITS = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
            'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1)}
def int_range(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
MAXLEN = (1 << 63) - 1
LOCALS = ('thermal_parser', 'thermal_renderer', 'core', 'alloc', 'std')

class Frame:
    __slots__ = ('fid', 'fn', 'depth', 'caller')
    def __init__(self, fid, fn, depth, caller): self.fid = fid; self.fn = fn; self.depth = depth; self.caller = caller

class Ob:
    """one discharged or failed obligation"""
    __slots__ = ('fn', 'kind', 'desc', 'ok', 'line', 'file', 'why', 'imp', 'stack')
    def __init__(self, **k):
        for a, b in k.items(): setattr(self, a, b)
    def key(self): return '%s | %s | %s' % (self.fn, self.kind, self.desc)

class Interp:
    def __init__(self, P):
        self.P = P
        self.fidc = 0; self.hc = 0
        self.steps = 0; self.max_steps = 4000000; self.max_paths = 6000
        self.crashes = None     # list: states in which an obligation is not known to hold
        self.obs = {}            # key -> [n ok, n fail, example]
        self.record = 1
        self.models = {}
        self.pmodels = []        # (predicate, fn)
        self.hooks = {}
        self.unknown_calls = {}; self.opaque_terms = {}; self.utf8_chars = False
        self.max_depth = 60
        self.visited = set()
        self.loopinfo = {}
        self.decided_dyn = None
        self.virtual_hook = None
        self.noinline = set()
        self.copyty = {}
        self.trace_on = False
        self.loop_log = []
        self.faithful = {}
        self.deadline = None
        self._tycache = {}
        self.writes = None       # when a set: records stores to non-local bases
        import models, stdmore
        models.install(self)
        self.opaque = models.m_opaque

    # ------------------------------------------------------------------ types
    def ty(self, i): return self.P.types[i]
    def tname(self, i): return self.P.types[i]['name']
    def intinfo(self, t):
        k = t['k']
        if k == 'int':
            b = t['b']
            return (b, 1 if t['s'] else 0)
        if k == 'char': return (32, 0)
        return None
    def adt_is(self, t, *names):
        return t['k'] == 'adt' and t['path'] in names
    def is_vec(self, t): return t['k'] == 'adt' and t['path'] in ('alloc::vec::Vec', 'std::vec::Vec')
    def is_string(self, t): return t['k'] == 'adt' and t['path'] in ('alloc::string::String', 'std::string::String')
    def is_box(self, t): return t['k'] == 'adt' and t['path'] in ('alloc::boxed::Box', 'std::boxed::Box')
    def is_rc(self, t): return t['k'] == 'adt' and t['path'] in ('alloc::rc::Rc', 'std::rc::Rc', 'alloc::sync::Arc', 'std::sync::Arc')
    def is_map(self, t): return t['k'] == 'adt' and t['path'].endswith('::HashMap')
    def transparent(self, t):
        return t['k'] == 'adt' and t['path'].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'UnsafeCell', 'Unique', 'NonNull', 'BoxRaw', 'Cell', 'MaybeDangling')
    def find_ty(self, name):
        for t in self.P.types:
            if t and t['name'] == name: return t['id']
        return None
    def ty_by_path(self, path):
        r = self._tycache.get(path)
        if r is None:
            for t in self.P.types:
                if t and t['k'] == 'adt' and t['path'] == path: r = t['id']; break
            self._tycache[path] = r
        return r
    def variant_index(self, tid, name):
        for i, v in enumerate(self.ty(tid)['v']):
            if v['n'] == name: return i
        raise KeyError(name)
    def variant_discr(self, t, i):
        d = t['v'][i]['d']
        d = int(d) if d is not None else i
        return d

    # ------------------------------------------------------------------ symbolic values
    def sym_value(self, tid, name, imp=False):
        t = self.ty(tid); k = t['k']
        if k == 'int':
            lo, hi = int_range(t['b'], t['s'])
            return lin(atom(('sym', name), lo, hi, imp=imp, name=name))
        if k == 'char': return lin(atom(('sym', name), 0, 0x10ffff, imp=imp, name=name))
        if k == 'bool': return c_atom(atom(('sym', name), 0, 1, imp=imp, name=name))
        if k == 'float': return OpV('fsym', (name,), imp=imp)
        if k in ('ref', 'ptr'):
            e = self.ty(t['e'])
            if e['k'] in ('slice', 'str'):
                return RefV(('S', name + '*', t['e']), (), None)
            return RefV(('S', name + '*', t['e']))
        if k == 'str': return OpV('str', (('sym', name),), imp=imp)
        if k == 'slice':
            return SeqV((('s', name, const(0), lin(sym(name + '.len', 0, MAXLEN, imp))),), t['e'])
        if k == 'array':
            n = t['n']
            return SeqV(tuple(('e', self.sym_value(t['e'], '%s[%d]' % (name, i), imp)) for i in range(n)), t['e']) if n <= 64 else \
                SeqV((('s', name, const(0), const(n)),), t['e'])
        if k == 'tuple':
            return Agg(tid, 0, [self.sym_value(x, '%s.%d' % (name, i), imp) for i, x in enumerate(t['f'])])
        if k == 'adt':
            if self.is_vec(t):
                return SeqV((('s', name, const(0), lin(sym(name + '.len', 0, MAXLEN, imp))),), t['targs'][0])
            if self.is_string(t): return OpV('str', (('sym', name),), imp=imp)
            if self.is_box(t): return BoxV(('S', name + '*', t['targs'][0]))
            if self.is_rc(t): return RcV(('S', name + '*', t['targs'][0]))
            if self.is_map(t): return OpV('map', (name,), imp=imp)
            if t['ak'] == 'struct' or len(t['v']) == 1:
                if len(t['v'][0]['f']) <= 40 and self.expandable(t):
                    return Agg(tid, 0, [self.sym_value(ft, '%s.%s' % (name, fn), imp) for fn, ft in t['v'][0]['f']])
        return SymV(name, tid, imp)
    def expandable(self, t):
        # recursive types are kept lazy; Box/Rc/Vec stop recursion anyway
        return t['crate'].startswith('thermal') or t['path'].split('::')[-1] in ('Range', 'RangeInclusive')
    def fresh_value(self, tid, prefix='h', imp=True):
        self.hc += 1
        return self.sym_value(tid, '%s#%d' % (prefix, self.hc), imp)
    def discr_lin(self, st, v, tid):
        """discriminant value of an enum value"""
        t = self.ty(tid)
        if isinstance(v, Agg):
            if t['k'] != 'adt' or t['ak'] != 'enum': return const(0)
            return const(self.variant_discr(t, v.var))
        if isinstance(v, SymV):
            ds = [self.variant_discr(t, i) for i in range(len(t['v']))]
            return lin(atom(('sym', v.name + '.$d'), min(ds), max(ds), imp=v.imp, name=v.name + '.$d'))
        if isinstance(v, OpV) and v.op == 'ite': 
            return lin(atom(('discr', v), -1 << 31, 1 << 31, 'discrop', (), name='discr(%r)' % (v,), imp=v.imp))
        raise Undecided('discriminant of %r' % (v,))

    # ------------------------------------------------------------------ constants
    def const_val(self, st, c):
        tid = c['t']; t = self.ty(tid)
        if 'z' in c or ('a' not in c and 'u' not in c): return self.zst(tid)
        if 'u' in c: return OpV('konst', (c.get('u'),))
        return self.decode(tid, bytes.fromhex(c['a']['hex'].replace('??', '00')), c['a']['p'], 0)
    def zst(self, tid):
        t = self.ty(tid); k = t['k']
        if k == 'tuple': return Agg(tid, 0, [self.zst(x) for x in t['f']])
        if k == 'array': return SeqV((), t['e'])
        if k == 'adt' and t['v']: return Agg(tid, 0, [self.zst(ft) for _, ft in t['v'][0]['f']])
        return Agg(tid, 0, [])
    def decode(self, tid, b, prov, off):
        t = self.ty(tid); k = t['k']
        pv = {int(o): a for o, a in prov.items()} if not isinstance(prov, list) else {int(o): a for o, a in prov}
        return self._dec(tid, b, pv, off)
    def _dec(self, tid, b, pv, off):
        t = self.ty(tid); k = t['k']
        L = t
        if k == 'int':
            n = t['b'] // 8
            return const(int.from_bytes(b[off:off + n], 'little', signed=bool(t['s'])))
        if k == 'char': return const(int.from_bytes(b[off:off + 4], 'little'))
        if k == 'bool': return TRUE if b[off] else FALSE
        if k == 'float':
            n = t.get('b', 32)
            return OpV('f', (struct.unpack('<f' if n == 32 else '<d', b[off:off + n // 8])[0],))
        if k in ('ref', 'ptr'):
            e = self.ty(t['e'])
            base = pv.get(off)
            addend = int.from_bytes(b[off:off + 8], 'little')
            if base is None: return RefV(('D', tid, addend))
            if e['k'] in ('str', 'slice'):
                ln = int.from_bytes(b[off + 8:off + 16], 'little')
                return RefV(('K', base, t['e'], addend, ln))
            if e['k'] == 'dyn': return RefV(('K', base, t['e'], addend, 0))
            al = self.P.allocs[base]
            if al['k'] == 'static': return RefV(('G', al['name']))
            return RefV(('K', base, t['e'], addend, None))
        if k == 'tuple':
            offs = L['offs']
            return Agg(tid, 0, [self._dec(x, b, pv, off + offs[i]) for i, x in enumerate(t['f'])])
        if k == 'array':
            st_ = self.size_of(t['e'])
            return SeqV(tuple(('e', self._dec(t['e'], b, pv, off + i * st_)) for i in range(t['n'])), t['e'])
        if k == 'adt':
            if t['ak'] == 'union': return OpV('union', (bytes(b[off:off + self.size_of(tid)]),))
            var = 0
            if t['ak'] == 'enum':
                if L.get('single') is not None: var = L['single']
                else:
                    ts = L['tagsz']; to = L['offs'][L['tagf']] if L.get('offs') else 0
                    tag = int.from_bytes(b[off + to:off + to + ts], 'little')
                    enc = L['enc']
                    if enc == 'direct':
                        for i in range(len(t['v'])):
                            d = self.variant_discr(t, i) & ((1 << (8 * ts)) - 1)
                            if d == tag: var = i
                    else:
                        dv, n0, n1, start = enc['untagged'], enc['lo'], enc['hi'], int(enc['start'])
                        rel = (tag - start) & ((1 << (8 * ts)) - 1)
                        var = n0 + rel if rel <= n1 - n0 and (off + to) not in pv else dv
                offs = L['voffs'][var] if L.get('voffs') else L.get('offs', [])
            else:
                offs = L['offs']
            return Agg(tid, var, [self._dec(ft, b, pv, off + offs[i]) for i, (_, ft) in enumerate(t['v'][var]['f'])])
        if k == 'never': return Agg(tid, 0, [])
        if k in ('fndef', 'closure'): return Agg(tid, 0, [])
        if k == 'fnptr': return OpV('fnptr', (pv.get(off),))
        raise Undecided('decode ' + t['name'])
    def size_of(self, tid):
        t = self.ty(tid)
        if t.get('size') is not None: return t['size']
        if t['k'] == 'int': return t['b'] // 8
        if t['k'] == 'bool': return 1
        if t['k'] in ('char',): return 4
        if t['k'] == 'float': return t.get('b', 32) // 8
        raise Undecided('size_of ' + t['name'])
    def load_const_base(self, base):
        kind = base[0]
        if kind == 'K':
            _, ai, tid, add_, ln = base
            al = self.P.allocs[ai]
            if al['k'] == 'static': return self.load_const_base(('G', al['name']))
            if al['k'] == 'fn': return OpV('fn', (ai,))
            if al['k'] != 'mem': raise Undecided('const alloc ' + al['k'])
            b = bytes.fromhex(al['a']['hex'].replace('??', '00')); p = al['a']['p']
            t = self.ty(tid)
            if t['k'] == 'str':
                return OpV('str', (('lit', b[add_:add_ + ln].decode('utf8', 'replace')),))
            if t['k'] == 'slice':
                sz = self.size_of(t['e'])
                return SeqV(tuple(('e', self.decode(t['e'], b, p, add_ + i * sz)) for i in range(ln)), t['e'])
            return self.decode(tid, b, p, add_)
        if kind == 'G':
            s = self.P.statics[base[1]]
            if not s['init']: raise Undecided('static ' + base[1])
            return self.decode(s['ty'], bytes.fromhex(s['init']['hex'].replace('??', '00')), s['init']['p'], 0)
        raise Undecided('base %r' % (base,))

    # ------------------------------------------------------------------ memory
    def base_val(self, st, base):
        v = st.mem.get(base)
        if v is not None: return v
        k = base[0]
        if k == 'S':
            v = self.sym_value(base[2], base[1], base[1].startswith('h#'))
            if isinstance(v, SymV) and self.ty(base[2])['k'] == 'dyn': pass
            st.mem[base] = v
            return v
        if k in ('K', 'G'):
            v = self.load_const_base(base)
            st.mem[base] = v
            return v
        if k == 'D': return OpV('dangling', base[1:])
        raise Undecided('uninitialised %r' % (base,))
    def proj(self, st, v, e):
        """value projection"""
        if e[0] == 'f':
            if isinstance(v, Agg):
                if e[1] < len(v.fs): return v.fs[e[1]]
                raise Undecided('field %r of %r' % (e, v))
            if isinstance(v, SymV):
                t = self.ty(v.ty)
                if t['k'] == 'adt':
                    fn, ft = t['v'][0]['f'][e[1]]
                    return self.sym_value(ft, '%s.%s' % (v.name, fn), v.imp)
                if t['k'] == 'tuple': return self.sym_value(t['f'][e[1]], '%s.%d' % (v.name, e[1]), v.imp)
                if t['k'] == 'closure': return self.sym_value(t['ups'][e[1]], '%s.%d' % (v.name, e[1]), v.imp)
            raise Undecided('field of %r' % (v,))
        if e[0] == 'v':     # (variant, field)
            if isinstance(v, Agg): return v.fs[e[2]]
            if isinstance(v, SymV):
                t = self.ty(v.ty)
                vn = t['v'][e[1]]
                fn, ft = vn['f'][e[2]]
                return self.sym_value(ft, '%s@%s.%s' % (v.name, vn['n'], fn), v.imp)
            raise Undecided('variant field of %r' % (v,))
        if e[0] == 'i':
            return self.seq_get(st, v, e[1])
        raise Undecided('proj %r' % (e,))
    def load(self, st, base, path):
        v = self.base_val(st, base)
        for e in path: v = self.proj(st, v, e)
        return v
    def upd(self, st, v, path, x):
        if not path: return x
        e = path[0]
        if e[0] == 'f':
            if isinstance(v, SymV): v = self.expand(v)
            if not isinstance(v, Agg):
                raise Undecided('store field of %r' % (v,))
            return v.with_(e[1], self.upd(st, v.fs[e[1]], path[1:], x))
        if e[0] == 'v':
            if isinstance(v, SymV): v = self.expand_variant(v, e[1])
            if not isinstance(v, Agg): raise Undecided('store variant field of %r' % (v,))
            return v.with_(e[2], self.upd(st, v.fs[e[2]], path[1:], x))
        if e[0] == 'i':
            old = self.seq_get(st, v, e[1]) if path[1:] else None
            return self.seq_set(st, v, e[1], self.upd(st, old, path[1:], x))
        raise Undecided('store %r' % (e,))
    def expand(self, v):
        t = self.ty(v.ty)
        if t['k'] == 'adt' and len(t['v']) == 1:
            return Agg(v.ty, 0, [self.sym_value(ft, '%s.%s' % (v.name, fn), v.imp) for fn, ft in t['v'][0]['f']])
        if t['k'] == 'tuple':
            return Agg(v.ty, 0, [self.sym_value(ft, '%s.%d' % (v.name, i), v.imp) for i, ft in enumerate(t['f'])])
        raise Undecided('expand %r' % (v,))
    def expand_variant(self, v, i):
        t = self.ty(v.ty); vn = t['v'][i]
        return Agg(v.ty, i, [self.sym_value(ft, '%s@%s.%s' % (v.name, vn['n'], fn), v.imp) for fn, ft in vn['f']])
    def store(self, st, base, path, x):
        if self.writes is not None and base[0] in ('S', 'G'): self.writes.add((base, path_key(path)))
        if not path: st.mem[base] = x; return
        v = st.mem.get(base)
        if v is None: v = self.base_val(st, base)
        st.mem[base] = self.upd(st, v, path, x)

    # ------------------------------------------------------------------ sequences
    def seq_elem_sym(self, src, idx, ety):
        if isinstance(src, tuple) and src[0] == 'fn':      # ('fn', callable key ...)
            return src[1](idx)
        nm = '%s[%r]' % (src, idx)
        return self.sym_value(ety, nm, src.startswith('h#'))
    def seq_get(self, st, v, idx):
        if not isinstance(v, SeqV): raise Undecided('index of %r' % (v,))
        # walk the segments while positions are determined
        pos = const(0)
        if v.explicit():
            if idx.is_const():
                if 0 <= idx.c < len(v.segs): return v.segs[idx.c][1]
                raise Undecided('index out of range')
            its = v.items()
            if its and all(x == its[0] for x in its): return its[0]
            # constant table indexed by a term
            if its and all(isinstance(x, Lin) and x.is_const() for x in its):
                lo = min(x.c for x in its); hi = max(x.c for x in its)
                key = ('tab', tuple(x.c for x in its), idx)
                return lin(atom(key, lo, hi, 'tab', (idx, tuple(x.c for x in its)), name='tab[%r]' % (idx,)))
            return self.fresh_elem(v, idx)
        segs = v.segs
        if idx.is_const():
            p = 0
            for i, s in enumerate(segs):
                if s[0] == 'e':
                    if p == idx.c: return s[1]
                    p += 1; continue
                if not s[-1].is_const() or p + s[-1].c > idx.c: pos = const(p); segs = segs[i:]; break
                p += s[-1].c
        for s in segs:
            n = const(1) if s[0] == 'e' else s[-1]
            rel = sub(idx, pos)
            end = add(pos, n)
            inside = st.decide(c_le(add(sub(idx, end), const(1))))
            if inside is True:
                if s[0] == 'e':
                    return s[1]
                if s[0] == 's':
                    return self.seq_elem_sym(s[1], add(s[2], rel), v.ety)
                if s[0] == 'm':
                    if s[1] is not None: return s[1]
                    return self.fresh_elem(v, idx)
            if inside is None:
                return self.fresh_elem(v, idx)
            pos = end
        raise Undecided('index past end')
    def fresh_elem(self, v, idx):
        return self.sym_value(v.ety, 'h#el(%x)[%r]' % (hash(v) & 0xffffffffffff, idx), True)
    def seq_split(self, st, v, k):
        """split at Lin position k: (left segs, right segs) or None"""
        left = []; pos = const(0); segs = list(v.segs)
        if k.is_const():
            p = 0; kc = k.c
            for i, s in enumerate(segs):
                if p == kc: return tuple(segs[:i]), tuple(segs[i:])
                if s[0] == 'e': p += 1; continue
                if not s[-1].is_const(): break
                n = s[-1].c
                if p + n > kc:
                    if s[0] == 's': a, b = ('s', s[1], s[2], const(kc - p)), ('s', s[1], add(s[2], const(kc - p)), const(p + n - kc))
                    else: a, b = ('m', s[1], const(kc - p)), ('m', s[1], const(p + n - kc))
                    return tuple(segs[:i]) + (a,), (b,) + tuple(segs[i + 1:])
                p += n
            else:
                if p == kc: return tuple(segs), ()
        for i, s in enumerate(segs):
            if st.decide(c_eq(sub(k, pos))) is True: return tuple(left), tuple(segs[i:])
            n = const(1) if s[0] == 'e' else s[-1]
            end = add(pos, n)
            if st.decide(c_le(sub(k, end))) is True:
                if st.decide(c_eq(sub(k, end))) is True:
                    left.append(s); return tuple(left), tuple(segs[i + 1:])
                if s[0] == 'e': return None
                rel = sub(k, pos)
                if s[0] == 's':
                    a = ('s', s[1], s[2], rel); b = ('s', s[1], add(s[2], rel), sub(n, rel))
                else:
                    a = ('m', s[1], rel); b = ('m', s[1], sub(n, rel))
                return tuple(left) + (a,), (b,) + tuple(segs[i + 1:])
            if st.decide(c_le(sub(end, k))) is not True: return None
            left.append(s); pos = end
        if st.decide(c_eq(sub(k, pos))) is True: return tuple(left), ()
        return None
    def seq_set(self, st, v, idx, x):
        if v.explicit() and idx.is_const():
            segs = list(v.segs)
            segs[idx.c] = ('e', x)
            return SeqV(segs, v.ety)
        sp = self.seq_split(st, v, idx)
        if sp:
            sp2 = self.seq_split(st, SeqV(sp[1], v.ety), const(1))
            if sp2: return SeqV(sp[0] + (('e', x),) + sp2[1], v.ety)
        n = v.length()
        # weak update: keep the value only when it is uniform and equal
        u = None
        if len(v.segs) == 1 and v.segs[0][0] == 'm' and v.segs[0][1] == x: u = x
        return SeqV((('m', u, n),), v.ety)
    def seq_slice(self, st, v, a, b):
        """sub-sequence [a,b) or None"""
        sp = self.seq_split(st, v, a)
        if sp is None: return None
        sp2 = self.seq_split(st, SeqV(sp[1], v.ety), sub(b, a))
        if sp2 is None: return None
        return SeqV(norm_segs(st, sp2[0]), v.ety)
    def read_seq(self, st, ref):
        """SeqV seen through a slice reference"""
        v = self.load(st, ref.base, ref.path)
        if isinstance(v, SymV):
            raise Undecided('seq of %r' % (v,))
        if ref.view is None: return v
        off, ln = ref.view
        if isinstance(v, SeqV):
            s = self.seq_slice(st, v, off, add(off, ln))
            if s is not None: return s
            return SeqV((('m', None, ln),), v.ety)
        raise Undecided('slice of %r' % (v,))
    def ref_len(self, st, ref):
        if ref.view is not None: return ref.view[1]
        v = self.load(st, ref.base, ref.path)
        if isinstance(v, SeqV): return v.length()
        if isinstance(v, OpV): return self.str_len(st, v)
        raise Undecided('len of %r' % (v,))
    def str_len(self, st, v):
        if v.op == 'str' and all(p[0] == 'lit' for p in v.args):
            return const(sum(len(p[1].encode()) for p in v.args))
        import models
        if v.op == 'str' and all(p[0] == 'lit' or p[0] == 'chr' and models.clen(st, p[1]) is not None for p in v.args):
            return const(sum(len(p[1].encode()) if p[0] == 'lit' else models.clen(st, p[1]) for p in v.args))
        if v.op == 'str' and len(v.args) > 1:
            n = const(0)
            for p in v.args: n = add(n, self.str_len(st, OpV('str', (p,), imp=v.imp)))
            return n
        free = v.op == 'str' and v.args and v.args[0][0] == 'sym'          # an input string has any length; others depend on their content
        return lin(atom(('strlen', v), 0, MAXLEN, 'strlen', (), name='strlen(%r)' % (v,), imp=v.imp or not free))

    # ------------------------------------------------------------------ places
    def place(self, st, fr, p):
        """-> (base, path, view, tid of the place)"""
        base = ('L', fr.fid, p[0]); path = (); view = None
        tid = fr.fn['locals'][p[0]]
        var = None
        for e in p[1]:
            if e == '*':
                v = self.load(st, base, path)
                t = self.ty(tid)
                if isinstance(v, RefV): base, path, view = v.base, v.path, v.view
                elif isinstance(v, (BoxV,)): base, path, view = v.base, (), None
                elif isinstance(v, RcV): base, path, view = v.base, (), None
                else: raise Undecided('deref of %r' % (v,))
                if t['k'] in ('ref', 'ptr'): tid = t['e']
                elif self.is_box(t): tid = t['targs'][0]
                else: tid = t['targs'][0] if t.get('targs') else tid
                var = None
            elif e[0] == 'f':
                t = self.ty(tid)
                if self.transparent(t) or (self.is_box(t)):
                    tid = e[2] if e[2] >= 0 else tid
                    var = None
                    continue
                if var is not None: path = path + (('v', var, e[1]),)
                else: path = path + (('f', e[1]),)
                tid = e[2]; var = None
            elif e[0] == 'd':
                var = e[1]
                t = self.ty(tid)
                if t['k'] != 'adt' or t['ak'] != 'enum': var = None
            elif e[0] == 'i':
                idx = self.load(st, ('L', fr.fid, e[1]), ())
                if view is not None: idx = add(idx, view[0])
                path = path + (('i', idx),); view = None
                tid = self.ty(tid)['e']
            elif e[0] == 'ci':
                off = e[1]
                n = view[1] if view is not None else None
                if e[3]:
                    if n is None: n = self.ref_len(st, RefV(base, path))
                    idx = sub(n, const(off))
                else: idx = const(off)
                if view is not None: idx = add(idx, view[0])
                path = path + (('i', idx),); view = None
                tid = self.ty(tid)['e']
            elif e[0] == 'ss':
                frm, to, fe = e[1], e[2], e[3]
                n = view[1] if view is not None else self.ref_len(st, RefV(base, path))
                o = view[0] if view is not None else const(0)
                b = sub(n, const(to)) if fe else const(to)
                view = (add(o, const(frm)), sub(b, const(frm)))
            elif e[0] == 'o':
                tid = e[1]
            else: raise Undecided('place elem %r' % (e,))
        return base, path, view, tid
    def read(self, st, fr, p):
        base, path, view, tid = self.place(st, fr, p)
        if view is not None: return self.read_seq(st, RefV(base, path, view))
        return self.load(st, base, path)
    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'): return self.read(st, fr, o[1])
        if o[0] == 'k': return self.const_val(st, o[1])
        if o[0] == 'rt': return FALSE if 'ub' in str(o[1]).lower() else TRUE
        raise Undecided('operand %r' % (o,))

    # ------------------------------------------------------------------ rvalues
    def fit(self, st, x, bits, signed):
        """two's complement wrap of a Lin"""
        lo, hi = int_range(bits, signed)
        l, h = st.iv(x)
        if l >= lo and h <= hi: return x
        if x.is_const(): return const(wrapv(x.c, bits, signed))
        if st.decide(c_le(sub(x, const(hi)))) is True and st.decide(c_le(sub(const(lo), x))) is True: return x
        return lin(atom(('wrap', x, bits, signed), lo, hi, 'wrap', (x, bits, signed)))
    def inrange(self, x, bits, signed):
        lo, hi = int_range(bits, signed)
        return c_and(c_le(sub(x, const(hi))), c_le(sub(const(lo), x)))
    def as_lin(self, v):
        if isinstance(v, Lin): return v
        if isinstance(v, Cond):
            if v.k == 'const': return const(1 if v.a else 0)
            return lin(atom(('b2i', v), 0, 1, 'b2i', (v,)))
        if isinstance(v, RefV): return lin(atom(('addr', v), 4096, (1 << 63), 'addr', (), name='addr'))
        if isinstance(v, (BoxV, RcV)): return lin(atom(('addr', v), 4096, (1 << 63), 'addr', (), name='addr'))
        raise Undecided('int of %r' % (v,))
    def as_cond(self, v):
        if isinstance(v, Cond): return v
        if isinstance(v, Lin): return c_ne(v)
        raise Undecided('bool of %r' % (v,))
    def binop(self, st, op, a, b, tid, chk=False):
        t = self.ty(tid) if tid is not None and tid >= 0 else None
        if isinstance(a, OpV) and a.op == 'ite' or isinstance(b, OpV) and isinstance(b, OpV) and b.op == 'ite': pass
        if t and t['k'] == 'float': return self.fbin(st, op, a, b, t)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, Cond) or isinstance(b, Cond):
                if isinstance(a, Cond) and isinstance(b, Cond):
                    if op in ('Eq', 'Ne'):
                        for x, y in ((a, b), (b, a)):
                            if x.k == 'const':
                                r = y if x.a else c_not(y)
                                return r if op == 'Eq' else c_not(r)
                        r = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
                        return r if op == 'Eq' else c_not(r)
                a = self.as_lin(a); b = self.as_lin(b)
            if isinstance(a, (RefV, BoxV, OpV)) and isinstance(b, (RefV, BoxV, OpV)) and not isinstance(a, Lin):
                if a == b: return TRUE if op in ('Eq', 'Le', 'Ge') else FALSE
                raise Undecided('pointer compare')
            a = self.as_lin(a); b = self.as_lin(b)
            d = sub(a, b)
            if op == 'Eq': return c_eq(d)
            if op == 'Ne': return c_ne(d)
            if op == 'Lt': return c_le(add(d, const(1)))
            if op == 'Le': return c_le(d)
            if op == 'Gt': return c_le(add(neg(d), const(1)))
            return c_le(neg(d))
        if isinstance(a, Cond) and isinstance(b, Cond):
            if op == 'BitAnd': return c_and(a, b)
            if op == 'BitOr': return c_or(a, b)
            if op == 'BitXor': return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
        if op == 'Offset': raise Undecided('pointer arithmetic')
        if op == 'Cmp': raise Undecided('three-way compare')
        ii = self.intinfo(t) if t else None
        if ii is None: raise Undecided('binop %s on %s' % (op, t and t['name']))
        bits, sg = ii
        a = self.as_lin(a); b = self.as_lin(b)
        un = op.endswith('Unchecked')
        if un: op = op[:-9]
        if op in ('Add', 'Sub', 'Mul'):
            x = add(a, b) if op == 'Add' else (sub(a, b) if op == 'Sub' else mul_atom(st, a, b))
            if chk: return x, c_not(self.inrange(x, bits, sg))
            return x if un else self.fit(st, x, bits, sg)
        if op in ('Div', 'Rem'):
            if a.is_const() and b.is_const() and b.c != 0:
                q = tdiv(a.c, b.c)
                return const(q if op == 'Div' else a.c - b.c * q)
            if b.is_const() and b.c == 1: return a if op == 'Div' else const(0)
            # exact division of a multiple
            if op == 'Div' and b.is_const() and b.c > 0 and all(k % b.c == 0 for _, k in a.t) and a.c % b.c == 0:
                return Lin(tuple((q, k // b.c) for q, k in a.t), a.c // b.c) if a.t else const(a.c // b.c)
            lo, hi = int_range(bits, sg)
            return lin(atom((op, a, b), lo, hi, 'div' if op == 'Div' else 'rem', (a, b)))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.is_const() and b.is_const():
                v = {'BitAnd': a.c & b.c, 'BitOr': a.c | b.c, 'BitXor': a.c ^ b.c}[op]
                return const(wrapv(v, bits, sg))
            if a.is_const(): a, b = b, a
            l, h = st.iv(a)
            if b.is_const():
                m = b.c
                if op == 'BitAnd' and m == 0: return const(0)
                if op == 'BitAnd' and m >= 0 and l >= 0 and h < INF and (m & ((1 << int(h).bit_length()) - 1)) == ((1 << int(h).bit_length()) - 1): return a
                if op in ('BitOr', 'BitXor') and m == 0: return a
            if op == 'BitOr':
                # disjoint bit ranges: a|b = a+b
                if self.disjoint(st, a, b): return add(a, b)
                if not b.is_const() and not a.is_const() and self.disjoint(st, b, a): return add(a, b)
            k = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op]
            lo, hi = int_range(bits, sg)
            if not b.is_const() and repr(b) < repr(a): a, b = b, a
            return lin(atom((k, a, b, bits, sg), lo, hi, k, (a, b, bits, sg)))
        if op in ('Shl', 'Shr'):
            if b.is_const():
                s = b.c % bits
                if op == 'Shl':
                    return self.fit(st, scale(a, 1 << s), bits, sg)
                if not sg or st.lb(a) >= 0:
                    if all(k % (1 << s) == 0 for _, k in a.t): return Lin(tuple((q, k >> s) for q, k in a.t), a.c >> s) if a.t else const(a.c >> s)
                    return lin(atom(('Div', a, const(1 << s)), 0, int_range(bits, sg)[1], 'div', (a, const(1 << s))))
            if a.is_const() and b.is_const(): pass
            k = 'shl' if op == 'Shl' else 'shr'
            lo, hi = int_range(bits, sg)
            return lin(atom((k, a, b, bits, sg), lo, hi, k, (a, b, bits, sg)))
        raise Undecided('binop ' + op)
    def disjoint(self, st, a, b):
        """a is a multiple of 2^s and 0<=b<2^s"""
        g = 0
        for _, k in a.t: g = math.gcd(g, abs(k))
        g = math.gcd(g, abs(a.c))
        if g == 0: return True
        s = g & -g
        l, h = st.iv(b)
        return l >= 0 and h < s and st.lb(a) >= 0
    def fbin(self, st, op, a, b, t):
        n = t.get('b', 32)
        def r(x): return struct.unpack('<f', struct.pack('<f', x))[0] if n == 32 else x
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a.op == 'f' and b.op == 'f':
                x, y = a.args[0], b.args[0]
                v = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
                return TRUE if v else FALSE
            ls = fargs(a, b)
            return c_atom(atom(('fcmp', op, a, b), 0, 1, 'fcmp', (op, a, b) + ls if ls is not None else (), name='f%s(%r,%r)' % (op, a, b), imp=a.imp or b.imp))
        if a.op == 'f' and b.op == 'f':
            x, y = a.args[0], b.args[0]
            try:
                v = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y}[op]()
                return OpV('f', (r(v),))
            except (ZeroDivisionError, OverflowError): pass
        # exact identities of finite operands (the sign of a zero is not observed)
        for x, y, left in ((a, b, False), (b, a, True)):
            if y.op != 'f' or n != 32: continue
            q = y.args[0]; l, h = self.frange(st, x)
            if math.isinf(l) or math.isinf(h): continue
            if op == 'Mul' and q == 1.0 or op == 'Add' and q == 0.0 or not left and (op == 'Sub' and q == 0.0 or op == 'Div' and q == 1.0): return x
            if op == 'Mul' and q == 0.0 or left and op == 'Div' and q == 0.0 and l > 0: return OpV('f', (0.0,))
        return OpV('f' + op.lower(), (a, b), imp=n != 32 or val_imprecise(a) or val_imprecise(b))
    def cast(self, st, kind, v, f, t):
        ft = self.ty(f) if f >= 0 else None; tt = self.ty(t)
        if kind == 'IntToInt':
            if isinstance(v, Agg): v = self.discr_lin(st, v, f)
            if isinstance(v, SymV): v = self.discr_lin(st, v, f)
            x = self.as_lin(v)
            if tt['k'] == 'bool': return c_ne(x)
            bits, sg = self.intinfo(tt)
            return self.fit(st, x, bits, sg)
        if kind == 'IntToFloat':
            x = self.as_lin(v)
            n = tt.get('b', 32)
            if x.is_const():
                return OpV('f', (struct.unpack('<f', struct.pack('<f', float(x.c)))[0] if n == 32 else float(x.c),))
            return OpV('i2f', (x,), imp=n != 32 or x.imprecise())
        if kind == 'FloatToFloat':
            if v.op == 'f': return v
            return OpV('f2f', (v,), imp=v.imp)
        if kind == 'FloatToInt':
            bits, sg = self.intinfo(tt)
            lo, hi = int_range(bits, sg)
            if v.op == 'f':
                x = v.args[0]
                if math.isnan(x): return const(0)
                if math.isinf(x): return const(hi if x > 0 else lo)
                return const(max(lo, min(hi, int(x))))
            l, h = self.frange(st, v)
            if v.op == 'i2f' and max(abs(l), abs(h)) <= 1 << 24 and lo <= l and h <= hi: return v.args[0]
            l = lo if l == -INF else max(lo, min(hi, int(l))); h = hi if h == INF else max(lo, min(hi, int(h)))
            if l > h: l, h = lo, hi
            ls = fargs(v)
            return lin(atom(('f2i', v, bits, sg), l, h, 'f2i', (v, bits, sg) + ls if ls is not None else (), name='int(%r)' % (v,), imp=v.imp))
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'BoxDerefTransmute', 'Subtype'):
            if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'):
                return OpV('fnval', (f,))
            if isinstance(v, BoxV) and tt['k'] in ('ptr', 'ref'): return RefV(v.base)
            if isinstance(v, RefV) and 'Unsize' in kind and tt['k'] in ('ref', 'ptr') and self.ty(tt['e'])['k'] == 'slice': return v
            return v
        if kind == 'Transmute':
            if ft and tt and ft['k'] in ('ptr', 'ref') and tt['k'] == 'int': return self.as_lin(v)
            if ft and self.intinfo(ft) and self.intinfo(tt):
                bits, sg = self.intinfo(tt); return self.fit(st, self.as_lin(v), bits, sg)
            if tt['k'] in ('ptr', 'ref') and isinstance(v, (RefV, BoxV)): return v if isinstance(v, RefV) else RefV(v.base)
            if isinstance(v, SeqV) and self.intinfo(tt) and v.explicit() and ft and ft['k'] == 'array' and self.intinfo(self.ty(ft['e'])) == (8, 0):
                bits, sg = self.intinfo(tt); r = const(0)
                for i, x in enumerate(v.items()): r = add(r, scale(self.as_lin(x), 1 << 8 * i))
                return self.fit(st, r, bits, sg) if sg else r
            if ft and self.intinfo(ft) and tt['k'] == 'array' and self.intinfo(self.ty(tt['e'])) == (8, 0):
                bits, sg = self.intinfo(ft); x = self.as_lin(v); u = self.find_ty('u%d' % bits)
                if sg: x = self.fit(st, x, bits, 0)
                return SeqV([('e', self.as_lin(self.binop(st, 'BitAnd', self.as_lin(self.binop(st, 'Shr', x, const(8 * i), u)), const(255), u))) for i in range(bits // 8)], tt['e'])
            if tt['k'] == 'adt' and tt['path'].endswith('option::Option') and isinstance(v, Lin) and v.is_const() and ft and self.intinfo(ft):
                return Agg(t, self.variant_index(t, 'Some' if v.c else 'None'), [v] if v.c else [])
            if self.transparent(tt) or (ft and self.transparent(ft)): return v
            return OpV('transmute', (v, t), imp=True)
        if kind in ('PointerExposeAddress', 'PointerExposeProvenance'): return self.as_lin(v)
        raise Undecided('cast ' + kind)
    def frange(self, st, v):
        """interval of a float term"""
        if isinstance(v, Lin): return st.iv(v)
        if not isinstance(v, OpV): return -INF, INF
        if v.op == 'f': return v.args[0], v.args[0]
        if v.op == 'i2f': return st.iv(v.args[0])
        if v.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.frange(st, v.args[0]); b = self.frange(st, v.args[1])
            if v.op == 'fadd': return a[0] + b[0], a[1] + b[1]
            if v.op == 'fsub': return a[0] - b[1], a[1] - b[0]
            if v.op == 'fmul':
                c = [0 if (x == 0 or y == 0) else x * y for x in a for y in b]; return min(c), max(c)
            if b[0] > 0:
                c = [x / y for x in a for y in b if not (math.isinf(x) and math.isinf(y))]
                return (min(c), max(c)) if c else (-INF, INF)
            return -INF, INF
        if v.op in ('fround', 'fceil', 'ffloor', 'fneg', 'fabs'):
            a = self.frange(st, v.args[0])
            if v.op == 'fneg': return -a[1], -a[0]
            if v.op == 'fabs': return (0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))), max(abs(a[0]), abs(a[1]))
            if math.isinf(a[0]) or math.isinf(a[1]): return a
            return math.floor(a[0]), math.ceil(a[1])
        return -INF, INF

    def rvalue(self, st, fr, r, dst_tid):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k in ('ref', 'addr'):
            base, path, view, tid = self.place(st, fr, r[2])
            return RefV(base, path, view)
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == 'chk':
            x, o = self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4], True)
            return Agg(dst_tid, 0, [x, o])
        if k == 'un':
            v = self.operand(st, fr, r[2]); t = self.ty(r[3])
            if r[1] == 'Not':
                if isinstance(v, Cond): return c_not(v)
                bits, sg = self.intinfo(t)
                if v.is_const(): return const(wrapv(~v.c, bits, sg))
                return sub(const(-1 if sg else (1 << bits) - 1), v)
            if r[1] == 'Neg':
                if t['k'] == 'float':
                    return OpV('f', (-v.args[0],)) if v.op == 'f' else OpV('fneg', (v,), imp=v.imp)
                bits, sg = self.intinfo(t)
                return self.fit(st, neg(v), bits, sg)
            if r[1] == 'PtrMetadata':
                if isinstance(v, RefV): return self.ref_len(st, v)
                if isinstance(v, BoxV): return self.ref_len(st, RefV(v.base))
            raise Undecided('unop ' + r[1])
        if k == 'cast': return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == 'discr':
            base, path, view, tid = self.place(st, fr, r[1])
            if base not in st.mem and base[0] == 'L' and not path:
                # a value of zero size is never written: its only inhabited variant
                t = self.ty(tid)
                live = [i for i, v in enumerate(t.get('v', [])) if not any(self.ty(x)['k'] == 'never' for _, x in v['f'])] if t['k'] == 'adt' else []
                if len(live) == 1: return const(self.variant_discr(t, live[0]))
            return self.discr_lin(st, self.load(st, base, path), tid)
        if k == 'len':
            base, path, view, tid = self.place(st, fr, r[1])
            return self.ref_len(st, RefV(base, path, view))
        if k == 'rep':
            v = self.operand(st, fr, r[1]); t = self.ty(dst_tid)
            n = t['n']
            return SeqV([('e', v)] * n, t['e']) if n <= 64 else SeqV([('m', v, const(n))], t['e'])
        if k == 'agg':
            vs = [self.operand(st, fr, o) for o in r[4]]
            kind = r[1]
            if kind == 'array': return SeqV([('e', v) for v in vs], self.ty(dst_tid)['e'])
            if kind == 'adt':
                t = self.ty(r[3] if r[3] >= 0 else dst_tid)
                if self.transparent(t) and vs: return vs[0]
                return Agg(t['id'], r[2] if isinstance(r[2], int) else 0, vs)
            if kind == 'tuple': return Agg(dst_tid, 0, vs)
            if kind == 'closure': return Agg(r[3] if r[3] >= 0 else dst_tid, 0, vs)
            if kind in ('rawptr', 'ptr'):
                return vs[0]
            return Agg(r[3] if r[3] >= 0 else dst_tid, 0, vs)
        if k == 'tls': raise Undecided('thread local')
        raise Undecided('rvalue ' + k)

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, fr, kind, desc, cond, line=None):
        """cond must hold here; returns True/False/None and assumes it on st (False: path ends)"""
        r = st.decide(cond, 5)
        if r is not True and self.crashes is not None and len(self.crashes) < 400: self.crashes.append((st.copy() if r is None else st, cond, fr, kind, desc, line))
        if self.record and self.is_local(fr):
            key = (fr_owner(fr), kind, desc)
            o = self.obs.setdefault(key, [0, 0, None])
            if r is True: o[0] += 1
            else:
                o[1] += 1
                if o[2] is None or (o[2]['imp'] and not cond.imprecise()):
                    o[2] = dict(cond=repr(cond)[:300], decided=r, line=line, file=fr_local(fr).fn['file'], imp=cond.imprecise(), stack=stack_of(fr))
        if r is False: return False
        if r is None:
            if not st.assume(cond): return False
        return True
    def is_local(self, fr): return fr_local(fr) is not None

    # ------------------------------------------------------------------ execution
    def call_fn(self, fn, args, st, depth=0, caller=None):
        """interpret fn from state st; returns [(state, value)]"""
        if depth > self.max_depth: raise Limit('call depth')
        self.visited.add(fn['path'])
        self.fidc += 1
        fr = Frame(self.fidc, fn, depth, caller)
        if fn.get('spread'):
            sp = fn['spread'] if fn['spread'] is not True else fn['nargs']
            if not (len(args) == fn['nargs'] and sp == fn['nargs'] and isinstance(args[-1], Agg) and args[-1].ty == fn['locals'][sp]):
                pre = args[:sp - 1]; rest = args[sp - 1:]
                tid = fn['locals'][sp]
                args = list(pre) + [Agg(tid, 0, rest)]
        st = st.copy()
        if len(args) != fn['nargs']: raise Undecided('arity of %s: %d vs %d' % (fn['path'], len(args), fn['nargs']))
        for i, a in enumerate(args): st.mem[('L', fr.fid, i + 1)] = a
        import loops
        li = self.loops(fn)
        ctx = loops.Ctx(self, fr, li)
        ctx.work.append((st, 0, {}))
        ctx.run()
        outs = ctx.outs
        # drop the frame's locals
        fid = fr.fid
        for s2, v in outs:
            dead = [b for b in s2.mem if b[0] == 'L' and b[1] == fid]
            for b in dead: del s2.mem[b]
        return outs

    def enter(self, st, fr, tgt, src, lc, li, ctx):
        """loop bookkeeping on the edge src->tgt"""
        import loops
        heads = li['heads']
        if tgt in heads:
            lc = dict(lc)
            if (src, tgt) in li['back']:
                c = lc.get(tgt, (0, 0))
                lc[tgt] = (c[0] + 1, c[1])
                if c[0] + 1 > max(3000, 2 * self.max_unroll): raise Limit('unroll in ' + fr.fn['path'])
                if c[1] >= self.sym_unroll or c[0] > self.max_unroll:
                    loops.summarise(self, st, fr, tgt, lc, li, ctx)
                    return None
            else:
                lc[tgt] = (0, 0)
        return (st, tgt, lc)
    sym_unroll = 2
    merging = False      # join the sides of small branches again (merge.py)
    max_unroll = 300
    def loops(self, fn):
        li = self.loopinfo.get(id(fn))
        if li is None:
            import loops
            li = loops.analyse(fn); self.loopinfo[id(fn)] = li
        return li

    def block(self, st, fr, bb, lc, li):
        """interpret one block; returns [('ret'|'go', state, target)]"""
        blk = fr.fn['blocks'][bb]
        self.steps += 1
        if self.steps > self.max_steps: raise Limit('steps')
        if self.deadline and not self.steps & 63 and time.time() > self.deadline: raise Limit('time')
        fid = fr.fid
        for s in blk[0]:
            k = s[0]
            if k == '=':
                base, path, view, tid = self.place(st, fr, s[1]) if s[1][1] else (('L', fid, s[1][0]), (), None, fr.fn['locals'][s[1][0]])
                v = self.rvalue(st, fr, s[2], tid)
                self.store(st, base, path, v)
            elif k == 'dead':
                pass
            elif k == 'sd':
                base, path, view, tid = self.place(st, fr, s[1])
                self.store(st, base, path, Agg(tid, s[2], []))
            elif k != 'assume': raise Undecided('statement ' + k)
            else:
                c = self.as_cond(self.operand(st, fr, s[1]))
                if not st.assume(c): return []
        t = blk[1]; line = blk[2]
        k = t[0]
        if k == 'goto': return [('go', st, t[1])]
        if k == 'ret': return [('ret', st, None)]
        if k in ('unreachable', 'resume'): return []
        if k == 'drop': return [('go', st, t[2])]
        if k == 'switch':
            return self.switch(st, fr, t, bb, lc, li)
        if k == 'assert':
            c = self.as_cond(self.operand(st, fr, t[1]))
            if not t[2]: c = c_not(c)
            kind = t[3][0]
            if kind in ('other',):
                if not st.assume(c): return []
                return [('go', st, t[4])]
            if not self.oblige(st, fr, kind, self.ob_desc(st, fr, t), c, line): return []
            return [('go', st, t[4])]
        if k == 'call':
            r = self.do_call(st, fr, t, line)
            if len(r) > 1 and lc and t[1][0] == 'def':
                i = t[1][1]['inst']
                if i and i['path'].rsplit('::', 1)[-1] in ('next', 'pop', 'next_back'):
                    for h, body in li['body'].items():
                        if bb in body and h in lc: c = lc[h]; lc[h] = (c[0], c[1] + 1)
            return r
        raise Undecided('terminator ' + k)
    def ob_desc(self, st, fr, t):
        kind = t[3][0]
        d = kind
        if kind == 'overflow' and len(t[3]) > 1 and isinstance(t[3][1], str): d = t[3][1]
        return d
    def switch(self, st, fr, t, bb, lc, li):
        v = self.operand(st, fr, t[1])
        out = []
        if isinstance(v, Cond):
            r = st.decide(v)
            tv = {int(a): b for a, b in t[2]}
            tt = tv.get(1, t[3]); ft = tv.get(0, t[3])
            if r is True: return [('go', st, tt)]
            if r is False: return [('go', st, ft)]
            pre = st.copy() if self.merging else None
            s2 = st.copy()
            if st.assume(v): out.append(('go', st, tt))
            if s2.assume(c_not(v)): out.append(('go', s2, ft))
            if self.merging and len(out) == 2:
                import merge
                m = merge.switch(self, pre, fr, bb, lc, li, tt, ft, out[0][1].copy(), out[1][1].copy(), v)
                if m is not None: return m
        else:
            x = self.as_lin(v)
            if x.is_const():
                for a, b in t[2]:
                    if int(a) == x.c or (x.c < 0 and int(a) == x.c & ((1 << self.ty(t[4])['b']) - 1)): return [('go', st, b)]
                return [('go', st, t[3])]
            rest = st
            pre = st.copy() if self.merging and len(t[2]) == 1 else None
            groups = {}
            order = []
            for a, b in t[2]:
                a = int(a)
                if t[4] >= 0 and self.ty(t[4])['k'] == 'int' and self.ty(t[4])['s'] and a >> (self.ty(t[4])['b'] - 1): a -= 1 << self.ty(t[4])['b']
                if b not in groups: groups[b] = []; order.append(b)
                groups[b].append(a)
            small = x.single() is not None and is_small(x.single())
            allv = []
            for b in order:
                if small:
                    m = 0
                    for a in groups[b]:
                        if 0 <= a <= 255: m |= 1 << a
                    s2 = rest.copy()
                    at = x.single()
                    cur = s2.vset.get(at)
                    if cur is None:
                        lo, hi = s2.aiv(at); cur = full_mask(max(0, lo), min(255, hi)) if lo <= hi else 0
                        ne = s2.neq.get(at)
                        if ne:
                            for w in ne:
                                if 0 <= w <= 255: cur &= ~(1 << w)
                    if cur & m:
                        s2.vset[at] = cur & m; s2.ivm = {}
                        if s2._set_bnd(at, *mask_bounds(cur & m)) and self.recheck(s2, at): out.append(('go', s2, b))
                    nm = cur & ~m
                    if not nm: rest = None; break
                    rest = rest.copy(); rest.vset[at] = nm; rest.ivm = {}
                    if not rest._set_bnd(at, *mask_bounds(nm)) or not self.recheck(rest, at): rest = None; break
                else:
                    for a in groups[b]:
                        s2 = rest.copy()
                        if s2.assume(c_eq(sub(x, const(a)))): out.append(('go', s2, b))
                        rest = rest.copy()
                        if not rest.assume(c_ne(sub(x, const(a)))): rest = None; break
                    if rest is None: break
            if rest is not None:
                # enum discriminants: otherwise may be unreachable
                if fr.fn['blocks'][t[3]][1][0] != 'unreachable' or fr.fn['blocks'][t[3]][0]:
                    out.append(('go', rest, t[3]))
            if pre is not None and len(out) == 2:
                import merge
                a = int(t[2][0][0])
                if t[4] >= 0 and self.ty(t[4])['k'] == 'int' and self.ty(t[4])['s'] and a >> (self.ty(t[4])['b'] - 1): a -= 1 << self.ty(t[4])['b']
                m = merge.switch(self, pre, fr, bb, lc, li, out[0][2], out[1][2], out[0][1].copy(), out[1][1].copy(), c_eq(sub(x, const(a))))
                if m is not None: return m
        if len(out) > 1: self.mark_fork(bb, lc, li, out)
        return out
    def recheck(self, st, at):
        for c in st.cons:
            if any(a is at or (a.op and at in a.deps) for a in c.atoms()):
                if not st._assume_le(c, False): return False
        for c in st.facts:
            if at in c.deps():
                if st._single_eval(c) is False: return False
        return True
    def mark_fork(self, bb, lc, li, out):
        """an undecided branch that leaves a loop counts as a symbolic iteration"""
        for h, body in li['body'].items():
            if bb in body and h in lc:
                if any(x[2] not in body for x in out) and any(x[2] in body for x in out):
                    c = lc[h]
                    lc[h] = (c[0], c[1] + (0.04 if self.has_next(li, h) else 1))
    def has_next(self, li, h):
        c = li.setdefault('hasnext', {})
        if h not in c:
            c[h] = False
            for b in li['body'][h]:
                t = li['fn']['blocks'][b][1]
                if t[0] == 'call' and t[1][0] == 'def' and t[1][1]['inst'] and t[1][1]['inst']['path'].endswith('::next'): c[h] = True
        return c[h]

    # ------------------------------------------------------------------ calls
    def do_call(self, st, fr, t, line):
        args = [self.operand(st, fr, o) for o in t[2]]
        dest = t[4]; dty = t[5]; tgt = t[6]
        if t[1][0] == 'def':
            d = t[1][1]; inst = d['inst']
            rs = self.call_inst(st, fr, d, inst, args, t[3], dty, line)
        else:
            v = self.operand(st, fr, t[1][1])
            rs = self.call_value(st, fr, v, args, dty, line)
        out = []
        for s2, v in rs:
            if tgt is None or tgt < 0: continue
            if dest[1]:
                base, path, view, tid = self.place(s2, fr, dest)
                self.store(s2, base, path, v)
            else: s2.mem[('L', fr.fid, dest[0])] = v
            out.append(('go', s2, tgt))
        return out
    def npath(self, p):
        return p
    def call_inst(self, st, fr, d, inst, args, atys, dty, line):
        path = inst['path'] if inst else d['decl']
        np = norm_path(path)
        h = self.hooks.get(np)
        if h is not None:
            r = h(self, st, fr, args, inst, atys, dty, line)
            if r is not None: return r
        if inst is None: return self.havoc_call(st, fr, np, args, atys, dty)
        if inst['kind'] == 'virtual':
            return self.call_virtual(st, fr, d, inst, args, atys, dty, line)
        if np.endswith(' as std::clone::Clone>::clone') and np.startswith('<thermal'):
            r = self.local_clone(st, fr, np, inst, args)
            if r is not None: return r
        m = self.models.get(np)
        if m is not None:
            r = m(self, st, fr, args, inst, atys, dty, line)
            if r is not None: return r
        for pred, mf in self.pmodels:
            if pred(np):
                r = mf(self, st, fr, args, inst, atys, dty, line)
                if r is not None: return r
        if inst['crate'] not in LOCALS: return self.opaque(self, st, fr, args, inst, atys, dty, line)
        if inst['kind'] == 'shim': return self.call_shim(st, fr, np, inst, args, atys, dty, line)
        fn = self.P.funcs.get(inst['key'])
        if fn is not None and np not in self.noinline:
            if d['decl'].rsplit('::', 1)[-1] in ('call_once', 'call_mut', 'call') and 'ops::' in d['decl'] and '{closure' in fn['path'] and not fn.get('spread') and \
               len(args) == 2 and isinstance(args[1], Agg) and self.ty(args[1].ty)['k'] == 'tuple':
                if self.ty(fn['locals'][1])['k'] == 'ref' and not isinstance(args[0], RefV):
                    self.hc += 1; b = ('H', self.hc); st.mem[b] = args[0]; args = [RefV(b), args[1]]
                return self.call_fn(fn, [args[0]] + list(args[1].fs), st, fr.depth + 1 if fr else 0, fr)
            return self.invoke(fn, args, st, fr)
        return self.havoc_call(st, fr, np, args, atys, dty)
    def local_clone(self, st, fr, np, inst, args):
        """a Clone implementation proved to be a structural copy is applied as one"""
        r = self.faithful.get(np)
        if r is None:
            self.faithful[np] = True        # coinductive for recursive types
            r = self.faithful[np] = self.check_clone(np, inst)
        if not r: return None
        return [(st, self.deep(st, self.deref_val(st, args[0])))]
    def check_clone(self, np, inst):
        fn = self.P.funcs.get(inst['key'])
        if fn is None: return False
        rec, self.record = self.record, 0
        try:
            st = State()
            tid = self.ty(fn['locals'][1])['e']
            b = ('S', 'cl', tid); v0 = self.base_val(st, b)
            outs = self.call_fn(fn, [RefV(b)], st, 0, None)
            cov = set()
            for s2, v in outs:
                if not self.same_struct(s2, v0, v): return False
                if s2.mem.get(b) != v0: return False
                cov.add(v.var if isinstance(v, Agg) else None)
            return bool(outs)
        except (Undecided, Limit): return False
        finally: self.record = rec
    def same_struct(self, st, a, b, fuel=20):
        if a == b: return True
        if fuel == 0: return False
        if isinstance(a, SymV) and isinstance(b, Agg) and self.ty(a.ty)['k'] == 'adt':
            if st.decide(c_eq(sub(self.discr_lin(st, a, a.ty), const(self.variant_discr(self.ty(a.ty), b.var))))) is not True: return False
            return all(self.same_struct(st, self.proj(st, a, ('v', b.var, i)), x, fuel - 1) for i, x in enumerate(b.fs))
        if isinstance(a, Agg) and isinstance(b, Agg):
            return a.ty == b.ty and a.var == b.var and all(self.same_struct(st, x, y, fuel - 1) for x, y in zip(a.fs, b.fs))
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return self.same_struct(st, self.load(st, a.base, ()), self.load(st, b.base, ()), fuel - 1)
        if isinstance(a, Lin) and isinstance(b, Lin): return st.decide(c_eq(sub(a, b))) is True
        if isinstance(a, SeqV) and isinstance(b, SeqV) and len(a.segs) == len(b.segs):
            return all(s[0] == 'e' == q[0] and self.same_struct(st, s[1], q[1], fuel - 1) or s == q for s, q in zip(a.segs, b.segs))
        return False
    def invoke(self, fn, args, st, fr):
        if len(args) == 2 and fn['nargs'] != 2 and isinstance(args[1], Agg) and self.ty(args[1].ty)['k'] == 'tuple' and fn.get('closure', True) and \
           fn['nargs'] == 1 + len(args[1].fs):
            args = [args[0]] + list(args[1].fs)
        return self.call_fn(fn, args, st, fr.depth + 1 if fr else 0, fr)
    def call_shim(self, st, fr, np, inst, args, atys, dty, line):
        last = np.split('::')[-1]
        if last == 'clone':
            v = self.deref_val(st, args[0])
            return [(st, self.deep(st, v))]
        if last in ('call_once', 'call_mut', 'call'):
            return self.call_value(st, fr, args[0], args[1].fs if len(args) > 1 and isinstance(args[1], Agg) else args[1:], dty, line)
        if last in ('drop_in_place',): return [(st, self.zst(dty))]
        fn = self.P.funcs.get(inst['key'])
        if fn is not None: return self.invoke(fn, args, st, fr)
        return self.havoc_call(st, fr, np, args, atys, dty)
    def call_value(self, st, fr, v, args, dty, line):
        """call a closure / fn item / fn pointer value with separate args"""
        ref = None
        w = v
        while isinstance(w, (RefV, BoxV)):
            ref = w; w = self.deref_val(st, w)
        if isinstance(w, Agg):
            t = self.ty(w.ty)
            if t['k'] == 'closure' and t.get('fn'):
                fn = self.P.funcs.get(t['fn']['key'])
                if fn is not None:
                    want_ref = self.ty(fn['locals'][1])['k'] == 'ref'
                    if want_ref and ref is None:
                        self.hc += 1; b = ('H', self.hc); st.mem[b] = w; self_ = RefV(b)
                    elif want_ref: self_ = ref if isinstance(ref, RefV) else RefV(ref.base)
                    else: self_ = w
                    n = fn['nargs'] - 1
                    if fn.get('spread'): return self.call_fn(fn, [self_] + list(args), st, fr.depth + 1, fr)
                    if n == len(args): return self.call_fn(fn, [self_] + list(args), st, fr.depth + 1, fr)
                    if n == 1 and len(args) != 1:
                        return self.call_fn(fn, [self_, Agg(fn['locals'][2], 0, args)], st, fr.depth + 1, fr)
            if t['k'] == 'fndef' and t.get('fn') and t['fn'].get('inst'):
                i = t['fn']['inst']
                return self.call_inst(st, fr, dict(decl=i['path'], inst=i), i, list(args), [], dty, line)
        if isinstance(w, OpV) and w.op == 'fnval':
            t = self.ty(w.args[0])
            if t['k'] == 'fndef' and t['fn'].get('inst'):
                i = t['fn']['inst']
                return self.call_inst(st, fr, dict(decl=i['path'], inst=i), i, list(args), [], dty, line)
            if t['k'] == 'closure':
                return self.call_value(st, fr, Agg(t['id'], 0, []), args, dty, line)
        if isinstance(w, OpV) and w.op in ('fnptr', 'fn') and w.args[0] is not None:
            al = self.P.allocs[w.args[0]]
            if al['k'] == 'fn':
                i = al['f']
                return self.call_inst(st, fr, dict(decl=i['path'], inst=i), i, list(args), [], dty, line)
        return self.havoc_call(st, fr, 'call of %r' % (w,), args, [], dty)
    def call_virtual(self, st, fr, d, inst, args, atys, dty, line):
        decl = norm_path(d['decl'])
        m = self.models.get(decl)
        recv = self.deref_val(st, args[0])
        while isinstance(recv, (BoxV,)): recv = self.load(st, recv.base, ())
        meth = decl.split('::')[-1]
        if self.virtual_hook is not None:
            r = self.virtual_hook(st, meth, decl, recv, args, dty)
            if r is not None: return r
        if isinstance(recv, Agg):
            for (ty, tr), ms in self.P.vtables.items():
                if ty == recv.ty and meth in ms and (tr is None or trait_match(tr, decl)):
                    i2 = ms[meth]
                    return self.call_inst(st, fr, dict(decl=i2['path'], inst=i2), i2, args, atys, dty, line)
        if self.decided_dyn is not None:
            r = self.decided_dyn(self, st, fr, decl, recv, args, atys, dty, line)
            if r is not None: return r
        return self.havoc_call(st, fr, 'dyn ' + decl, args, atys, dty)
    def havoc_call(self, st, fr, np, args, atys, dty):
        self.unknown_calls[np] = self.unknown_calls.get(np, 0) + 1
        for i, a in enumerate(args):
            if isinstance(a, RefV) and i < len(atys) and atys[i] is not None and atys[i] >= 0:
                t = self.ty(atys[i])
                if t['k'] in ('ref', 'ptr') and t.get('m'):
                    if a.view is not None or self.ty(t['e'])['k'] in ('slice', 'str'): raise Undecided('unknown write to a slice by ' + np)
                    self.store(st, a.base, a.path, self.fresh_value(t['e']))
        if dty is None or dty < 0: return [(st, OpV('unk', (np,), imp=True))]
        if self.ty(dty)['k'] == 'never': return []
        return [(st, self.fresh_value(dty))]
    def deref_val(self, st, v):
        if isinstance(v, RefV):
            if v.view is not None: return self.read_seq(st, v)
            return self.load(st, v.base, v.path)
        if isinstance(v, (BoxV, RcV)): return self.load(st, v.base, ())
        raise Undecided('deref %r' % (v,))
    def new_heap(self, st, v):
        self.hc += 1
        b = ('H', self.hc); st.mem[b] = v
        return b
    def deep(self, st, v, fuel=6):
        """structural clone: boxes are duplicated, Rc shared"""
        if fuel == 0: return v
        if isinstance(v, BoxV):
            x = self.load(st, v.base, ())
            return BoxV(self.new_heap(st, self.deep(st, x, fuel - 1)))
        if isinstance(v, Agg):
            fs = [self.deep(st, x, fuel) if isinstance(x, (Agg, BoxV, SeqV)) else x for x in v.fs]
            return Agg(v.ty, v.var, fs) if any(a is not b for a, b in zip(fs, v.fs)) else v
        if isinstance(v, SeqV):
            if any(s[0] == 'e' and isinstance(s[1], (Agg, BoxV, SeqV)) for s in v.segs):
                return SeqV([('e', self.deep(st, s[1], fuel)) if s[0] == 'e' else s for s in v.segs], v.ety)
        return v

def norm_segs(st, segs):
    """drop empty segments, fuse adjacent ones"""
    out = []
    for s in segs:
        if s[0] != 'e' and s[-1].is_const() and s[-1].c == 0: continue
        if out and s[0] == 's' and out[-1][0] == 's' and out[-1][1] == s[1] and add(out[-1][2], out[-1][3]) == s[2]:
            out[-1] = ('s', s[1], out[-1][2], add(out[-1][3], s[3])); continue
        if out and s[0] == 'm' and out[-1][0] == 'm' and out[-1][1] == s[1]:
            out[-1] = ('m', s[1], add(out[-1][2], s[2])); continue
        out.append(s)
    return tuple(out)

def path_key(path): return tuple((e[0],) + tuple(x if not isinstance(x, Lin) else '*' for x in e[1:]) for e in path)
def fr_local(fr):
    while fr is not None and not fr.fn['crate'].startswith('thermal'): fr = fr.caller
    return fr
def fr_owner(fr):
    f = fr_local(fr)
    return norm_path(f.fn['path']) if f else '?'
def stack_of(fr):
    o = []
    while fr is not None and len(o) < 12: o.append(fr.fn['path']); fr = fr.caller
    return o
def trait_match(tr, decl):
    return True
_np = {}
def norm_path(p):
    r = _np.get(p)
    if r is None:
        r = p
        for a, b in (('core::', 'std::'), ('alloc::', 'std::')):
            out = ''; i = 0
            while True:
                j = r.find(a, i)
                if j < 0: out += r[i:]; break
                if j > 0 and (r[j - 1].isalnum() or r[j - 1] in ':_'):
                    out += r[i:j + len(a)]
                else: out += r[i:j] + b
                i = j + len(a)
            r = out
        _np[p] = r
    return r
