"""Further transfer functions for std operations (iterator adaptors, slices, vectors,
strings, integers).  Everything here is exact or raises Undecided."""
from models import *
from models import lit
import models as MD
import interp as IP

def next_fn(I, tid):
    """the MIR of Iterator::next for a concrete iterator type (adaptors analysed from std's source)"""
    ix = getattr(I, '_nextix', None)
    if ix is None:
        ix = {}
        for f in I.P.funcs.values():
            if f['path'].endswith('Iterator>::next') and f['nargs'] == 1:
                t = I.ty(f['locals'][1])
                if t['k'] == 'ref': ix[t['e']] = f
        I._nextix = ix
    return ix.get(tid)
def filter_next(I, st, fr, it):
    """Filter / FilterMap over a fixed number of items: the next item the predicate keeps, on every path"""
    t = I.ty(it.ty); p = t['path']
    if p not in ('std::iter::Filter', 'std::iter::FilterMap'): return None
    names = [n for n, _ in t['v'][0]['f']]
    if sorted(names) not in (['iter', 'predicate'], ['f', 'iter']): return None
    ii = names.index('iter'); pi = 1 - ii; fm = p.endswith('Map')
    if not MD.fixed_base(I, it.fs[ii]) or not isinstance(it.fs[pi], Agg): return None
    fn = closure_out(I, it.fs[pi])
    if fn is None: return None
    ity = item_ty(I, it.fs[pi], fm)
    work = [(st, it.fs[ii], it.fs[pi])]; out = []; n = 0
    while work:
        s1, i1, p1 = work.pop(); n += 1
        if n > 4000: raise IP.Undecided('filter')
        for s2, i2, x in MD.it_next(I, s1, fr, i1, ity):
            if x is None: out.append((s2, it.with_(ii, i2).with_(pi, p1), None)); continue
            b = I.new_heap(s2, p1)
            for s3, v in I.call_value(s2, fr, RefV(b), [x if fm else MD.mkref(I, s2, x)], fn, None):
                p2 = I.load(s3, b, ())
                if fm:
                    if not isinstance(v, Agg): raise IP.Undecided('filter_map result %r' % (v,))
                    if I.ty(v.ty)['v'][v.var]['n'] == 'None': work.append((s3, i2, p2))
                    else: out.append((s3, it.with_(ii, i2).with_(pi, p2), v.fs[0]))
                    continue
                for s4, keep in MD.split(s3, I.as_cond(v)):
                    if keep: out.append((s4, it.with_(ii, i2).with_(pi, p2), x))
                    else: work.append((s4, i2, p2))
    return out
def closure_out(I, c):
    t = I.ty(c.ty)
    if t['k'] != 'closure' or not t.get('fn'): return None
    f = I.P.funcs.get(t['fn']['key'])
    return f['locals'][0] if f else None
def item_ty(I, c, fm):
    """the type of the items a filter's closure is given"""
    f = I.P.funcs.get(I.ty(c.ty)['fn']['key'])
    n = f['locals'][2] if len(f['locals']) > 2 else None
    if n is None: return None
    t = I.ty(n)
    if fm: return n
    return t['e'] if t['k'] == 'ref' else None
def agg_next(I, st, fr, it, ety):
    r = filter_next(I, st, fr, it)
    if r is not None: return r
    f = next_fn(I, it.ty)
    if f is None: return None
    b = I.new_heap(st, it)
    out = []
    for s2, v in I.call_fn(f, [RefV(b)], st, fr.depth + 1, fr):
        t = I.ty(f['locals'][0])
        i2 = I.load(s2, b, ())
        if isinstance(v, SymV): raise IP.Undecided('item of %r' % (it,))
        if not isinstance(v, Agg): raise IP.Undecided('item of %r' % (it,))
        out.append((s2, i2, v.fs[0] if t['v'][v.var]['n'] == 'Some' else None))
    return out
def drained(I, st, fr, it, ety=None, limit=600):
    """[(state, items)] when the iterator ends after a decided number of items, else None"""
    states = [(st.copy(), it, [])]; outs = []; n = 0
    while states:
        s1, i1, acc = states.pop(); n += 1
        if n > limit or len(acc) > 300: return None
        for s2, i2, x in MD.it_next(I, s1, fr, i1, ety):
            if x is None: outs.append((s2, acc))
            else: states.append((s2, i2, acc + [x]))
    return outs
def exact(it):
    """iterating cannot branch on unknown lengths without end: bounded structure"""
    return True
def seqof(I, st, fr, x, ety):
    """[(state, SeqV)] of an IntoIterator value"""
    w = MD.as_seq(I, st, x)
    if w is not None:
        if isinstance(x, RefV): w = I.deep(st, w)
        return [(st, w)]
    if isinstance(x, RefV): x = I.deref_val(st, x)
    if isinstance(x, ItV) and x.kind == 'cloned' and isinstance(x.d[0], ItV) and x.d[0].kind == 'slice':
        r, lo, hi = x.d[0].d
        return [(st, I.deep(st, I.read_seq(st, RefV(r.base, r.path, (lo, sub(hi, lo))))))]
    n = MD.it_len(I, st, x) if isinstance(x, (ItV, Agg)) else None
    if n is not None and not n.is_const(): return None
    if not isinstance(x, (ItV, Agg)): return None
    d = drained(I, st, fr, x, ety, 400)
    if d is None: return None
    return [(s2, SeqV([('e', y) for y in acc], ety)) for s2, acc in d]
@model('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def m_extend2(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0])
    r = seqof(I, st, fr, a[1], v.ety)
    if r is None:
        w = SeqV((('m', None, lin(IP.fresh('extlen', 0, IP.MAXLEN))),), v.ety)
        I.store(st, a[0].base, a[0].path, SeqV(IP.norm_segs(st, v.segs + w.segs), v.ety))
        return [(st, unit(I, dty))]
    out = []
    for s2, w in r:
        if I.ty(v.ety)['k'] != 'ref': w = SeqV([('e', I.deep(s2, I.deref_val(s2, s[1]))) if s[0] == 'e' and isinstance(s[1], RefV) else s for s in w.segs], v.ety)
        I.store(s2, a[0].base, a[0].path, SeqV(IP.norm_segs(s2, v.segs + w.segs), v.ety))
        out.append((s2, unit(I, dty)))
    return out
@model('std::iter::Iterator::count', "<std::slice::Iter<'a, T> as std::iter::Iterator>::count", '<std::iter::Enumerate<I> as std::iter::Iterator>::count',
       '<std::iter::Map<B, I, F> as std::iter::Iterator>::count', '<std::vec::IntoIter<T, A> as std::iter::Iterator>::count')
def m_count(I, st, fr, a, inst, atys, dty, line):
    if isinstance(a[0], ItV) and a[0].kind != 'map':
        n = MD.it_len(I, st, a[0])
        if n is not None: return [(st, n)]
    if not isinstance(a[0], (ItV, Agg)): return None
    d = drained(I, st, fr, a[0])
    if d is None: raise IP.Undecided('count of %r' % (a[0],))
    return [(s2, const(len(acc))) for s2, acc in d]
# ---- slices
def clone_it(I, st, fr, a, inst, atys, dty, line):
    v = I.deref_val(st, a[0])
    return [(st, v)] if isinstance(v, ItV) else None
for n in ("<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::slice::Iter<'a, T> as std::clone::Clone>::clone", "<std::str::Chars<'a> as std::clone::Clone>::clone",
          '<std::vec::IntoIter<T, A> as std::clone::Clone>::clone'): M[n] = clone_it
@model('std::slice::<impl [T]>::windows')
def m_windows(I, st, fr, a, inst, atys, dty, line):
    if not I.oblige(st, fr, 'divzero', 'window size', c_ne(a[1]), line): return []
    s = MD.slice_it(I, st, a[0])
    return [(st, ItV('windows', s.d[0], s.d[1], s.d[2], a[1]))]
@model('std::slice::<impl [T]>::chunks_exact')
def m_chunksx(I, st, fr, a, inst, atys, dty, line):
    if not I.oblige(st, fr, 'divzero', 'chunk size', c_ne(a[1]), line): return []
    s = MD.slice_it(I, st, a[0])
    return [(st, ItV('chunksx', s.d[0], s.d[1], s.d[2], a[1]))]
@model('std::iter::Iterator::step_by')
def m_stepby(I, st, fr, a, inst, atys, dty, line):
    if not I.oblige(st, fr, 'panic', 'step of zero', c_ne(a[1]), line): return []
    if not a[1].is_const(): raise IP.Undecided('step_by')
    return [(st, ItV('step', a[0], a[1], TRUE))]
def more_next(I, st, fr, it, ety):
    k = it.kind; d = it.d
    if k in ('windows', 'chunksx'):
        out = []
        for s2, more in split(st, c_le(sub(add(d[1], d[3]), d[2]))):
            if more: out.append((s2, ItV(k, d[0], add(d[1], const(1) if k == 'windows' else d[3]), d[2], d[3]), RefV(d[0].base, d[0].path, (d[1], d[3]))))
            else: out.append((s2, it, None))
        return out
    if k == 'step':
        cur = [(st, d[0])]
        if d[2] is not TRUE:
            for _ in range(d[1].c - 1):
                nx = []
                for s2, i2 in cur: nx += [(s3, i3) for s3, i3, x in MD.it_next(I, s2, fr, i2, ety)]
                cur = nx
        out = []
        for s2, i2 in cur: out += [(s3, ItV('step', i3, d[1], FALSE), x) for s3, i3, x in MD.it_next(I, s2, fr, i2, ety)]
        return out
    raise IP.Undecided('iterator ' + k)
for n in ("<std::slice::Windows<'a, T> as std::iter::Iterator>::next", "<std::slice::ChunksExact<'a, T> as std::iter::Iterator>::next", '<std::iter::StepBy<I> as std::iter::Iterator>::next'):
    M[n] = MD.m_next
def write_range(I, st, r, segs, ety):
    """the elements a slice reference covers become segs"""
    while r.view is None:
        v = I.load(st, r.base, r.path)
        if isinstance(v, RefV): r = v
        else: break
    v = I.load(st, r.base, r.path)
    if not isinstance(v, SeqV): raise IP.Undecided('write to %r' % (v,))
    lo, n = r.view if r.view is not None else (const(0), v.length())
    I.store(st, r.base, r.path, MD.cut(I, st, v, lo, add(lo, n), segs))
@model('std::slice::<impl [T]>::copy_from_slice', 'std::slice::<impl [T]>::clone_from_slice')
def m_copyfrom(I, st, fr, a, inst, atys, dty, line):
    n = I.ref_len(st, a[0]); src = sv(I, st, a[1]) if not isinstance(a[1], RefV) else I.read_seq(st, a[1])
    while isinstance(src, RefV): src = I.read_seq(st, src)
    if not I.oblige(st, fr, 'panic', 'copy_from_slice length', c_eq(sub(n, src.length())), line): return []
    write_range(I, st, a[0], I.deep(st, src).segs, src.ety)
    return [(st, unit(I, dty))]
@model('std::slice::<impl [T]>::fill')
def m_fill(I, st, fr, a, inst, atys, dty, line):
    n = I.ref_len(st, a[0]); v = I.read_seq(st, a[0])
    segs = [('e', a[1])] * n.c if n.is_const() and n.c <= 300 else [('m', a[1], n)]
    write_range(I, st, a[0], segs, None)
    return [(st, unit(I, dty))]
@model('std::slice::<impl [T]>::split_at', 'std::slice::<impl [T]>::split_at_mut')
def m_splitat(I, st, fr, a, inst, atys, dty, line):
    n = I.ref_len(st, a[0])
    if not I.oblige(st, fr, 'bounds', 'split_at', c_le(sub(a[1], n)), line): return []
    s = MD.slice_it(I, st, a[0]); r, lo, hi = s.d
    return [(st, Agg(dty, 0, [RefV(r.base, r.path, (lo, a[1])), RefV(r.base, r.path, (add(lo, a[1]), sub(n, a[1])))]))]
@model('std::slice::<impl [T]>::contains')
def m_contains(I, st, fr, a, inst, atys, dty, line):
    v = I.read_seq(st, a[0]) if isinstance(a[0], RefV) else a[0]
    while isinstance(v, RefV): v = I.read_seq(st, v)
    x = rd(I, st, a[1])
    if not isinstance(v, SeqV) or not v.explicit(): raise IP.Undecided('contains')
    cs = []
    for y in v.items():
        c = MD.value_eq(I, st, y, x)
        if c is None: raise IP.Undecided('contains')
        cs.append(c)
    return [(st, c_not(c_and(*[c_not(c) for c in cs])) if cs else FALSE)]
def affix(start):
    def m(I, st, fr, a, inst, atys, dty, line):
        v = sv(I, st, a[0]); w = sv(I, st, a[1])
        while isinstance(v, RefV): v = sv(I, st, v)
        while isinstance(w, RefV): w = sv(I, st, w)
        n = w.length()
        if not n.is_const(): raise IP.Undecided('affix')
        out = []
        for s2, b in split(st, c_le(sub(n, v.length()))):
            if not b: out.append((s2, FALSE)); continue
            off = const(0) if start else sub(v.length(), n)
            c = MD.value_eq(I, s2, I.seq_slice(s2, v, off, add(off, n)), w)
            if c is None: raise IP.Undecided('affix')
            out.append((s2, c))
        return out
    return m
M['std::slice::<impl [T]>::starts_with'] = affix(True)
M['std::slice::<impl [T]>::ends_with'] = affix(False)
@model('std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_unstable')
def m_sort(I, st, fr, a, inst, atys, dty, line):
    v = I.read_seq(st, a[0])
    if not isinstance(v, SeqV) or not v.explicit() or not all(isinstance(x, Lin) and x.is_const() for x in v.items()): raise IP.Undecided('sort')
    write_range(I, st, a[0], [('e', x) for x in sorted(v.items(), key=lambda x: x.c)], v.ety)
    return [(st, unit(I, dty))]
MD_reverse = M.get('std::slice::<impl [T]>::reverse')
@model('std::slice::<impl [T]>::reverse')
def m_reverse(I, st, fr, a, inst, atys, dty, line):
    v = I.read_seq(st, a[0])
    if not isinstance(v, SeqV) or not v.explicit():
        r = MD_reverse(I, st, fr, a, inst, atys, dty, line) if MD_reverse else None
        if r is not None: return r
        raise IP.Undecided('reverse')
    write_range(I, st, a[0], [('e', x) for x in v.items()[::-1]], v.ety)
    return [(st, unit(I, dty))]
# ---- Vec
def set_vec(I, st, r, items, ety): I.store(st, r.base, r.path, SeqV([('e', x) for x in items], ety))
@model('std::vec::Vec::<T, A>::retain')
def m_retain(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0])
    if not v.explicit(): raise IP.Undecided('retain')
    states = [(st, [])]
    for x in v.items():
        nx = []
        for s1, acc in states:
            for s2, b in I.call_value(s1, fr, a[1], [RefV(I.new_heap(s1, x))], I.find_ty('bool'), line):
                for s3, keep in split(s2, I.as_cond(b)): nx.append((s3, acc + [x] if keep else acc))
        states = nx
    out = []
    for s2, acc in states: set_vec(I, s2, a[0], acc, v.ety); out.append((s2, unit(I, dty)))
    return out
@model('std::vec::Vec::<T, A>::dedup')
def m_dedup(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0])
    if not v.explicit(): raise IP.Undecided('dedup')
    states = [(st, [])]
    for x in v.items():
        nx = []
        for s1, acc in states:
            if not acc: nx.append((s1, [x])); continue
            c = MD.value_eq(I, s1, acc[-1], x)
            if c is None: raise IP.Undecided('dedup')
            for s2, b in split(s1, c): nx.append((s2, acc if b else acc + [x]))
        states = nx
    out = []
    for s2, acc in states: set_vec(I, s2, a[0], acc, v.ety); out.append((s2, unit(I, dty)))
    return out
@model('std::vec::Vec::<T, A>::resize')
def m_resize(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); n = v.length(); out = []
    for s2, grow in split(st, c_le(sub(n, a[1]))):
        if grow:
            k = sub(a[1], n)
            segs = [('e', a[2])] * k.c if k.is_const() and k.c <= 300 else [('m', a[2], k)]
            w = SeqV(IP.norm_segs(s2, v.segs + tuple(segs)), v.ety)
        else: w = I.seq_slice(s2, v, const(0), a[1]) or SeqV((('m', None, a[1]),), v.ety)
        I.store(s2, a[0].base, a[0].path, w); out.append((s2, unit(I, dty)))
    return out
def bounds_of(I, st, r, n):
    """(lo, hi) of a range value"""
    t = I.ty(r.ty)['path'].split('::')[-1] if isinstance(r, Agg) and I.ty(r.ty)['k'] == 'adt' else None
    if t == 'Range': return r.fs[0], r.fs[1]
    if t == 'RangeFrom': return r.fs[0], n
    if t == 'RangeTo': return const(0), r.fs[0]
    if t == 'RangeFull': return const(0), n
    if t == 'RangeInclusive': return r.fs[0], add(r.fs[1], const(1))
    if t == 'RangeToInclusive': return const(0), add(r.fs[0], const(1))
    raise IP.Undecided('range %r' % (r,))
@model('std::vec::Vec::<T, A>::drain')
def m_drain(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); n = v.length(); lo, hi = bounds_of(I, st, a[1], n)
    if not I.oblige(st, fr, 'bounds', 'drain', c_le(sub(lo, hi)), line): return []
    if not I.oblige(st, fr, 'bounds', 'drain', c_le(sub(hi, n)), line): return []
    got = I.seq_slice(st, v, lo, hi)
    if got is None: raise IP.Undecided('drain')
    I.store(st, a[0].base, a[0].path, MD.cut(I, st, v, lo, hi, []))
    return [(st, ItV('into', got, const(0)))]
M["<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next"] = MD.m_next
M["<std::vec::Drain<'_, T, A> as std::iter::DoubleEndedIterator>::next_back"] = MD.m_next_back
@model('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend_one', 'std::vec::Vec::<T, A>::extend_one')
def m_extone(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); I.store(st, a[0].base, a[0].path, SeqV(IP.norm_segs(st, v.segs + (('e', a[1]),)), v.ety))
    return [(st, unit(I, dty))]
# ---- arrays
@model('std::array::<impl [T; N]>::map')
def m_amap(I, st, fr, a, inst, atys, dty, line):
    if not isinstance(a[0], SeqV) or not a[0].explicit(): return None
    ety = I.ty(dty)['e']; states = [(st, [])]
    for x in a[0].items():
        states = [(s2, acc + [y]) for s1, acc in states for s2, y in I.call_value(s1, fr, a[1], [x], ety, line)]
    return [(s2, SeqV([('e', y) for y in acc], ety)) for s2, acc in states]
@model('std::array::from_fn')
def m_afromfn(I, st, fr, a, inst, atys, dty, line):
    t = I.ty(dty); ety = t['e']; states = [(st, [])]
    b = I.new_heap(st, a[0])
    for i in range(int(t['n'])):
        states = [(s2, acc + [y]) for s1, acc in states for s2, y in I.call_value(s1, fr, RefV(b), [const(i)], ety, line)]
    return [(s2, SeqV([('e', y) for y in acc], ety)) for s2, acc in states]
# ---- HashMap
@model('std::collections::HashMap::<K, V, S, A>::contains_key')
def m_mapcontains(I, st, fr, a, inst, atys, dty, line):
    m = I.deref_val(st, a[0]); k = MD.freeze(I, st, a[1])
    def go(st, m):
        if not isinstance(m, OpV): raise IP.Undecided('contains_key')
        if m.op == 'mapempty': return [(st, FALSE)]
        if m.op in ('mapins', 'mapdel'):
            c = MD.value_eq(I, st, m.args[1], k)
            if c is None: raise IP.Undecided('contains_key')
            out = []
            for s2, b in split(st, c): out += [(s2, TRUE if m.op == 'mapins' else FALSE)] if b else go(s2, m.args[0])
            return out
        raise IP.Undecided('contains_key')
    return go(st, m) if isinstance(m, OpV) else None
# ---- integers
@model('std::num::NonZero::<T>::new', 'std::num::nonzero::NonZero::<T>::new')
def m_nznew(I, st, fr, a, inst, atys, dty, line):
    nt = I.ty(dty)['targs'][0]; x = a[0]
    out = []
    for s2, nz in split(st, c_ne(x)): out.append((s2, some(I, dty, x) if nz else none(I, dty)))
    return out
@model('std::num::NonZero::<T>::get', 'std::num::nonzero::NonZero::<T>::get')
def m_nzget(I, st, fr, a, inst, atys, dty, line): return [(st, a[0])] if isinstance(a[0], Lin) else None
def bitsof(I, tid): return I.intinfo(I.ty(tid))
def const_int(name, f):
    def m(I, st, fr, a, inst, atys, dty, line):
        if all(isinstance(x, Lin) and x.is_const() for x in a):
            b, s = bitsof(I, atys[0])
            r = f(b, s, *[x.c for x in a])
            return [(st, (TRUE if r else FALSE) if isinstance(r, bool) else const(r))]
        raise IP.Undecided(name)
    return m
_ints = ['u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize']
def _rot(b, s, x, n):
    x &= (1 << b) - 1; n %= b; r = ((x << n) | (x >> (b - n))) & ((1 << b) - 1)
    return r - (1 << b) if s and r >> (b - 1) else r
def _lz(b, s, x): x &= (1 << b) - 1; return b - x.bit_length()
def _tz(b, s, x): x &= (1 << b) - 1; return b if x == 0 else (x & -x).bit_length() - 1
for t in _ints:
    p = 'std::num::<impl %s>::' % t
    M[p + 'rotate_left'] = const_int('rotate_left', _rot)
    M[p + 'rotate_right'] = const_int('rotate_right', lambda b, s, x, n: _rot(b, s, x, b - n % b))
    M[p + 'leading_zeros'] = const_int('leading_zeros', _lz)
    M[p + 'trailing_zeros'] = const_int('trailing_zeros', _tz)
    M[p + 'is_power_of_two'] = const_int('is_power_of_two', lambda b, s, x: x > 0 and x & (x - 1) == 0)
def ones(I, st, x, b):
    r = const(0)
    for i in range(b): r = add(r, I.as_lin(I.binop(st, 'BitAnd', I.as_lin(I.binop(st, 'Shr', x, const(i), I.find_ty('u%d' % b))), const(1), I.find_ty('u%d' % b))))
    return r
def m_ones(I, st, fr, a, inst, atys, dty, line):
    b, s = bitsof(I, atys[0]); x = a[0]
    if x.is_const(): return [(st, const(bin(x.c & ((1 << b) - 1)).count('1')))]
    if s or b > 16: raise IP.Undecided('count_ones')
    return [(st, ones(I, st, x, b))]
for t in _ints: M['std::num::<impl %s>::count_ones' % t] = m_ones
# ---- strings
def lit_only(v): return all(p[0] == 'lit' for p in v.args)
@model('std::str::<impl str>::to_uppercase', 'std::str::<impl str>::to_ascii_uppercase')
def m_upper(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0])
    if not lit_only(v): return None
    return [(st, MD.S(('lit', ''.join(c.upper() if c.isascii() else c for c in lit(v)) if 'ascii' in inst['path'] else lit(v).upper())))]
@model('std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_ascii_lowercase')
def m_lower(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0])
    if not lit_only(v): return None
    return [(st, MD.S(('lit', ''.join(c.lower() if c.isascii() else c for c in lit(v)) if 'ascii' in inst['path'] else lit(v).lower())))]
@model('std::str::<impl str>::bytes')
def m_bytes(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); cs = MD.chars_list(v)
    bs = [MD.cbytes(st, c) for c in cs] if cs is not None else [None]
    if None in bs: raise IP.Undecided('bytes of a string')
    return [(st, ItV('into', SeqV([('e', b) for x in bs for b in x], I.find_ty('u8')), const(0)))]
M["<std::str::Bytes<'_> as std::iter::Iterator>::next"] = MD.m_next
def pattern(I, st, fr, pat, line):
    """a search pattern: ('s', text) or ('p', predicate on a character); None when not known"""
    x = pat
    if isinstance(x, Lin): return ('p', lambda c, k=x.c: ord(c) == k) if x.is_const() else None
    if isinstance(x, RefV):
        try: x = I.deref_val(st, x)
        except IP.Undecided: return None
    if isinstance(x, OpV) and x.op == 'str': return ('s', lit(x)) if lit_only(x) else None
    if isinstance(x, RefV): return pattern(I, st, fr, x, line)
    if isinstance(x, Lin): return pattern(I, st, fr, x, line)
    if isinstance(x, SeqV) and x.explicit() and all(isinstance(y, Lin) and y.is_const() for y in x.items()):
        ks = {y.c for y in x.items()}
        return ('p', lambda c: ord(c) in ks)
    if isinstance(x, Agg) and I.ty(x.ty)['k'] in ('closure', 'fndef', 'fnptr') or not isinstance(x, (SeqV, SymV)):
        def pred(c):
            rs = I.call_value(st, fr, pat, [const(ord(c))], I.find_ty('bool'), line)
            if len(rs) != 1 or not isinstance(rs[0][1], Cond) or rs[0][1].k != 'const': raise IP.Undecided('character predicate')
            return bool(rs[0][1].a)
        return ('p', pred)
    return None
def lit_pat(I, st, fr, a, line):
    v = sval(I, st, a[0])
    if not lit_only(v): return None
    p = pattern(I, st, fr, a[1], line)
    return None if p is None else (lit(v), p)
def starts(s, p):
    """length of the match of pattern p at the start of s, or None"""
    if p[0] == 's': return len(p[1]) if s.startswith(p[1]) else None
    return 1 if s and p[1](s[0]) else None
def trims(s, p, l, r):
    if p == ('s', ''): return s
    while l and s:
        n = starts(s, p)
        if not n: break
        s = s[n:]
    while r and s:
        if p[0] == 's':
            if not s.endswith(p[1]): break
            s = s[:-len(p[1])]
        elif p[1](s[-1]): s = s[:-1]
        else: break
    return s
def find_all(s, p):
    """[(start, end)] of the non-overlapping matches, None for an empty pattern"""
    out, i = [], 0
    if p == ('s', ''): raise IP.Undecided('empty pattern')
    while i < len(s):
        n = starts(s[i:], p)
        if n: out.append((i, i + n)); i += n
        else: i += 1
    return out
def strs(I, st, xs, dty):
    """an iterator over string slices"""
    e = I.find_ty('&str') if hasattr(I, 'find_ty') else None
    return ItV('into', SeqV([('e', mkref(I, st, MD.S(('lit', x)))) for x in xs], e), const(0))
_sp = 'std::str::<impl str>::'
def trim_m(l, r):
    def m(I, st, fr, a, inst, atys, dty, line):
        q = lit_pat(I, st, fr, a, line)
        if q is None: raise IP.Undecided('trim of an unknown string')
        return [(st, mkref(I, st, MD.S(('lit', trims(q[0], q[1], l, r)))))]
    return m
M[_sp + 'trim_matches'] = trim_m(True, True); M[_sp + 'trim_start_matches'] = M[_sp + 'trim_left_matches'] = trim_m(True, False); M[_sp + 'trim_end_matches'] = M[_sp + 'trim_right_matches'] = trim_m(False, True)
@model(_sp + 'strip_prefix', _sp + 'strip_suffix')
def m_strip(I, st, fr, a, inst, atys, dty, line):
    q = lit_pat(I, st, fr, a, line)
    if q is None:
        x = a[1] if isinstance(a[1], Lin) else sval(I, st, a[1]) if isinstance(I.deref_val(st, a[1]), OpV) else None
        cs = MD.chars_list(sval(I, st, a[0])); xs = [x] if isinstance(x, Lin) else MD.chars_list(x) if x is not None else None
        if cs is None or xs is None: raise IP.Undecided('strip of an unknown string')
        pre = inst['path'].endswith('prefix'); n = len(xs)
        if n > len(cs): return [(st, none(I, dty))]
        at = cs[:n] if pre else cs[len(cs) - n:]
        rest = cs[n:] if pre else cs[:len(cs) - n]
        return [(s2, some(I, dty, mkref(I, s2, MD.of_chars(rest))) if b else none(I, dty))
                for s2, b in MD.split(st, c_and(*[c_eq(sub(p, q)) for p, q in zip(at, xs)]))]
    s, p = q
    if inst['path'].endswith('prefix'):
        n = starts(s, p); r = None if n is None else s[n:]
    elif p[0] == 's': r = s[:len(s) - len(p[1])] if s.endswith(p[1]) else None
    else: r = s[:-1] if s and p[1](s[-1]) else None
    return [(st, none(I, dty) if r is None else some(I, dty, mkref(I, st, MD.S(('lit', r)))))]
@model(_sp + 'find', _sp + 'rfind')
def m_sfind(I, st, fr, a, inst, atys, dty, line):
    q = lit_pat(I, st, fr, a, line)
    if q is None: raise IP.Undecided('search in an unknown string')
    s, p = q
    ix = [i for i in range(len(s) + 1) if starts(s[i:], p) is not None]
    if not ix: return [(st, none(I, dty))]
    i = ix[-1] if inst['path'].endswith('rfind') else ix[0]
    return [(st, some(I, dty, const(len(s[:i].encode()))))]
@model(_sp + 'matches')
def m_matches(I, st, fr, a, inst, atys, dty, line):
    q = lit_pat(I, st, fr, a, line)
    if q is None: raise IP.Undecided('matches in an unknown string')
    return [(st, strs(I, st, [q[0][i:j] for i, j in find_all(*q)], dty))]
@model(_sp + 'split', _sp + 'splitn', _sp + 'rsplit', _sp + 'split_terminator', _sp + 'split_inclusive')
def m_split(I, st, fr, a, inst, atys, dty, line):
    k = inst['path'].split('::')[-1]
    n = None
    if k == 'splitn':
        if not a[1].is_const(): raise IP.Undecided('splitn')
        n = a[1].c; a = [a[0], a[2]]
    q = lit_pat(I, st, fr, a, line)
    if q is None: raise IP.Undecided('split of an unknown string')
    s, p = q
    parts, i = [], 0
    for x, y in find_all(s, p):
        if n is not None and len(parts) >= n - 1: break
        parts.append(s[i:y] if k == 'split_inclusive' else s[i:x]); i = y
    if not (k in ('split_terminator', 'split_inclusive') and i == len(s)): parts.append(s[i:])
    if n == 0: parts = []
    return [(st, strs(I, st, parts[::-1] if k == 'rsplit' else parts, dty))]
@model(_sp + 'split_once', _sp + 'rsplit_once')
def m_split1(I, st, fr, a, inst, atys, dty, line):
    q = lit_pat(I, st, fr, a, line)
    if q is None: raise IP.Undecided('split of an unknown string')
    s, p = q
    ms = find_all(s, p)
    if not ms: return [(st, none(I, dty))]
    x, y = ms[-1] if inst['path'].endswith('rsplit_once') else ms[0]
    t = I.ty(dty)['targs'][0]
    return [(st, some(I, dty, Agg(t, 0, [mkref(I, st, MD.S(('lit', s[:x]))), mkref(I, st, MD.S(('lit', s[y:])))])))]
@model(_sp + 'split_whitespace', _sp + 'split_ascii_whitespace')
def m_splitws(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0])
    if not lit_only(v) or not lit(v).isascii(): raise IP.Undecided('split of an unknown string')
    return [(st, strs(I, st, lit(v).replace('\x1c', 'x').replace('\x1d', 'x').replace('\x1e', 'x').replace('\x1f', 'x').split() if not any(c in lit(v) for c in '\x1c\x1d\x1e\x1f') else _und(), dty))]
def _und(): raise IP.Undecided('control characters')
@model(_sp + 'lines')
def m_lines(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0])
    if not lit_only(v):
        cs = MD.chars_list(v)
        if cs is None or len(cs) > 2000: raise IP.Undecided('lines of an unknown string')
        work, out = [(st, 0, [], [])], []
        while work:
            if len(work) + len(out) > 300: raise IP.Undecided('lines of an unknown string')
            s1, i, cur, done = work.pop()
            while i < len(cs):
                c = cs[i]; i += 1
                r = split(s1, c_eq(sub(c, const(10))))
                if len(r) == 1 and not r[0][1]: cur = cur + [c]; s1 = r[0][0]; continue
                nl = [s2 for s2, b in r if b][0]; no = [s2 for s2, b in r if not b]
                if no: work.append((no[0], i, cur + [c], done))
                s1 = nl
                if cur and not cur[-1].is_const():
                    r2 = split(s1, c_eq(sub(cur[-1], const(13))))
                    for s2, b in r2[1:]: work.append((s2, i, [], done + [cur[:-1] if b else cur]))
                    s1, b = r2[0]; cur = cur[:-1] if b else cur
                elif cur and cur[-1].c == 13: cur = cur[:-1]
                done = done + [cur]; cur = []
            out.append((s1, done + ([cur] if cur else [])))
        e = I.find_ty('&str')
        return [(s2, ItV('into', SeqV([('e', mkref(I, s2, MD.of_chars(x))) for x in ls], e), const(0))) for s2, ls in out]
    ps = lit(v).split('\n')
    if ps and ps[-1] == '': ps.pop()
    return [(st, strs(I, st, [x[:-1] if x.endswith('\r') else x for x in ps], dty))]
@model(_sp + 'repeat')
def m_srepeat(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0])
    if not a[1].is_const() or a[1].c > 200: raise IP.Undecided('repeat')
    return [(st, MD.S(*(v.args * a[1].c), imp=v.imp))]
for _n in ('Split', 'SplitN', 'RSplit', 'SplitTerminator', 'SplitInclusive', 'Matches'):
    M["<std::str::%s<'a, P> as std::iter::Iterator>::next" % _n] = MD.m_next
for _n in ('SplitWhitespace', 'SplitAsciiWhitespace', 'Lines'):
    M["<std::str::%s<'a> as std::iter::Iterator>::next" % _n] = MD.m_next
@model('<std::string::String as std::ops::Add<&str>>::add')
def m_sadd(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); w = sval(I, st, a[1])
    return [(st, MD.S(*(v.args + w.args), imp=v.imp or w.imp))]
@model('std::string::String::insert', 'std::string::String::insert_str')
def m_sinsert(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, I.deref_val(st, a[0])); n = I.str_len(st, v)
    l = MD.str_slice(I, st, v, const(0), a[1]); r = MD.str_slice(I, st, v, a[1], n)
    if l is None or r is None or l is False or r is False: raise IP.Undecided('insert into a string')
    x = MD.of_chars([a[2]]) if isinstance(a[2], Lin) else sval(I, st, a[2])
    I.store(st, a[0].base, a[0].path, MD.S(*(l.args + x.args + r.args)))
    return [(st, MD.unit(I, dty))]
@model('std::string::String::pop')
def m_spop(I, st, fr, a, inst, atys, dty, line):
    cs = MD.chars_list(sval(I, st, I.deref_val(st, a[0])))
    if cs is None: raise IP.Undecided('pop of a string')
    if not cs: return [(st, none(I, dty))]
    I.store(st, a[0].base, a[0].path, MD.of_chars(cs[:-1]))
    return [(st, some(I, dty, cs[-1]))]
@model('std::string::String::truncate')
def m_strunc(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, I.deref_val(st, a[0])); n = I.str_len(st, v)
    if not (n.is_const() and a[1].is_const()): raise IP.Undecided('truncate of a string')
    q = MD.str_slice(I, st, v, const(0), const(min(n.c, a[1].c)))
    if q is None or q is False: raise IP.Undecided('truncate of a string')
    I.store(st, a[0].base, a[0].path, q)
    return [(st, MD.unit(I, dty))]
@model('std::str::<impl str>::char_indices')
def m_charidx(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); cs = MD.chars_list(v)
    ls = [MD.clen(st, c) for c in cs] if cs is not None else [None]
    if None in ls: raise IP.Undecided('char_indices')
    if all(l == 1 for l in ls): return [(st, ItV('enum', ItV('chars', v, const(0)), const(0)))]
    out = []; at = 0; t = I.assoc_item(dty) if hasattr(I, 'assoc_item') else None
    if t is None: raise IP.Undecided('char_indices')
    for c, l in zip(cs, ls): out.append(('e', Agg(t, 0, [const(at), c]))); at += l
    return [(st, ItV('into', SeqV(out, t), const(0)))]
M["<std::str::CharIndices<'a> as std::iter::Iterator>::next"] = MD.m_next

def powm(kind):
    def m(I, st, fr, a, inst, atys, dty, line):
        x, n = a
        if not n.is_const() or n.c > 64: raise IP.Undecided('pow')
        b, s = bitsof(I, atys[0]); lo, hi = IP.int_range(b, s)
        r = const(1)
        if x.is_const(): r = const(x.c ** n.c)
        else:
            l, h = st.iv(x)
            if max(abs(l), abs(h)) ** n.c > hi: raise IP.Undecided('pow')
            for _ in range(n.c): r = I.as_lin(I.binop(st, 'Mul', r, x, atys[0]))
        ok_ = lo <= r.c <= hi if r.is_const() else True
        if kind == 'checked': return [(st, some(I, dty, r) if ok_ else none(I, dty))]
        if kind == 'saturating': return [(st, r if ok_ else const(hi if r.c > 0 else lo))]
        if kind == 'wrapping':
            if not ok_: raise IP.Undecided('pow')
            return [(st, r)]
        if not ok_:
            if not I.oblige(st, fr, 'overflow', 'pow', FALSE, line): return []
        return [(st, r)]
    return m
for t in _ints:
    for k in ('', 'checked_', 'saturating_', 'wrapping_'): M['std::num::<impl %s>::%spow' % (t, k)] = powm(k[:-1])
def be_bytes(n, sg):
    def m(I, st, fr, a, inst, atys, dty, line):
        v = a[0]
        if not isinstance(v, SeqV) or not v.explicit(): raise IP.Undecided('from_be_bytes')
        r = const(0)
        for i, x in enumerate(v.items()[::-1]): r = add(r, scale(I.as_lin(x), 1 << 8 * i))
        return [(st, I.fit(st, r, n, 1) if sg else r)]
    return m
for t in ('u16', 'u32', 'u64', 'i16', 'i32', 'i64'): M['std::num::<impl %s>::from_be_bytes' % t] = be_bytes(int(t[1:]), t[0] == 'i')
def to_be(I, st, fr, a, inst, atys, dty, line):
    b, s = bitsof(I, atys[0]); u = I.find_ty('u%d' % b); x = I.fit(st, a[0], b, 0) if s else a[0]
    return [(st, SeqV([('e', I.as_lin(I.binop(st, 'BitAnd', I.as_lin(I.binop(st, 'Shr', x, const(8 * i), u)), const(255), u))) for i in reversed(range(b // 8))], I.ty(dty)['e']))]
for t in ('u16', 'u32', 'u64', 'i16', 'i32', 'i64'): M['std::num::<impl %s>::to_be_bytes' % t] = to_be
@model('std::iter::Iterator::nth', "<std::slice::Iter<'a, T> as std::iter::Iterator>::nth", '<std::iter::Skip<I> as std::iter::Iterator>::nth')
def m_nth(I, st, fr, a, inst, atys, dty, line):
    it = I.deref_val(st, a[0]); n = a[1]
    if isinstance(it, RefV): it = I.deref_val(st, it)
    if isinstance(it, ItV) and it.kind == 'slice':
        d = it.d; out = []
        for s2, b in split(st, c_le(add(sub(add(d[1], n), d[2]), const(1)))):
            I.store(s2, a[0].base, a[0].path, ItV('slice', d[0], add(add(d[1], n), const(1)) if b else d[2], d[2]))
            out.append((s2, some(I, dty, RefV(d[0].base, d[0].path + (('i', add(d[1], n)),))) if b else none(I, dty)))
        return out
    if not n.is_const() or n.c > 300: raise IP.Undecided('nth')
    cur = [(st, it, None)]; out = []
    for k in range(n.c + 1):
        nx = []
        for s1, i1, _ in cur:
            for s2, i2, x in MD.it_next(I, s1, fr, i1, MD.item_ty(I, dty)):
                if x is None: I.store(s2, a[0].base, a[0].path, i2); out.append((s2, none(I, dty)))
                else: nx.append((s2, i2, x))
        cur = nx
    for s2, i2, x in cur: I.store(s2, a[0].base, a[0].path, i2); out.append((s2, some(I, dty, x)))
    return out
_collect = M['std::iter::Iterator::collect']
@model('std::iter::Iterator::collect')
def m_collect2(I, st, fr, a, inst, atys, dty, line):
    t = I.ty(dty); w = t['path'].split('::')[-1] if t['k'] == 'adt' else ''
    if w in ('Option', 'Result') and isinstance(a[0], (ItV, Agg)):
        inner = I.ty(t['v'][I.variant_index(dty, 'Some' if w == 'Option' else 'Ok')]['f'][0][1])
        if not I.is_vec(inner) and not I.is_string(inner): raise IP.Undecided('collect')
        good = 'Some' if w == 'Option' else 'Ok'
        states = [(st, a[0], [])]; outs = []; n = 0
        while states:
            s1, i1, acc = states.pop(); n += 1
            if n > 400: raise IP.Undecided('collect')
            for s2, i2, x in MD.it_next(I, s1, fr, i1, None):
                if x is None:
                    v = SeqV([('e', y) for y in acc], inner['targs'][0]) if I.is_vec(inner) else MD.S(*[('lit', chr(y.c)) if y.is_const() else ('chr', y) for y in acc if isinstance(y, Lin)])
                    if not I.is_vec(inner) and not all(isinstance(y, Lin) for y in acc): raise IP.Undecided('collect')
                    outs.append((s2, Agg(dty, I.variant_index(dty, good), [v]))); continue
                if not isinstance(x, Agg): raise IP.Undecided('collect')
                vn = I.ty(x.ty)['v'][x.var]['n']
                if vn == good: states.append((s2, i2, acc + [x.fs[0]]))
                else: outs.append((s2, Agg(dty, x.var, x.fs)))
        return outs
    if isinstance(a[0], Agg) and (I.is_vec(t)):
        d = drained(I, st, fr, a[0], t['targs'][0])
        if d is not None: return [(s2, SeqV([('e', y) for y in acc], t['targs'][0])) for s2, acc in d]
    return _collect(I, st, fr, a, inst, atys, dty, line)
@model('std::iter::Iterator::unzip')
def m_unzip(I, st, fr, a, inst, atys, dty, line):
    ts = I.ty(dty)['f']
    if not all(I.is_vec(I.ty(x)) for x in ts): raise IP.Undecided('unzip')
    d = drained(I, st, fr, a[0])
    if d is None: raise IP.Undecided('unzip')
    return [(s2, Agg(dty, 0, [SeqV([('e', y.fs[i]) for y in acc], I.ty(ts[i])['targs'][0]) for i in (0, 1)])) for s2, acc in d]
