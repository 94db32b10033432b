"""Abstract transfer functions for the standard-library and third-party operations the
two crates call.  Keys are normalised definition paths (core/alloc -> std)."""
from terms import *
from values import *
import interp as IP

def some(I, tid, v): return Agg(tid, I.variant_index(tid, 'Some'), [v])
def none(I, tid): return Agg(tid, I.variant_index(tid, 'None'), [])
def ok(I, tid, v): return Agg(tid, I.variant_index(tid, 'Ok'), [v])
def err(I, tid, v): return Agg(tid, I.variant_index(tid, 'Err'), [v])
def unit(I, dty): return I.zst(dty)
def is_thermal(inst): return inst and inst['crate'].startswith('thermal')

def split(st, c):
    """[(state, bool)] for a condition"""
    r = st.decide(c)
    if r is not None: return [(st, r)]
    s2 = st.copy(); out = []
    if st.assume(c): out.append((st, True))
    if s2.assume(c_not(c)): out.append((s2, False))
    return out

def rd(I, st, v):
    """dereference a chain of references down to a value"""
    while isinstance(v, (RefV, BoxV, RcV)): v = I.deref_val(st, v)
    return v
def sv(I, st, v): return v if isinstance(v, SeqV) else I.deref_val(st, v)
def freeze(I, st, v, fuel=12):
    """value with references replaced by what they point at (for terms)"""
    if fuel == 0: return OpV('deep')
    if isinstance(v, RefV):
        try: return freeze(I, st, I.deref_val(st, v), fuel - 1)
        except IP.Undecided: return v
    if isinstance(v, (BoxV, RcV)):
        try: return freeze(I, st, I.deref_val(st, v), fuel - 1)
        except IP.Undecided: return v
    if isinstance(v, Agg): return Agg(v.ty, v.var, [freeze(I, st, x, fuel - 1) for x in v.fs])
    if isinstance(v, SeqV): return SeqV([('e', freeze(I, st, s[1], fuel - 1)) if s[0] == 'e' else s for s in v.segs], v.ety)
    return v
def value_eq(I, st, a, b, fuel=8):
    """Cond for structural equality; None when it cannot be expressed"""
    if isinstance(a, (RefV, BoxV, RcV)): a = I.deref_val(st, a)
    if isinstance(b, (RefV, BoxV, RcV)): b = I.deref_val(st, b)
    if isinstance(a, (RefV, BoxV, RcV)) or isinstance(b, (RefV, BoxV, RcV)): return value_eq(I, st, a, b, fuel - 1)
    if a == b and not isinstance(a, OpV): return TRUE
    if isinstance(a, (Lin, Cond)) and isinstance(b, (Lin, Cond)):
        return I.binop(st, 'Eq', a, b, None)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var != b.var: return FALSE
        cs = []
        for x, y in zip(a.fs, b.fs):
            c = value_eq(I, st, x, y, fuel - 1)
            if c is None: return None
            cs.append(c)
        return c_and(*cs)
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        la, lb = a.length(), b.length()
        r = st.decide(c_eq(sub(la, lb)))
        if r is False: return FALSE
        if la.is_const() and la.c <= 64 or lb.is_const() and lb.c <= 64:
            n = la.c if la.is_const() else lb.c
            if r is None:
                # compare under the assumption of equal length
                s2 = st.copy()
                if not s2.assume(c_eq(sub(la, lb))): return FALSE
            else: s2 = st
            cs = [c_eq(sub(la, lb))]
            for i in range(n):
                try: c = value_eq(I, s2, I.seq_get(s2, a, const(i)), I.seq_get(s2, b, const(i)), fuel - 1)
                except IP.Undecided: return None
                if c is None: return None
                cs.append(c)
            return c_and(*cs)
        if a == b: return TRUE
        return c_atom(atom(('seqeq', a, b), 0, 1, 'seqeq', (), name='eq(%r,%r)' % (a, b), imp=any(s[0] == 'm' for s in a.segs + b.segs)))
    if isinstance(a, OpV) and isinstance(b, OpV):
        if a.op == 'str' and b.op == 'str':
            if a == b: return TRUE
            if all(p[0] == 'lit' for p in a.args + b.args): return TRUE if lit(a) == lit(b) else FALSE
            if not a.args and b.args and any(p[0] == 'lit' and p[1] for p in b.args): return FALSE
            if not b.args and a.args and any(p[0] == 'lit' and p[1] for p in a.args): return FALSE
            if not a.args: return c_eq(I.str_len(st, b))
            if not b.args: return c_eq(I.str_len(st, a))
            x, y = chars_list(a), chars_list(b)
            if x is not None and y is not None:
                return c_and(*[c_eq(sub(p, q)) for p, q in zip(x, y)]) if len(x) == len(y) else FALSE
            return c_atom(atom(('streq', a, b), 0, 1, 'streq', (), name='streq(%r,%r)' % (a, b), imp=a.imp or b.imp))
        if a.op == 'f' and b.op == 'f': return TRUE if a.args[0] == b.args[0] else FALSE
        if a.op[0] == 'f' and b.op[0] == 'f' and a.op not in ('fn', 'fmt'):
            return I.fbin(st, 'Eq', a, b, dict(b=32))
        return c_atom(atom(('opeq', a, b), 0, 1, 'opeq', (), name='eq(%r,%r)' % (a, b), imp=a.imp or b.imp))
    if isinstance(a, SymV) or isinstance(b, SymV):
        ty = a.ty if isinstance(a, SymV) else b.ty
        t = I.ty(ty)
        if t['k'] == 'adt' and t['ak'] == 'enum' and all(not v['f'] for v in t['v']):
            return c_eq(sub(I.discr_lin(st, a, ty), I.discr_lin(st, b, ty)))
    return None

# ------------------------------------------------------------------ strings
def lit(v): return ''.join(p[1] for p in v.args)
def S(*parts, imp=False):
    out = []
    for p in parts:
        if p[0] == 'lit':
            if not p[1]: continue
            if out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + p[1]); continue
        out.append(p)
    return OpV('str', out, imp=imp)
def chars_list(v):
    """the characters of a string whose length in characters is known, else None"""
    r = []
    for p in v.args:
        if p[0] == 'lit': r += [const(ord(c)) for c in p[1]]
        elif p[0] == 'chr': r.append(p[1])
        else: return None
    return r
ENC = {}                 # character term -> the terms of its UTF-8 bytes
NUM = {}                 # digit character term -> (kind, number term, digits, index)
def clen(st, c):
    """bytes of a character in UTF-8; None when not fixed"""
    if c.is_const(): return len(chr(c.c).encode('utf8', 'surrogatepass'))
    if c in ENC: return len(ENC[c])
    l, h = st.iv(c)
    for k, (p, q) in enumerate(((0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff))):
        if p <= l and h <= q: return k + 1
    return None
def cbytes(st, c):
    if c.is_const(): return [const(b) for b in chr(c.c).encode('utf8', 'surrogatepass')]
    if c in ENC: return list(ENC[c])
    return [c] if st.ub(c) < 128 else None
def is_ws(c, ascii=False):
    return c_or(*[c_and(c_le(sub(const(l), c)), c_le(sub(c, const(h)))) for l, h in (((9, 10), (12, 13), (32, 32)) if ascii else WHITE)])
def of_chars(cs): return S(*[('lit', chr(c.c)) if c.is_const() else ('chr', c) for c in cs])
def sval(I, st, v):
    v = rd(I, st, v)
    if isinstance(v, OpV) and v.op == 'str': return v
    if isinstance(v, SymV): return S(('sym', v.name), imp=v.imp)
    if isinstance(v, OpV): return S(('v', v), imp=v.imp)
    if isinstance(v, SeqV): return S(('bytes', v), imp=any(s[0] == 'm' for s in v.segs))
    raise IP.Undecided('string of %r' % (v,))
def mkref(I, st, v): return RefV(I.new_heap(st, v))

M = {}
def model(*names):
    def deco(f):
        for n in names: M[n] = f
        return f
    return deco

# identity-like
@model('std::hint::must_use', '<T as std::convert::From<T>>::from', '<I as std::iter::IntoIterator>::into_iter',
       'std::hint::black_box', 'std::mem::ManuallyDrop::<T>::new')
def m_id(I, st, fr, a, inst, atys, dty, line): return [(st, a[0])]
@model('<T as std::convert::Into<U>>::into')
def m_into(I, st, fr, a, inst, atys, dty, line):
    t = I.ty(dty)
    if I.is_string(t): return [(st, sval(I, st, a[0]))]
    return None
@model('<std::string::String as std::convert::From<&str>>::from', '<T as std::borrow::ToOwned>::to_owned',
       'std::str::<impl std::borrow::ToOwned for str>::to_owned', '<std::string::String as std::clone::Clone>::clone')
def m_strown(I, st, fr, a, inst, atys, dty, line): return [(st, I.deep(st, rd(I, st, a[0])))]
@model('<T as std::string::ToString>::to_string')
def m_tostring(I, st, fr, a, inst, atys, dty, line):
    v = rd(I, st, a[0])
    if isinstance(v, OpV) and v.op == 'str': return [(st, v)]
    v = freeze(I, st, v)
    if isinstance(v, Lin) and not v.is_const() and atys:
        t = I.ty(atys[0])
        while t['k'] == 'ref': t = I.ty(t['e'])
        if t['k'] == 'char': return [(st, S(('chr', v)))]
        if t['k'] in ('int', 'uint'): return [(st, S(('display', v), imp=val_imprecise(v)))]
    if isinstance(v, Lin) and v.is_const() and atys:
        t = I.ty(atys[0])
        while t['k'] == 'ref': t = I.ty(t['e'])
        if t['k'] == 'int': return [(st, S(('lit', str(v.c))))]
        if t['k'] == 'char': return [(st, S(('lit', chr(v.c))))]
    if isinstance(v, OpV) and v.op == 'cow' and isinstance(v.args[0], SeqV) and v.args[0].explicit() and all(isinstance(x, Lin) and st.iv(x)[1] < 128 for x in v.args[0].items()):
        return [(st, of_chars(v.args[0].items()))]
    return [(st, S(('disp', v), imp=val_imprecise(v)))]
@model('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', 'std::string::String::as_bytes_ref',
       '<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice')
def m_deref(I, st, fr, a, inst, atys, dty, line): return [(st, a[0])]
for _n in ('<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::convert::AsRef<std::vec::Vec<T, A>>>::as_ref',
           '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut', '<std::vec::Vec<T, A> as std::convert::AsMut<std::vec::Vec<T, A>>>::as_mut',
           '<std::string::String as std::convert::AsRef<str>>::as_ref', '<str as std::convert::AsRef<str>>::as_ref',
           'std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow', 'std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow',
           '<[T] as std::convert::AsRef<[T]>>::as_ref', '<[T] as std::convert::AsMut<[T]>>::as_mut', 'std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref'):
    M[_n] = m_deref
@model('<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut',
       '<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow', '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut')
def m_boxref(I, st, fr, a, inst, atys, dty, line):
    v = I.deref_val(st, a[0])
    if isinstance(v, BoxV): return [(st, RefV(v.base))]
    return None
@model('std::rc::Rc::<T, A>::unwrap_or_clone')
def m_rcunwrap(I, st, fr, a, inst, atys, dty, line):
    if isinstance(a[0], RcV): return clone_val(I, st, fr, I.load(st, a[0].base, ()), dty, line)
    return None
@model('<std::rc::Rc<T, A> as std::ops::Deref>::deref', '<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref', '<std::rc::Rc<T, A> as std::borrow::Borrow<T>>::borrow')
def m_rcderef(I, st, fr, a, inst, atys, dty, line):
    v = I.deref_val(st, a[0])
    if isinstance(v, RcV): return [(st, RefV(v.base))]
    return None
@model('<std::rc::Rc<T, A> as std::clone::Clone>::clone')
def m_rcclone(I, st, fr, a, inst, atys, dty, line): return [(st, I.deref_val(st, a[0]))]
@model('std::rc::Rc::<T>::new', '<std::rc::Rc<T> as std::convert::From<T>>::from')
def m_rcnew(I, st, fr, a, inst, atys, dty, line): return [(st, RcV(I.new_heap(st, a[0])))]
@model('std::boxed::Box::<T>::new', 'std::boxed::convert::<impl std::convert::From<T> for std::boxed::Box<T>>::from')
def m_boxnew(I, st, fr, a, inst, atys, dty, line): return [(st, BoxV(I.new_heap(st, a[0])))]
@model('std::boxed::Box::<T>::new_uninit')
def m_boxuninit(I, st, fr, a, inst, atys, dty, line): return [(st, BoxV(I.new_heap(st, OpV('uninit'))))]
@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(I, st, fr, a, inst, atys, dty, line): return [(st, I.load(st, a[0].base, ()))]
@model('<std::boxed::Box<T, A> as std::clone::Clone>::clone', '<std::boxed::Box<T> as std::clone::Clone>::clone')
def m_boxclone(I, st, fr, a, inst, atys, dty, line):
    t = I.ty(dty); b = I.deref_val(st, a[0])
    inner = I.load(st, b.base, ())
    return [(s2, BoxV(I.new_heap(s2, v))) for s2, v in clone_val(I, st, fr, inner, t['targs'][0], line)]
def clone_val(I, st, fr, v, tid, line=None):
    """clone through the type's own Clone implementation when it is local"""
    t = I.ty(tid)
    if t['k'] == 'adt' and t['crate'].startswith('thermal'):
        nm = '<%s as std::clone::Clone>::clone' % t['path']
        fn = I.P.fn(nm)
        if fn is not None:
            r = RefV(I.new_heap(st, v))
            q = I.local_clone(st, fr, nm, dict(key=fn['key']), [r])
            return q if q is not None else I.invoke(fn, [r], st, fr)
    return [(st, I.deep(st, v))]
@model('std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied')
def m_optcloned(I, st, fr, a, inst, atys, dty, line):
    v = a[0]
    if isinstance(v, Agg):
        if not v.fs: return [(st, none(I, dty))]
        et = I.ty(dty)['targs'][0]
        return [(s2, some(I, dty, x)) for s2, x in clone_val(I, st, fr, I.deref_val(st, v.fs[0]), et)]
    return None
@model('<std::option::Option<T> as std::clone::Clone>::clone')
def m_optclone(I, st, fr, a, inst, atys, dty, line):
    v = I.deref_val(st, a[0])
    if isinstance(v, SymV): return [(st, v)]
    if isinstance(v, Agg):
        if not v.fs: return [(st, v)]
        return [(s2, Agg(v.ty, v.var, [x])) for s2, x in clone_val(I, st, fr, v.fs[0], I.ty(dty)['targs'][0])]
    return None
def m_copyclone(I, st, fr, a, inst, atys, dty, line): return [(st, I.deep(st, I.deref_val(st, a[0])))]
for _t in 'bool f32 f64 i8 i16 i32 i64 u8 u16 u32 u64 usize isize char'.split():
    M['std::clone::impls::<impl std::clone::Clone for %s>::clone' % _t] = m_copyclone
M['std::clone::impls::<impl std::clone::Clone for &T>::clone'] = m_copyclone
M['std::array::<impl std::clone::Clone for [T; N]>::clone'] = m_copyclone
M['<std::collections::HashMap<K, V, S, A> as std::clone::Clone>::clone'] = m_copyclone
@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec',
       'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', 'std::slice::<impl [T]>::into_vec')
def m_vecclone(I, st, fr, a, inst, atys, dty, line):
    v = sv(I, st, a[0])
    if isinstance(v, SymV): return [(st, v)]
    if not isinstance(v, SeqV): return None
    et = I.ty(v.ety)
    if et['k'] == 'adt' and et['crate'].startswith('thermal') and v.explicit():
        states = [(st, [])]
        for s in v.segs:
            nxt = []
            for s1, acc in states:
                for s2, x in clone_val(I, s1, fr, s[1], v.ety): nxt.append((s2, acc + [('e', x)]))
            states = nxt
        return [(s1, SeqV(acc, v.ety)) for s1, acc in states]
    return [(st, I.deep(st, v))]
@model('<&u8 as std::ops::BitAnd<u8>>::bitand')
def m_bitand(I, st, fr, a, inst, atys, dty, line):
    return [(st, I.binop(st, 'BitAnd', I.deref_val(st, a[0]), a[1], dty))]
@model('std::mem::swap')
def m_swap(I, st, fr, a, inst, atys, dty, line):
    x, y = I.deref_val(st, a[0]), I.deref_val(st, a[1])
    I.store(st, a[0].base, a[0].path, y); I.store(st, a[1].base, a[1].path, x)
    return [(st, unit(I, dty))]
@model('std::mem::replace')
def m_replace(I, st, fr, a, inst, atys, dty, line):
    x = I.deref_val(st, a[0]); I.store(st, a[0].base, a[0].path, a[1])
    return [(st, x)]
@model('std::mem::take')
def m_take(I, st, fr, a, inst, atys, dty, line):
    x = I.deref_val(st, a[0]); t = I.ty(dty)
    if I.is_vec(t): nv = SeqV((), t['targs'][0])
    elif I.is_string(t): nv = S()
    elif t['k'] == 'adt' and t['path'] == 'std::option::Option': nv = none(I, dty)
    elif t['k'] == 'bool': nv = FALSE
    elif t['k'] == 'int': nv = const(0)
    else: return None
    I.store(st, a[0].base, a[0].path, nv)
    return [(st, x)]
@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def m_discr(I, st, fr, a, inst, atys, dty, line):
    return None

# ------------------------------------------------------------------ Vec
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def m_vecnew(I, st, fr, a, inst, atys, dty, line):
    if a: capcheck(I, st, fr, a[0], I.ty(dty)['targs'][0], line)
    return [(st, SeqV((), I.ty(dty)['targs'][0]))]
def capcheck(I, st, fr, n, ety, line):
    h = getattr(I, 'cap_hook', None)
    if h: h(I, st, fr, n, ety, line)
@model('std::vec::from_elem')
def m_fromelem(I, st, fr, a, inst, atys, dty, line):
    capcheck(I, st, fr, a[1], I.ty(dty)['targs'][0], line)
    n = a[1]
    if n.is_const() and n.c <= 64: return [(st, SeqV([('e', a[0])] * n.c, I.ty(dty)['targs'][0]))]
    return [(st, SeqV((('m', a[0], n),), I.ty(dty)['targs'][0]))]
def vec_at(I, st, r): 
    v = I.deref_val(st, r)
    if not isinstance(v, SeqV): raise IP.Undecided('vec %r' % (v,))
    return v
@model('std::vec::Vec::<T, A>::push')
def m_push(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0])
    I.store(st, a[0].base, a[0].path, SeqV(IP.norm_segs(st, v.segs + (('e', a[1]),)), v.ety))
    return [(st, unit(I, dty))]
@model('std::vec::Vec::<T, A>::pop')
def m_pop(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); out = []
    for s2, e in split(st, c_eq(v.length())):
        if e: out.append((s2, none(I, dty))); continue
        n = sub(v.length(), const(1))
        if v.segs and v.segs[-1][0] == 'e':
            x = v.segs[-1][1]; w = SeqV(v.segs[:-1], v.ety)
        else:
            x = I.seq_get(s2, v, n); w = I.seq_slice(s2, v, const(0), n) or SeqV((('m', None, n),), v.ety)
        I.store(s2, a[0].base, a[0].path, w)
        out.append((s2, some(I, dty, x)))
    return out
@model('std::vec::Vec::<T, A>::len', 'std::slice::<impl [T]>::len', 'std::str::<impl str>::len', 'std::string::String::len')
def m_len(I, st, fr, a, inst, atys, dty, line): return [(st, I.ref_len(st, a[0]))]
@model('std::vec::Vec::<T, A>::is_empty', 'std::slice::<impl [T]>::is_empty', 'std::str::<impl str>::is_empty', 'std::string::String::is_empty')
def m_isempty(I, st, fr, a, inst, atys, dty, line): 
    v = I.deref_val(st, a[0])
    if isinstance(v, OpV) and v.op == 'str' and any(p[0] == 'lit' and p[1] or p[0] == 'chr' for p in v.args): return [(st, FALSE)]
    return [(st, c_eq(I.ref_len(st, a[0])))]
@model('std::vec::Vec::<T, A>::capacity')
def m_cap(I, st, fr, a, inst, atys, dty, line):
    # any capacity from the length on may be returned, so the atom is exact
    x = lin(IP.fresh('cap', 0, IP.MAXLEN, imp=False)); st.assume(c_le(sub(I.ref_len(st, a[0]), x)))
    return [(st, x)]
@model('std::vec::Vec::<T, A>::clear')
def m_clear(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); I.store(st, a[0].base, a[0].path, SeqV((), v.ety)); return [(st, unit(I, dty))]
@model('std::string::String::clear')
def m_sclear(I, st, fr, a, inst, atys, dty, line):
    I.store(st, a[0].base, a[0].path, S()); return [(st, unit(I, dty))]
@model('std::vec::Vec::<T, A>::shrink_to', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::reserve')
def m_nop(I, st, fr, a, inst, atys, dty, line): return [(st, unit(I, dty))]
@model('std::vec::Vec::<T, A>::try_reserve')
def m_tryres(I, st, fr, a, inst, atys, dty, line):
    return [(st, ok(I, dty, I.zst(I.ty(dty)['targs'][0])))]          # memory suffices
@model('std::vec::Vec::<T, A>::append')
def m_append(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); w = vec_at(I, st, a[1])
    I.store(st, a[0].base, a[0].path, SeqV(IP.norm_segs(st, v.segs + w.segs), v.ety))
    I.store(st, a[1].base, a[1].path, SeqV((), v.ety))
    return [(st, unit(I, dty))]
@model('std::vec::Vec::<T, A>::extend_from_slice')
def m_extslice(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); w = sv(I, st, a[1])
    I.store(st, a[0].base, a[0].path, SeqV(IP.norm_segs(st, v.segs + I.deep(st, w).segs), v.ety))
    return [(st, unit(I, dty))]
@model('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend')
def m_extend(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0])
    w = as_seq(I, st, a[1])
    if w is None:
        w = SeqV((('m', None, lin(IP.fresh('extlen', 0, IP.MAXLEN))),), v.ety)
    I.store(st, a[0].base, a[0].path, SeqV(IP.norm_segs(st, v.segs + w.segs), v.ety))
    return [(st, unit(I, dty))]
def as_seq(I, st, v):
    """the sequence an iterable value yields, when it is a plain sequence of values"""
    if isinstance(v, SeqV): return v
    if isinstance(v, ItV) and v.kind == 'into': return v.d[0]
    if isinstance(v, ItV) and v.kind == 'clonedslice': return slice_seq(I, st, v.d[0])
    if isinstance(v, RefV):
        w = I.deref_val(st, v)
        if isinstance(w, SeqV): return w
    return None
def cut(I, st, v, lo, hi, mid):
    L = I.seq_slice(st, v, const(0), lo); R = I.seq_slice(st, v, hi, v.length())
    if L is None or R is None:
        n = add(sub(v.length(), sub(hi, lo)), SeqV(mid, v.ety).length())
        return SeqV((('m', None, n),), v.ety)
    return SeqV(IP.norm_segs(st, L.segs + tuple(mid) + R.segs), v.ety)
@model('std::vec::Vec::<T, A>::insert')
def m_vinsert(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0])
    if not I.oblige(st, fr, 'bounds', 'insert', c_le(sub(a[1], v.length())), line): return []
    I.store(st, a[0].base, a[0].path, cut(I, st, v, a[1], a[1], [('e', a[2])]))
    return [(st, unit(I, dty))]
@model('std::vec::Vec::<T, A>::remove')
def m_vremove(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0])
    if not I.oblige(st, fr, 'bounds', 'remove', c_le(add(sub(a[1], v.length()), const(1))), line): return []
    x = I.seq_get(st, v, a[1])
    I.store(st, a[0].base, a[0].path, cut(I, st, v, a[1], add(a[1], const(1)), []))
    return [(st, x)]
@model('std::vec::Vec::<T, A>::truncate')
def m_vtruncate(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); out = []
    for s2, b in split(st, c_le(sub(v.length(), a[1]))):
        if not b: I.store(s2, a[0].base, a[0].path, I.seq_slice(s2, v, const(0), a[1]) or SeqV((('m', None, a[1]),), v.ety))
        out.append((s2, unit(I, dty)))
    return out
@model('std::vec::Vec::<T, A>::split_off')
def m_splitoff(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); n = v.length()
    if not I.oblige(st, fr, 'bounds', 'split_off', c_le(sub(a[1], n)), line): return []
    R = I.seq_slice(st, v, a[1], n) or SeqV((('m', None, sub(n, a[1])),), v.ety)
    I.store(st, a[0].base, a[0].path, I.seq_slice(st, v, const(0), a[1]) or SeqV((('m', None, a[1]),), v.ety))
    return [(st, R)]
@model('std::vec::Vec::<T, A>::splice')
def m_splice(I, st, fr, a, inst, atys, dty, line):
    v = vec_at(I, st, a[0]); w = as_seq(I, st, a[2])
    r = range_bounds(I, st, a[1], v.length())
    if w is None or r is None: raise IP.Undecided('splice')
    lo, hi = r
    if not I.oblige(st, fr, 'bounds', 'splice range', c_and(c_le(sub(lo, hi)), c_le(sub(hi, v.length()))), line): return []
    L = I.seq_slice(st, v, const(0), lo); R = I.seq_slice(st, v, hi, v.length())
    if L is None or R is None: nv = SeqV((('m', None, add(sub(v.length(), sub(hi, lo)), w.length())),), v.ety)
    else: nv = SeqV(IP.norm_segs(st, L.segs + w.segs + R.segs), v.ety)
    I.store(st, a[0].base, a[0].path, nv)
    return [(st, OpV('splice'))]
def range_bounds(I, st, r, n):
    if isinstance(r, Agg):
        t = I.ty(r.ty); p = t['path'].split('::')[-1]
        if p == 'Range': return r.fs[0], r.fs[1]
        if p == 'RangeFrom': return r.fs[0], n
        if p == 'RangeTo': return const(0), r.fs[0]
        if p == 'RangeFull': return const(0), n
        if p == 'RangeInclusive': return r.fs[0], add(r.fs[1], const(1))
        if p == 'RangeToInclusive': return const(0), add(r.fs[0], const(1))
    return None
@model('std::ops::RangeInclusive::<Idx>::new')
def m_rinew(I, st, fr, a, inst, atys, dty, line): return [(st, Agg(dty, 0, [a[0], a[1], FALSE]))]

def index_any(I, st, fr, a, dty, line, mut=False):
    r, ix = a
    while True:
        v = I.load(st, r.base, r.path) if r.view is None else None
        if isinstance(v, RefV): r = v; continue
        break
    n = I.ref_len(st, r)
    off = r.view[0] if r.view is not None else const(0)
    if isinstance(ix, (Lin, Cond)):
        if not I.oblige(st, fr, 'bounds', 'index', c_le(add(sub(ix, n), const(1))), line): return []
        return [(st, RefV(r.base, r.path + (('i', add(off, ix)),)))]
    rg = range_bounds(I, st, ix, n)
    if rg is None: raise IP.Undecided('index by %r' % (ix,))
    lo, hi = rg
    if not I.oblige(st, fr, 'bounds', 'slice', c_and(c_le(sub(lo, hi)), c_le(sub(hi, n))), line): return []
    return [(st, RefV(r.base, r.path, (add(off, lo), sub(hi, lo))))]
@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut',
       'std::slice::index::<impl std::ops::Index<I> for [T]>::index', 'std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def m_index(I, st, fr, a, inst, atys, dty, line): return index_any(I, st, fr, a, dty, line)
@model('std::slice::<impl [T]>::get', 'std::slice::<impl [T]>::get_mut')
def m_get(I, st, fr, a, inst, atys, dty, line):
    r, ix = a
    n = I.ref_len(st, r)
    off = r.view[0] if r.view is not None else const(0)
    out = []
    if isinstance(ix, Lin):
        for s2, b in split(st, c_le(add(sub(ix, n), const(1)))):
            out.append((s2, some(I, dty, RefV(r.base, r.path + (('i', add(off, ix)),))) if b else none(I, dty)))
        return out
    rg = range_bounds(I, st, ix, n)
    if rg is None: return None
    lo, hi = rg
    for s2, b in split(st, c_and(c_le(sub(lo, hi)), c_le(sub(hi, n)))):
        out.append((s2, some(I, dty, RefV(r.base, r.path, (add(off, lo), sub(hi, lo)))) if b else none(I, dty)))
    return out
@model('std::slice::<impl [T]>::first', 'std::slice::<impl [T]>::last')
def m_firstlast(I, st, fr, a, inst, atys, dty, line):
    r = a[0]; n = I.ref_len(st, r); off = r.view[0] if r.view is not None else const(0); out = []
    for s2, e in split(st, c_eq(n)):
        ix = off if inst['path'].endswith('first') else add(off, sub(n, const(1)))
        out.append((s2, none(I, dty) if e else some(I, dty, RefV(r.base, r.path + (('i', ix),)))))
    return out
@model('std::slice::<impl [T]>::contains')
def m_contains(I, st, fr, a, inst, atys, dty, line):
    v = sv(I, st, a[0]); x = I.deref_val(st, a[1])
    if isinstance(v, SeqV) and v.explicit():
        cs = [value_eq(I, st, e, x) for e in v.items()]
        if all(c is not None for c in cs): return [(st, c_or(*cs) if cs else FALSE)]
    return [(st, I.fresh_value(dty, 'contains'))]
@model('std::slice::<impl [T]>::reverse')
def m_reverse(I, st, fr, a, inst, atys, dty, line):
    v = sv(I, st, a[0])
    nv = SeqV(tuple(reversed(v.segs)), v.ety) if v.explicit() else SeqV((('m', None, v.length()),), v.ety)
    if a[0].view is not None: raise IP.Undecided('reverse view')
    I.store(st, a[0].base, a[0].path, nv); return [(st, unit(I, dty))]
@model('std::slice::<impl [T]>::swap')
def m_sswap(I, st, fr, a, inst, atys, dty, line):
    r = a[0]; n = I.ref_len(st, r)
    if not I.oblige(st, fr, 'bounds', 'swap', c_and(c_le(add(sub(a[1], n), const(1))), c_le(add(sub(a[2], n), const(1)))), line): return []
    v = sv(I, st, r)
    x, y = I.seq_get(st, v, a[1]), I.seq_get(st, v, a[2])
    nv = I.seq_set(st, I.seq_set(st, v, a[1], y), a[2], x)
    if r.view is not None: raise IP.Undecided('swap view')
    I.store(st, r.base, r.path, nv); return [(st, unit(I, dty))]

# ------------------------------------------------------------------ comparisons
@model('std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq', '<std::string::String as std::cmp::PartialEq<str>>::eq',
       'std::str::traits::<impl std::cmp::PartialEq for str>::eq', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq',
       '<std::string::String as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq<&str>>::eq',
       'std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq',
       '<std::vec::Vec<T, A1> as std::cmp::PartialEq<std::vec::Vec<U, A2>>>::eq', 'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq',
       'std::cmp::PartialEq::eq', '<std::option::Option<T> as std::cmp::PartialEq>::eq')
def m_eq(I, st, fr, a, inst, atys, dty, line):
    x, y = rd(I, st, a[0]), rd(I, st, a[1])
    for v in (x, y):
        if isinstance(v, (Agg, SymV)) and I.ty(v.ty)['k'] == 'adt' and I.ty(v.ty)['crate'].startswith('thermal'):
            fn = I.P.fn('<%s as std::cmp::PartialEq>::eq' % I.ty(v.ty)['path'])
            if fn is not None: return I.invoke(fn, [RefV(I.new_heap(st, x)), RefV(I.new_heap(st, y))], st, fr)
    c = value_eq(I, st, x, y)
    if c is None: return [(st, I.fresh_value(dty, 'eq'))]
    return [(st, c)]
@model('std::cmp::PartialEq::ne')
def m_ne(I, st, fr, a, inst, atys, dty, line):
    r = m_eq(I, st, fr, a, inst, atys, dty, line)
    return [(s, c_not(I.as_cond(c))) for s, c in r]
def minmax(k):
    def f(I, st, fr, a, inst, atys, dty, line):
        x, y = a
        if isinstance(x, Lin) and isinstance(y, Lin):
            d = st.decide(c_le(sub(x, y)))
            if d is True: return [(st, x if k == 'min' else y)]
            if d is False: return [(st, y if k == 'min' else x)]
            if not x.is_const() and (y.is_const() or repr(y) < repr(x)): x, y = y, x
            lo, hi = IP.int_range(*I.intinfo(I.ty(dty)))
            return [(st, lin(atom((k, x, y), lo, hi, k, (x, y))))]
        return None
    return f
for _t in 'u8 u16 u32 u64 usize i8 i16 i32 i64'.split():
    for _k in ('min', 'max'): M['std::cmp::impls::<impl std::cmp::Ord for %s>::%s' % (_t, _k)] = minmax(_k)
M['std::cmp::Ord::min'] = minmax('min'); M['std::cmp::Ord::max'] = minmax('max')
def sat(op):
    def f(I, st, fr, a, inst, atys, dty, line):
        x, y = a; t = I.ty(dty); bits, sg = I.intinfo(t); lo, hi = IP.int_range(bits, sg)
        if op == 'div':
            if not I.oblige(st, fr, 'divzero', 'saturating_div', c_ne(y), line): return []
            r = I.binop(st, 'Div', x, y, dty)
            return [(st, r)]
        z = add(x, y) if op == 'add' else (sub(x, y) if op == 'sub' else None)
        if z is None:
            from state import mul_atom
            z = mul_atom(st, x, y)
        l, h = st.iv(z)
        if l >= lo and h <= hi: return [(st, z)]
        if z.is_const(): return [(st, const(max(lo, min(hi, z.c))))]
        d = st.decide(c_and(c_le(sub(const(lo), z)), c_le(sub(z, const(hi)))))
        if d: return [(st, z)]
        return [(st, lin(atom(('clamp', z, lo, hi), lo, hi, 'clamp', (z, lo, hi))))]
    return f
for _t in 'u8 u16 u32 u64 usize i8 i16 i32 i64'.split():
    for _k in ('add', 'sub', 'mul', 'div'): M['std::num::<impl %s>::saturating_%s' % (_t, _k)] = sat(_k)
def arith(op, kind):
    def f(I, st, fr, a, inst, atys, dty, line):
        if kind == 'wrapping': return [(st, I.binop(st, op, a[0], a[1], dty))]
        t = I.ty(dty); et = t['targs'][0]
        x, ov = I.binop(st, op, a[0], a[1], et, True)
        return [(s2, none(I, dty) if b else some(I, dty, x)) for s2, b in split(st, ov)]
    return f
for _t in 'u8 u16 u32 u64 usize i8 i16 i32 i64'.split():
    for _k, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
        M['std::num::<impl %s>::wrapping_%s' % (_t, _k)] = arith(_o, 'wrapping')
        M['std::num::<impl %s>::checked_%s' % (_t, _k)] = arith(_o, 'checked')
    def _cd(I, st, fr, a, inst, atys, dty, line):
        et = I.ty(dty)['targs'][0]
        return [(s2, none(I, dty) if b else some(I, dty, I.binop(s2, 'Div' if inst['path'].endswith('div') else 'Rem', a[0], a[1], et))) for s2, b in split(st, c_eq(a[1]))]
    M['std::num::<impl %s>::checked_div' % _t] = _cd; M['std::num::<impl %s>::checked_rem' % _t] = _cd
@model('std::num::<impl i8>::rem_euclid', 'std::num::<impl i32>::rem_euclid', 'std::num::<impl i16>::rem_euclid')
def m_remeu(I, st, fr, a, inst, atys, dty, line):
    x, y = a
    if y.is_const() and y.c > 0:
        if x.is_const(): return [(st, const(x.c % y.c))]
        return [(st, lin(atom(('remeuclid', x, y), 0, y.c - 1, 'remeuclid', (x, y))))]
    return None
EVAL['remeuclid'] = lambda a, b: a % abs(b)
EVAL['tab'] = lambda i, t: t[i]
def ascii_pred(f):
    cache = {}
    def g(I, st, fr, a, inst, atys, dty, line):
        x = I.deref_val(st, a[0]) if isinstance(a[0], RefV) else a[0]
        if not isinstance(x, Lin): return None
        cs = []
        runs = []; cur = None
        for v in range(256):
            if f(v):
                if cur is None: cur = v
            elif cur is not None: runs.append((cur, v - 1)); cur = None
        if cur is not None: runs.append((cur, 255))
        for l, h in runs: cs.append(c_and(c_le(sub(const(l), x)), c_le(sub(x, const(h)))) if l != h else c_eq(sub(x, const(l))))
        return [(st, c_or(*cs))]
    return g
for _n, _f in (('is_ascii', lambda v: v < 128), ('is_ascii_control', lambda v: v < 32 or v == 127), ('is_ascii_digit', lambda v: 48 <= v <= 57),
               ('is_ascii_graphic', lambda v: 33 <= v <= 126), ('is_ascii_whitespace', lambda v: v in (32, 9, 10, 12, 13)), ('is_ascii_alphabetic', lambda v: 65 <= v <= 90 or 97 <= v <= 122),
               ('is_ascii_alphanumeric', lambda v: 65 <= v <= 90 or 97 <= v <= 122 or 48 <= v <= 57), ('is_ascii_uppercase', lambda v: 65 <= v <= 90)):
    M['std::num::<impl u8>::' + _n] = ascii_pred(_f)
    M['std::char::methods::<impl char>::' + _n] = ascii_pred(_f)
WHITE = ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))
@model('std::char::methods::<impl char>::is_whitespace')
def m_iswhite(I, st, fr, a, inst, atys, dty, line):
    x = I.deref_val(st, a[0]) if isinstance(a[0], RefV) else a[0]
    if not isinstance(x, Lin): return None
    return [(st, c_or(*[c_and(c_le(sub(const(l), x)), c_le(sub(x, const(h)))) for l, h in WHITE]))]
@model('std::char::methods::<impl char>::len_utf8')
def m_lenutf8(I, st, fr, a, inst, atys, dty, line):
    x = a[0]
    if isinstance(x, Lin):
        l, h = st.iv(x)
        for k, (p, q) in enumerate(((0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff))):
            if p <= l and h <= q: return [(st, const(k + 1))]
        return [(st, lin(atom(('lenutf8', x), 1, 4, 'lenutf8', (x,))))]
    return None
@model('std::f32::<impl f32>::round', 'std::f32::<impl f32>::ceil', 'std::f32::<impl f32>::floor', 'std::f32::<impl f32>::abs')
def m_fround(I, st, fr, a, inst, atys, dty, line):
    k = inst['path'].split('::')[-1]; v = a[0]
    import math
    if isinstance(v, OpV) and v.op == 'f' and math.isfinite(v.args[0]):
        x = v.args[0]
        r = {'round': lambda: math.copysign(math.floor(abs(x) + 0.5), x), 'ceil': lambda: math.ceil(x), 'floor': lambda: math.floor(x), 'abs': lambda: abs(x)}[k]()
        return [(st, OpV('f', (float(r),)))]
    if v.op == 'i2f' and k != 'abs': return [(st, v)]
    return [(st, OpV('f' + k, (v,), imp=val_imprecise(v)))]
@model('std::f32::<impl f32>::max', 'std::f32::<impl f32>::min')
def m_fmax(I, st, fr, a, inst, atys, dty, line): return [(st, OpV('f' + inst['path'].split('::')[-1], (a[0], a[1]), imp=val_imprecise(a[0]) or val_imprecise(a[1])))]

# ------------------------------------------------------------------ formatting
def decode_template(b):
    """literal pieces and placeholders of a compiled format string"""
    out = []; i = 0
    while i < len(b):
        c = b[i]
        if c == 0: break
        if c < 128:
            out.append(('lit', b[i + 1:i + 1 + c].decode('utf8', 'replace'))); i += 1 + c
        elif c == 128:
            n = b[i + 1] | b[i + 2] << 8
            out.append(('lit', b[i + 3:i + 3 + n].decode('utf8', 'replace'))); i += 3 + n
        else:
            i += 1; flags = None; idx = None; width = None
            if c & 1: flags = int.from_bytes(b[i:i + 4], 'little'); i += 4
            if c & 2: width = b[i] | b[i + 1] << 8; i += 2
            if c & 4: i += 2
            if c & 8: idx = int.from_bytes(b[i:i + 2], 'little'); i += 2
            out.append(('arg', idx, flags, width))
    return out
@model('std::fmt::Arguments::<\'a>::new')
def m_argsnew(I, st, fr, a, inst, atys, dty, line):
    t = rd(I, st, a[0]); ar = rd(I, st, a[1])
    if not (isinstance(t, SeqV) and t.explicit() and isinstance(ar, SeqV) and ar.explicit()):
        return [(st, OpV('fmtargs', (('unk',),), imp=True))]
    tm = decode_template(bytes(x.c for x in t.items())); args = ar.items(); parts = []; nxt = 0
    for p in tm:
        if p[0] == 'lit': parts.append(p)
        else:
            k = p[1] if p[1] is not None else nxt
            nxt = k + 1
            w = args[k]
            if isinstance(w, OpV) and w.op == 'fmtarg':
                if w.args[0] == 'display' and isinstance(w.args[1], OpV) and w.args[1].op == 'str' and not p[2]: parts.extend(w.args[1].args)
                elif w.args[0] == 'display' and isinstance(w.args[1], Lin) and w.args[2] == 'char' and not p[2]: parts.append(('lit', chr(w.args[1].c)) if w.args[1].is_const() else ('chr', w.args[1]))
                elif w.args[0] in ('display', 'debug') and isinstance(w.args[1], Lin) and w.args[1].is_const() and w.args[2] in ('int', 'uint') and not p[2]: parts.append(('lit', str(w.args[1].c)))
                elif w.args[0] in ('upper_hex', 'lower_hex') and isinstance(w.args[1], Lin) and w.args[1].is_const() and w.args[1].c >= 0 and (not p[2] or p[2] >> 24 & 1 and not p[2] >> 21 & 7 and not p[2] >> 28):
                    parts.append(('lit', ('%X' if w.args[0] == 'upper_hex' else '%x') % w.args[1].c)) if not p[2] else parts.append(('lit', (('%X' if w.args[0] == 'upper_hex' else '%x') % w.args[1].c).rjust(p[3] or 0, '0')))
                else: parts.append((w.args[0], w.args[1]) + ((p[2], p[3]) if p[2] and p[3] is not None else (p[2],) if p[2] else ()))
            else: parts.append(('v', w))
    s = S(*parts)
    return [(st, OpV('fmtargs', s.args, imp=any(len(p) > 1 and val_imprecise(p[1]) for p in s.args if p[0] != 'lit')))]
@model('std::fmt::Arguments::<\'a>::from_str')
def m_argsstr(I, st, fr, a, inst, atys, dty, line): return [(st, OpV('fmtargs', sval(I, st, a[0]).args))]
def m_arg(kind):
    def f(I, st, fr, a, inst, atys, dty, line):
        v = freeze(I, st, a[0])
        if isinstance(v, OpV) and v.op == 'cow' and kind == 'display':
            return [(s2, OpV('fmtarg', (kind, w, 'str'))) for s2, w in m_cow(I, st, fr, [v], inst, atys, dty, line)]
        ty = ''
        if inst['targs']:
            t = I.ty(inst['targs'][0])
            while t['k'] == 'ref': t = I.ty(t['e'])
            ty = t['k']
            if kind == 'display' and t['k'] == 'adt' and isinstance(v, OpV) and v.op not in ('str',): ty = t['name']
        return [(st, OpV('fmtarg', (kind, v, ty), imp=val_imprecise(v)))]
    return f
for _k in ('display', 'debug', 'upper_hex', 'lower_hex'): M["std::fmt::rt::Argument::<'_>::new_" + _k] = m_arg(_k)
@model('std::fmt::format', 'std::fmt::format::format_inner')
def m_format(I, st, fr, a, inst, atys, dty, line): 
    v = a[0]
    return [(st, OpV('str', v.args, imp=v.imp) if isinstance(v, OpV) and v.op == 'fmtargs' else OpV('str', (('v', v),), imp=True))]
@model('std::io::_print', 'std::io::_eprint')
def m_print(I, st, fr, a, inst, atys, dty, line): return [(st, unit(I, dty))]

# ------------------------------------------------------------------ String
@model('std::string::String::new')
def m_snew(I, st, fr, a, inst, atys, dty, line): return [(st, S())]
@model('std::string::String::with_capacity')
def m_swc(I, st, fr, a, inst, atys, dty, line): return [(st, S())]
@model('std::string::String::push_str')
def m_pushstr(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, I.deref_val(st, a[0])); w = sval(I, st, a[1])
    I.store(st, a[0].base, a[0].path, S(*(v.args + w.args), imp=v.imp or w.imp)); return [(st, unit(I, dty))]
@model('std::string::String::push')
def m_spush(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, I.deref_val(st, a[0])); c = a[1]
    p = ('lit', chr(c.c)) if isinstance(c, Lin) and c.is_const() else ('chr', c)
    I.store(st, a[0].base, a[0].path, S(*(v.args + (p,)), imp=v.imp or val_imprecise(c))); return [(st, unit(I, dty))]
@model('std::str::<impl str>::replace')
def m_sreplace(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); x = a[1]; y = sval(I, st, a[2])
    x = x if isinstance(x, Lin) else sval(I, st, x)
    pat = chr(x.c) if isinstance(x, Lin) and x.is_const() else (lit(x) if isinstance(x, OpV) and all(p[0] == 'lit' for p in x.args) else None)
    if pat is not None and all(p[0] == 'lit' for p in v.args + y.args): return [(st, S(('lit', lit(v).replace(pat, lit(y)))))]
    cs = chars_list(v)
    if pat and cs is not None and len(cs) <= 200:
        work, out = [(st, 0, [])], []
        while work:
            if len(work) + len(out) > 300: raise IP.Undecided('replace in an unknown string')
            s1, i, acc = work.pop()
            while i < len(cs):
                r = split(s1, c_and(*[c_eq(sub(c, const(ord(p)))) for c, p in zip(cs[i:], pat)])) if i + len(pat) <= len(cs) else [(s1, False)]
                for s2, b in r[1:]: work.append((s2, i + len(pat), acc + list(y.args)) if b else (s2, i + 1, acc + list(of_chars([cs[i]]).args)))
                s1, b = r[0]
                if b: i += len(pat); acc = acc + list(y.args)
                else: acc = acc + list(of_chars([cs[i]]).args); i += 1
            out.append((s1, S(*acc)))
        return out
    if pat and not v.imp:
        r = replace_parts(I, st, v.args, pat, y)
        if r is not None: return [(st, r)]
    return [(st, S(('replace', v, x, y), imp=v.imp or val_imprecise(x) or y.imp))]
def part_chars(p):
    """the characters a formatted part can consist of; None when unknown"""
    if p[0] == 'chr': return None
    if len(p) > 1 and isinstance(p[1], Lin):
        if p[0] == 'display': return set('-0123456789')
        if p[0] == 'upper_hex': return set('0123456789ABCDEF')
        if p[0] == 'lower_hex': return set('0123456789abcdef')
    return None
def replace_parts(I, st, parts, pat, y):
    """str::replace of a literal pattern in text with formatted numbers, when no match can touch a number"""
    out = []
    for i, p in enumerate(parts):
        if p[0] == 'lit': continue
        cs = part_chars(p)
        if cs is None or all(c in cs for c in pat): return None
        before = parts[i - 1][1] if i and parts[i - 1][0] == 'lit' else ''
        after = parts[i + 1][1] if i + 1 < len(parts) and parts[i + 1][0] == 'lit' else ''
        for k in range(len(pat)):
            if k and not before.endswith(pat[:k]): continue            # the first k characters lie before the number
            j = k
            while j < len(pat) and pat[j] in cs: j += 1
            if any(e == len(pat) or after.startswith(pat[e:]) or (i + 2 < len(parts) and pat[e:].startswith(after)) for e in range(k + 1, j + 1)): return None
    for p in parts:
        if p[0] != 'lit': out.append(p); continue
        bits = p[1].split(pat)
        for n, b in enumerate(bits):
            if n: out += list(y.args)
            if b: out.append(('lit', b))
    return S(*out, imp=y.imp)
@model('std::str::<impl str>::trim', 'std::str::<impl str>::trim_end', 'std::str::<impl str>::trim_start')
def m_trim(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); k = inst['path'].split('::')[-1]
    if all(p[0] == 'lit' for p in v.args):
        s = lit(v); return [(st, mkref(I, st, S(('lit', {'trim': s.strip(), 'trim_end': s.rstrip(), 'trim_start': s.lstrip()}[k]))))]
    cs = chars_list(v)
    if cs is None and all(p[0] == 'lit' or part_chars(p) for p in v.args):
        ps = list(v.args)                   # formatted numbers are never white
        while k != 'trim_end' and ps and ps[0][0] == 'lit':
            t = ps[0][1].lstrip()
            if t: ps[0] = ('lit', t); break
            ps.pop(0)
        while k != 'trim_start' and ps and ps[-1][0] == 'lit':
            t = ps[-1][1].rstrip()
            if t: ps[-1] = ('lit', t); break
            ps.pop()
        return [(st, mkref(I, st, S(*ps)))]
    if cs is not None and len(cs) <= 400:
        def strip(st, l, h, front):
            out = []
            while True:
                if l >= h or not front and k == 'trim_start': return out + [(st, l, h)]
                if front and k == 'trim_end': return out + strip(st, l, h, False)
                rest = None
                for s2, w in split(st, is_ws(cs[l] if front else cs[h - 1])):
                    if w: rest = s2
                    else: out += strip(s2, l, h, False) if front else [(s2, l, h)]
                if rest is None: return out
                st = rest
                if front: l += 1
                else: h -= 1
        return [(s2, mkref(I, s2, of_chars(cs[l:h]))) for s2, l, h in strip(st, 0, len(cs), True)]
    return [(st, mkref(I, st, S((k, v), imp=v.imp)))]
@model('std::str::<impl str>::starts_with', 'std::str::<impl str>::ends_with', 'std::str::<impl str>::contains')
def m_startsw(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); x = a[1]; k = inst['path'].split('::')[-1]
    if all(p[0] == 'lit' for p in v.args):
        import stdmore
        q = stdmore.lit_pat(I, st, fr, a, line)
        if q is not None:
            s, p = q
            if p[0] == 's': b = {'starts_with': s.startswith(p[1]), 'ends_with': s.endswith(p[1]), 'contains': p[1] in s}[k]
            else: b = {'starts_with': lambda: p[1](s[0]), 'ends_with': lambda: p[1](s[-1]), 'contains': lambda: any(p[1](c) for c in s)}[k]() if s else False
            return [(st, TRUE if b else FALSE)]
    x = x if isinstance(x, Lin) else rd(I, st, x)
    cs = chars_list(v); xs = [x] if isinstance(x, Lin) else chars_list(x) if isinstance(x, OpV) and x.op == 'str' else None
    if cs is not None and xs is not None:
        if len(xs) > len(cs): return [(st, FALSE)]
        at = {'starts_with': [0], 'ends_with': [len(cs) - len(xs)], 'contains': range(len(cs) - len(xs) + 1)}[k]
        return [(st, c_or(*[c_and(*[c_eq(sub(p, q)) for p, q in zip(cs[i:i + len(xs)], xs)]) for i in at]))]
    return [(st, c_atom(atom((k, v, x), 0, 1, k, (), name='%s(%r,%r)' % (k, v, x), imp=v.imp or val_imprecise(x) or not (v.op == 'str' and len(v.args) == 1 and v.args[0][0] == 'sym'))))]
@model('std::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes')
def m_asbytes(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0])
    u8 = I.find_ty('u8')
    if all(p[0] == 'lit' for p in v.args): q = SeqV([('e', const(b)) for b in lit(v).encode()], u8)
    elif chars_list(v) is not None and all(cbytes(st, x) is not None for x in chars_list(v)): q = SeqV([('e', y) for x in chars_list(v) for y in cbytes(st, x)], u8)
    elif len(v.args) == 1 and v.args[0][0] in ('bytes', 'lossy', 'utf8') and isinstance(v.args[0][1], SeqV) and v.args[0][0] == 'utf8': q = v.args[0][1]
    else: q = SeqV((('s', 'bytes(%r)' % (v,), const(0), I.str_len(st, v)),), u8)
    return [(st, q if inst['path'].endswith('into_bytes') else mkref(I, st, q))]
@model('std::string::String::from_utf8', 'std::str::from_utf8')
def m_utf8(I, st, fr, a, inst, atys, dty, line):
    v = sv(I, st, a[0])
    if isinstance(v, SymV): v = SeqV((('s', v.name, const(0), lin(sym(v.name + '.len', 0, IP.MAXLEN))),), I.find_ty('u8'))
    isref = inst['path'].endswith('str::from_utf8')
    def wrap(s2, x): return ok(I, dty, mkref(I, s2, x) if isref else x)
    if v.explicit() and all(isinstance(x, Lin) and x.is_const() for x in v.items()):
        try: return [(st, wrap(st, S(('lit', bytes(x.c for x in v.items()).decode()))))]
        except UnicodeDecodeError: return [(st, err(I, dty, OpV('Utf8Error', (v,))))]
    if v.explicit() and all(isinstance(x, Lin) and st.ub(x) < 128 for x in v.items()):
        if all(x.is_const() for x in v.items()): return [(st, wrap(st, S(('lit', bytes(x.c for x in v.items()).decode()))))]
        return [(st, wrap(st, S(*[('chr', x) for x in v.items()])))]
    imp = any(s[0] == 'm' for s in v.segs)
    if I.utf8_chars and v.explicit() and len(v.items()) <= 200:
        r = utf8_chars(st, v.items())
        if r is not None: return [(s2, wrap(s2, of_chars(cs)) if cs is not None else err(I, dty, OpV('Utf8Error', (v,)))) for s2, cs in r]
    c = c_atom(atom(('validutf8', v), 0, 1, 'validutf8', (), name='utf8(%r)' % (v,), imp=imp))
    out = []
    for s2, b in split(st, c):
        out.append((s2, wrap(s2, S(('utf8', v), imp=imp)) if b else err(I, dty, OpV('Utf8Error', (v,)))))
    return out
def utf8_chars(st, bs):
    """explicit bytes decoded as UTF-8 -> [(state, character terms or None when invalid)]"""
    out = []
    def rng(st, x, l, h):
        y = n = None
        for s2, b in split(st, c_and(c_le(sub(const(l), x)), c_le(sub(x, const(h))))):
            if b: y = s2
            else: n = s2
        return y, n
    def go(st, i, cs):
        if len(out) > 400: raise IP.Undecided('UTF-8 decoding of %d bytes' % len(bs))
        if i == len(bs): out.append((st, cs)); return
        b = bs[i]
        y, st = rng(st, b, 0, 0x7f)
        if y: go(y, i + 1, cs + [b])
        for l, h, fol in ((0xC2, 0xDF, [(0x80, 0xBF)]), (0xE0, 0xE0, [(0xA0, 0xBF), (0x80, 0xBF)]), (0xE1, 0xEC, [(0x80, 0xBF)] * 2), (0xED, 0xED, [(0x80, 0x9F), (0x80, 0xBF)]), (0xEE, 0xEF, [(0x80, 0xBF)] * 2),
                          (0xF0, 0xF0, [(0x90, 0xBF)] + [(0x80, 0xBF)] * 2), (0xF1, 0xF3, [(0x80, 0xBF)] * 3), (0xF4, 0xF4, [(0x80, 0x8F)] + [(0x80, 0xBF)] * 2)):
            if st is None: return
            y, st = rng(st, b, l, h)
            if not y: continue
            n = len(fol); c = sub(b, const(0xC0 if n == 1 else 0xE0 if n == 2 else 0xF0)); enc = [b]
            for k, (p, q) in enumerate(fol):
                if i + 1 + k == len(bs): out.append((y, None)); y = None; break
                x = bs[i + 1 + k]; y2, bad = rng(y, x, p, q)
                if bad: out.append((bad, None))
                if not y2: y = None; break
                y = y2; c = add(scale(c, 64), sub(x, const(0x80))); enc.append(x)
            if y is None: continue
            if not c.is_const(): ENC[c] = tuple(enc)
            go(y, i + 1 + n, cs + [c])
        if st is not None: out.append((st, None))
    go(st, 0, [])
    return out
@model('std::string::String::from_utf8_lossy')
def m_lossy(I, st, fr, a, inst, atys, dty, line): return [(st, OpV('cow', (sv(I, st, a[0]),)))]
@model('<std::borrow::Cow<\'_, str> as std::string::ToString>::to_string', 'std::borrow::Cow::<\'_, B>::into_owned')
def m_cow(I, st, fr, a, inst, atys, dty, line):
    v = rd(I, st, a[0])
    if isinstance(v, OpV) and v.op == 'cow':
        q = v.args[0]
        if isinstance(q, SeqV) and q.explicit() and all(isinstance(x, Lin) and x.is_const() for x in q.items()):
            return [(st, S(('lit', bytes(x.c for x in q.items()).decode('utf8', 'replace'))))]
        if I.utf8_chars and isinstance(q, SeqV) and q.explicit() and len(q.items()) <= 200:
            r = utf8_chars(st, q.items())
            return [(s2, of_chars(cs) if cs is not None else S(('lossy', q))) for s2, cs in r]
        return [(st, S(('lossy', q)))]
    return None
@model('std::str::<impl str>::parse', 'std::num::<impl u8>::from_str_radix')
def m_parse(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); t = I.ty(dty)
    if all(p[0] == 'lit' for p in v.args): 
        base = a[1].c if len(a) > 1 and a[1].is_const() else 10
        try: 
            x = int(lit(v), base); b, s = I.intinfo(I.ty(t['targs'][0])); lo, hi = IP.int_range(b, s)
            if lo <= x <= hi: return [(st, ok(I, dty, const(x)))]
        except Exception: pass
        return [(st, err(I, dty, OpV('ParseIntError')))]
    cs = chars_list(v)
    if cs is not None and 0 < len(cs) <= 40:
        r = parse_chars(I, st, cs, a[1].c if len(a) > 1 else 10, I.ty(t['targs'][0]))
        if r is not None: return [(s2, err(I, dty, OpV('ParseIntError')) if x is None else ok(I, dty, x)) for s2, x in r]
    s2 = st.copy()
    return [(st, ok(I, dty, I.sym_value(t['targs'][0], 'parse(%r)' % (v,), v.imp))), (s2, err(I, dty, OpV('ParseIntError')))]
def parse_chars(I, st, cs, base, ty):
    """the number an explicit short string of characters spells -> [(state, number or None)]"""
    if base not in (10, 16): return None
    n0 = NUM.get(cs[0]) if not cs[0].is_const() else None
    if n0 and n0[0] == base and [NUM.get(c) for c in cs] == [(base, n0[1], n0[2], i) for i in range(n0[2])]: return [(st, n0[1])]
    b, sg = I.intinfo(ty); lo, hi = IP.int_range(b, sg)
    if sg: return None
    runs = ((48, 57, 48),) if base == 10 else ((48, 57, 48), (65, 70, 55), (97, 102, 87))
    out = []
    def go(st, i, acc, sign):
        if i == len(cs):
            if sign and i == 1: out.append((st, None)); return
            for s2, b in split(st, c_le(sub(acc, const(hi)))): out.append((s2, acc if b else None))
            return
        c = cs[i]
        for l, h, z in runs:
            nx = None
            for s2, b in split(st, c_and(c_le(sub(const(l), c)), c_le(sub(c, const(h))))):
                if b: go(s2, i + 1, add(scale(acc, base), sub(c, const(z))), sign)
                else: nx = s2
            if nx is None: return
            st = nx
        if i == 0 and len(cs) > 1:
            nx = None
            for s2, b in split(st, c_eq(sub(c, const(43)))):
                if b: go(s2, 1, acc, True)
                else: nx = s2
            if nx is None: return
            st = nx
        out.append((st, None))
    go(st, 0, const(0), False)
    return out
def str_slice(I, st, v, lo, hi):
    """bytes lo..hi of a string of known byte layout: its value, False when out of bounds or inside a character, None when not known"""
    if not (lo.is_const() and hi.is_const()): return None
    if all(p[0] == 'lit' for p in v.args):
        b = lit(v).encode()
        if not 0 <= lo.c <= hi.c <= len(b): return False
        try: return S(('lit', b[lo.c:hi.c].decode('utf8')))
        except UnicodeDecodeError: return False
    cs = chars_list(v)
    if cs is None: return None
    at = 0; pos = {0: 0}
    for i, x in enumerate(cs):
        k = clen(st, x)
        if k is None: return None
        at += k; pos[at] = i + 1
    return of_chars(cs[pos[lo.c]:pos[hi.c]]) if lo.c <= hi.c and lo.c in pos and hi.c in pos else False
@model('std::str::<impl str>::get')
def m_strget(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); n = I.str_len(st, v); rg = range_bounds(I, st, a[1], n)
    if rg is None: return None
    q = str_slice(I, st, v, *rg)
    if q is None: raise IP.Undecided('part %r of %r' % (rg, v))
    return [(st, none(I, dty) if q is False else some(I, dty, mkref(I, st, q)))]
@model('std::str::<impl str>::is_char_boundary')
def m_charboundary(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0])
    q = str_slice(I, st, v, const(0), a[1])
    if q is None: raise IP.Undecided('character boundary of %r' % (v,))
    return [(st, FALSE if q is False else TRUE)]
@model('std::str::traits::<impl std::ops::Index<I> for str>::index', '<std::string::String as std::ops::Index<I>>::index', 'std::str::traits::<impl std::slice::SliceIndex<str> for std::ops::Range<usize>>::index')
def m_strindex(I, st, fr, a, inst, atys, dty, line):
    v = sval(I, st, a[0]); n = I.str_len(st, v); lo, hi = range_bounds(I, st, a[1], n)
    q = str_slice(I, st, v, lo, hi)
    if q is not None:
        if not I.oblige(st, fr, 'bounds', 'str slice', TRUE if q is not False else FALSE, line): return []
        return [(st, mkref(I, st, q))]
    # in bounds and on a character boundary
    asc = c_atom(atom(('charbound', v, lo, hi), 0, 1, 'charbound', (), name='charboundary(%r,%r,%r)' % (v, lo, hi), imp=v.imp))
    if not I.oblige(st, fr, 'bounds', 'str slice', c_and(c_le(sub(lo, hi)), c_le(sub(hi, n)), asc), line): return []
    return [(st, mkref(I, st, S(('substr', v, lo, hi), imp=v.imp)))]

# ------------------------------------------------------------------ iterators
# ItV('slice', ref, pos, end)          yields &seq[i] for i in pos..end (absolute in the base sequence)
# ItV('into', SeqV, pos)               yields values
# ItV('enum', it, n) ('take', it, n) ('zip', a, b) ('map', it, f) ('cloned', it) ('chunks', ref, pos, end, n) ('chars', str, pos)
def slice_it(I, st, r):
    while r.view is None:
        v = I.load(st, r.base, r.path)
        if isinstance(v, RefV): r = v
        else: break
    n = I.ref_len(st, r); off = r.view[0] if r.view is not None else const(0)
    return ItV('slice', RefV(r.base, r.path), off, add(off, n))
@model('std::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter_mut', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def m_iter(I, st, fr, a, inst, atys, dty, line): return [(st, slice_it(I, st, a[0]))]
@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def m_intoiter(I, st, fr, a, inst, atys, dty, line):
    if not isinstance(a[0], SeqV): return None
    return [(st, ItV('into', a[0], const(0)))]
@model('std::iter::Iterator::enumerate')
def m_enum(I, st, fr, a, inst, atys, dty, line): return [(st, ItV('enum', a[0], const(0)))]
@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def m_cloned(I, st, fr, a, inst, atys, dty, line): return [(st, ItV('cloned', a[0]))]
@model('std::iter::Iterator::map')
def m_map(I, st, fr, a, inst, atys, dty, line): return [(st, ItV('map', a[0], a[1]))]
@model('std::iter::Iterator::zip')
def m_zip(I, st, fr, a, inst, atys, dty, line):
    b = a[1]
    if isinstance(b, RefV): b = slice_it(I, st, b)
    elif isinstance(b, SeqV): b = ItV('into', b, const(0))
    return [(st, ItV('zip', a[0], b))]
@model('std::iter::Iterator::take')
def m_takeit(I, st, fr, a, inst, atys, dty, line):
    it, n = a
    if isinstance(it, ItV) and it.kind == 'slice' and isinstance(n, Lin):
        w = sub(it.d[2], it.d[1])
        if n.is_const() and w.is_const(): return [(st, ItV('slice', it.d[0], it.d[1], add(it.d[1], const(min(n.c, w.c)))))]
        if w.is_const() and w.c <= 24:
            out = []
            for s2, b in split(st, c_le(sub(w, n))):
                if b: out.append((s2, it)); continue
                for k in range(w.c):
                    s3 = s2.copy()
                    if s3.assume(c_eq(sub(n, const(k)))): out.append((s3, ItV('slice', it.d[0], it.d[1], add(it.d[1], const(k)))))
            return out
    return [(st, ItV('take', it, n))]
@model('std::iter::Iterator::skip')
def m_skip(I, st, fr, a, inst, atys, dty, line):
    it, n = a
    if isinstance(it, ItV) and it.kind == 'slice' and it.d[1].is_const() and it.d[2].is_const() and it.d[2].c - it.d[1].c <= 24 and isinstance(n, Lin) and not n.is_const():
        out = []; w = it.d[2].c - it.d[1].c
        for s2, b in split(st, c_le(sub(const(w), n))):
            if b: out.append((s2, ItV('slice', it.d[0], it.d[2], it.d[2]))); continue
            for k in range(w):
                s3 = s2.copy()
                if s3.assume(c_eq(sub(n, const(k)))): out.append((s3, ItV('slice', it.d[0], add(it.d[1], const(k)), it.d[2])))
        return out
    if isinstance(it, ItV) and it.kind == 'slice':
        out = []
        for s2, b in split(st, c_le(sub(n, sub(it.d[2], it.d[1])))):
            out.append((s2, ItV('slice', it.d[0], add(it.d[1], n) if b else it.d[2], it.d[2])))
        return out
    if isinstance(it, ItV) and it.kind == 'enum' and isinstance(it.d[0], ItV) and it.d[0].kind == 'slice':
        j = it.d[0]; out = []
        for s2, b in split(st, c_le(sub(n, sub(j.d[2], j.d[1])))):
            out.append((s2, ItV('enum', ItV('slice', j.d[0], add(j.d[1], n) if b else j.d[2], j.d[2]), add(it.d[1], n))))
        return out
    return [(st, ItV('skip', it, n))]
@model('std::slice::<impl [T]>::chunks')
def m_chunks(I, st, fr, a, inst, atys, dty, line):
    if not I.oblige(st, fr, 'divzero', 'chunk size', c_ne(a[1]), line): return []
    s = slice_it(I, st, a[0])
    return [(st, ItV('chunks', s.d[0], s.d[1], s.d[2], a[1]))]
@model('std::str::<impl str>::chars')
def m_chars(I, st, fr, a, inst, atys, dty, line): return [(st, ItV('chars', sval(I, st, a[0]), const(0)))]
@model('std::str::<impl str>::lines')
def m_lines(I, st, fr, a, inst, atys, dty, line): return [(st, ItV('lines', sval(I, st, a[0]), const(0)))]
def item_ty(I, dty):
    return I.ty(dty)['targs'][0]
def arg_ty(I, f):
    """type of the argument of a closure value"""
    if isinstance(f, Agg):
        t = I.ty(f.ty)
        if t['k'] == 'closure' and t.get('fn'):
            fn = I.P.funcs.get(t['fn']['key'])
            if fn is not None and fn['nargs'] == 2 and not fn.get('spread'): return fn['locals'][2]
    return None
def it_next(I, st, fr, it, ety):
    """-> [(state, new iterator, item or None)]"""
    if isinstance(it, Agg) and I.ty(it.ty)['k'] == 'adt' and I.ty(it.ty)['path'].split('::')[-1] in ('Range', 'RangeInclusive'):
        p = I.ty(it.ty)['path'].split('::')[-1]; out = []
        if p == 'Range':
            for s2, more in split(st, c_le(add(sub(it.fs[0], it.fs[1]), const(1)))):
                out.append((s2, it.with_(0, add(it.fs[0], const(1))), it.fs[0]) if more else (s2, it, None))
            return out
        for s2, ex in split(st, I.as_cond(it.fs[2])):
            if ex: out.append((s2, it, None)); continue
            for s3, le in split(s2, c_le(sub(it.fs[0], it.fs[1]))):
                if not le: out.append((s3, it, None)); continue
                for s4, eq in split(s3, c_eq(sub(it.fs[0], it.fs[1]))):
                    out.append((s4, it.with_(2, TRUE) if eq else it.with_(0, add(it.fs[0], const(1))), it.fs[0]))
        return out
    if isinstance(it, Agg) and I.ty(it.ty).get('path', '').split('::')[-1] == 'Option':
        # an Option given where an iterator is made of it
        vs = I.ty(it.ty)['v']
        if vs[it.var]['n'] == 'None': return [(st, it, None)]
        return [(st, Agg(it.ty, [v['n'] for v in vs].index('None'), []), it.fs[0])]
    if isinstance(it, Agg):
        import stdmore
        r = stdmore.agg_next(I, st, fr, it, ety)
        if r is not None: return r
    if isinstance(it, RefV):
        # an iterator behind &mut: advance it in place
        out = []
        for s2, i2, x in it_next(I, st, fr, I.deref_val(st, it), ety):
            I.store(s2, it.base, it.path, i2); out.append((s2, it, x))
        return out
    if not isinstance(it, ItV): raise IP.Undecided('iterator %r' % (it,))
    k = it.kind; d = it.d
    if k == 'slice':
        out = []
        for s2, more in split(st, c_le(add(sub(d[1], d[2]), const(1)))):
            if more: out.append((s2, ItV('slice', d[0], add(d[1], const(1)), d[2]), RefV(d[0].base, d[0].path + (('i', d[1]),))))
            else: out.append((s2, it, None))
        return out
    if k == 'into':
        out = []
        for s2, more in split(st, c_le(add(sub(d[1], d[0].length()), const(1)))):
            if more: out.append((s2, ItV('into', d[0], add(d[1], const(1))), I.seq_get(s2, d[0], d[1])))
            else: out.append((s2, it, None))
        return out
    if k == 'enum':
        out = []
        et = I.ty(ety) if ety is not None else None
        for s2, i2, x in it_next(I, st, fr, d[0], et['f'][1] if et and et['k'] == 'tuple' else None):
            if x is None: out.append((s2, ItV('enum', i2, d[1]), None))
            else: out.append((s2, ItV('enum', i2, add(d[1], const(1))), Agg(ety if ety is not None else -1, 0, [d[1], x])))
        return out
    if k == 'take':
        out = []
        for s2, b in split(st, c_le(add(neg(d[1]), const(1)))):
            if not b: out.append((s2, it, None)); continue
            for s3, i2, x in it_next(I, s2, fr, d[0], ety):
                out.append((s3, ItV('take', i2, sub(d[1], const(1))), x))
        return out
    if k == 'cloned':
        return [(s2, ItV('cloned', i2), None if x is None else I.deep(s2, I.deref_val(s2, x))) for s2, i2, x in it_next(I, st, fr, d[0], None)]
    if k == 'map':
        out = []
        for s2, i2, x in it_next(I, st, fr, d[0], arg_ty(I, d[1])):
            if x is None: out.append((s2, ItV('map', i2, d[1]), None)); continue
            for s3, y in I.call_value(s2, fr, d[1], [x], ety, None): out.append((s3, ItV('map', i2, d[1]), y))
        return out
    if k == 'zip':
        out = []
        et = I.ty(ety) if ety is not None else None
        ft = et['f'] if et and et['k'] == 'tuple' else (None, None)
        for s2, i2, x in it_next(I, st, fr, d[0], ft[0]):
            if x is None: out.append((s2, ItV('zip', i2, d[1]), None)); continue
            for s3, j2, y in it_next(I, s2, fr, d[1], ft[1]):
                out.append((s3, ItV('zip', i2, j2), None if y is None else Agg(ety if ety is not None else -1, 0, [x, y])))
        return out
    if k == 'rev':
        return [(s2, ItV('rev', i2), x) for s2, i2, x in it_back(I, st, fr, d[0], ety)]
    if k == 'chunks':
        out = []
        for s2, more in split(st, c_le(add(sub(d[1], d[2]), const(1)))):
            if not more: out.append((s2, it, None)); continue
            for s3, full in split(s2, c_le(sub(add(d[1], d[3]), d[2]))):
                n = d[3] if full else sub(d[2], d[1])
                out.append((s3, ItV('chunks', d[0], add(d[1], n), d[2], d[3]), RefV(d[0].base, d[0].path, (d[1], n))))
        return out
    if k == 'skip':
        if d[1].is_const():
            states = [(st, d[0], 0)]
            cur = [(st, d[0])]
            for _ in range(d[1].c):
                nx = []
                for s2, i2 in cur:
                    for s3, i3, x in it_next(I, s2, fr, i2, ety): nx.append((s3, i3))
                cur = nx
            out = []
            for s2, i2 in cur:
                for s3, i3, x in it_next(I, s2, fr, i2, ety): out.append((s3, ItV('skip', i3, const(0)), x))
            return out
    if k == 'chars':
        v, pos = d
        if all(p[0] == 'lit' for p in v.args):
            s = lit(v)
            if pos.c < len(s): return [(st, ItV('chars', v, add(pos, const(1))), const(ord(s[pos.c])))]
            return [(st, it, None)]
        cl = chars_list(v)
        if cl is not None and pos.is_const(): return [(st, ItV('chars', v, add(pos, const(1))), cl[pos.c])] if pos.c < len(cl) else [(st, it, None)]
        n = lin(atom(('nchars', v), 0, IP.MAXLEN, 'nchars', (), name='nchars(%r)' % (v,), imp=v.imp or not (v.op == 'str' and len(v.args) == 1 and v.args[0][0] == 'sym')))
        out = []
        for s2, more in split(st, c_le(add(sub(pos, n), const(1)))):
            if more: out.append((s2, ItV('chars', v, add(pos, const(1))), lin(atom(('char', v, pos), 0, 0x10ffff, 'char', (), name='char(%r,%r)' % (v, pos), imp=v.imp))))
            else: out.append((s2, it, None))
        return out
    if k == 'lines':
        v, pos = d
        if all(p[0] == 'lit' for p in v.args):
            s = lit(v).splitlines()
            if pos.c < len(s): return [(st, ItV('lines', v, add(pos, const(1))), mkref(I, st, S(('lit', s[pos.c]))))]
            return [(st, it, None)]
        n = lin(atom(('nlines', v), 0, IP.MAXLEN, 'nlines', (), name='nlines(%r)' % (v,), imp=v.imp))
        out = []
        for s2, more in split(st, c_le(add(sub(pos, n), const(1)))):
            out.append((s2, ItV('lines', v, add(pos, const(1))), mkref(I, s2, S(('line', v, pos), imp=v.imp))) if more else (s2, it, None))
        return out
    import stdmore
    return stdmore.more_next(I, st, fr, it, ety)
def m_next(I, st, fr, a, inst, atys, dty, line):
    it = I.deref_val(st, a[0])
    if isinstance(it, Agg) and not (I.ty(it.ty)['k'] == 'adt' and I.ty(it.ty)['path'].split('::')[-1] in ('Range', 'RangeInclusive')): return None
    if not isinstance(it, (ItV, Agg)): return None
    out = []
    for s2, i2, x in it_next(I, st, fr, it, item_ty(I, dty)):
        I.store(s2, a[0].base, a[0].path, i2)
        out.append((s2, none(I, dty) if x is None else some(I, dty, x)))
    return out
for _n in ('<std::iter::Enumerate<I> as std::iter::Iterator>::next', '<std::iter::Skip<I> as std::iter::Iterator>::next', '<std::iter::Take<I> as std::iter::Iterator>::next',
           "<std::slice::Chunks<'a, T> as std::iter::Iterator>::next", "<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
           "<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::Lines<'a> as std::iter::Iterator>::next", '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next',
           '<std::array::IntoIter<T, N> as std::iter::Iterator>::next', '<std::iter::Zip<A, B> as std::iter::Iterator>::next', '<std::iter::Map<I, F> as std::iter::Iterator>::next',
           '<std::iter::Cloned<I> as std::iter::Iterator>::next', '<std::iter::Copied<I> as std::iter::Iterator>::next',
           'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next', 'std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next'):
    M[_n] = m_next
def it_back(I, st, fr, it, ety):
    """next_back: -> [(state, new iterator, item or None)]"""
    if isinstance(it, Agg) and I.ty(it.ty)['k'] == 'adt' and I.ty(it.ty)['path'].split('::')[-1] in ('Range', 'RangeInclusive'):
        p = I.ty(it.ty)['path'].split('::')[-1]; out = []
        if p == 'Range':
            for s2, more in split(st, c_le(add(sub(it.fs[0], it.fs[1]), const(1)))):
                e = sub(it.fs[1], const(1))
                out.append((s2, it.with_(1, e), e) if more else (s2, it, None))
            return out
        for s2, ex in split(st, I.as_cond(it.fs[2])):
            if ex: out.append((s2, it, None)); continue
            for s3, le in split(s2, c_le(sub(it.fs[0], it.fs[1]))):
                if not le: out.append((s3, it, None)); continue
                for s4, eq in split(s3, c_eq(sub(it.fs[0], it.fs[1]))):
                    out.append((s4, it.with_(2, TRUE) if eq else it.with_(1, sub(it.fs[1], const(1))), it.fs[1]))
        return out
    if not isinstance(it, ItV): raise IP.Undecided('iterator %r' % (it,))
    k = it.kind; d = it.d
    if k == 'slice':
        out = []
        for s2, more in split(st, c_le(add(sub(d[1], d[2]), const(1)))):
            e = sub(d[2], const(1))
            if more: out.append((s2, ItV('slice', d[0], d[1], e), RefV(d[0].base, d[0].path + (('i', e),))))
            else: out.append((s2, it, None))
        return out
    if k == 'into':
        # kept as the remaining values in front of the end
        if not d[0].explicit() or not d[1].is_const(): raise IP.Undecided('next_back on %r' % (it,))
        xs = d[0].items()
        if d[1].c >= len(xs): return [(st, it, None)]
        return [(st, ItV('into', SeqV([('e', x) for x in xs[:-1]], d[0].ety), d[1]), xs[-1])]
    if k == 'enum':
        n = it_len(I, st, d[0]); et = I.ty(ety) if ety is not None else dict(k=''); out = []
        if n is None: raise IP.Undecided('next_back on %r' % (it,))
        for s2, i2, x in it_back(I, st, fr, d[0], et['f'][1] if et['k'] == 'tuple' else None):
            out.append((s2, ItV('enum', i2, d[1]), None if x is None else Agg(ety if ety is not None else -1, 0, [add(d[1], sub(n, const(1))), x])))
        return out
    if k == 'cloned':
        return [(s2, ItV('cloned', i2), None if x is None else I.deep(s2, I.deref_val(s2, x))) for s2, i2, x in it_back(I, st, fr, d[0], None)]
    if k == 'map':
        out = []
        for s2, i2, x in it_back(I, st, fr, d[0], arg_ty(I, d[1])):
            if x is None: out.append((s2, ItV('map', i2, d[1]), None)); continue
            for s3, y in I.call_value(s2, fr, d[1], [x], ety, None): out.append((s3, ItV('map', i2, d[1]), y))
        return out
    if k == 'rev':
        return [(s2, ItV('rev', i2), x) for s2, i2, x in it_next(I, st, fr, d[0], ety)]
    if k == 'chars':
        v, pos = d
        cl = [const(ord(x)) for x in lit(v)] if all(p[0] == 'lit' for p in v.args) else chars_list(v)
        if cl is not None and pos.is_const():
            if pos.c >= len(cl): return [(st, it, None)]
            return [(st, ItV('chars', S(*[('lit', chr(x.c)) if x.is_const() else ('chr', x) for x in cl[:-1]]), pos), cl[-1])]
    raise IP.Undecided('next_back on iterator ' + k)
def it_len(I, st, it):
    if isinstance(it, Agg):
        if I.ty(it.ty)['path'].split('::')[-1] != 'Range': return None
        w = sub(it.fs[1], it.fs[0])
        return w if (st.decide(c_le(neg(w))) if st is not None else w.is_const() and w.c >= 0) is True else None
    if not isinstance(it, ItV): return None
    k = it.kind; d = it.d
    if k in ('slice',): return sub(d[2], d[1])
    if k == 'into': return sub(d[0].length(), d[1])
    if k in ('enum', 'cloned', 'map', 'rev'): return it_len(I, st, d[0])
    if k == 'chars': 
        cl = lit(d[0]) if all(p[0] == 'lit' for p in d[0].args) else chars_list(d[0])
        return sub(const(len(cl)), d[1]) if cl is not None else None
    return None
def quantifier(stop):
    def m(I, st, fr, a, inst, atys, dty, line):
        r = a[0]; it = I.deref_val(st, r) if isinstance(r, RefV) else r
        if not isinstance(it, (ItV, Agg)): return None
        states = [(st, it)]; outs = []; n = 0
        while states:
            s1, i1 = states.pop(); n += 1
            if n > 400: raise IP.Undecided('quantifier over %r' % (it,))
            for s2, i2, x in it_next(I, s1, fr, i1, None):
                if x is None:
                    if isinstance(r, RefV): I.store(s2, r.base, r.path, i2)
                    outs.append((s2, FALSE if stop else TRUE)); continue
                for s3, b in I.call_value(s2, fr, a[1], [x], dty, None):
                    for s4, t in split(s3, I.as_cond(b)):
                        if t == stop:
                            if isinstance(r, RefV): I.store(s4, r.base, r.path, i2)
                            outs.append((s4, TRUE if stop else FALSE))
                        else: states.append((s4, i2))
        return outs
    return m
for _n in ("<std::slice::Iter<'a, T> as std::iter::Iterator>::", 'std::iter::Iterator::', "<std::slice::IterMut<'a, T> as std::iter::Iterator>::"):
    M[_n + 'any'] = quantifier(True); M[_n + 'all'] = quantifier(False)
@model('std::iter::Iterator::rev')
def m_rev(I, st, fr, a, inst, atys, dty, line): return [(st, ItV('rev', a[0]))]
@model("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len", 'std::iter::ExactSizeIterator::len', '<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len',
       '<std::iter::Enumerate<I> as std::iter::ExactSizeIterator>::len')
def m_itlen(I, st, fr, a, inst, atys, dty, line):
    it = a[0]
    while isinstance(it, RefV): it = I.deref_val(st, it)
    n = it_len(I, st, it)
    if n is None: raise IP.Undecided('length of %r' % (it,))
    return [(st, n)]
def m_next_back(I, st, fr, a, inst, atys, dty, line):
    it = I.deref_val(st, a[0])
    if isinstance(it, Agg) and not (I.ty(it.ty)['k'] == 'adt' and I.ty(it.ty)['path'].split('::')[-1] in ('Range', 'RangeInclusive')): return None
    if not isinstance(it, (ItV, Agg)): return None
    out = []
    for s2, i2, x in it_back(I, st, fr, it, item_ty(I, dty)):
        I.store(s2, a[0].base, a[0].path, i2)
        out.append((s2, none(I, dty) if x is None else some(I, dty, x)))
    return out
for _n in ('<std::iter::Enumerate<I> as std::iter::DoubleEndedIterator>::next_back', "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back",
           "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back",
           '<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back', '<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back',
           '<std::iter::Map<I, F> as std::iter::DoubleEndedIterator>::next_back', '<std::iter::Cloned<I> as std::iter::DoubleEndedIterator>::next_back',
           '<std::iter::Copied<I> as std::iter::DoubleEndedIterator>::next_back', '<std::iter::Rev<I> as std::iter::DoubleEndedIterator>::next_back',
           'std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back', 'std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::RangeInclusive<A>>::next_back'):
    M[_n] = m_next_back
M['<std::iter::Rev<I> as std::iter::Iterator>::next'] = m_next
@model("<std::str::Chars<'a> as std::iter::Iterator>::count")
def m_ccount(I, st, fr, a, inst, atys, dty, line):
    v, pos = a[0].d
    if all(p[0] == 'lit' for p in v.args): return [(st, const(len(lit(v)) - pos.c))]
    cl = chars_list(v)
    if cl is not None: return [(st, sub(const(len(cl)), pos))]
    n = lin(atom(('nchars', v), 0, IP.MAXLEN, 'nchars', (), name='nchars(%r)' % (v,), imp=v.imp or not (v.op == 'str' and len(v.args) == 1 and v.args[0][0] == 'sym')))
    return [(st, sub(n, pos))]
def fixed_base(I, it, depth=0):
    """every iterator it draws from has a fixed number of items left"""
    if depth > 8: return False
    if isinstance(it, ItV):
        if it.kind in ('slice', 'into', 'chars'):
            n = it_len(I, None, it)
            return n is not None and n.is_const()
        sub_ = [x for x in it.d if isinstance(x, (ItV, Agg)) and is_iter(I, x)]
        return bool(sub_) and all(fixed_base(I, x, depth + 1) for x in sub_)
    if isinstance(it, Agg):
        p = I.ty(it.ty).get('path') or ''
        if p.split('::')[-1] in ('Range', 'RangeInclusive'): return all(x.is_const() for x in it.fs[:2] if isinstance(x, Lin)) and isinstance(it.fs[0], Lin)
        sub_ = [x for x in it.fs if isinstance(x, (ItV, Agg)) and is_iter(I, x)]
        return bool(sub_) and all(fixed_base(I, x, depth + 1) for x in sub_)
    return False
def is_iter(I, x):
    if isinstance(x, ItV): return True
    t = I.ty(x.ty)
    return t['k'] == 'adt' and (t['path'].startswith('std::iter') or t['path'].split('::')[-1] in ('Range', 'RangeInclusive'))
@model('std::iter::Iterator::collect')
def m_collect(I, st, fr, a, inst, atys, dty, line):
    it = a[0]; t = I.ty(dty)
    if I.is_string(t):
        if isinstance(it, ItV) and it.kind == 'chars' and it.d[1].is_const() and it.d[1].c == 0: return [(st, it.d[0])]
        states = [(st, it, [])]; outs = []; n = 0
        while states:
            s1, i1, acc = states.pop(); n += 1
            if n > 600: raise IP.Undecided('collect into a string')
            nx = it_next(I, s1, fr, i1, None)
            if len(nx) > 1 and not fixed_base(I, it): raise IP.Undecided('collect into a string')
            for s2, i2, x in nx:
                if x is None: outs.append((s2, S(*acc))); continue
                x = I.deref_val(s2, x) if isinstance(x, RefV) and x.view is None else x
                states.append((s2, i2, acc + ([('lit', chr(x.c)) if x.is_const() else ('chr', x)] if isinstance(x, Lin) else list(sval(I, s2, x).args))))
        return outs
    if I.is_vec(t):
        ety = t['targs'][0]
        if isinstance(it, ItV) and it.kind == 'into' and it.d[1].is_const() and it.d[1].c == 0: return [(st, it.d[0])]
        if isinstance(it, ItV) and it.kind == 'cloned' and isinstance(it.d[0], ItV) and it.d[0].kind == 'slice':
            r, lo, hi = it.d[0].d
            return [(st, I.deep(st, I.read_seq(st, RefV(r.base, r.path, (lo, sub(hi, lo))))))]
        # finite: drain while the exits are decided, or (a filter over a fixed number of items) on every selection
        states = [(st, it, [])]; outs = []; n = 0; fixed = None; st0 = st.copy()
        while states:
            s1, i1, acc = states.pop(); n += 1
            if n > 600: raise IP.Undecided('collect')
            nx = it_next(I, s1, fr, i1, ety)
            if len(nx) > 1 and fixed is None: fixed = fixed_base(I, it)
            if len(nx) > 1 and not fixed or len(acc) > 300 or len(outs) + len(states) > 160:
                # symbolic length: unknown content
                n_ = lin(IP.fresh('collectlen', 0, IP.MAXLEN))
                return [(st0, SeqV((('m', None, n_),), ety))]
            for s2, i2, x in nx:
                if x is None: outs.append((s2, SeqV([('e', y) for y in acc], ety)))
                else: states.append((s2, i2, acc + [x]))
        return outs
    return None
@model('std::slice::<impl [T]>::concat')
def m_concat(I, st, fr, a, inst, atys, dty, line):
    v = sv(I, st, a[0])
    if not v.explicit(): return None
    t = I.ty(dty)
    if I.is_string(t):
        parts = []
        for x in v.items(): parts += list(sval(I, st, x).args)
        return [(st, S(*parts))]
    if not I.is_vec(t): return None
    segs = ()
    for x in v.items(): segs += I.deep(st, sv(I, st, rd(I, st, x) if not isinstance(x, SeqV) else x)).segs
    return [(st, SeqV(IP.norm_segs(st, segs), t['targs'][0]))]
@model('std::slice::<impl [T]>::join')
def m_join(I, st, fr, a, inst, atys, dty, line):
    v = sv(I, st, a[0]); sep = sval(I, st, a[1]) if I.is_string(I.ty(dty)) else None
    if sep is None: return None
    if v.explicit():
        parts = []
        for i, x in enumerate(v.items()):
            if i: parts += list(sep.args)
            parts += list(sval(I, st, x).args)
        return [(st, S(*parts))]
    return [(st, S(('join', v, sep), imp=any(s[0] == 'm' for s in v.segs)))]

# ------------------------------------------------------------------ Option / Result
@model('std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect', 'std::result::Result::<T, E>::unwrap', 'std::result::Result::<T, E>::expect')
def m_unwrap(I, st, fr, a, inst, atys, dty, line):
    v = a[0]; nm = inst['path'].split('::')[-1]
    tid = v.ty if isinstance(v, (Agg, SymV)) else None
    if tid is None: raise IP.Undecided('unwrap %r' % (v,))
    good = 'Some' if 'option' in inst['path'] else 'Ok'
    gi = I.variant_index(tid, good)
    d = I.discr_lin(st, v, tid)
    if not I.oblige(st, fr, 'unwrap', nm, c_eq(sub(d, const(I.variant_discr(I.ty(tid), gi)))), line): return []
    return [(st, I.proj(st, v, ('v', gi, 0)))]
@model('std::option::Option::<T>::is_none', 'std::option::Option::<T>::is_some', 'std::result::Result::<T, E>::is_ok', 'std::result::Result::<T, E>::is_err')
def m_issome(I, st, fr, a, inst, atys, dty, line):
    v = I.deref_val(st, a[0]); nm = inst['path'].split('::')[-1]
    d = I.discr_lin(st, v, v.ty)
    k = {'is_none': 'None', 'is_some': 'Some', 'is_ok': 'Ok', 'is_err': 'Err'}[nm]
    return [(st, c_eq(sub(d, const(I.variant_discr(I.ty(v.ty), I.variant_index(v.ty, k))))))]
@model('std::option::Option::<T>::unwrap_or', 'std::result::Result::<T, E>::unwrap_or')
def m_unwrapor(I, st, fr, a, inst, atys, dty, line):
    v = a[0]; good = 'Some' if 'option' in inst['path'] else 'Ok'
    if not isinstance(v, (Agg, SymV)): return None
    gi = I.variant_index(v.ty, good); d = I.discr_lin(st, v, v.ty); out = []
    for s2, b in split(st, c_eq(sub(d, const(I.variant_discr(I.ty(v.ty), gi))))):
        out.append((s2, I.proj(s2, v, ('v', gi, 0)) if b else a[1]))
    return out
@model('std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_mut')
def m_asref(I, st, fr, a, inst, atys, dty, line):
    r = a[0]; v = I.deref_val(st, r)
    if not isinstance(v, (Agg, SymV)): return None
    gi = I.variant_index(v.ty, 'Some'); d = I.discr_lin(st, v, v.ty); out = []
    for s2, b in split(st, c_eq(sub(d, const(I.variant_discr(I.ty(v.ty), gi))))):
        out.append((s2, some(I, dty, RefV(r.base, r.path + (('v', gi, 0),))) if b else none(I, dty)))
    return out
@model('std::option::Option::<T>::take')
def m_opttake(I, st, fr, a, inst, atys, dty, line):
    v = I.deref_val(st, a[0]); I.store(st, a[0].base, a[0].path, none(I, dty)); return [(st, v)]

# ------------------------------------------------------------------ HashMap as a term
@model('std::collections::HashMap::<K, V>::new', '<std::collections::HashMap<K, V, S> as std::default::Default>::default')
def m_mapnew(I, st, fr, a, inst, atys, dty, line): return [(st, OpV('mapempty'))]
@model('std::collections::HashMap::<K, V, S, A>::insert')
def m_mapins(I, st, fr, a, inst, atys, dty, line):
    m = I.deref_val(st, a[0]); k = freeze(I, st, a[1]); v = a[2]
    I.store(st, a[0].base, a[0].path, OpV('mapins', (m, k, v)))
    return [(st, OpV('discarded'))]
@model('std::collections::HashMap::<K, V, S, A>::remove')
def m_mapdel(I, st, fr, a, inst, atys, dty, line):
    m = I.deref_val(st, a[0]); k = freeze(I, st, a[1])
    I.store(st, a[0].base, a[0].path, OpV('mapdel', (m, k)))
    return [(st, OpV('discarded'))]
@model('std::collections::HashMap::<K, V, S, A>::clear')
def m_mapclear(I, st, fr, a, inst, atys, dty, line):
    I.store(st, a[0].base, a[0].path, OpV('mapempty')); return [(st, unit(I, dty))]
@model('std::collections::HashMap::<K, V, S, A>::retain')
def m_mapretain(I, st, fr, a, inst, atys, dty, line):
    m = I.deref_val(st, a[0])
    I.store(st, a[0].base, a[0].path, OpV('mapretain', (m, freeze(I, st, a[1]))))
    return [(st, unit(I, dty))]
@model('std::collections::HashMap::<K, V, S, A>::get')
def m_mapget(I, st, fr, a, inst, atys, dty, line):
    m = I.deref_val(st, a[0]); k = freeze(I, st, a[1])
    return map_get(I, st, m, k, dty, fr)
def map_get(I, st, m, k, dty, fr=None):
    if m.op == 'mapempty': return [(st, none(I, dty))]
    if m.op == 'mapins':
        c = value_eq(I, st, m.args[1], k)
        if c is not None:
            out = []
            for s2, b in split(st, c):
                if b: out.append((s2, some(I, dty, RefV(I.new_heap(s2, m.args[2])))))
                else: out += map_get(I, s2, m.args[0], k, dty, fr)
            return out
    if m.op == 'mapdel':
        c = value_eq(I, st, m.args[1], k)
        if c is not None:
            out = []
            for s2, b in split(st, c):
                if b: out.append((s2, none(I, dty)))
                else: out += map_get(I, s2, m.args[0], k, dty, fr)
            return out
    if m.op == 'mapretain':
        out = []
        for s2, v in map_get(I, st, m.args[0], k, dty, fr):
            if not (isinstance(v, Agg) and I.ty(dty)['v'][v.var]['n'] == 'Some'): out.append((s2, v)); continue
            for s3, r in I.call_value(s2, fr, m.args[1], [RefV(I.new_heap(s2, k)), v.fs[0]], I.find_ty('bool'), 0):
                for s4, keep in split(s3, r): out.append((s4, v if keep else none(I, dty)))
        return out
    vt = I.ty(I.ty(dty)['targs'][0])['e']
    nm = '%r[%r]' % (m, k)
    s2 = st.copy()
    present = c_atom(atom(('has', m, k), 0, 1, 'has', (), name='has(%s)' % nm))
    out = []
    for s3, b in split(st, present):
        out.append((s3, some(I, dty, RefV(('S', nm, vt))) if b else none(I, dty)))
    return out

# ------------------------------------------------------------------ panics
@model('std::rt::panic_fmt', 'std::panicking::panic', 'std::panicking::panic_fmt', 'std::option::unwrap_failed', 'std::result::unwrap_failed',
       'std::panicking::panic_bounds_check', 'std::slice::index::slice_index_fail', 'std::rt::begin_panic')
def m_panic(I, st, fr, a, inst, atys, dty, line):
    I.oblige(st, fr, 'panic', 'explicit panic', FALSE, line)
    return []

# ------------------------------------------------------------------ third-party and display glue: opaque terms
def m_opaque(I, st, fr, a, inst, atys, dty, line):
    nm = inst['path']
    t = I.ty(dty)
    args = tuple(freeze(I, st, x) for x in a)
    imp = any(val_imprecise(x) for x in args)
    if t['k'] == 'adt' and t['path'] in ('std::result::Result', 'std::option::Option'):
        good = 'Ok' if t['path'].endswith('Result') else 'Some'
        c = c_atom(atom(('okof', nm, args), 0, 1, 'okof', (), name='ok(%s)' % nm, imp=imp))
        out = []
        for s2, b in split(st, c):
            if b: out.append((s2, Agg(dty, I.variant_index(dty, good), [opaque_val(I, t['targs'][0], nm, args, imp)])))
            else: out.append((s2, Agg(dty, I.variant_index(dty, 'Err' if good == 'Ok' else 'None'), [opaque_val(I, t['targs'][1], nm + '.err', args, imp)] if good == 'Ok' else [])))
        return out
    return [(st, opaque_val(I, dty, nm, args, imp))]
def opaque_val(I, tid, nm, args, imp):
    t = I.ty(tid)
    name = '%s%r' % (nm, list(args))
    I.opaque_terms[name] = (nm, args)
    if I.is_string(t) or t['k'] == 'str': return OpV('str', (('call', nm) + args,), imp=imp)
    if t['k'] in ('int', 'bool', 'char', 'ref', 'float', 'tuple') or I.is_vec(t): return I.sym_value(tid, name, imp)
    return OpV('lib', (nm,) + args, imp=imp)

def install(I):
    I.models.update(M)
