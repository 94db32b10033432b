"""Abstract non-scalar values."""
from terms import *

class Val:
    __slots__ = ('_h',)
    def _k(self): raise NotImplementedError
    def __hash__(self):
        h = getattr(self, '_h', None)
        if h is None:
            h = hash(self._k()); self._h = h
        return h
    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self._k() == o._k())

class Agg(Val):
    """struct / tuple / closure / one enum variant"""
    __slots__ = ('ty', 'var', 'fs')
    def __init__(self, ty, var, fs): self.ty = ty; self.var = var; self.fs = tuple(fs); self._h = None
    def _k(self): return (self.ty, self.var, self.fs)
    def __repr__(self): return 'Agg<%s:%s>%r' % (self.ty, self.var, list(self.fs))
    def with_(self, i, v):
        fs = list(self.fs); fs[i] = v
        return Agg(self.ty, self.var, fs)

class SymV(Val):
    __slots__ = ('name', 'ty', 'imp')
    def __init__(self, name, ty, imp=False): self.name = name; self.ty = ty; self.imp = imp; self._h = None
    def _k(self): return (self.name, self.ty)
    def __repr__(self): return 'Sym(%s)' % self.name

class RefV(Val):
    __slots__ = ('base', 'path', 'view')
    def __init__(self, base, path=(), view=None): self.base = base; self.path = path; self.view = view; self._h = None
    def _k(self): return (self.base, self.path, self.view)
    def __repr__(self): return '&%s%s%s' % (self.base, ''.join('.%s' % (p,) for p in self.path), '' if self.view is None else '[%r;%r]' % self.view)

class BoxV(Val):
    __slots__ = ('base',)
    def __init__(self, base): self.base = base; self._h = None
    def _k(self): return ('box', self.base)
    def __repr__(self): return 'Box(%s)' % (self.base,)

class RcV(Val):
    __slots__ = ('base',)
    def __init__(self, base): self.base = base; self._h = None
    def _k(self): return ('rc', self.base)
    def __repr__(self): return 'Rc(%s)' % (self.base,)

class SeqV(Val):
    """segs: ('e', value) | ('s', srcname, off, len) | ('m', value-or-None, len)"""
    __slots__ = ('segs', 'ety')
    def __init__(self, segs, ety): self.segs = tuple(segs); self.ety = ety; self._h = None
    def _k(self): return (self.segs, self.ety)
    def __repr__(self): return 'Seq%r' % (list(self.segs),)
    def length(self):
        n = const(0); k = 0
        for s in self.segs:
            if s[0] == 'e': k += 1
            else: n = add(n, s[-1])
        return add(n, const(k))
    def explicit(self): return all(s[0] == 'e' for s in self.segs)
    def items(self): return [s[1] for s in self.segs]

class ItV(Val):
    """modelled iterator"""
    __slots__ = ('kind', 'd')
    def __init__(self, kind, *d): self.kind = kind; self.d = d; self._h = None
    def _k(self): return (self.kind, self.d)
    def __repr__(self): return 'It:%s%r' % (self.kind, self.d)

class OpV(Val):
    """uninterpreted term (floats, maps, formatted strings, library values)"""
    __slots__ = ('op', 'args', 'lo', 'hi', 'imp')
    def __init__(self, op, args=(), lo=-INF, hi=INF, imp=False):
        self.op = op; self.args = tuple(args); self.lo = lo; self.hi = hi; self._h = None; self.imp = imp
    def _k(self): return (self.op, self.args)
    def __repr__(self): return '%s%r' % (self.op, list(self.args)) if self.args else str(self.op)

def val_imprecise(v):
    if isinstance(v, (Lin, Cond)): return v.imprecise()
    if isinstance(v, SymV): return v.imp
    if isinstance(v, OpV): return v.imp
    return False
