"""outputs leave the printer state alone: no write through the context handed to an output"""
from fw import prop
from sem import Missing
from tables import *
from props.C29 import OURS
import re

OR = 'thermal_renderer::renderer::OutputRenderer'
CTX = TP + 'context::Context'
MUTATE = re.compile(r'::(push|push_str|insert|clear|truncate|pop|remove|extend|extend_from_slice|resize|retain|append|drain|swap|replace|take|set|fill|sort|sort_by|sort_by_key|reverse|write|clone_from|swap_remove|dedup|rotate_left|rotate_right|copy_from_slice|add_assign|sub_assign|mul_assign|get_or_insert_with|entry)$')

@prop('C21', 'effect analysis of every OutputRenderer method and everything it calls: no assignment, no mutable loan handed to a mutating function and no dropped-in value goes through the reference '
      'to the printer state that the method was given', methods=20, places=20)
def check(c):
    S = c.S; P = S.P
    ctx = S.adt(CTX)
    roots = [f for f in P.funcs.values() if (' as %s<' % OR) in f['path'] or f['path'].startswith(OR + '::')]
    outs = {re.match(r'<(.*?) as ', f['path']).group(1) for f in roots if f['path'].startswith('<')}
    if len(outs) < 2: raise Missing('OutputRenderer implementations')
    A = Effects(c, P, S.I)
    for f in sorted(roots, key=lambda f: f['path']):
        ps = {i: ('p', 1) for i in range(1, f['nargs'] + 1) if mut_to(P, f['locals'][i], ctx)}
        c.count('methods'); short = f['path'].replace('thermal_renderer::', '').replace('thermal_parser::', '')
        n0 = len(A.bad), len(A.unk)
        A.bad, A.unk = {}, {}; A.seen = {}
        if ps: A.run(f, ps, (f['path'],))
        for k, d in sorted(A.bad.items()): c.ob('writes | %s' % k, False, d, k)
        for k, d in sorted(A.unk.items()): c.ob('hands on | %s' % k, None, d, k)
        if not A.bad and not A.unk: c.ob('leaves the printer state alone | ' + short, True)
        # a global or raw pointer does not help an output either: raw pointers to a Context are never dereferenced
    c.count('functions', len(A.funcs))
def mut_to(P, tid, ctx):
    """a mutable reference to (a struct holding) the printer state"""
    t = P.types[tid]
    return t['k'] in ('ref', 'ptr') and t.get('m') and t['e'] == ctx
def holds_mut(P, tid, fuel=4, seen=()):
    """the type can carry a mutable reference or raw pointer"""
    t = P.types[tid]; k = t['k']
    if k in ('ref', 'ptr'): return bool(t.get('m')) or holds_mut(P, t['e'], fuel - 1, seen) if fuel else True
    if not fuel or tid in seen: return False
    seen = seen + (tid,)
    if k == 'tuple': return any(holds_mut(P, x, fuel - 1, seen) for x in t['f'])
    if k in ('array', 'slice'): return holds_mut(P, t['e'], fuel - 1, seen)
    if k == 'closure': return any(holds_mut(P, x, fuel - 1, seen) for x in t.get('ups', ()))
    if k == 'adt': return any(holds_mut(P, x, fuel - 1, seen) for v in t['v'] for _, x in v['f']) or any(holds_mut(P, x, fuel - 1, seen) for x in t.get('targs', ()) if isinstance(x, int))
    return False

# where the printer state is: ('p', n) behind n dereferences; ('s', o, {field: n}) in fields of a struct or closure behind o dereferences
def walk(t, projs):
    for e in projs:
        if t is None: return None
        if e == '*':
            if t[0] == 'p': t = ('p', t[1] - 1)
            else: t = ('s', t[1] - 1, t[2]) if t[1] > 0 else None
        elif e[0] == 'f' and t[0] == 's' and t[1] == 0:
            d = dict(t[2]); t = ('p', d[e[1]]) if e[1] in d else None
    return t
def join(a, b):
    if a is None or a == b: return b
    if b is None: return a
    if a[0] == b[0] == 's' and a[1] == b[1]:
        d = dict(a[2])
        for k, n in b[2]: d[k] = min(n, d.get(k, n))
        return ('s', a[1], tuple(sorted(d.items())))
    low = lambda t: t[1] if t[0] == 'p' else t[1] + min(n for _, n in t[2])
    return ('p', min(low(a), low(b)))

class Effects:
    def __init__(self, c, P, I):
        self.c = c; self.P = P; self.I = I; self.bad = {}; self.unk = {}; self.seen = {}; self.funcs = set()
        self.impl = {}
        for (ty, tr), ms in P.vtables.items():
            for n, i in ms.items(): self.impl.setdefault((tr.split('<')[0], n.split('::')[-1]), []).append(i)
    def run(self, f, params, chain):
        """params: local -> where the printer state is reached from it"""
        key = (f['key'], tuple(sorted(params.items())))
        if key in self.seen: return
        self.seen[key] = True; self.funcs.add(f['path'])
        P = self.P; tr = dict(params); name = f['path']
        trace = ' <- '.join(reversed(chain))
        def put(x, d):
            n = join(tr.get(x), d)
            if tr.get(x) != n: tr[x] = n; return True
            return False
        def at(p): return walk(tr.get(p[0]), p[1]) if p[0] in tr else None
        def opr(o):
            """what an operand carries"""
            if not o or o[0] not in ('m', 'c') or not isinstance(o[1], (list, tuple)): return None
            t = at(o[1])
            return None if t is None or t[0] == 'p' and t[1] < 1 else t
        def low(t): return t[1] if t[0] == 'p' else t[1] + min(n for _, n in t[2])
        for _ in range(50):
            ch = False
            for b in f['blocks']:
                for s in b[0]:
                    if s[0] != '=': continue
                    dst, r = s[1], s[2]; d = None
                    if r[0] == 'use': d = opr(r[1])
                    elif r[0] == 'cast': d = opr(r[2])
                    elif r[0] in ('ref', 'addr') and r[1]:
                        t = at(r[2])
                        if t: d = ('p', 1 if t[1] < 1 else t[1] + 1) if t[0] == 'p' else ('s', t[1] + 1, t[2])
                    elif r[0] == 'agg':
                        ds = {i: low(t) for i, t in ((i, opr(o)) for i, o in enumerate(r[4])) if t}
                        if ds: d = ('s', 0, tuple(sorted(ds.items()))) if r[1] in ('closure', 'tuple') else ('p', min(ds.values()))
                    if d and holds_mut(P, f['locals'][dst[0]]):
                        fi = [e[1] for e in dst[1] if e != '*' and e[0] == 'f']
                        ch |= put(dst[0], ('s', 0, ((fi[0], low(d)),)) if len(dst[1]) == 1 and fi else d)
                t = b[1]
                if t[0] == 'call' and t[2]:
                    ds = [x for x in map(opr, t[2]) if x]
                    if ds and holds_mut(P, f['locals'][t[4][0]]): ch |= put(t[4][0], ('p', 1))
            if not ch: break
        def write(p, line):
            self.c.count('places')
            t = at(p) if '*' in p[1] else None
            if t and t[0] == 'p' and t[1] < 1: self.bad[name] = 'line %s writes into the printer state it was handed: %s' % (line, trace)
        for b in f['blocks']:
            for s in b[0]:
                if s[0] in ('=', 'sd'): write(s[1], s[-1])
            t = b[1]
            if t[0] != 'call': continue
            write(t[4], b[2])
            args = [(i, opr(o)) for i, o in enumerate(t[2])]; args = [(i, d) for i, d in args if d]
            if not args: continue
            self.c.count('loans')
            if t[1][0] != 'def': self.unk[name] = 'the printer state goes to a function value: ' + trace; continue
            i = t[1][1]['inst']; path = i['path'] if i else t[1][1]['decl']; d = t[1][1]['decl']
            tgts = [P.funcs[i['key']]] if i and i['key'] in P.funcs else []
            tgts += [P.funcs[j['key']] for j in self.impl.get((d.rsplit('::', 1)[0].split('<')[0], d.split('::')[-1]), ()) if j['key'] in P.funcs]
            if MUTATE.search(re.sub(r'::<.*?>', '', path)) or MUTATE.search(path):
                muts = [x for x in args if (x[0] == 0 or 'mem::' in path) and x[1][0] == 'p' and x[1][1] == 1]
                if muts and not any(OURS.match(g['path']) for g in tgts):
                    self.bad[name] = '%s changes the printer state it was handed: %s' % (path, trace); continue
            for x in (i or {}).get('targs', ()):          # closures handed to iterator adaptors and the like run there
                cl = P.types[x] if isinstance(x, int) else {}
                if cl.get('k') == 'closure' and cl.get('fn') and cl['fn']['key'] in P.funcs and not (tgts and tgts[0]['key'] == cl['fn']['key']):
                    g = P.funcs[cl['fn']['key']]
                    for k, dd in args:
                        if dd[0] == 's': self.run(g, {1: (dd[0], 1, dd[2])} if P.types[g['locals'][1]]['k'] in ('ref', 'ptr') else {1: (dd[0], 0, dd[2])}, chain + (g['path'],))
            for g in tgts:
                ps = {k + 1: dd for k, dd in args if k + 1 <= g['nargs']}
                if len(chain) < 25: self.run(g, ps, chain + (g['path'],))
            if not tgts and not holds_mut(P, f['locals'][t[4][0]]) and all(x[1][0] == 'p' for x in args): self.unk[name] = 'the printer state goes to %s: %s' % (path, trace)
