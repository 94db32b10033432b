"""Loads the MIR dump(s) written by driver/ and decodes constants."""
import json, os, re, struct

class Program:
    def __init__(self, paths):
        self.types = []          # global type table
        self.funcs = {}          # key -> fn dict
        self.by_path = {}        # def path -> [keys]
        self.statics = {}        # name -> static dict
        self.allocs = []
        self.vtables = {}        # (type name, trait) -> {method: inst}
        self.roots = {}          # crate -> list
        self.generic = {}
        self._name2ty = {}
        for p in paths:
            self._load(json.load(open(p)))
        for k, f in self.funcs.items():
            self.by_path.setdefault(f['path'], []).append(k)

    def _load(self, d):
        tmap = {}
        # two passes: allocate ids by name (names are unique per type up to regions)
        new = []
        memo = {}
        tys = d['tys']
        def canon(i):
            r = memo.get(i)
            if r is not None: return r
            t = tys[i]; k = t['k']
            memo[i] = '?rec'
            if k in ('adt', 'fndef', 'closure'):
                r = t['path'] if k == 'adt' else '%s:%s' % (k, t['path'] if k == 'closure' else '')
                if t.get('fn'): r += '{%s}' % json.dumps(t['fn'].get('key') or t['fn'].get('inst', {}) and (t['fn']['inst'] or {}).get('key') or t['name'])
                if t.get('targs'): r += '<%s>' % ', '.join(canon(x) for x in t['targs'])
                # const generics and lifetimes only show in the name
                if k != 'adt': r += '|' + (t['name'] if not t.get('fn') else '')
                else:
                    m = [x for x in re.findall(r'(?<![\w.])\d+(?![\w.])', t['name'])]
                    if m: r += '#' + ','.join(m)
            elif k in ('ref', 'ptr'):
                r = ('&' if k == 'ref' else '*') + ('mut ' if t.get('m') else '') + canon(t['e'])
            elif k == 'slice': r = '[%s]' % canon(t['e'])
            elif k == 'array': r = '[%s; %s]' % (canon(t['e']), t['n'])
            elif k == 'dyn' and t.get('trait'): r = 'dyn ' + t['trait']
            elif k == 'tuple': r = '(%s)' % ', '.join(canon(x) for x in t['f'])
            else: r = t['name']
            memo[i] = r
            return r
        self._canon = memo
        for i, t in enumerate(tys):
            cn = canon(i)
            key = (cn, t['k'])
            if t['k'] == 'adt': t = dict(t, name=cn)
            g = self._name2ty.get(key)
            if g is None:
                g = len(self.types)
                self._name2ty[key] = g
                self.types.append(None)
                new.append((g, t))
            tmap[i] = g
        abase = len(self.allocs)
        self._tm, self._ab = tmap, abase
        crate = d['crate']
        for g, t in new:
            t = dict(t)
            if 'e' in t: t['e'] = tmap[t['e']]
            if t['k'] == 'tuple': t['f'] = [tmap[x] for x in t['f']]
            if 'ups' in t: t['ups'] = [tmap[x] for x in t['ups']]
            if 'targs' in t: t['targs'] = [tmap[x] for x in t['targs']]
            if 'v' in t:
                for v in t['v']:
                    v['n'] = v['n'].split('::')[-1]
                    v['f'] = [(n, tmap[x]) for n, x in v['f']]
            if t['k'] == 'fndef' and t['fn'] and t['fn'].get('inst'):
                self._inst(t['fn']['inst'])
            if t['k'] == 'closure' and t.get('fn'):
                self._inst(t['fn'])
            t['id'] = g
            self.types[g] = t
        for a in d['allocs']:
            if a['k'] == 'mem': self._alloc(a['a'])
            if a['k'] == 'fn': self._inst(a['f'])
            if a['k'] == 'vtable': a['ty'] = tmap[a['ty']]
            self.allocs.append(a)
        for s in d['statics']:
            if s['name'] not in self.statics:
                s['ty'] = tmap[s['ty']]
                if s['init']: self._alloc(s['init'])
                self.statics[s['name']] = s
        for v in d['vtables']:
            v['ty'] = tmap[v['ty']]
            m = {}
            for n, i in v['m']:
                self._inst(i); m[n] = i
            self.vtables[(v['ty'], v['trait'])] = m
        self.roots[crate] = d['roots']
        self.generic[crate] = d['generic']
        for f in d['funcs']:
            if f['key'] in self.funcs: continue
            self._fn(f)
            self.funcs[f['key']] = f

    def _inst(self, i):
        if '_n' in i: return
        i['_n'] = 1
        i['targs'] = [self._tm[x] for x in i['targs']]

    def _alloc(self, a):
        a['p'] = {o: x + self._ab for o, x in a['p']}

    def _const(self, c):
        c['t'] = self._tm[c['t']]
        if 'a' in c: self._alloc(c['a'])

    def _place(self, p):
        for e in p[1]:
            if e[0] == 'f': e[2] = self._tm[e[2]]
            elif e[0] == 'o': e[1] = self._tm[e[1]]

    def _op(self, o):
        if o[0] in ('c', 'm'): self._place(o[1])
        elif o[0] == 'k': self._const(o[1])

    def _rv(self, r):
        k = r[0]; tm = self._tm
        if k == 'use': self._op(r[1])
        elif k in ('ref', 'addr'): self._place(r[2])
        elif k in ('bin', 'chk'):
            self._op(r[2]); self._op(r[3]); r[4] = tm.get(r[4], -1)
        elif k == 'un':
            self._op(r[2]); r[3] = tm.get(r[3], -1)
        elif k == 'cast':
            self._op(r[2]); r[3] = tm.get(r[3], -1); r[4] = tm[r[4]]
        elif k == 'discr':
            self._place(r[1]); r[2] = tm.get(r[2], -1)
        elif k == 'len': self._place(r[1])
        elif k == 'rep': self._op(r[1])
        elif k == 'agg':
            r[3] = tm.get(r[3], -1)
            for o in r[4]: self._op(o)

    def _fn(self, f):
        tm = self._tm
        f['locals'] = [tm[x] for x in f['locals']]
        f['targs'] = [tm[x] for x in f['targs']]
        for n, p in f['names']: self._place(p)
        for bb in f['blocks']:
            for s in bb[0]:
                if s[0] == '=':
                    self._place(s[1]); self._rv(s[2])
                elif s[0] == 'sd': self._place(s[1])
                elif s[0] == 'assume': self._op(s[1])
            t = bb[1]
            if t[0] == 'switch':
                self._op(t[1]); t[4] = tm.get(t[4], -1)
            elif t[0] == 'drop': self._place(t[1])
            elif t[0] == 'call':
                if t[1][0] == 'def':
                    if t[1][1]['inst']: self._inst(t[1][1]['inst'])
                else: self._op(t[1][1])
                for o in t[2]: self._op(o)
                t[3] = [tm.get(x, -1) for x in t[3]]
                self._place(t[4]); t[5] = tm.get(t[5], -1)
            elif t[0] == 'assert':
                self._op(t[1])
                for o in t[3][1:]:
                    if isinstance(o, list): self._op(o)

    # ---- helpers
    def ty(self, i): return self.types[i]
    def fn(self, path):
        """function by exact def path; None when absent or ambiguous"""
        ks = self.by_path.get(path, [])
        return self.funcs[ks[0]] if len(ks) >= 1 else None
    def fns(self, path): return [self.funcs[k] for k in self.by_path.get(path, [])]
    def find_ty(self, pred): return [t for t in self.types if t and pred(t)]
