import sys
from mir import *
def pl(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e == '*': s = '(*%s)' % s
        elif e[0] == 'f': s += '.%d' % e[1]
        elif e[0] == 'i': s += '[_%d]' % e[1]
        elif e[0] == 'd': s += '@%s' % e[1]
        else: s += str(e)
    return s
def op(P, o):
    if o[0] in 'cm': return ('move ' if o[0] == 'm' else '') + pl(o[1])
    if o[0] == 'k':
        c = o[1]
        return 'k<%s>%s' % (P.ty(c['t'])['name'][:60], (':' + str(c.get('a', {}).get('hex', c.get('u', '')))[:40]) if 'z' not in c else '')
    return str(o)
def rv(P, r):
    k = r[0]
    if k == 'use': return op(P, r[1])
    if k in ('ref', 'addr'): return '%s %s %s' % (k, r[1], pl(r[2]))
    if k in ('bin', 'chk'): return '%s.%s(%s, %s)' % (k, r[1], op(P, r[2]), op(P, r[3]))
    if k == 'un': return 'un.%s(%s)' % (r[1], op(P, r[2]))
    if k == 'cast': return 'cast.%s(%s) %s->%s' % (r[1], op(P, r[2]), P.ty(r[3])['name'], P.ty(r[4])['name'])
    if k == 'discr': return 'discr(%s)' % pl(r[1])
    if k == 'len': return 'len(%s)' % pl(r[1])
    if k == 'rep': return 'rep(%s; %s)' % (op(P, r[1]), r[2:])
    if k == 'agg': return 'agg %s %s %s(%s)' % (r[1], r[2], P.ty(r[3])['name'] if r[3] >= 0 else '', ', '.join(op(P, o) for o in r[4]))
    return str(r)
def show(P, f):
    print('fn', f['path'], f['key'][:80], f['file'], f['l0'], 'nargs', f['nargs'], 'spread', f.get('spread'))
    for i, t in enumerate(f['locals']): print('   _%d: %s' % (i, P.ty(t)['name'][:100]))
    for i, bb in enumerate(f['blocks']):
        print(' bb%d:' % i)
        for s in bb[0]:
            if s[0] == '=': print('    %s = %s' % (pl(s[1]), rv(P, s[2])))
            else: print('    ', s)
        t = bb[1]
        if t[0] == 'call':
            if t[1][0] == 'def':
                d = t[1][1]; i = d['inst']
                nm = '%s [%s]' % (i['path'] if i else d['decl'], i['kind'] if i else None)
            else: nm = 'ptr ' + op(P, t[1][1])
            print('    %s = call %s(%s) -> %s' % (pl(t[4]), nm, ', '.join(op(P, o) for o in t[2]), t[6]))
        elif t[0] == 'switch': print('    switch', op(P, t[1]), t[2], t[3])
        elif t[0] == 'assert': print('    assert', op(P, t[1]), t[2], t[3][0], '->', t[4])
        else: print('   ', t)
if __name__ == '__main__':
    import dump, glob
    d, _ = dump.dump()
    P = Program([d + '/thermal_parser.json', d + '/thermal_renderer.json'])
    for pat in sys.argv[1:]:
        for p in sorted(P.by_path):
            if pat in p:
                for k in P.by_path[p]: show(P, P.funcs[k])
