"""GS k: the symbology m selects is drawn from exactly the data of the command, with the current barcode settings"""
from fw import prop
import sem
from tables import *

A13, A8 = 'ean13::EAN13::new', 'ean8::EAN8::new'
def c128(t): return t.replace('{A', '\u00c0').replace('{B', '\u0181').replace('{C', '\u0106')
def strip(t): return t.replace('{A', '').replace('{B', '').replace('{C', '')
same = lambda t: t
# kind -> (name, constructor, constructor argument, human readable text, good data, data of a wrong length)
SYM = {0: ('UPC-A', A13, lambda t: '0' + t[:11], same, ['12345678901', '123456789012', '03600029145'], ['', '1234567890', '1234567890123', '12345']),
       2: ('EAN-13', A13, lambda t: t[:12], same, ['123456789012', '4006381333931', '5901234123457'], ['', '12345678901', '12345678901234']),
       3: ('EAN-8', A8, same, same, ['1234567', '96385074'], ['', '123456', '123456789']),
       4: ('CODE39', 'code39::Code39::new', lambda t: t.replace('*', ''), same, ['A', '*AB 12*', 'X-1', '**', 'ab1'], ['']),
       5: ('ITF', 'tf::TF::interleaved', same, same, ['123', '1234', '00123456'], ['', '1', '12']),
       6: ('Codabar', 'codabar::Codabar::new', same, same, ['A12', 'B123-4C', 'A$:/.+B'], ['', 'A', 'AB']),
       7: ('CODE93', 'code93::Code93::new', same, same, ['A', 'CODE 93', '12-$%'], ['']),
       8: ('CODE128', 'code128::Code128::new', c128, strip, ['{BNo.{C12', '{A12', '{Bab{A1{C99', '{B{{B'], ['', '{'])}
LONG = {4: 'A' * 200, 5: '12' * 100, 6: 'A' + '1' * 198 + 'B', 7: 'Z' * 200, 8: '{B' + 'q' * 200}
SYMB = {0: 12, 2: 13, 3: 8, 4: 3, 5: 4, 6: 5, 7: 4, 8: 5}         # symbolic data lengths

def forms(k): return ([k] if k <= 6 else []) + [k + 65]
def raw(m, data):
    if m <= 6: return [0x1D, 0x6B, m] + data + [0]
    return [0x1D, 0x6B, m, len(data)] + data
def name(m, d): return '%s%s' % ('GS k %d' % m, '' if d is None else ' data %s' % (d if len(repr(d)) < 40 else '%s... (%d bytes)' % (d[:12], len(d))))

@prop('C09', 'abstract interpretation of the parser and of the barcode routine for every barcode type m of GS k, from a symbolic printer state: the encoder the bars come from and '
      'the string it is given, both branches of its result, the module size, the human readable text and its font', types=20, data=90, outcomes=250, obligations=600)
def check(c):
    jobs = []
    for k, (nm, ctor, arg, hri, good, bad) in SYM.items():
        for m in forms(k):
            c.count('types')
            jobs += [(m, k, d) for d in good + ([LONG[k]] if k in LONG else [])] + [(m, k, d) for d in bad] + [(m, k, None)]
    for m in range(74, 80): c.count('types'); jobs.append((m, None, '{A1234567890'[:13])); jobs.append((m, None, '1234567890123'))
    for m in (7, 33, 64, 80, 255): jobs.append((m, None, ''))
    c.par(jobs, lambda w, j: w.guard(name(j[0], j[2]), one, w, *j))
def one(c, m, k, d):
    S = c.S; I = S.I
    label = name(m, d)
    st = S.cmd_set()[0].copy()
    if d is None:
        data = S.sym_bytes(SYMB[k])
        for b in data:                    # printable ASCII: what the data stands for needs no decoding
            st.assume(c_le(sub(const(0x20), b))); st.assume(c_le(sub(b, const(0x7E))))
    else: data = [const(b) for b in d.encode()]
    c.count('data')
    seen = set(); I.crashes = []
    own = {a.name for b in data for a in b.atoms()}
    for s, cmds in S.parse(raw(m, data) if m < 7 or 65 <= m < 80 else [0x1D, 0x6B, m], st):
        cmds = [x for x in cmds if x.ops == (0x1D, 0x6B)]
        if len(cmds) != 1: c.ob(label + ' | one command', None if cmds else False, '%d barcode commands are parsed' % len(cmds), 'barcode'); continue
        ref = S.ref(s, cmds[0].val); ctx = S.context()
        for s2, g in S.handler_call(s, ref, 'get_graphics', [S.ref(s, ctx)]):
            c.count('outcomes')
            g = S.whnf(s2, g)
            if not isinstance(g, Agg) or S.variant(s2, g) != 'Some':
                c.ob(label + ' | drawn or reported', False if isinstance(g, Agg) and not val_imprecise(g) else None, 'neither bars nor an error: %s' % show(g), 'barcode'); continue
            v = S.whnf(s2, g.fs[0]); kind = S.variant(s2, v)
            seen.add(kind)
            if k is None or (d is not None and d in SYM[k][5]):
                c.ob(label + ' | reported, not drawn', kind == 'Error' if kind else None, 'becomes %s' % show(v), 'barcode')
                continue
            if kind == 'Barcode': bars(c, S, s2, label, k, d, data, ctx, S.whnf(s2, v.fs[0]))
            elif kind == 'Error': err(c, S, s2, label, k, d, data, v)
            else: c.ob(label + ' | drawn as bars', False if kind else None, 'becomes %s' % show(v), 'barcode')
    sem.crash_obs(c, label + ' | no crash', label, 20, lambda a: a.name in own)
    if k is not None and (d is None or d not in SYM[k][5]):
        c.ob(label + ' | drawn when the encoder accepts the data', True if 'Barcode' in seen else (False if 'Error' in seen and len(seen) == 1 else None), 'outcomes: %s' % ' '.join(map(str, seen)), 'barcode')
        c.ob(label + ' | reported when the encoder rejects the data', True if 'Error' in seen else None, 'outcomes: %s' % ' '.join(map(str, seen)), 'barcode')
def plain(S, s, t):
    """a string value as a list of characters and terms, None when it is not of that form"""
    t = S.whnf(s, t)
    if not isinstance(t, OpV) or t.op != 'str': return None
    out = []
    for p in t.args:
        if p[0] == 'lit': out += [const(ord(ch)) for ch in p[1]]
        elif p[0] == 'chr' and isinstance(p[1], Lin): out.append(p[1])
        else: return None
    return out
def eqs(S, s, t, want):
    """does the string value t consist of the characters want (terms)?"""
    q = plain(S, s, t)
    if q is None: return None
    if len(q) != len(want): return False if not any(val_imprecise(x) for x in q) else None
    r = [scalar_eq(s, x, y) for x, y in zip(q, want)]
    return False if False in r else None if None in r else True
def chars(t): return [const(ord(ch)) for ch in t]
def wanted(k, d, data, which):
    """the expected constructor argument / text as terms, None when the rewriting of symbolic data is not a plain string"""
    f = SYM[k][which]
    if d is not None: return chars(f(d))
    if f is same: return list(data)
    if k == 0: return chars('0') + list(data[:11])
    if k == 2: return list(data[:12])
    return None
def source(S, s, pts):
    """(constructor path, argument value) of the encoder the points come from"""
    if not isinstance(pts, SeqV) or len(pts.segs) != 1 or pts.segs[0][0] != 's': return None
    t = S.I.opaque_terms.get(pts.segs[0][1])
    if t is None or not t[0].endswith('::encode'): return None
    if scalar_eq(s, pts.segs[0][2] if isinstance(pts.segs[0][2], Lin) else const(pts.segs[0][2]), const(0)) is not True: return None
    x = t[1][0] if t[1] else None
    if isinstance(x, OpV) and x.op == 'lib' and len(x.args) == 2: return x.args[0], x.args[1]
    return None
def arg_check(c, S, s, label, k, d, data, got, rule):
    want = wanted(k, d, data, 2)
    if want is not None: r = eqs(S, s, got, want)
    else: r = True if symbolic_ok(k, data, got, False) else None
    c.ob(label + rule, r, 'the encoder of %s is given %s, expected %s' % (SYM[k][0], show(got), SYM[k][2](d) if d is not None else 'the rewritten data'), 'barcode')
def symbolic_ok(k, data, got, text):
    """the rewriting expected for this kind, applied to the unchanged data, as a replace chain"""
    x = got
    steps = []
    while isinstance(x, OpV) and x.op == 'str' and len(x.args) == 1 and x.args[0][0] == 'replace':
        _, y, p, w = x.args[0]
        steps.append((txt(p), txt(w))); x = y
    exp = {4: [('*', '')], 8: [('{A', '' if text else '\u00c0'), ('{B', '' if text else '\u0181'), ('{C', '' if text else '\u0106')]}.get(k, [])
    return sorted(map(str, steps)) == sorted(map(str, exp)) and isinstance(x, OpV) and [p[1] for p in x.args if p[0] == 'chr'] == list(data)
def txt(v):
    if isinstance(v, Lin) and v.is_const(): return chr(v.c)
    if isinstance(v, OpV) and v.op == 'str' and all(p[0] == 'lit' for p in v.args): return ''.join(p[1] for p in v.args)
def bars(c, S, s, label, k, d, data, ctx, bc):
    src = source(S, s, S.whnf(s, S.get(s, bc, 'points')))
    if src is None:
        q = S.whnf(s, S.get(s, bc, 'points'))
        c.ob(label + ' | bars come from the encoder', None, 'bars are %s' % show(q), 'barcode')
    else:
        c.ob(label + ' | symbology', src[0].endswith(SYM[k][1]), 'bars come from %s, expected %s' % (src[0].split('::sym::')[-1], SYM[k][1]), 'barcode')
        if src[0].endswith(SYM[k][1]): arg_check(c, S, s, label, k, d, data, src[1], ' | encoded data')
    for f, p in (('point_width', 'barcode.width'), ('point_height', 'barcode.height'), ('hri', 'barcode.human_readable')):
        a = S.get(s, bc, f)
        c.ob('%s | %s' % (label, p), eqv(S, s, a, S.get(s, ctx, *p.split('.'))), '%s is %s, expected the current %s' % (f, show(a), p), 'barcode')
    span = S.get(s, bc, 'text')
    c.ob(label + ' | font of the text', eqv(S, s, S.get(s, span, 'font'), S.get(s, ctx, 'barcode', 'font')), 'font is %s' % show(S.get(s, span, 'font')), 'barcode')
    t = S.whnf(s, S.get(s, span, 'text')); want = wanted(k, d, data, 3)
    r = eqs(S, s, t, want) if want is not None else (True if symbolic_ok(k, data, t, True) else None)
    c.ob(label + ' | human readable text', r, 'text is %s, expected %s' % (show(t), SYM[k][3](d) if d is not None else 'the data'), 'barcode')
def err(c, S, s, label, k, d, data, v):
    """an error is due only to the encoder's refusal of the right data"""
    t = S.whnf(s, v.fs[0])
    why = find_err(S, t)
    q = plain(S, s, t)
    if why is None:
        if d is not None and q is not None: c.ob(label + ' | valid data is drawn', False, 'reported as an error: %s' % S.text(s, t), 'barcode')
        else: c.ob(label + ' | valid data is drawn', None, 'reported as an error: %s' % show(t), 'barcode')
        return
    c.ob(label + ' | rejected by its encoder', why[0].endswith(SYM[k][1] + '.err'), 'the error is that of %s' % why[0], 'barcode')
    if why[0].endswith(SYM[k][1] + '.err'): arg_check(c, S, s, label, k, d, data, why[1], ' | data the encoder rejected')
def find_err(S, v):
    if isinstance(v, OpV) and v.op == 'lib' and v.args[0].endswith('.err') and len(v.args) == 2: return v.args
    for x in (v.args if isinstance(v, OpV) else v.fs if isinstance(v, Agg) else v if isinstance(v, tuple) else ()):
        r = find_err(S, x) if not isinstance(x, (str, int)) else None
        if r: return r
