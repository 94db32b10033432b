"""what rendering may depend on: call-graph reachability to outside sources, mutable globals and hash order"""
from fw import prop
from sem import Missing
from tables import *
import re

TR = 'thermal_renderer::'
OURS = re.compile(r'^<?&?(mut )?(thermal_parser|thermal_renderer)::')
# what the result must not depend on, or must not change: (family, pattern of the called path)
SOURCES = [('clock', r'std::time::(Instant|SystemTime)'), ('environment', r'std::env::'), ('file system', r'std::fs::|std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize)'), ('network', r'std::net::'),
           ('process', r'std::process::|std::os::'), ('thread', r'std::thread::(?!panicking)|std::sync::mpsc|rayon'), ('standard input', r'std::io::(stdin|Stdin)'),
           ('randomness', r'std::random|(^|[^a-z_])rand(_core|_chacha)?::|getrandom|fastrand|RandomState'), ('thread-local state', r'LocalKey'), ('system call', r'(^|[^a-z_])libc::')]
ITER = re.compile(r"(std::collections::(hash_map::|hash_set::)?|hashbrown::.*)(HashMap|HashSet)(::)?<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|extract_if)$|"
                  r"<&?('a )?(mut )?std::collections::(hash_map::|hash_set::)?Hash(Map|Set)<.*> as std::iter::IntoIterator>::into_iter$|<std::collections::(hash_map::|hash_set::)?Hash(Map|Set)<.*> as std::fmt::Debug>")
SORTED = re.compile(r'::sort|BTree|BinaryHeap|::(count|all|any|sum|len)$')
ORDERED = re.compile(r'std::vec::Vec::<.*>::(push|insert|extend_from_slice)$|std::string::String::push|OutputRenderer|::(last|nth|fold|position)$|::join$|format')
FLAT = re.compile(r'(collect|extend|from_iter)::<.*(Vec<|String)|<std::(vec::Vec<|string::String).*Extend')
WRITABLE = re.compile(r'(atomic::Atomic|sync::(nonpoison::|poison::)?(mutex::)?(Mutex|RwLock|rwlock::RwLock)|cell::(Cell|RefCell|UnsafeCell|SyncUnsafeCell)|RefCell<|Cell<)')
ONCE = re.compile(r'OnceLock|LazyLock|OnceCell|LazyCell|once::Once')

@prop('C29', 'reachability over the call graph (trait calls resolved to every implementation in a vtable) from decoding, layout and both outputs to outside sources, to '
      'writable globals and thread-locals, to order-dependent iteration over hash tables and to address-to-number casts', functions=300, calls=2000, roots=6)
def check(c):
    S = c.S; P = S.P; S.registry()
    c.assume.append('the barcoders, qr_code, fontdue, png and base64 crates depend on their arguments only'); c.assume.append('printing to standard output and standard error is debugging output')
    ours = {k: f for k, f in P.funcs.items() if OURS.match(f['path'])}
    impl = {}                                      # trait method -> implementations in vtables
    for (ty, tr), ms in P.vtables.items():
        for n, i in ms.items(): impl.setdefault((tr.split('<')[0], n.split('::')[-1]), []).append(i)
    roots = [f for f in ours.values() if re.search(r'::render$|::parse_bytes$|Parser::new$|::parse_esc_pos|command_sets::.*::new$|thermal_file::', f['path'])]
    roots += [f for f in ours.values() if 'as thermal_renderer::renderer::OutputRenderer' in f['path'] or f['path'].startswith(TR + 'renderer::Renderer')]
    if not any(f['path'].endswith('Renderer::render') or 'Renderer::<' in f['path'] and f['path'].endswith('::render') for f in roots): raise Missing('Renderer::render')
    c.count('roots', len(roots))
    pred = {f['key']: None for f in roots}; work = [f['key'] for f in roots]
    while work:
        k = work.pop(); f = P.funcs[k]
        for tgt in edges(P, impl, f):
            if tgt not in pred: pred[tgt] = k; work.append(tgt)
    seen = [k for k in pred if k in ours]
    def chain(k):
        r = []
        while k is not None and len(r) < 12: r.append(P.funcs[k]['path']); k = pred[k]
        return ' <- '.join(r)
    for k in sorted(seen, key=lambda k: P.funcs[k]['path']):
        f = P.funcs[k]; c.count('functions'); calls = []
        for bb in f['blocks']:
            t = bb[1]
            if t[0] == 'call' and t[1][0] == 'def':
                i = t[1][1]['inst']; p = i['path'] if i else t[1][1]['decl']; n = (i.get('name') if i else None) or p
                calls.append((p, n)); c.count('calls')
                for fam, pat in SOURCES:
                    if re.search(pat, p): c.ob('%s | %s' % (fam, f['path']), False, '%s is called: %s' % (p, chain(k)), f['path'])
        for bb in f['blocks']:
            t = bb[1]
            if t[0] == 'call' and t[1][0] == 'def' and t[1][1]['inst'] and re.search(r'Once(Lock|Cell)::<.*>::(get_or_init|get_or_try_init|set|get_mut_or_init|try_insert)$', t[1][1]['inst']['path']):
                i = t[1][1]['inst']
                caps = [u for x in i['targs'] if P.types[x]['k'] == 'closure' for u in P.types[x].get('ups', ())]
                if caps or i['path'].endswith(('::set', '::try_insert')):
                    c.ob('first use | %s' % f['path'], False if glob_once(P, f, pred) else None, 'what is kept for all later documents depends on the first one: %s' % chain(k), f['path'])
        hits = [p for p, n in calls if ITER.search(p) or (p.endswith('IntoIterator>::into_iter') or p.endswith('IntoIterator::into_iter')) and re.search(r'<&?(mut )?std::collections::(hash_map::|hash_set::)?Hash(Map|Set)<', n)]
        if hits:
            names = [p for p, _ in calls] + [p for q in closures(P, f) for p in q]
            ok = None if any(SORTED.search(p) for p in names) else False if any(ORDERED.search(p) for p in names) or any(FLAT.search(n) for _, n in calls) else None
            c.ob('hash order | %s' % f['path'], ok, '%s visits a hash table in its own order: %s' % (hits[0], chain(k)), f['path'])
        else: c.ob('hash order', True)
        g = set(); casts = []
        scan(f['blocks'], P, g, casts)
        for name in sorted(g): c.ob('%s | %s' % ('global ' + name, f['path']), *static(P, name, chain(k)), f['path'])
        for q in casts: c.ob('address | %s' % f['path'], False, 'an address becomes a number (%s): %s' % (q, chain(k)), f['path'])
        c.ob('sources | %s' % f['path'], True)
    for name, s in sorted(P.statics.items()):
        if not s['crate'] in ('thermal_parser', 'thermal_renderer'): continue
        c.count('statics')
        tn = P.types[s['ty']].get('name', '')
        c.ob('global constant', None if ONCE.search(tn) else not WRITABLE.search(tn) or None, '%s has type %s' % (name, tn), name)
def glob_once(P, f, pred):
    """a once-cell that is a global"""
    g = set(); scan(f['blocks'], P, g, [])
    return any(ONCE.search(P.types[P.statics[n]['ty']].get('name', '')) for n in g if n in P.statics)
def edges(P, impl, f):
    for bb in f['blocks']:
        t = bb[1]
        if t[0] in ('call', 'drop') and t[1] and t[1][0] == 'def':
            i = t[1][1]['inst']
            if i and i['key'] in P.funcs: yield i['key']
            d = t[1][1]['decl']
            for j in impl.get((d.rsplit('::', 1)[0].split('<')[0], d.split('::')[-1]), ()):
                if j['key'] in P.funcs: yield j['key']
    acc = []; fns(f['blocks'], P, acc)
    for k in acc:
        if k in P.funcs: yield k
    for lt in f['locals']:
        t = P.types[lt]
        if t['k'] == 'closure' and t.get('fn') and t['fn']['key'] in P.funcs: yield t['fn']['key']
def fns(x, P, acc):
    """functions and closures named in constants"""
    if isinstance(x, dict):
        t = x.get('t')
        if isinstance(t, int) and t < len(P.types) and P.types[t]:
            d = P.types[t]
            if d['k'] == 'fndef' and d.get('fn') and d['fn'].get('inst'): acc.append(d['fn']['inst']['key'])
            if d['k'] == 'closure' and d.get('fn'): acc.append(d['fn']['key'])
        for v in x.values(): fns(v, P, acc)
    elif isinstance(x, (list, tuple)):
        for v in x: fns(v, P, acc)
def closures(P, f):
    for lt in f['locals']:
        t = P.types[lt]
        if t['k'] == 'closure' and t.get('fn') and t['fn']['key'] in P.funcs:
            g = P.funcs[t['fn']['key']]
            yield [(b[1][1][1]['inst'] or {}).get('path') or b[1][1][1]['decl'] for b in g['blocks'] if b[1][0] == 'call' and b[1][1][0] == 'def']
def scan(x, P, g, casts, depth=0):
    """globals referred to by constants, thread-locals, pointer-to-integer casts"""
    if isinstance(x, dict):
        if 'a' in x and isinstance(x['a'], dict):
            h = set(); allocs(x['a'], P, h, set())
            t = P.types[x['t']] if isinstance(x.get('t'), int) else {}
            g |= {('mutable ' if t.get('k') == 'ptr' and t.get('m') else '') + n for n in h}
        for v in x.values(): scan(v, P, g, casts)
    elif isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 'tls': g.add('thread-local ' + str(x[1])); return
        if x and isinstance(x[0], str) and x[0] == 'cast' and 'Expose' in repr(x[1]): casts.append(x[1])
        for v in x: scan(v, P, g, casts)
def allocs(a, P, g, seen):
    p = a.get('p', ())
    for i in (p.values() if isinstance(p, dict) else [y for _, y in p]):
        if i in seen: continue
        seen.add(i); al = P.allocs[i]
        if al['k'] == 'static': g.add(al['name'])
        elif al['k'] == 'mem': allocs(al['a'], P, g, seen)
def static(P, name, chain):
    if name.startswith('thread-local '): return False, 'thread-local state is used: ' + chain
    if name.startswith('mutable '): return False, 'a mutable global is used: ' + chain
    s = P.statics.get(name)
    if s is None: return None, 'unknown global'
    tn = P.types[s['ty']].get('name', '')
    if ONCE.search(tn): return None, 'initialised once: %s' % tn
    if WRITABLE.search(tn): return False, 'the writable global %s (%s) is used: %s' % (name, tn, chain)
    return True, ''
