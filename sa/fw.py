"""Check framework: obligations, verdicts, known findings, evidence."""
import json, os, sys, time, traceback
import dump
from interp import Undecided, Limit
from sem import Sem, Missing
VERIF = dump.VERIF

PROPS = {}
class Prop:
    def __init__(self, pid, fn, rule, floors): self.pid = pid; self.fn = fn; self.rule = rule; self.floors = floors
def prop(pid, rule, **floors):
    def deco(fn):
        PROPS[pid] = Prop(pid, fn, rule, floors)
        return fn
    return deco

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.obs = []; self.viol = {}; self.und = {}; self.n = {}; self.notes = []
        self.assume = []; self._S = None
        self.good = {}
    @property
    def S(self):
        if self._S is None: self._S = Sem()
        return self._S
    def count(self, what, k=1): self.n[what] = self.n.get(what, 0) + k
    def ob(self, key, ok, detail='', where=''):
        """one obligation: ok True (discharged) / False (violated) / None (undecided)"""
        if ok is True:
            self.good[key] = self.good.get(key, 0) + 1
        elif ok is False:
            if key not in self.viol: self.viol[key] = (detail, where)
        else: self.und.setdefault(key, detail)
        self.count('obligations')
    def guard(self, key, f, *a, **k):
        """run one subject; lost precision leaves it undecided"""
        try: return f(*a, **k)
        except (Undecided, Limit) as e: self.ob(key, None, '%s: %s' % (type(e).__name__, e))
        except RecursionError as e: self.ob(key, None, 'recursion depth')
        except Missing: raise
        except Exception as e:
            self.ob(key, None, 'analysis error %s: %s @ %s' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()))
            if os.environ.get('SA_DEBUG'): traceback.print_exc()
        return None

    def par(self, items, f, jobs=None):
        """f(self, item) for every item, spread over forked workers; obligations are merged"""
        import multiprocessing as mp
        items = list(items); jobs = min(jobs or min(8, os.cpu_count() or 1), max(1, len(items)))
        self.S.registry()
        if jobs == 1 or os.environ.get('SA_SERIAL'):
            for x in items: f(self, x)
            return
        ctx = mp.get_context('fork')
        idx = ctx.Value('i', 0); q = ctx.Queue()
        def work():
            w = Ctx(self.pid, self.tier); w._S = self._S
            err = None
            try:
                while True:
                    with idx.get_lock():
                        i = idx.value; idx.value += 1
                    if i >= len(items): break
                    f(w, items[i])
            except Missing as e: err = ('missing', str(e))
            except BaseException as e: err = ('error', '%s: %s' % (type(e).__name__, e))
            q.put((w.viol, {k: str(v) for k, v in w.und.items()}, w.good, w.n, w.notes, w.assume, err, sorted(w._S.I.visited), dict(w._S.I.unknown_calls)))
        ps = [ctx.Process(target=work) for _ in range(jobs)]
        for p in ps: p.start()
        errs = []
        for _ in ps:
            viol, und, good, n, notes, assume, err, vis, unk = q.get()
            for k, v in viol.items(): self.viol.setdefault(k, v)
            for k, v in und.items(): self.und.setdefault(k, v)
            for k, v in good.items(): self.good[k] = self.good.get(k, 0) + v
            for k, v in n.items(): self.n[k] = self.n.get(k, 0) + v
            self.notes += notes
            for a in assume:
                if a not in self.assume: self.assume.append(a)
            self.S.I.visited.update(vis) if isinstance(self.S.I.visited, set) else None
            for k, v in unk.items(): self.S.I.unknown_calls[k] = max(v, self.S.I.unknown_calls.get(k, 0))
            if err: errs.append(err)
        for p in ps: p.join()
        for kind, e in errs:
            if kind == 'missing': raise Missing(e)
            self.ob('worker', None, e)

def known():
    r = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property='):
                h, _, rest = l[len('finding: property='):].partition(' ')
                key, _, why = rest.partition(' :: ')
                r.setdefault(h, {})[key.strip()] = why.strip()
    return r

def run(pid, tier, seed):
    t0 = time.time()
    import props
    p = PROPS[pid]
    c = Ctx(pid, tier)
    missing = None
    try:
        p.fn(c)
    except Missing as e:
        c.ob('anchor', False, 'missing anchor: %s' % e)
    except (Undecided, Limit) as e:
        c.ob('whole', None, '%s: %s' % (type(e).__name__, e))
        if os.environ.get('SA_DEBUG'): traceback.print_exc()
    except RuntimeError as e:
        if 'MIR dump failed' in str(e) or 'driver build failed' in str(e):
            print(e); return 2
        raise
    for k, m in p.floors.items():
        if c.n.get(k, 0) < m and not c.und and not c.viol.get('anchor'):        # with undecided subjects a low count is already reported as such
            c.ob('floor:' + k, False, 'only %d %s analysed, %d expected' % (c.n.get(k, 0), k, m))
    kn = known().get(pid, {})
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    new = {k: v for k, v in c.viol.items() if k not in kn}
    for k in sorted(c.viol):
        if k in kn: print('KNOWN-FINDING: property=%s %s :: %s' % (pid, k, kn[k]))
    rp = os.path.join(ev, pid + '.report.txt')
    with open(rp, 'w') as f:
        f.write('property %s (%s)\nrule: %s\n' % (pid, tier, p.rule))
        for k in sorted(new): f.write('\nVIOLATED  %s\n  %s\n  at %s\n' % (k, new[k][0], new[k][1]))
        for k in sorted(c.viol):
            if k in kn: f.write('\nKNOWN     %s\n  %s\n' % (k, c.viol[k][0]))
        for k in sorted(c.und): f.write('\nUNDECIDED %s\n  %s\n' % (k, c.und[k]))
        f.write('\ndischarged:\n')
        for k in sorted(c.good): f.write('  %s x%d\n' % (k, c.good[k]))
    I = c._S.I if c._S else None
    nd = sum(c.good.values())
    cov = dict(obligations=c.n.get('obligations', 0), discharged=nd, obligation_keys=len(c.good) + len(c.viol) + len(c.und),
               violated=sorted(new), known=sorted(set(c.viol) & set(kn)), undecided={k: c.und[k][:200] for k in sorted(c.und)[:40]},
               counts=c.n, rule=p.rule, samples=sorted(c.good)[:12],
               explanation=p.rule, checker_cmd='python3 check.py %s --tier %s' % (pid, tier),
               trusted_base=['rustc MIR of the current tree (optimisation level 0, resolved instances)',
                             'sa/models.py: abstract semantics of the std functions listed there',
                             'the specification tables in sa/props (ESC/POS command reference)'])
    if I is not None:
        cov['functions_interpreted'] = len(I.visited)
        cov['functions_sample'] = sorted(x for x in I.visited if x.startswith('thermal') or x.startswith('<thermal'))[:60]
        cov['uninterpreted_calls'] = dict(sorted(I.unknown_calls.items())[:40])
    if c.notes: cov['notes'] = c.notes
    json.dump(dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, 'proof'), coverage=cov, assumptions=c.assume,
                   wall_s=round(time.time() - t0, 3), violations=len(new)),
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    for k in sorted(new):
        d, w = new[k]
        print('  %s: %s%s' % (k, d, ' [%s]' % w if w else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    print('%s: %d obligations, %d discharged, %d violated, %d known, %d undecided, %.1fs' % (
        pid, c.n.get('obligations', 0), nd, len(new), len(set(c.viol) & set(kn)), len(c.und), time.time() - t0))
    return 1 if new else 0
LEVEL = {}
