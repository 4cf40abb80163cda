"""Runs one proof unit and writes its result as JSON.
   python3-vt -m gv.run OUT.json UNIT [args...]
A unit builds initial states from preconditions, executes the real functions
symbolically (callees under contract are replaced by their contract) and decides every
obligation; post() adds named postcondition obligations."""
import sys, json, time, traceback, os, resource
from .world import *
from . import solve, exec as X

class Ctx:
    def __init__(self):
        self.t0 = time.time(); self.engines = []; self.post_obs = []; self.notes = []; self.assumed = []; self.covered = set(); self.contracts = set()
        self.kinds = None
    def stage(self):
        """first pass: only the declared loop invariants; when anything stays open the unit runs
        again (fresh process) with the full set of invariant templates"""
        self.staged = not os.environ.get('GV_TEMPLATES')
        return self.staged
    staged = False
    def use(self, E):
        if E not in self.engines: self.engines.append(E)
        return E
    def post(self, st, fn, name, cond, timeout=8000, E=None):
        """decide postcondition `cond` in final state st"""
        try:
            r = solve.check(st.allpc(), cond, timeout)
        except z3.Z3Exception as e:
            r = 'unknown'
        self.post_obs.append(dict(kind='post', fn=fn, where='', desc=name, status=r, trivial=bool(isT(cond))))
        return r == 'proved'
    def fact(self, fn, name, ok):
        self.post_obs.append(dict(kind='post', fn=fn, where='', desc=name, status='proved' if ok else 'failed', trivial=False))
        return ok
    def feasible_end(self, sts, fn, what):
        """guard against vacuity: at least one final state must be satisfiable"""
        ok = any(solve.feasible(s.allpc()) for s in sts)
        self.post_obs.append(dict(kind='sanity', fn=fn, where='', desc='not vacuous: %s' % what, status='proved' if ok else 'failed', trivial=False))

UNITS = {}
def unit(f): UNITS[f.__name__] = f; return f

def main():
    out = sys.argv[1]; name = sys.argv[2]; args = sys.argv[3:]
    sys.setrecursionlimit(20000)
    try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass
    from . import units
    c = Ctx(); err = None
    try:
        UNITS_ = units.UNITS
        UNITS_[name](c, *args)
    except Unsupported as e: err = 'unsupported: %s' % e
    except X.Timeout: err = 'timeout'
    except front.FrontError as e: err = 'front end: %s' % e
    except MemoryError: err = 'out of memory'
    except Exception as e:
        err = 'internal: %s: %s' % (type(e).__name__, e)
        traceback.print_exc()
    obs = []
    for E in c.engines:
        for o in E.obs: obs.append(dict(kind=o.kind, fn=o.fn, where=o.where, desc=o.desc, status=o.status, trivial=o.trivial))
        c.covered |= E.covered
    obs += c.post_obs
    # one entry per named obligation (an obligation may be generated on several paths)
    agg = {}
    for o in obs:
        k = (o['kind'], o['fn'], o['where'], o['desc'])
        a = agg.setdefault(k, dict(o, n=0, nontrivial=0))
        a['n'] += 1
        if not o['trivial']: a['nontrivial'] += 1
        order = ['failed', 'unknown', 'proved']
        if order.index(o['status']) < order.index(a['status']): a['status'] = o['status']
    res = dict(unit=name, args=args, error=err, obligations=list(agg.values()), raw=len(obs), raw_ok=sum(o['status'] == 'proved' for o in obs),
               covered=sorted(c.covered), contracts=sorted(c.contracts), notes=c.notes, assumed=c.assumed,
               loops=[l for E in c.engines for l in E.loop_log],
               solver=dict(queries=solve.STATS.n, time=round(solve.STATS.t, 2), by=solve.STATS.by), wall=round(time.time() - c.t0, 1))
    json.dump(res, open(out, 'w'))
    if c.staged and (err or any(o['status'] != 'proved' for o in res['obligations'])):
        print('staged: again with templates (%s)' % (err or [o['desc'] for o in res['obligations'] if o['status'] != 'proved'][:3])); os.environ['GV_TEMPLATES'] = '1'; sys.stdout.flush(); sys.stderr.flush()
        os.execv(sys.executable, [sys.executable, '-u', '-m', 'gv.run'] + sys.argv[1:])
    if err: print(name, args, 'ERROR', err)
    bad = [o for o in res['obligations'] if o['status'] != 'proved']
    print('%s %s: %d obligations, %d not proved, %.1fs' % (name, ' '.join(args), len(res['obligations']), len(bad), res['wall']))
    for o in bad[:40]: print('  ', o['status'], o['kind'], o['fn'], o['where'], o['desc'])

if __name__ == '__main__': main()
