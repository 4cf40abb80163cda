"""Query layer: gathers the definitional facts and lemma instances a formula needs
and decides  pc |= goal  with z3 (linear stage, then non-linear stage, then cvc5)."""
import z3, time, subprocess, os, tempfile, itertools
from .terms import *
from . import terms as T

_deps = {}
HOOKS = {}      # UF decl name -> callable(term) -> list of facts (array region facts)

def deps(e):
    k = e.get_id()
    r = _deps.get(k)
    if r is not None: return r
    hold(e)
    out = set(); seen = set(); st = [e]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in CMP: out.add(('c', i))
        if z3.is_app(x):
            d = x.decl()
            if x.num_args() == 0:
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    n = d.name()
                    if n in ATOM or n in MONO_INV or n in ATOMFACT: out.add(('a', n))
            else:
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    if not (d.eq(VAL) or d.eq(RANK)):
                        out.add(('t', i)); _TERM[i] = x
                    if i in T.ATOM_BY_AST: out.add(('a', T.ATOM_BY_AST[i]))
                for j in range(x.num_args()): st.append(x.arg(j))
    r = frozenset(out)
    _deps[k] = r
    return r
_TERM = {}

class Stats:
    def __init__(self): self.n = 0; self.t = 0.0; self.by = {}
STATS = Stats()

def closure(formulas):
    items = set(); work = list(formulas); facts = []; seenf = set()
    terms = []; cmps = set()
    while work:
        f = work.pop()
        for it in deps(f):
            if it in items: continue
            items.add(it)
            new = []
            if it[0] == 'a':
                n = it[1]
                new += ATOMFACT.get(n, [])
                m = MONO_INV.get(n)
                if m:
                    for a in m:
                        if ('a', a) not in items:
                            items.add(('a', a)); new += ATOMFACT.get(a, [])
            elif it[0] == 't':
                t = _TERM[it[1]]
                terms.append(t)
                new += axioms(t)
                h = HOOKS.get(t.decl().name())
                if h: new += h(t)
            elif it[0] == 'c':
                cmps.add(it[1])
            for g in new:
                if g.get_id() not in seenf:
                    seenf.add(g.get_id()); facts.append(g); work.append(g)
    facts += pair_axioms(terms)
    return facts, items, cmps

_mull = {}
def mult_lemmas_of(D):
    k = D.key()
    if k in _mull: return _mull[k]
    out = []
    ats = set()
    for m in D.t:
        if len(m) > 1: ats.update(m)
    for v in ats:
        Q = {}; VQ = {}
        for m, c in D.t.items():
            if v in m:
                l = list(m); l.remove(v); Q[tuple(l)] = c; VQ[m] = c
        if all(len(m) == 1 for m in VQ): continue
        Qp, VQp = Poly(Q), Poly(VQ)
        q, vq, z = Qp.z(), VQp.z(), ATOM[v]
        out.append(((v, Qp.key()), hold(z3.Implies(z >= 1, z3.And(z3.Implies(q >= 1, vq >= z), z3.Implies(q >= 0, vq >= 0),
                                                   z3.Implies(q <= -1, vq <= -z), z3.Implies(q <= 0, vq <= 0))))))
    _mull[k] = out
    return out

def mult_lemmas(polys, limit=400):
    out = []; seen = set()
    for D in polys:
        for k, f in mult_lemmas_of(D):
            if k in seen: continue
            seen.add(k); out.append(f)
            if len(out) > limit: return out
    return out

def build(pc, goal, extra_polys=()):
    neg = Not(goal)
    fs = [f for f in pc if not isT(f)] + [neg]
    facts, items, cmps = closure(fs)
    polys = [CMP[c] for c in cmps] + list(extra_polys)
    # pairwise differences of comparisons sharing nonlinear monomials help transitivity
    lem = mult_lemmas(polys)
    # lemmas mention monomials/atoms: close again (atom facts only)
    if lem:
        f2, it2, _ = closure(fs + facts + lem)
        facts = f2; items = it2
    return fs, facts, lem, items

_monodef = {}
def mono_defs(items):
    out = []
    for it in items:
        if it[0] == 'a' and it[1] in MONO_INV:
            n = it[1]
            if n not in _monodef:
                m = MONO_INV[n]; p = ATOM[m[0]]
                for a in m[1:]: p = p * ATOM[a]
                _monodef[n] = z3.Int(n) == p
            out.append(_monodef[n])
    return out

def check(pc, goal, timeout=4000, deep=True, extra_polys=(), model=False, cvc5=True):
    """'proved' | 'failed' | 'unknown' (+ model)"""
    t0 = time.time(); STATS.n += 1
    if isT(goal): return ('proved', None) if model else 'proved'
    fs, facts, lem, items = build(pc, goal, extra_polys)
    allf = fs + facts + lem
    s = z3.Solver(); s.set('timeout', timeout); s.set('random_seed', 7)
    s.add(allf)
    r = s.check(); res = None; mdl = None; how = 'z3-linear'
    if r == z3.unsat: res = 'proved'
    else:
        if model and r == z3.sat: mdl = s.model()
        nl = mono_defs(items) if deep else []
        if nl:
            s2 = z3.Solver(); s2.set('timeout', timeout); s2.add(allf); s2.add(nl)
            r2 = s2.check(); how = 'z3-nonlinear'
            if r2 == z3.unsat: res = 'proved'
            elif r2 == z3.sat:
                res = 'failed'
                if model: mdl = s2.model()
            else: res = 'unknown'
        else: res = 'failed' if r == z3.sat else 'unknown'
        if res == 'unknown' and deep and cvc5:
            r3 = cvc5_check(allf + nl, timeout * 2)
            if r3 == 'unsat': res = 'proved'; how = 'cvc5'
    dt = time.time() - t0
    STATS.t += dt
    STATS.by[how] = STATS.by.get(how, 0) + (1 if res == 'proved' else 0)
    return (res, mdl) if model else res

def cvc5_check(fs, timeout):
    s = z3.Solver(); s.add(fs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write(txt); f.close()
        exe = '/usr/bin/cvc5'
        if not os.path.exists(exe): exe = 'cvc5'
        p = subprocess.run([exe, '--tlimit=%d' % timeout, f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 20)
        o = p.stdout.decode().split('\n')[0].strip()
        return o
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)

def feasible(pc, timeout=1500):
    """False only if pc is proved inconsistent"""
    if any(isF(f) for f in pc): return False
    STATS.n += 1; t0 = time.time()
    fs, facts, lem, items = build(pc, FALSE)
    s = z3.Solver(); s.set('timeout', timeout); s.add(fs + facts + lem)
    r = s.check() != z3.unsat
    STATS.t += time.time() - t0
    return r
