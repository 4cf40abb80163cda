"""Loop rule: invariants are inferred (Houdini over templates), then checked, then the
loop is replaced by its invariant.  Every invariant kept has been proved to hold on entry
and to be preserved by every path through the body, under the obligations proved for the
body, for an arbitrary iteration -- no bound on the number of iterations."""
import z3, time, itertools
from .terms import *
from . import terms as T
from . import solve
from . import exec as X
from .exec import (Base, Const, Store, Copy, Fill, IteArr, Arr, Ptr, Fn, Undef, ArrRef, Unsupported, PathEnd, NoMerge,
                   ranged_atom, prange, int_range, St, Ob)

FCONSTS = (0.0, 1.0, 1.0 / 256, 256.0, 257.0, 258.0)

class MapArr(Arr):
    """prev with element  lo+s*j := body[n:=j]  for 0<=j<cnt   (s = +-1)"""
    def __init__(self, prev, lo, s, cnt, natom, body, kind):
        self.prev = prev; self.lo = lo; self.s = s; self.cnt = cnt; self.natom = natom; self.body = body; self.kind = kind
    def sel(self, i):
        j = psub(i, self.lo) if self.s == 1 else psub(self.lo, i)
        c = And(cmp('>=', j, P(0)), cmp('<', j, self.cnt))
        if isF(c): return self.prev.sel(i)
        v = subst_val(self.body, self.natom, j)
        if isT(c): return v
        return X.ite(c, v, self.prev.sel(i), self.kind)

def psubst(p, name, q):
    """substitute atom `name` by Poly q in Poly p"""
    if not any(name in m for m in p.t): return p
    r = P(0)
    for m, c in p.t.items():
        k = m.count(name)
        base = Poly({tuple(x for x in m if x != name): c})
        for _ in range(k): base = pmul(base, q)
        r = padd(r, base)
    return r

def term_vars(t, acc=None, seen=None):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else:
                for j in range(x.num_args()): st.append(x.arg(j))
    return out

def tsubst(t, name, q):
    """substitute atom `name` by Poly q inside a z3 term (monomials included)"""
    vs = term_vars(t)
    pairs = []
    for v in vs:
        if v == name: pairs.append((ATOM[name], q.z()))
        elif v in MONO_INV and name in MONO_INV[v]:
            pairs.append((MONO[MONO_INV[v]], psubst(Poly({MONO_INV[v]: 1}), name, q).z()))
    if not pairs: return t
    return hold(z3.substitute(t, *pairs))

def poly_terms_mention(p, name):
    """does Poly p mention `name`, directly or inside term atoms (lrint(x) ...)"""
    for a in p.atoms():
        if a == name: return True
        if a in T.TERM_OF_ATOM and mentions(T.TERM_OF_ATOM[a], name): return True
    return False

def mentions(t, name):
    for v in term_vars(t):
        if v == name or (v in MONO_INV and name in MONO_INV[v]): return True
    return False

class _W(X.Engine):
    def __init__(self): pass
    obs = []; checking = False
def rewrap(p, t): return _W().rewrap(p, t)
def ite_mentions(a, name):
    if a in X.WRAP_DEF:
        p = X.WRAP_DEF[a][0]
        return poly_terms_mention(p, name) or any(ite_mentions(b, name) for b in p.atoms())
    if a in X.ITE_DEF:
        c, x, y = X.ITE_DEF[a]
        return mentions(c, name) or any(poly_terms_mention(p, name) or any(ite_mentions(b, name) for b in p.atoms()) for p in (x, y))
    return False

def subst_val(v, name, q):
    if isinstance(v, Poly):
        for a in list(v.atoms()):
            if a in X.WRAP_DEF and ite_mentions(a, name):
                p, ty = X.WRAP_DEF[a]
                v = psubst(v, a, rewrap(subst_val(p, name, q), ty))
            elif a in X.ITE_DEF and ite_mentions(a, name):
                c, x, y = X.ITE_DEF[a]
                v = psubst(v, a, X.ite(tsubst(c, name, q), subst_val(x, name, q), subst_val(y, name, q), 'I'))
        r = psubst(v, name, q)
        # term atoms mentioning the name
        for a in list(r.atoms()):
            if a in T.TERM_OF_ATOM and mentions(T.TERM_OF_ATOM[a], name):
                nt = tsubst(T.TERM_OF_ATOM[a], name, q)
                nm, = atom_of_term(nt, X.RANGE_LO.get(a), X.RANGE_HI.get(a)).atoms()
                for f in ATOMFACT.get(a, []): ATOMFACT[nm].append(tsubst(f, name, q))
                r = psubst(r, a, Poly({(nm,): 1}))
        return r
    return tsubst(v, name, q)

def arr_subst(a, name, q):
    if isinstance(a, Base): return a
    if isinstance(a, Const): return Const(subst_val(a.v, name, q), a.kind)
    if isinstance(a, Store): return Store(arr_subst(a.prev, name, q), psubst(a.i, name, q), subst_val(a.v, name, q))
    if isinstance(a, Copy): return Copy(arr_subst(a.prev, name, q), psubst(a.lo, name, q), psubst(a.n, name, q), arr_subst(a.src, name, q), psubst(a.slo, name, q))
    if isinstance(a, Fill): return Fill(arr_subst(a.prev, name, q), psubst(a.lo, name, q), psubst(a.n, name, q), subst_val(a.v, name, q))
    if isinstance(a, IteArr): return IteArr(tsubst(a.c, name, q), arr_subst(a.a, name, q), arr_subst(a.b, name, q))
    if isinstance(a, MapArr): return MapArr(arr_subst(a.prev, name, q), psubst(a.lo, name, q), a.s, psubst(a.cnt, name, q), a.natom, a.body, a.kind)
    return a

def get(s, key):
    v = s.mem[key]
    return v.off if isinstance(v, Ptr) else v

def setcell(s, key, v):
    o = s.mem[key]
    s.mem[key] = Ptr(o.oid, o.path, v) if isinstance(o, Ptr) else v

def kind_of(E, s, key):
    v = s.mem[key]
    if isinstance(v, Ptr): return 'p'
    if isinstance(v, Poly): return 'i'
    if isinstance(v, (Fn, Undef, ArrRef)): return 'x'
    if isinstance(v, Arr): return 'a'
    if z3.is_bool(v): return 'b'
    return 'f'

def is_taint(v):
    if isinstance(v, Base): return v.name.startswith('taint')
    if isinstance(v, Poly): return len(v.t) == 1 and all(len(m) == 1 and m[0].startswith('taint') for m in v.t)
    if isinstance(v, (Ptr, Fn, Undef, ArrRef, Arr)) or v is None: return False
    return z3.is_app(v) and v.num_args() == 0 and v.decl().name().startswith('taint')

class Mode:
    def __init__(self, ref): self.ref = ref; self.entries = []; self.cands = None; self.head = None; self.headvals = {}

def cell_type(E, s, key):
    o = s.objs.get(key[0])
    return E.subtype(o['type'], key[1])

def cell_name(E, key): return X.desc_obj(E.obinfo[key[0]].name, key[1])

def snapshot(E):
    return (len(E.obs), len(E.static_writes), dict(E.trace_assumed), E.checking)
def restore(E, s):
    del E.obs[s[0]:]; del E.static_writes[s[1]:]; E.trace_assumed = s[2]; E.checking = s[3]

def handle(E, F_, h, sts):
    last = F_.heads[h]
    sts = E.merge_group(sts) if len(sts) > 1 else sts
    exits = []; rest = []
    for s in sts:
        if not s.pc or E.checking is False or solve.feasible(s.allpc()):
            u = try_unroll(E, F_, h, last, s)
            if u is None: rest.append(s)
            else: exits += u
    if rest:
        try:
            E.loop_depth = getattr(E, 'loop_depth', 0) + 1
            exits += Inferrer(E, F_, h, last, rest).run()
        finally: E.loop_depth -= 1
    return merge_exits(E, exits)

def merge_exits(E, exits):
    by = {}
    for l, s in exits: by.setdefault(l, []).append(s)
    out = []
    for l, ss in by.items():
        if len(ss) > getattr(E, 'merge_exits_over', 2): ss = E.merge_group(ss)
        out += [(l, s) for s in ss]
    return out

def try_unroll(E, F_, h, last, s):
    key = (tuple(E.fn_stack), F_.name, h)
    if E.nounroll.get(key): return None
    nonconst = []
    sn = snapshot(E); E.checking = False
    light = E.light; E.light = True
    try:
        E.run_region(F_, [(h, s.fork())], h, last, h, nonconst)
    except PathEnd: pass
    finally:
        restore(E, sn); E.light = light
    if nonconst:
        E.nounroll[key] = True
        return None
    exits = []; cur = [s]; sn = snapshot(E); ctr = None
    for it in range(E.max_unroll):
        nxt = []
        for c in cur:
            nonconst = []
            ex, bk = E.run_region(F_, [(h, c.fork())], h, last, h, nonconst)
            if nonconst:
                restore(E, sn); E.nounroll[key] = True; return None
            exits += ex; nxt += bk
        if not nxt: return exits
        if len(nxt) > 4: nxt = E.merge_group(nxt)
        cur = nxt
    restore(E, sn)
    E.nounroll[key] = True
    return None

class Cand:
    __slots__ = ('name', 'f')
    def __init__(self, name, f): self.name = name; self.f = f

class Inferrer:
    def __init__(self, E, F_, h, last, sts):
        self.E = E; self.F_ = F_; self.h = h; self.last = last; self.sts = sts
        self.W = set(); self.modes = {}; self.reps = {}; self.maps = {}
        self.ctx = (tuple(E.fn_stack), F_.name, h)
        self.n = None

    # -- helpers
    def norm(self, s, ref):
        """drop loop-local objects that do not exist at the head"""
        for o in list(s.objs):
            if o not in ref.objs:
                if self.E.obinfo[o].kind in ('local',):
                    del s.objs[o]
                    for k in [k for k in s.mem if k[0] == o]: del s.mem[k]
        return s

    def dry(self, st, log=True):
        E = self.E
        sn = snapshot(E); E.checking = False
        head = st; st = st.fork()
        wl = set() if log else None
        outer = st.wlog
        st.wlog = wl
        mons, E.cmp_log = getattr(E, 'cmp_log', None), []
        try:
            exits, backs = E.run_region(self.F_, [(self.h, st)], self.h, self.last, self.h)
        except PathEnd:
            exits, backs = [], []
        finally:
            restore(E, sn); self.cmps = E.cmp_log; E.cmp_log = mons
        if E.iter_hook is not None and E.loop_depth == 1:
            for x in backs + [x for _, x in exits]: E.iter_hook(self, head, x)
        for x in backs: x.wlog = outer
        for _, x in exits: x.wlog = outer
        if outer is not None and wl: outer |= wl
        return exits, backs, wl

    def shape(self, s): return self.E.shape(s)

    def addmode(self, s, entry):
        k = self.shape(s)
        m = self.modes.get(k)
        if m is None:
            m = self.modes[k] = Mode(s.fork()); m.key = k
        if entry: m.entries.append(s)
        return m

    def fresh_for(self, s, key):
        E = self.E; k = kind_of(E, s, key); nm = 'h_' + cell_name(E, key)
        v = s.mem[key]
        if k == 'x': return v
        if E.light and is_taint(v): return v
        if k == 'p': return Ptr(v.oid, v.path, atom(nm))
        t = cell_type(E, s, key)
        if k == 'a':
            et = E.resolve(t[1]) if t[0] == 'arr' else t
            return Base(nm, v.kind, et)
        if k == 'i':
            lo, hi = int_range(t) if t[0] in ('int', 'bool') else (None, None)
            return ranged_atom(nm, lo, hi)
        if k == 'b': return hold(z3.Bool(fresh_name(nm)))
        if isinstance(v, Poly): return ranged_atom(nm, *int_range(t))
        return E.fresh(t, nm)

    def build_head(self, m, cands=True):
        E = self.E
        st = m.ref.fork(); st.pc = list(self.commonpc); st.guards = []
        for key in sorted(self.W, key=str):
            if key not in st.mem: continue
            rep = self.reps.get(key)
            if rep is None:
                v = self.fresh_for(m.ref, key)
                st.mem[key] = v
            elif rep[0] == 'lin':
                setcell(st, key, padd(rep[1], pmul(rep[2], self.n)))
            elif rep[0] == 'mul':
                q = atom('q_' + cell_name(E, key))
                setcell(st, key, pmul(rep[1], q))
            elif rep[0] == 'map':
                st.mem[key] = MapArr(rep[1], rep[2], rep[3], self.n, self.nname, rep[4], rep[1].kind)
            elif rep[0] == 'poly':
                setcell(st, key, rep[1])
            if rep is not None and rep[0] in ('lin', 'mul') and kind_of(E, st, key) == 'i':
                t = cell_type(E, st, key)
                if t[0] == 'int':
                    lo, hi = int_range(t); v = get(st, key)
                    st.assume(And(cmp('>=', v, P(lo)), cmp('<=', v, P(hi))))
        m.head = st
        m.headvals = {k: st.mem[k] for k in self.W if k in st.mem}
        if cands and m.cands is not None:
            for c in m.cands:
                f = c.f(st)
                if f is not None: st.assume(f)
        return st

    # -- main
    def run(self):
        E = self.E
        pcs = [s.pc for s in self.sts]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n].eq(pcs[0][n]) for p in pcs[1:]): n += 1
        self.commonpc = pcs[0][:n] if len(self.sts) > 1 else list(self.sts[0].pc)
        if len(self.sts) == 1: self.commonpc += self.sts[0].guards
        if len(self.sts) > 1: self.commonpc = self.commonpc + [hold(Or(*[And(*(p[n:] + s.guards)) for p, s in zip(pcs, self.sts)]))]
        for s in self.sts: self.addmode(s, True)
        # phase A: written cells, modes, materialised statics
        light = E.light; E.light = True
        for rnd in range(30):
            changed = False
            for m in list(self.modes.values()):
                st = self.build_head(m, False)
                ex, bk, wl = self.dry(st)
                for s in [x for x in bk] + [x for _, x in ex]:
                    for o in s.objs:
                        if o not in m.ref.objs and E.obinfo[o].kind in ('static', 'const'):
                            self.materialise(s, o); changed = True
                w = {k for k in wl if k[0] in m.ref.objs and k in m.ref.mem}
                if not w <= self.W: self.W |= w; changed = True
                if changed: break
                for s in bk:
                    self.norm(s, m.ref)
                    k = self.shape(s)
                    if k not in self.modes:
                        if len(self.modes) > 12: raise Unsupported('too many pointer shapes in loop')
                        r = s.fork(); r.pc = list(self.commonpc)
                        self.addmode(r, False); changed = True
            if not changed: break
        else: raise Unsupported('loop write set does not stabilise')
        E.light = light
        if E.light:
            # only effects matter: havoc W and leave
            exits = []
            for m in self.modes.values():
                ex, _, wl = self.dry(self.build_head(m, False))
                exits += self.finish(ex)
            return exits
        # clear nested caches
        for k in [k for k in E.loopcache if len(k[0]) >= len(self.ctx[0]) and k[0][:len(self.ctx[0])] == self.ctx[0] and k != self.ctx and (k[0] != self.ctx[0] or self.h < k[2] <= self.last)]:
            del E.loopcache[k]
        self.find_reps()
        self.gen_cands()
        self.houdini()
        for k in [k for k in E.loopcache if k != self.ctx and k[0][:len(self.ctx[0])] == self.ctx[0] and (k[0] != self.ctx[0] or self.h < k[2] <= self.last)]:
            pass
        return self.final()

    def materialise(self, s, o):
        for m in self.modes.values():
            for e in [m.ref] + m.entries:
                if o not in e.objs:
                    e.objs[o] = s.objs[o]
                    for k in s.mem:
                        if k[0] == o:
                            tmp = None
                            e.mem[k] = s.mem[k]
        # values as initialised: recompute through a pristine state
        E = self.E
        name = E.obinfo[o].name
        if E.obinfo[o].kind == 'static':
            p = St(); E.static(p, name)
            for m in self.modes.values():
                for e in [m.ref] + m.entries:
                    for k, v in p.mem.items():
                        if k[0] == o: e.mem[k] = v
        old = dict(self.modes); self.modes = {}
        for m in old.values():
            k = self.shape(m.ref); m.key = k; self.modes[k] = m

    def entry_value(self, key):
        vs = []
        for m in self.modes.values():
            for e in m.entries:
                if key not in e.mem: return None
                vs.append(get(e, key))
        if not vs: return None
        if isinstance(vs[0], Poly):
            return vs[0] if all(isinstance(v, Poly) and v == vs[0] for v in vs) else None
        return None

    def invariant_poly(self, p):
        """p mentions no value that changes in the loop"""
        hav = self.hav
        for a in p.atoms():
            if a in hav: return False
            if a not in self.preatoms: return False
        return True

    def find_reps(self):
        E = self.E
        self.preatoms = set(ATOM)
        self.ctr0 = next(T._ctr)
        nat = atom('n'); self.n = nat; (self.nname,) = nat.atoms()
        ATOMFACT[self.nname].append(hold(nat.z() >= 0))
        banned = set()
        # declared shapes (kept only if they hold on entry and are preserved)
        for key in sorted(self.W, key=str):
            if key in getattr(E, 'mul_hint', ()):
                x0s = [get(e, key) for mm in self.modes.values() for e in mm.entries if key in e.mem]
                for a in self.scale_atoms():
                    A = Poly({(a,): 1}) if isinstance(a, str) else P(a)
                    if x0s and all(isinstance(x, Poly) and pdiv_exact(x, A) is not None for x in x0s): self.reps[key] = ('mul', A, a); break
        for attempt in range(8):
            hv = {}; backs = []
            self.hav = {self.nname}
            for m in self.modes.values():
                # declared invariants may be used to find the shape of updates: final() checks
                # the shapes again under the invariants that survive
                if m.cands is None and E.hints:
                    m.cands = [Cand(a, b) for hint in E.hints for a, b in hint(E, self, m, m.ref)]
                    for e in m.entries: m.cands = self.check_all(e.allpc(), m.cands, e)
                st = self.build_head(m, True)
                for k in self.W:
                    if k in st.mem:
                        v = get(st, k)
                        if isinstance(v, Poly): self.hav |= v.atoms() - self.preatoms
                ex, bk, _ = self.dry(st)
                for b in bk:
                    self.norm(b, m.ref); backs.append((m, st, b))
            bad = False; newreps = {}
            for key in sorted(self.W, key=str):
                if (key, 'all') in banned: continue
                rep = self.reps.get(key)
                ks = {kind_of(E, s, key) for _, s, _ in backs if key in s.mem}
                if not ks <= {'i', 'p'}:
                    continue
                pairs = [(get(s, key), get(b, key)) for _, s, b in backs if key in s.mem and key in b.mem]
                if not pairs: continue
                if any(not isinstance(x, Poly) or not isinstance(y, Poly) for x, y in pairs): continue
                if rep is None:
                    x0 = self.entry_value(key)
                    d = psub(pairs[0][1], pairs[0][0])
                    if x0 is not None and (key, 'lin') not in banned and all(psub(y, x) == d for x, y in pairs) and self.invariant_poly(d):
                        newreps[key] = ('lin', x0, d); continue
                    for a in self.scale_atoms():
                        A = Poly({(a,): 1}) if isinstance(a, str) else P(a)
                        if (key, 'mul', a) in banned: continue
                        x0s = [get(e, key) for mm in self.modes.values() for e in mm.entries if key in e.mem]
                        if all(isinstance(x, Poly) and pdiv_exact(x, A) is not None for x in x0s) and all(pdiv_exact(psub(y, x), A) is not None or pdiv_exact(y, A) is not None for x, y in pairs):
                            newreps[key] = ('mul', A, a); break
                elif rep[0] == 'lin':
                    if any(psub(y, x) != rep[2] for x, y in pairs):
                        bad = True; banned.add((key, 'lin')); del self.reps[key]
                elif rep[0] == 'mul':
                    if any(pdiv_exact(y, rep[1]) is None for x, y in pairs):
                        bad = True; banned.add((key, 'mul', rep[2])); del self.reps[key]
            # arrays written at one moving index
            if not newreps and not bad:
                for key in sorted(self.W, key=str):
                    if key in self.reps:
                        if self.reps[key][0] == 'map' and not self.map_ok(key, backs):
                            bad = True; banned.add((key, 'map')); del self.reps[key]
                        continue
                    if (key, 'map') in banned: continue
                    r = self.find_map(key, backs)
                    if r is not None: newreps[key] = r
            if newreps: self.reps.update(newreps); continue
            if not bad: break
        else:
            raise Unsupported('loop representation does not stabilise')
        if not any(r[0] in ('lin', 'map') for r in self.reps.values()):
            pass

    def scale_atoms(self): return list(self.E.scale) + list(getattr(self.E, 'scale_const', []))

    def find_map(self, key, backs):
        E = self.E
        bs = [(s, b) for _, s, b in backs if key in s.mem and key in b.mem]
        if not bs or not all(isinstance(s.mem[key], Base) for s, _ in bs): return None
        ents = [e.mem[key] for m in self.modes.values() for e in m.entries if key in e.mem]
        if not ents or any(x is not ents[0] for x in ents[1:]): return None
        res = None
        for s, b in bs:
            H = s.mem[key]; v = b.mem[key]
            if not isinstance(v, Store) or v.prev is not H: return None
            idx = v.i
            c = idx.t.get((self.nname,), 0)
            if c not in (1, -1): return None
            lo = psub(idx, pscale(self.n, c))
            if not self.invariant_poly(lo): return None
            body = v.v
            # reads of the array itself at the written index see the old contents
            if isinstance(body, Poly):
                if not all(self.atom_inv(a, H) for a in body.atoms()): return None
            else:
                if mentions_uf(body, H.name):
                    hs = hold(H.uf(idx.z()))
                    old = ents[0].sel(idx)
                    body = commnorm(hold(z3.substitute(body, (hs, old))))
                    if mentions_uf(body, H.name): return None
                if not self.term_inv(body): return None
            r = (lo, c, body)
            if res is not None and not (res[0] == lo and res[1] == c and same(res[2], body)): return None
            res = r
        return ('map', ents[0], res[0], res[1], res[2])

    def map_ok(self, key, backs):
        r = self.reps[key]
        for _, s, b in backs:
            if key not in s.mem: continue
            H = s.mem[key]; v = b.mem[key]
            if not isinstance(v, Store) or v.prev is not H: return False
            if not (v.i == padd(r[2], pscale(self.n, r[3]))): return False
            if not same(v.v, r[4]): return False
        return True

    def atom_inv(self, a, H=None):
        if a == self.nname: return True
        if a in self.hav: return False
        if a in T.TERM_OF_ATOM: return self.term_inv(T.TERM_OF_ATOM[a])
        if a in X.ITE_DEF and a not in self.preatoms:
            c, x, y = X.ITE_DEF[a]
            return self.term_inv(c) and all(self.atom_inv(v) for v in x.atoms() | y.atoms())
        if a in X.WRAP_DEF and a not in self.preatoms: return all(self.atom_inv(v) for v in X.WRAP_DEF[a][0].atoms())
        return a in self.preatoms

    def newname(self, v):
        """was this variable created after the loop was entered"""
        b = v.rsplit('!', 1)
        return len(b) == 2 and b[1].isdigit() and int(b[1]) >= self.ctr0

    def term_inv(self, t):
        for v in term_vars(t):
            if v in MONO_INV:
                if not all(self.atom_inv(a) for a in MONO_INV[v]): return False
            elif v in ATOM:
                if not self.atom_inv(v): return False
            elif v in self.headf() or self.newname(v): return False
        for u in uf_names(t):
            if u in self.headuf() or self.newname(u): return False
        return True
    def headf(self):
        out = set()
        for m in self.modes.values():
            for k, v in m.headvals.items():
                if not isinstance(v, (Poly, Ptr, Fn, Undef, ArrRef, Arr)) and z3.is_app(v) and v.num_args() == 0: out.add(v.decl().name())
        return out
    def headuf(self):
        return {v.name for m in self.modes.values() for v in m.headvals.values() if isinstance(v, Base)}

    # -- candidates
    def dead_cells(self, st):
        """written local scalars whose value at the head no later code reads: no invariant about
        them is worth looking for (a heuristic, it can only lose invariants)"""
        E = self.E; exposed = set(); sn = None
        wl = [None]
        def rm(E_, s, oid, path, off):
            if s.wlog is None or (oid, path) not in s.wlog: exposed.add((oid, path))
        E.read_monitors.append(rm)
        try: self.dry(st)
        finally: E.read_monitors.remove(rm)
        ins = self.F_.instrs; fn = X.canon(self.F_.name)
        def succ(n):
            i = ins[n]
            if i.kind == 'GOTO': yield i.target
            if not (i.kind == 'GOTO' and i.guard is not None and i.guard[0] == 'const') and i.kind != 'END_FUNCTION': yield n + 1
        def reads(i, nm):
            acc = set()
            if i.kind in ('DECL', 'DEAD'): return False
            for e in (i.guard, i.rhs, i.fn) + tuple(i.args or ()): syms(e, acc)
            if i.lhs is not None and i.lhs[0] != 'sym': syms(i.lhs, acc)
            return nm in acc
        def live(nm):
            todo = [m for n in range(self.h, self.last + 1) for m in succ(n) if not self.h <= m <= self.last]; seen = set()
            while todo:
                n = todo.pop()
                if n in seen or n >= len(ins): continue
                seen.add(n); i = ins[n]
                if reads(i, nm): return True
                if i.lhs is not None and i.lhs[0] == 'sym' and i.lhs[2] == nm: continue
                todo += list(succ(n))
            return False
        return {k for k in self.W if E.obinfo[k[0]].kind == 'local' and k[1] == () and k not in exposed
                and E.obinfo[k[0]].name.split('::')[0] == fn and not live(E.obinfo[k[0]].name)}

    def gen_cands(self):
        E = self.E
        dead = None
        for m in self.modes.values():
            st = self.build_head(m, bool(m.cands))
            ents = m.entries or [m.ref]
            cs = []
            seen = set()
            def add(name, f):
                if name in seen: return
                seen.add(name); cs.append(Cand(name, f))
            ints = []; fls = []; bls = []
            if dead is None: dead = self.dead_cells(st)
            else: dead &= self.dead_cells(st)
            for k, v in st.mem.items():
                if k in dead or getattr(E, 'ghost_hints_only', False) and isinstance(k, tuple) and E.obinfo[k[0]].kind == 'ghost': continue
                kd = kind_of(E, st, k)
                if kd in ('i', 'p'): ints.append(k)
                elif kd == 'f': fls.append(k)
                elif kd == 'b': bls.append(k)
            wi = [k for k in ints if k in self.W and not (self.reps.get(k, ('',))[0] == 'lin')]
            li = [k for k in ints if k in self.W and self.reps.get(k, ('',))[0] == 'lin']
            wf = [k for k in fls if k in self.W]
            relevant = self.relevant_cells(st)
            nm = lambda k: cell_name(E, k)
            if getattr(E, 'hints_only', False) and E.loop_depth == 1: wi, li, wf, bls = [], [], [], []
            for k in wi + li:
                x0 = self.entry_value(k)
                add('%s >= 0' % nm(k), lambda s, k=k: cmp('>=', get(s, k), P(0)))
                add('%s >= -1' % nm(k), lambda s, k=k: cmp('>=', get(s, k), P(-1)))
                if k in wi:
                    for c in (1, 2):
                        add('%s >= %d' % (nm(k), c), lambda s, k=k, c=c: cmp('>=', get(s, k), P(c)))
                    if x0 is not None:
                        add('%s >= old' % nm(k), lambda s, k=k, x=x0: cmp('>=', get(s, k), x))
                        add('%s <= old' % nm(k), lambda s, k=k, x=x0: cmp('<=', get(s, k), x))
                        add('%s == old' % nm(k), lambda s, k=k, x=x0: cmp('==', get(s, k), x))
            seenp = set()
            for k in wi + li:
                for y in ints:
                    if y == k or y not in relevant and y not in self.W: continue
                    if y in self.W and self.reps.get(k, ('',))[0] == 'lin' and self.reps.get(y, ('',))[0] == 'lin' and self.reps[k][2] == self.reps[y][2]: continue
                    if kind_of(E, st, y) == 'p' or kind_of(E, st, k) == 'p':
                        if kind_of(E, st, y) == 'p' and kind_of(E, st, k) != 'p': continue
                    d = psub(get(st, k), get(st, y))
                    if d.is_const(): continue
                    if d.key() in seenp: continue
                    seenp.add(d.key())
                    add('%s <= %s' % (nm(k), nm(y)), lambda s, k=k, y=y: cmp('<=', get(s, k), get(s, y)))
                    add('%s >= %s' % (nm(k), nm(y)), lambda s, k=k, y=y: cmp('>=', get(s, k), get(s, y)))
                    if self.reps.get(k, ('',))[0] == 'mul':
                        sc = self.reps[k][1]
                        add('%s <= %s + 257 frames' % (nm(k), nm(y)), lambda s, k=k, y=y, sc=sc: cmp('<=', get(s, k), padd(get(s, y), pscale(sc, 257))))
                    if k in wi and y in wi:
                        add('%s == %s' % (nm(k), nm(y)), lambda s, k=k, y=y: cmp('==', get(s, k), get(s, y)))
            # harvested comparisons over head values
            for op, a, b in self.cmps_all:
                d = psub(a, b)
                if d.is_const(): continue
                mp = {}
                ok = True
                for at in d.atoms():
                    if at in self.preatoms and at not in self.hav: continue
                    src = self.head_source(m, st, at)
                    if src is None: ok = False; break
                    mp[at] = src
                if not ok or not mp: continue
                for o2 in ('<=', '>=', '<', '>'):
                    add('%s %s 0' % (d, o2), lambda s, d=d, o2=o2, mp=mp: self.ev_harvest(s, d, o2, mp))
            for k in wf:
                add('finite %s' % nm(k), lambda s, k=k: fin(get(s, k)))
                for c in FCONSTS:
                    C = fconst(c)
                    add('%s >= %r' % (nm(k), c), lambda s, k=k, C=C: And(fin(get(s, k)), val(get(s, k)) >= val(C)))
                    add('%s <= %r' % (nm(k), c), lambda s, k=k, C=C: And(fin(get(s, k)), val(get(s, k)) <= val(C)))
                    add('%s < %r' % (nm(k), c), lambda s, k=k, C=C: And(fin(get(s, k)), val(get(s, k)) < val(C)))
                others = [y for y in fls if y != k and (y in relevant or y in self.W)]
                for y in others:
                    add('%s >= %s' % (nm(k), nm(y)), lambda s, k=k, y=y: val(get(s, k)) >= val(get(s, y)))
                    add('%s <= %s' % (nm(k), nm(y)), lambda s, k=k, y=y: val(get(s, k)) <= val(get(s, y)))
                    add('%s == %s' % (nm(k), nm(y)), lambda s, k=k, y=y: get(s, k) == get(s, y))
                fixed = [y for y in others if y not in self.W][:8]
                for y, z in itertools.combinations(fixed, 2):
                    if E.f32cell(y, st) or E.f32cell(z, st): continue
                    add('%s between %s and %s' % (nm(k), nm(y), nm(z)), lambda s, k=k, y=y, z=z: betw(get(s, k), get(s, y), get(s, z)))
                vs = [get(e, k) for e in ents if k in e.mem]
                if vs and all(v.eq(vs[0]) for v in vs):
                    add('%s == old' % nm(k), lambda s, k=k, v=vs[0]: get(s, k) == v)
                    add('%s >= old' % nm(k), lambda s, k=k, v=vs[0]: val(get(s, k)) >= val(v))
            for k in bls:
                if k in self.W:
                    add('%s' % nm(k), lambda s, k=k: get(s, k)); add('not %s' % nm(k), lambda s, k=k: Not(get(s, k)))
            for hint in E.hints:
                for name, f in hint(E, self, m, st): add(name, f)
            cached = E.loopcache.get(self.ctx)
            if cached is not None and len(self.modes) == 1:
                cs = [c for c in cs if c.name in cached]
            m.cands = cs

    def head_source(self, m, st, at):
        """which cell exposes head atom `at` (value == at or scale*at or x0+d*n)"""
        if at == self.nname:
            for k, r in self.reps.items():
                if r[0] == 'lin' and r[2].is_const() and abs(r[2].const) == 1 and k in st.mem: return ('lin', k)
            for k, r in self.reps.items():
                if r[0] == 'lin' and len(r[2].t) == 1 and k in st.mem: return ('lin', k)
            return None
        for k in self.W:
            if k not in st.mem: continue
            v = get(st, k)
            if isinstance(v, Poly) and len(v.t) == 1:
                (mm, c), = v.t.items()
                if mm == (at,) and c == 1: return ('cell', k)
                if at in mm and self.reps.get(k, ('',))[0] == 'mul': return ('mul', k)
        return None

    def ev_harvest(self, s, d, op, mp):
        p = self.ev_poly(s, d, mp)
        return FALSE if p is None else cmp(op, p, P(0))

    def relevant_cells(self, st):
        """cells whose value occurs in a comparison made by the loop or is read by it"""
        E = self.E
        reads = set()
        def rm(E_, s, oid, path, off): reads.add((oid, path))
        E.read_monitors.append(rm)
        try: ex, bk, _ = self.dry(st)
        finally: E.read_monitors.remove(rm)
        self.cmps_all = self.cmps
        return reads

    # -- Houdini
    def check_all(self, pc, cands, st):
        """drop candidates not implied at st; returns surviving list"""
        E = self.E
        al = []
        for c in cands:
            f = c.f(st)
            if isT(f) or f is None: continue
            if isF(f): continue
            al.append((c, f))
        keep = [c for c in cands if (lambda f: f is None or not isF(f))(c.f(st))]
        dead = set(); ms = getattr(E, 'inv_ms', 8000 if getattr(E, 'hints_only', False) else 2000); c5 = ms >= 2000
        def filt(live):
            live = [(c, f) for c, f in live if id(c) not in dead]
            while live:
                r, mdl = solve.check(pc, And(*[f for _, f in live]), timeout=max(ms, getattr(E, 'inv_ms', 3000)) if len(live) > 1 else ms, deep=True, model=True, cvc5=c5 and len(live) < 9)
                if r == 'proved': return
                drop = []
                if r == 'failed' and mdl is not None:
                    drop = [c for c, f in live if not z3.is_true(mdl.eval(f, model_completion=True))]
                if not drop:
                    if len(live) == 1: dead.add(id(live[0][0])); return
                    # undecided together: by halves
                    h = len(live) // 2
                    filt(live[:h]); filt(live[h:]); return
                dead.update(map(id, drop)); live = [(c, f) for c, f in live if id(c) not in dead]
        filt(al)
        return [c for c in keep if id(c) not in dead]

    def houdini(self):
        E = self.E
        for m in self.modes.values():
            for e in m.entries:
                m.cands = self.check_all(e.allpc(), m.cands, e)
            if not m.entries: pass
        for rnd in range(25):
            changed = False
            for m in list(self.modes.values()):
                st = self.build_head(m, True)
                ex, bk, _ = self.dry(st)
                for b in bk:
                    self.norm(b, m.ref)
                    tgt = self.modes.get(self.shape(b))
                    if tgt is None: raise Unsupported('new pointer shape in loop')
                    nc = self.check_all(b.allpc(), tgt.cands, b)
                    if len(nc) < len(tgt.cands):
                        tgt.cands = nc; changed = True
                        if tgt is m: break_now = True
            if not changed: break
        else: raise Unsupported('invariant inference does not converge')
        if len(self.modes) == 1:
            for m in self.modes.values(): E.loopcache[self.ctx] = {c.name for c in m.cands}

    def final(self):
        E = self.E
        exits = []; pairs = []; leaves = []
        for m in self.modes.values():
            st = self.build_head(m, True)
            outer = self.sts[0].wlog
            h0 = st.fork()
            wl = st.wlog = set()
            mons = getattr(E, 'cmp_log', None); E.cmp_log = []
            try: ex, bk = E.run_region(self.F_, [(self.h, st)], self.h, self.last, self.h)
            except PathEnd: ex, bk = [], []
            self.cmps = E.cmp_log; E.cmp_log = mons
            if mons is not None: mons += self.cmps
            if E.iter_hook is not None and E.loop_depth == 1:
                for x in bk + [x for _, x in ex]: E.iter_hook(self, h0, x)
            leaves += [(m, h0, x) for _, x in ex]
            if not {k for k in wl if k in m.ref.mem} <= self.W: raise Unsupported('loop writes more than its frame')
            for x in bk: x.wlog = outer
            for _, x in ex: x.wlog = outer
            if outer is not None: outer |= wl | self.W
            for b in bk:
                self.norm(b, m.ref)
                tgt = self.modes.get(self.shape(b))
                if tgt is None: raise Unsupported('new pointer shape in loop')
                for key, rep in self.reps.items():
                    if key not in b.mem: continue
                    ok = True
                    if rep[0] == 'lin': ok = psub(get(b, key), get(h0, key)) == rep[2]
                    elif rep[0] == 'mul': ok = pdiv_exact(get(b, key), rep[1]) is not None
                    elif rep[0] == 'map': ok = self.map_ok(key, [(m, h0, b)])
                    if not ok: raise Unsupported('loop representation broken in final pass')
                pairs.append((m, h0, b))
                if E.checking:
                    for c in tgt.cands:
                        E.obs.append(Ob('inv', E.fname(), '%s:%s' % (self.F_.instrs[self.h].file, self.F_.instrs[self.h].line), c.name, 'proved', isT(c.f(b))))
            exits += ex
        if E.checking:
            m0 = next(iter(self.modes.values()))
            E.loop_log.append(dict(function=E.fname(), line=self.F_.instrs[self.h].line, written=sorted(cell_name(E, k) for k in self.W),
                                   reps={cell_name(E, k): r[0] for k, r in self.reps.items()}, invariants=[c.name for c in m0.cands], modes=len(self.modes)))
            if E.want_termination: self.termination(pairs)
        if E.loop_hook is not None and E.loop_depth == 1: E.loop_hook(self, pairs, leaves)
        return self.finish(exits)

    def termination(self, pairs):
        E = self.E
        w = '%s:%s' % (self.F_.instrs[self.h].file, self.F_.instrs[self.h].line)
        if not pairs:
            E.obs.append(Ob('term', E.fname(), w, 'loop terminates (no back edge reachable)', 'proved', False)); return
        m0, st, _ = pairs[0]
        meas = []
        ints = [k for k, v in st.mem.items() if kind_of(E, st, k) in ('i', 'p')]
        for op, a, b in self.cmps:
            d = psub(a, b); mp = {}; ok = True
            for at in d.atoms():
                if at in self.preatoms and at not in self.hav: continue
                src = self.head_source(m0, st, at)
                if src is None: ok = False; break
                mp[at] = src
            if ok and mp:
                for sg in (1, -1):
                    meas.append((str(pscale(d, sg)), lambda s, d=pscale(d, sg), mp=mp: self.ev_poly(s, d, mp)))
        for k in ints:
            if k in self.W:
                meas.append((cell_name(E, k), lambda s, k=k: get(s, k)))
        for k in ints:
            for y in ints:
                if k != y and (k in self.W or y in self.W) and len(meas) < 120:
                    meas.append((cell_name(E, k) + '-' + cell_name(E, y), lambda s, k=k, y=y: psub(get(s, k), get(s, y))))
        seen = set()
        for name, f in meas:
            ok = True
            for m, h, b in pairs:
                try: a, c = f(h), f(b)
                except Exception: ok = False; break
                if a is None or c is None or not isinstance(a, Poly): ok = False; break
                d = psub(a, c)
                if d.is_const() and d.const < 1: ok = False; break
                g = And(cmp('>=', a, P(0)), cmp('>=', d, P(1)))
                if solve.check(b.allpc(), g, 2500) != 'proved': ok = False; break
            if ok:
                E.obs.append(Ob('term', E.fname(), w, 'loop terminates: measure %s' % name, 'proved', False)); return
        E.obs.append(Ob('term', E.fname(), w, 'loop terminates', 'failed', False))

    def ev_poly(self, s, d, mp):
        tmp = {}
        for at, src in mp.items():
            v = get(s, src[1])
            if src[0] == 'cell': q = v
            elif src[0] == 'mul': q = pdiv_exact(v, self.reps[src[1]][1])
            else:
                r = self.reps[src[1]]; q = pdiv_exact(psub(v, r[1]), r[2])
            if q is None: return None
            d = psubst(d, at, Poly({('%%' + at,): 1})); tmp['%%' + at] = q
        for nme, q in tmp.items(): d = psubst(d, nme, q)
        return d

    def finish(self, exits):
        """solve exit equations for the iteration counter"""
        E = self.E
        out = []
        for l, s in exits:
            for o in list(s.objs):
                pass
            if self.n is not None and not E.light:
                s = self.solve_n(s)
            out.append((l, s))
        return out

    def solve_n(self, s):
        E = self.E; n = self.nname
        tried = set()
        for op, a, b in reversed(self.cmps[-40:] if self.cmps else []):
            d = psub(a, b)
            c = None; rest = {}
            for mm, k in d.t.items():
                if n in mm:
                    if c is not None or mm.count(n) > 1: c = False; break
                    c = (mm, k)
                else: rest[mm] = k
            if not c: continue
            mm, k = c
            coef = list(mm); coef.remove(n)
            sol = pdiv_exact(pscale(Poly(rest), -1), Poly({tuple(coef): k}))
            cands = []
            if sol is not None: cands = [sol, padd(sol, P(1)), padd(sol, P(-1))]
            for q in cands:
                if q.key() in tried or any(x in self.hav for x in q.atoms()) or not all(x in self.preatoms for x in q.atoms()): continue
                tried.add(q.key())
                if solve.check(s.allpc(), cmp('==', self.n, q), 1500, deep=False) == 'proved':
                    return subst_state(s, n, q)
        return s

def syms(e, acc):
    if isinstance(e, tuple):
        if e and e[0] == 'sym': acc.add(e[2]); return
        for x in e: syms(x, acc)
    elif isinstance(e, list):
        for x in e: syms(x, acc)

def subst_state(s, n, q):
    s = s.fork()
    s.assume(cmp('==', Poly({(n,): 1}), q))
    for k, v in list(s.mem.items()):
        if isinstance(v, Poly): s.mem[k] = subst_val(v, n, q)
        elif isinstance(v, Ptr): s.mem[k] = Ptr(v.oid, v.path, psubst(v.off, n, q))
        elif isinstance(v, Arr): s.mem[k] = arr_subst(v, n, q)
        elif isinstance(v, (Fn, Undef, ArrRef)) or v is None: pass
        elif z3.is_expr(v): s.mem[k] = tsubst(v, n, q)
    return s

def same(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly): return isinstance(a, Poly) and isinstance(b, Poly) and a == b
    return a.eq(b) or commnorm(a).eq(commnorm(b))

_cn = {}
def commnorm(t):
    """the same term with the operands of commutative operations in the order fop uses"""
    k = t.get_id()
    if k in _cn: return _cn[k]
    r = t
    if z3.is_app(t) and t.num_args():
        hold(t)
        n = [commnorm(t.arg(i)) for i in range(t.num_args())]
        if t.decl() in (T.FADD, T.FMUL, T.FADD32, T.FMUL32) and n[0].get_id() > n[1].get_id(): n.reverse()
        if any(x.get_id() != t.arg(i).get_id() for i, x in enumerate(n)): r = hold(t.decl()(*n))
    _cn[k] = r
    return r

def uf_names(t):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            for j in range(x.num_args()): st.append(x.arg(j))
    return out
def mentions_uf(t, name): return name in uf_names(t)

def betw(x, y, z):
    vx, vy, vz = val(x), val(y), val(z)
    return Or(And(hold(vy <= vx), hold(vx <= vz)), And(hold(vz <= vx), hold(vx <= vy)))
