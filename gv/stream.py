"""Value, position and ratio contracts of the zero-order-hold and linear converters
(C14 C15 C20 C21, exact writes of C03).

Ghost state: wcur = samples written so far by this call (advanced by a write monitor; every
write must go to out[wcur]); (gI, gx) = read position at the last loop boundary; gr = ratio
of the last frame.  One iteration of an outermost loop generates one frame or none; the
frame rule is checked on every path through the body from an arbitrary iteration:
   out[wcur+c] is the specified function of the input at the position (I, x) held at the head,
   (I, x) moves by exactly fl(1/r) (up to the rounding of the sum), and
   r is the ratio specified for frame wcur/channels.
(I, x) are found among the cells of the loop; nothing depends on how they are named unless
several fit."""
from .run import *
from .run import unit
from . import units as UN
from .loops import get, kind_of, cell_name
from .api import VALID

GT = 'tag-gv_ghost'
TOL = RV(Fraction(1, 2**43)); TOLN = RV(Fraction(1, 2**44))

def ghost(w, s):
    E = w.E
    E.prog.structs[GT] = [('wcur', ('int', 64, True)), ('gI', ('int', 64, True)), ('gx', ('float', 64)), ('gr', ('float', 64))]
    w.go = E.new_obj(s, 'ghost', 'ghost', ('struct', GT), P(1))
    s.mem[(w.go, ('wcur',))] = P(0); s.mem[(w.go, ('gI',))] = P(0)
    s.mem[(w.go, ('gx',))] = w.cell(s, w.so, 'last_position'); s.mem[(w.go, ('gr',))] = w.cell(s, w.so, 'last_ratio')
    class WM:
        def bump(self, E, st, oid, off, n):
            k = (w.go, ('wcur',))
            if oid != w.oo or k not in st.mem: return
            E.ob(st, 'order', Or(cmp('==', n, P(0)), cmp('==', off, st.mem[k])), 'output samples are written once each, in order, without gaps', assume=False)
            if st.wlog is not None: st.wlog.add(k)
            st.mem[k] = padd(st.mem[k], n)
        def __call__(self, E, st, oid, path, off, v):
            if off is None and oid == w.oo: raise Unsupported('whole-object write to the output')
            self.bump(E, st, oid, off, P(1))
        def range_write(self, E, st, p, n): self.bump(E, st, p.oid, p.off, n)
    E.monitors.append(WM())

def g(w, s, n): return s.mem[(w.go, (n,))]
def setg(w, s, n, v):
    s.mem[(w.go, (n,))] = v
    if s.wlog is not None: s.wlog.add((w.go, (n,)))

def subterms(t, acc, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); acc.append(x)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                for m in T.MONO_INV.get(n, (n,)):
                    if m in X.ITE_DEF:
                        c, a, b = X.ITE_DEF[m]; st += [a.z(), b.z()]
                    if m in T.TERM_OF_ATOM: st.append(T.TERM_OF_ATOM[m])
            for i in range(x.num_args()): st.append(x.arg(i))

def recips(w, h0, b):
    """denominators r of 1/r that entered the floating state of this iteration"""
    out = []; seen = set()
    old = []; so = set()
    for k, v in h0.mem.items():
        if isinstance(k, tuple) and k[0] != w.go and z3.is_expr(v) if not isinstance(v, (Poly, Ptr, Fn, Undef, ArrRef, Arr)) and v is not None else False: subterms(v, old, so)
    acc = []
    for k, v in b.mem.items():
        if not isinstance(k, tuple) or k[0] == w.go or isinstance(v, (Poly, Ptr, Fn, Undef, ArrRef, Arr)) or v is None or not z3.is_expr(v) or v.sort() != F: continue
        if v.get_id() not in so: subterms(v, acc, seen)
    for t in acc:
        if T.is_op(t, T.FDIV) and T.iconst(t.arg(0)) == 1 and t.arg(1).get_id() not in [x.get_id() for x in out]: out.append(t.arg(1))
    return out

# ------------------------------------------------------------------ real semantics of a ratio term
class Rat:
    """rational function over leaf symbols: num/den, dict monomial -> Fraction"""
    def __init__(self, n, d=None): self.n = n; self.d = d if d is not None else {(): Fraction(1)}
def pm(a, b):
    r = {}
    for x, c in a.items():
        for y, e in b.items():
            m = tuple(sorted(x + y)); v = r.get(m, 0) + c * e
            if v: r[m] = v
            else: r.pop(m, None)
    return r
def pa(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def rq(n, d): return Rat(n, d)
def frac_of_poly(p): return {m: Fraction(c) for m, c in p.t.items()}

def realsem(t, depth=30):
    """exact real-number meaning of a floating term (no rounding), as a rational function"""
    if depth == 0: raise Unsupported('ratio expression too deep')
    c = T.iconst(t)
    if c is not None: return Rat({(): c} if c else {})
    if T.is_op(t, T.I2D):
        p = T.I2D_POLY.get(t.get_id())
        if p is None: raise Unsupported('integer operand of the ratio')
        return Rat(frac_of_poly(p))
    if z3.is_app(t):
        d = t.decl(); k = [(f, o) for f, o in ((T.FADD, '+'), (T.FSUB, '-'), (T.FMUL, '*'), (T.FDIV, '/')) if d.eq(f)]
        if k:
            a, b = realsem(t.arg(0), depth - 1), realsem(t.arg(1), depth - 1); o = k[0][1]
            if o in '+-': return Rat(pa(pm(a.n, b.d), pm(b.n, a.d), 1 if o == '+' else -1), pm(a.d, b.d))
            if o == '*': return Rat(pm(a.n, b.n), pm(a.d, b.d))
            return Rat(pm(a.n, b.d), pm(a.d, b.n))
        if d.eq(T.FNEG):
            a = realsem(t.arg(0), depth - 1); return Rat({m: -c for m, c in a.n.items()}, a.d)
    return Rat({(('f%d' % t.get_id()),): Fraction(1)})
def rat_eq(a, b): return pm(a.n, b.d) == pm(b.n, a.d)
def leafr(t): return Rat({('f%d' % t.get_id(),): Fraction(1)})
def nops(t):
    if T.iconst(t) is not None or not z3.is_app(t): return 0
    if any(t.decl().eq(f) for f in (T.FADD, T.FSUB, T.FMUL, T.FDIV)): return 1 + nops(t.arg(0)) + nops(t.arg(1))
    return 0

def cases(t, guard=TRUE):
    if is_ite(t): return cases(t.arg(1), And(guard, t.arg(0))) + cases(t.arg(2), And(guard, Not(t.arg(0))))
    return [(guard, t)]

def ratio_cond(w, b, r, k, n):
    """[(condition, description)] : r is the ratio specified for sample offset k of n (both in
    samples), between the ratios `last` (held at entry) and `target`.
    Ramp terms are compared with last + k*(target-last)/n as rational functions over the reals;
    the floating evaluation then differs from the exact value by the rounding of its (at most 8)
    operations (standard model of floating-point arithmetic)."""
    last, tgt = w.last0, w.tgt
    out = []
    unchanged = hold(val(last) == val(tgt))
    L, Tt = leafr(last), leafr(tgt)
    K = Rat(frac_of_poly(k)); N = Rat(frac_of_poly(n))
    spec = Rat(pa(pm(pm(L.n, N.n), {(): Fraction(1)}), pm(K.n, pa(Tt.n, L.n, -1))), N.n)
    for gd, t in cases(r):
        try: m = realsem(t)
        except Unsupported: m = None
        if m is not None and not t.eq(last) and rat_eq(m, spec) and nops(t) <= 8:
            out.append((TRUE, 'ramp'))      # for an unchanged ratio the ramp term is the ratio itself (target-last = 0)
        else:
            out.append((Implies(And(gd, w.changed, cmp('!=', k, P(0))), FALSE), 'ratio of the frame is previous + k*(target-previous)/n'))
            out.append((Implies(gd, hold(val(t) == val(last))), 'unchanged ratio is used as it is'))
    return out

def iter_hook(w):
    def h(inf, h0, b):
        kw = (w.go, ('wcur',))
        if kw not in b.mem or kw not in h0.mem: return
        if b.mem[kw] == h0.mem[kw]: return
        rs = recips(w, h0, b)
        if rs: setg(w, b, 'gr', rs[0])
        else: setg(w, b, 'gr', hold(z3.Const(fresh_name('gr_unknown'), F)))
    return h

def frames(w, p):
    """p / channels, as an integer polynomial (None when p is not visibly whole frames)"""
    if w.ch == P(1): return p
    return pdiv_exact(p, w.ch)

def xcells(w, inf, st):
    E = w.E; out = []
    for k, v in st.mem.items():
        if k in inf.W and isinstance(k, tuple) and k[0] != w.go and kind_of(E, st, k) == 'f' and not E.f32cell(k, st): out.append(k)
    return out
def icells(w, inf, st):
    E = w.E; out = []
    for k, v in st.mem.items():
        if not isinstance(k, tuple) or k[0] in (w.go, w.do): continue
        if k in inf.W and kind_of(E, st, k) == 'i' and frames(w, get(st, k)) is not None: out.append(k)
    return out + [None]      # None: no whole frames consumed yet

PREF_X = ('input_index', 'pos', 'frac', 'phase'); PREF_I = ('in_used', 'used')

def value_spec(w, s, I, x, c):
    """specified sample of channel c at position (I samples, x)"""
    inp = w.in0
    L = X.ite(cmp('==', I, P(0)), w.speclast(c), inp.sel(padd(psub(I, w.ch), c)), 'F')
    if w.conv == 3: return L
    R = inp.sel(padd(I, c))
    d = fop('sub', R, L); m = fop('mul', x, d); a = fop('add', L, m)
    # addition and multiplication commute (terms are ordered arbitrarily)
    for t, f in ((m, T.FMUL), (a, T.FADD)):
        if z3.is_app(t) and t.decl().eq(f): w.comm.append(hold(t == f(t.arg(1), t.arg(0))))
    if not a.eq(T.FADD(L, m)): w.comm.append(hold(a == T.FADD(L, m)))
    return round32(a)

def loop_hook(w, c, kinds):
    want = lambda k: kinds is None or k in kinds
    def h(inf, pairs, leaves):
        E = w.E
        if not E.checking: return
        F_ = inf.F_
        where = '%s:%s' % (F_.instrs[inf.h].file, F_.instrs[inf.h].line)
        kw = (w.go, ('wcur',))
        def ob(kind, desc, status): E.obs.append(X.Ob(kind, E.fname(), where, desc, status, False))
        def isframe(h0, b): return not (b.mem[kw] == h0.mem[kw])
        m0 = next(iter(inf.modes.values()))
        st = m0.head
        touched = kw in inf.W or any(z3.is_expr(v) and not isinstance(v, (Poly,)) for v in ())
        iters = [(m, h0, b) for m, h0, b in pairs + leaves if isframe(h0, b)]
        idle = [(m, h0, b) for m, h0, b in pairs if not isframe(h0, b)]
        if not iters: return
        xs, is_ = xcells(w, inf, st), icells(w, inf, st)
        pref = lambda ks, names: sorted(ks, key=lambda k: (next((i for i, n in enumerate(names) if k and n in cell_name(E, k)), 99), str(k)))
        xs, is_ = pref(xs, PREF_X), pref(is_, PREF_I)
        best = None
        for xk in xs:
            for ik in is_:
                r = judge(w, inf, iters, idle, leaves, ik, xk, want, first=best is not None)
                bad = [x for x in r if x[2] != 'proved']
                if best is None or len(bad) < len(best[1]): best = (r, bad, ik, xk)
                if not bad: break
            if best and not best[1]: break
        if best is None:
            ob('pos', 'read position found', 'unknown'); return
        r, bad, ik, xk = best
        named = (ik is None or any(n in cell_name(E, ik) for n in PREF_I)) and any(n in cell_name(E, xk) for n in PREF_X)
        for kind, desc, stt in r: ob(kind, desc, stt if stt == 'proved' or named else 'unknown')
        w.posnotes.append('%s: read position = %s/channels + %s' % (where, cell_name(E, ik) if ik else '0', cell_name(E, xk)))
        for m, h0, b in leaves:
            setg(w, b, 'gI', get(b, ik) if ik else P(0)); setg(w, b, 'gx', b.mem[xk])
    return h

def judge(w, inf, iters, idle, leaves, ik, xk, want, first=False):
    """obligations of the frame rule for the candidate position cells (ik, xk)"""
    E = w.E; out = []
    def dec(kind, desc, pc, goal, t=8000):
        if not want(kind): return True
        r = solve.check(pc, goal, t)
        if r != 'proved' and getattr(E, 'debug', False): print('   judge', ik and cell_name(E, ik), cell_name(E, xk), kind, desc, r, flush=True)
        out.append((kind, desc, r)); return r == 'proved'
    def pos(s): return get(s, ik) if ik else P(0), s.mem[xk]
    # entry: the loop starts where the previous segment stopped
    for m in inf.modes.values():
        for e in m.entries:
            I, x = pos(e); G, gx = g(w, e, 'gI'), g(w, e, 'gx')
            d = frames(w, psub(I, G))
            if d is None: out.append(('pos', 'position at loop entry', 'unknown')); return out
            df = z3.ToReal(d.z()) + val(x) - val(gx)
            if not dec('pos', 'position is carried over exactly to the loop', e.allpc(), And(fin(x), hold(df <= 0), hold(df >= 0))) and first: return out
    for m, h0, b in idle:
        (I, x), (I2, x2) = pos(h0), pos(b)
        d = frames(w, psub(I2, I))
        if d is None: out.append(('pos', 'iteration without a frame keeps the position', 'unknown')); continue
        dec('pos', 'iteration without a frame keeps the position', b.allpc(), hold(z3.ToReal(d.z()) + val(x2) == val(x)))
    for m, h0, b in iters:
        (I, x), (I2, x2) = pos(h0), pos(b)
        k = g(w, h0, 'wcur'); pc = b.allpc()
        dec('order', 'an iteration writes exactly one frame', pc, cmp('==', psub(g(w, b, 'wcur'), k), w.ch))
        d = frames(w, psub(I2, I))
        rs = recips(w, h0, b)
        if not rs: out.append(('pos', 'step is a reciprocal of the ratio', 'unknown')); return out
        r = rs[0]; step = fop('div', fconst(1.0), r)
        if d is None: out.append(('pos', 'position moves by whole frames and a fraction', 'unknown'))
        else:
            df = z3.ToReal(d.z()) + val(x2) - val(x) - val(step)
            if not dec('pos', 'each frame advances the read position by 1/ratio', pc, And(fin(x2), hold(df <= TOL), hold(df >= -TOL))) and first: return out
        if len(rs) > 1: out.append(('ratio', 'one ratio per frame', 'unknown'))
        for cond, desc in ratio_cond(w, b, r, k, w.no): dec('ratio', desc, pc, cond)
        dec('ratio', 'ratio of the frame lies between the previous and the requested one', pc, And(fin(r), loops.betw(r, w.last0, w.tgt)))
        if d is None: continue
        # values
        c = X.ranged_atom('chn', 0, 2**31); pv = pc + [cmp('<', c, w.ch)]
        dec('value', 'read position is within one frame of the current input frame', pc, And(hold(val(x) >= 0), hold(val(x) < 1)))
        w.comm = []; sv = value_spec(w, b, I, x, c)
        dec('value', 'generated sample is the specified one', pv + w.comm, hold(b.mem[(w.oo, ())].sel(padd(k, c)) == sv))
        # independence of the channel count (bit-for-bit): new position and step are functions of x and r alone
        if want('chan'):
            bad = depends(w, [x2, step], {x.get_id()} | {t.get_id() for _, t in cases(r)}, b)
            out.append(('chan', 'position and step do not depend on samples or on the channel count', 'proved' if not bad else 'unknown'))
    return out

def depends(w, terms, stop, b):
    """leaves of the terms that are neither allowed symbols nor constants"""
    bad = []; seen = set(stop); st = list(terms)
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if not z3.is_app(t): continue
        if t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and T.iconst(t) is None and t.sort() == F: bad.append(t)
            elif t.sort() == I and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                for m in T.MONO_INV.get(n, (n,)):
                    if m in T.TERM_OF_ATOM: st.append(T.TERM_OF_ATOM[m])
                    elif m == w.chn: bad.append(t)
                    elif m in X.ITE_DEF: st += [X.ITE_DEF[m][1].z(), X.ITE_DEF[m][2].z()]
                    else: bad.append(t)
            continue
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().split('!')[0] in ('in', 'out', 'last_value'): bad.append(t); continue
        for i in range(t.num_args()): st.append(t.arg(i))
    return bad

def hints(w):
    def h(E, inf, m, st):
        if E.loop_depth != 1: return []
        out = []
        for k, v in st.mem.items():
            if isinstance(k, tuple) and k in inf.W and kind_of(E, st, k) == 'f' and not E.f32cell(k, st):
                out.append(('%s is the previous ratio when the ratio is unchanged or before the first frame' % cell_name(E, k), lambda s, k=k: Implies(Or(Not(w.changed), cmp('==', g(w, s, 'wcur'), P(0))), hold(val(s.mem[k]) == val(w.last0)))))
                out.append(('%s between the previous and the requested ratio' % cell_name(E, k), lambda s, k=k: And(fin(s.mem[k]), loops.betw(s.mem[k], w.last0, w.tgt))))
        return out
    return h

@unit
def stream(c, conv, which='vari_process', variant='full', kinds=''):
    conv = int(conv); ks = UN.kinds_of(kinds)
    w = World(conv, None, kinds=ks)
    s, r = w.generic_handle()
    E = c.use(w.E); E.debug = DEBUG
    s.mem[(w.so, ('mode',))] = P(0)
    d = w.request(s, variant == 'innull', variant == 'outnull')
    UN.zero_counts(w, s); UN.last_ratio_set(w, s)
    fn = UN.target(w, s, which); name = canon(fn.name)
    if which == 'const_process' and fn.name == UN.target(w, s, 'vari_process').name:
        c.fact(name, 'const_process is vari_process', True); return
    w.last0 = w.cell(s, w.so, 'last_ratio'); w.tgt = s.mem[(w.do, ('src_ratio',))]; w.pos0 = w.cell(s, w.so, 'last_position')
    w.changed = hold(val(w.last0) != val(w.tgt))
    # doubles in [1/256, 256] that differ are at least 2^-60 apart
    s.assume(Implies(w.changed, Or(hold(val(w.last0) - val(w.tgt) >= RV(Fraction(1, 2**60))), hold(val(w.tgt) - val(w.last0) >= RV(Fraction(1, 2**60))))))
    w.in0 = s.mem[(w.io, ())]
    if len(w.bufs) != 1: raise Unsupported('the converter does not have exactly one sample buffer')
    lb = next(iter(w.bufs.values())); lastv = s.mem[(lb, ())]; dirty = E.bool(w.cell(s, w.po, 'dirty'))
    w.speclast = lambda i: X.ite(dirty, lastv.sel(i), w.in0.sel(i), 'F')
    w.comm = []; ghost(w, s); w.posnotes = []
    if w.ch != P(1): X.FACTOR.append(w.ch)
    E.iter_hook = iter_hook(w); E.loop_hook = loop_hook(w, c, ks); E.hints.append(hints(w))
    res = E.run_function(s, fn, [r, d])
    E.covered.add(name)
    c.feasible_end([x for x, _ in res], name, 'normal return reachable')
    want = lambda k: ks is None or k in ks
    for s2, rv in res:
        used, gen = s2.mem[(w.do, ('input_frames_used',))], s2.mem[(w.do, ('output_frames_gen',))]
        if want('order'): c.post(s2, name, 'exactly the generated frames were written', cmp('==', g(w, s2, 'wcur'), pmul(gen, w.ch)))
        G = frames(w, g(w, s2, 'gI')); gx = g(w, s2, 'gx'); lp = w.cell(s2, w.so, 'last_position'); lr = w.cell(s2, w.so, 'last_ratio')
        if want('pos'):
            if G is None: print('gI', g(w, s2, 'gI'), [X.ITE_DEF.get(a) for a in g(w, s2, 'gI').atoms()]); raise Unsupported('read position in whole frames')
            df = z3.ToReal(used.z()) + val(lp) - z3.ToReal(G.z()) - val(gx)
            c.post(s2, name, 'position held after the call is the position reached, minus the frames consumed', And(fin(lp), hold(df <= TOLN), hold(df >= -TOLN)))
        if want('prog'): c.post(s2, name, 'a call given input and room makes progress', Or(cmp('<=', w.fi, P(0)), cmp('<=', w.fo, P(0)), cmp('>', used, P(0)), cmp('>', gen, P(0))))
        if want('ratio'): c.post(s2, name, 'ratio held after the call is the ratio of the last frame', hold(lr == g(w, s2, 'gr')))
        if want('value'):
            i = X.ranged_atom('chn', 0, 2**31); pv = s2.fork(); pv.assume(cmp('<', i, w.ch))
            fi0 = cmp('<=', w.fi, P(0))
            carried = X.ite(cmp('==', used, P(0)), X.ite(fi0, lastv.sel(i), w.speclast(i), 'F'), w.in0.sel(padd(psub(pmul(used, w.ch), w.ch), i)), 'F')
            c.post(pv, name, 'frame kept for the next call is the last one consumed', hold(s2.mem[(lb, ())].sel(i) == carried))
            d2 = E.bool(w.cell(s2, w.po, 'dirty'))
            c.post(s2, name, 'the kept frame is marked valid once input was seen', Implies(cmp('>', w.fi, P(0)), d2))
    c.notes += w.posnotes
DEBUG = False
