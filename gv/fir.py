"""Value contract of calc_output_*: the filter sum (C15, C16).

The result for channel c is scale * (L(c) + R(c)) (rounded once to float; calc_output_single
returns L + R), where L and R are the sums, from the far end of the filter to the centre, of
   coeff(f) * buffer[di + c]
over the taps of one side.  A tap at sample offset di has filter position
   left:  f = start + (b_current - di)/channels * increment   >= 0
   right: f = (di - b_current)/channels * increment - start   >  0
coeff(f) is linear interpolation in the table at f/4096.  Every tap of the filter whose sample is
in the window takes part.  The recursive sum is specified by its first value (0), the step of an
arbitrary iteration and the range of taps."""
from .run import *
from .loops import get, kind_of, cell_name

GT = 'tag-gv_fir'
def ghost(w, s):
    E = w.E
    E.prog.structs[GT] = [(n, ('int', 64, True)) for n in ('nL', 'nR')] + [(n, ('float', 64)) for n in ('L', 'R')]
    w.fo_ = E.new_obj(s, 'ghost_fir', 'ghost', ('struct', GT), P(1))
    for n in ('nL', 'nR'): s.mem[(w.fo_, (n,))] = P(0)
    for n in ('L', 'R'): s.mem[(w.fo_, (n,))] = hold(z3.Const(fresh_name('fir_' + n), F))

def splits(polys, guard=TRUE, depth=6):
    """expand conditional atoms: [(guard, polys)]"""
    for p in polys:
        for a in p.atoms():
            if a in X.ITE_DEF and depth:
                c, x, y = X.ITE_DEF[a]
                if not isinstance(x, Poly): continue
                return splits([loops.psubst(q, a, x) for q in polys], And(guard, c), depth - 1) + splits([loops.psubst(q, a, y) for q in polys], And(guard, Not(c)), depth - 1)
    return [(guard, polys)]

def comm(w, t):
    """addition and multiplication commute: facts for every operation of the term"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        for f in (T.FADD, T.FMUL):
            if x.decl().eq(f): out.append(hold(x == f(x.arg(1), x.arg(0))))
        st += [x.arg(i) for i in range(x.num_args())]
    return out

def coeff(w, s, f):
    E = w.E
    p = w.cell(s, w.po, 'coeffs')
    if not isinstance(p, Ptr): raise Unsupported('coefficient table')
    q, r = E.divmod_const(f, 4096)
    tab = s.mem[(p.oid, p.path)]
    a, b = tab.sel(padd(p.off, q)), tab.sel(padd(p.off, padd(q, P(1))))
    return fop('add', a, fop('mul', fop('mul', i2d(r), fconst(1.0 / 4096)), fop('sub', b, a, 32)))

def acc_at(s, k, c):
    v = s.mem[k]
    return v.sel(c) if isinstance(v, Arr) else v

def hook(w, inc, start, note):
    E = w.E
    def h(inf, pairs, leaves):
        if not E.checking: return
        F_ = inf.F_; where = '%s:%s' % (F_.instrs[inf.h].file, F_.instrs[inf.h].line)
        def ob(desc, status): E.obs.append(X.Ob('value', E.fname(), where, desc, status, False))
        m0 = next(iter(inf.modes.values())); st = m0.head
        dead = inf.dead_cells(st)
        ints, accs = [], []
        bo = {b for b in w.bufs.values()}
        for k in inf.W:
            if k not in st.mem or k in dead or not isinstance(k, tuple) or k[0] in (w.oo, w.fo_) or k[0] in bo: continue
            kd = kind_of(E, st, k)
            if kd == 'i': ints.append(k)
            elif kd == 'f' and not E.f32cell(k, st): accs.append(k)
            elif kd == 'a' and isinstance(st.mem[k], Arr) and st.mem[k].kind == 'F' : accs.append(k)
        if not accs: return
        pref = lambda ks, nm: sorted(ks, key=lambda k: (nm not in cell_name(E, k), str(k)))
        best = None
        for ka in accs:
            for kf in pref(ints, 'filter_index'):
                for kd in pref(ints, 'data_index'):
                    if kd == kf: continue
                    for side in 'LR':
                        r = judge(w, inf, pairs, leaves, kf, kd, ka, side, inc, start)
                        if r is None: continue
                        bad = [x for x in r if x[1] != 'proved']
                        if best is None or len(bad) < len(best[1]): best = (r, bad, kf, kd, ka, side)
                        if not bad: break
                    if best and not best[1]: break
                if best and not best[1]: break
            if best and not best[1]: break
        if best is None: ob('a loop over the taps of one side', 'unknown'); return
        r, bad, kf, kd, ka, side = best
        named = 'filter_index' in cell_name(E, kf) and 'data_index' in cell_name(E, kd)
        for desc, stt in r: ob(('left: ' if side == 'L' else 'right: ') + desc, stt if stt == 'proved' or named else 'unknown')
        note.append('%s: %s side: filter position %s, sample %s, sum %s' % (where, side, cell_name(E, kf), cell_name(E, kd), cell_name(E, ka)))
        for m, h0, b in leaves:
            for n, v in (('n' + side, padd(b.mem[(w.fo_, ('n' + side,))], P(1))), (side, b.mem[ka])):
                b.mem[(w.fo_, (n,))] = v
                if b.wlog is not None: b.wlog.add((w.fo_, (n,)))
    return h

def hints(E, inf, m, st):
    if E.loop_depth != 1: return []
    return [('%s > 0' % cell_name(E, k), lambda s, k=k: cmp('>', get(s, k), P(0))) for k in inf.W if k in st.mem and kind_of(E, st, k) == 'i']

def judge(w, inf, pairs, leaves, kf, kd, ka, side, inc, start):
    E = w.E; out = []
    s0 = next(iter(inf.modes.values())).head
    bc = w.cell(s0, w.po, 'b_current'); mx = pscale(w.cell(s0, w.po, 'coeff_half_len'), 4096)
    c = X.ranged_atom('chn', 0, 2**31); cin = cmp('<', c, w.ch)
    step = w.ch if side == 'L' else pscale(w.ch, -1)
    # shape of the step decides the side at once
    its = []
    for m, h0, b in pairs + leaves:
        if kf not in b.mem or kd not in b.mem or ka not in b.mem: return None
        df, dd = psub(get(b, kf), get(h0, kf)), psub(get(b, kd), get(h0, kd))
        if df == P(0) and dd == P(0): continue
        if not (df == pscale(inc, -1)): return None
        if not (dd == step): return None
        its.append((h0, b))
    if not its: return None
    def dec(desc, pc, goal, t=8000):
        r = solve.check(pc, goal, t)
        if r != 'proved' and getattr(E, 'debug', False): print('   fir', side, desc, r, flush=True)
        out.append((desc, r)); return r == 'proved'
    for m in inf.modes.values():
        for e in m.entries:
            for g, (f, d) in splits([get(e, kf), get(e, kd)]):
                pc = e.allpc() + [g]
                if not solve.feasible(pc): continue
                if side == 'L': rel = psub(pmul(w.ch, psub(f, start)), pmul(psub(bc, d), inc))
                else: rel = psub(pmul(w.ch, padd(f, start)), pmul(psub(d, bc), inc))
                dec('first tap: filter position belongs to the sample', pc, cmp('==', rel, P(0)))
                dec('first tap is within the filter', pc, cmp('<=', f, mx))
                last = cmp('>', padd(f, inc), mx)
                dec('no tap of the filter is left out at the far end', pc, Or(last, cmp('<', d, w.ch)) if side == 'L' else last)
                dec('sum starts at zero', pc + [cin], hold(val(acc_at(e, ka, c)) == 0) if False else hold(acc_at(e, ka, c) == fconst(0.0)))
    for h0, b in its:
        pc = b.allpc(); f, d = get(h0, kf), get(h0, kd)
        dec('tap is on its side of the read position', pc, cmp('>=' if side == 'L' else '>', f, P(0)))
        buf = next(iter(b.mem[(o, ())] for o in w.bufs.values()))
        spec = fop('add', acc_at(h0, ka, c), fop('mul', coeff(w, b, f), buf.sel(padd(d, c))))
        got = acc_at(b, ka, c)
        dec('tap adds interpolated coefficient times sample', pc + [cin] + comm(w, spec) + comm(w, got), hold(got == spec))
    for m, h0, b in leaves:
        dec('all taps up to the read position are used', b.allpc(), cmp('<' if side == 'L' else '<=', get(b, kf), P(0)))
    return out

def posts(c, w, s2, name, rv, scale, out_written):
    n = lambda k: s2.mem[(w.fo_, (k,))]
    c.post(s2, name, 'both sides of the filter are summed once', And(cmp('==', n('nL'), P(1)), cmp('==', n('nR'), P(1))))
    ch = X.ranged_atom('chn', 0, 2**31)
    l, r = n('L'), n('R')
    l = l.sel(ch) if isinstance(l, Arr) else l; r = r.sel(ch) if isinstance(r, Arr) else r
    sm = fop('add', l, r)
    if out_written:
        sp = round32(fop('mul', scale, sm)); got = s2.mem[(w.oo, ())].sel(ch)
    else: sp, got = sm, rv
    pv = s2.fork(); pv.assume(cmp('<', ch, w.ch))
    for f in comm(w, sp) + comm(w, got): pv.assume(f)
    c.post(pv, name, 'result is scale times the sum of both sides, rounded once', hold(got == sp))
