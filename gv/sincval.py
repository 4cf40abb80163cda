"""Functional contract of the sinc process functions (C15 C16 C20 C21, exact writes of C03).

calc_output_* and prepare_data are replaced by their contracts (units calc and prepare).  Ghost
state: base = stream sample index of buffer[0], counted from buffer[0] at entry; base + b_current
is the read position in samples and prepare_data keeps it (its contract moves base by the shift);
wcur = samples written; cid = last call of calc_output_*; (gI, gx) = position reached; gr = ratio of
the last frame.  Checked for an arbitrary iteration of the frame loop:
   exactly one frame is written, at out[wcur],
   it is the result of one call of calc_output_* made at the position (I, x) held at the head, with
   increment lrint(4096*fi), start lrint(4096*(x*fi)), fi = index_inc*min(1, r), scale fi/index_inc,
   (I, x) moves by fl(1/r), r is the ratio specified for this frame,
   and the window buffer is written by prepare_data alone."""
from .run import *
from .run import unit
from . import units as UN, sinc, stream as ST
from .stream import frames, recips, ratio_cond, cases, depends, g, setg, TOL, TOLN
from .loops import get, kind_of, cell_name

GT = 'tag-gv_sghost'
ACC = ('in_used', 'b_end', 'b_real_end', 'b_current')
GI = ('wcur', 'gI', 'base', 'cid', 'abase', 'aset') + tuple('a' + n for n in ACC)

def ghost(w, s, E):
    E.prog.structs[GT] = [(n, ('int', 64, True)) for n in GI] + [('gx', ('float', 64)), ('gr', ('float', 64))]
    w.go = E.new_obj(s, 'ghost', 'ghost', ('struct', GT), P(1))
    for n, v in (('wcur', P(0)), ('gI', sinc.priv(w, s, 'b_current')), ('base', P(0)), ('abase', P(0)), ('aset', P(0)), *(('a' + n, P(0)) for n in ACC), ('cid', P(0)), ('gx', w.cell(s, w.so, 'last_position')), ('gr', w.cell(s, w.so, 'last_ratio'))):
        s.mem[(w.go, (n,))] = v
    w.calcs = {}
    bufs = set(w.bufs.values())
    class WM:
        def bump(self, E, st, oid, off, n):
            k = (w.go, ('wcur',))
            if oid in bufs:
                E.ob(st, 'value', FALSE, 'the sample window is written by prepare_data only', assume=False); return
            if oid != w.oo or k not in st.mem: return
            E.ob(st, 'order', Or(cmp('==', n, P(0)), cmp('==', off, st.mem[k])), 'output samples are written once each, in order, without gaps', assume=False)
            if st.wlog is not None: st.wlog.add(k)
            st.mem[k] = padd(st.mem[k], n)
        def __call__(self, E, st, oid, path, off, v):
            if off is None and oid == w.oo: raise Unsupported('whole-object write to the output')
            self.bump(E, st, oid, off, P(1))
        def range_write(self, E, st, p, n): self.bump(E, st, p.oid, p.off, n)
    E.monitors.append(WM())

def on_pd(w, s, old):
    """ghost update of the prepare_data contract: the read position is kept"""
    setg(w, s, 'base', padd(g(w, s, 'base'), psub(old['b_current'], sinc.priv(w, s, 'b_current'))))

def on_calc(w, s, rec):
    E = w.E
    i = len(w.calcs) + 1; rec = dict(rec, I=padd(g(w, s, 'base'), sinc.priv(w, s, 'b_current')))
    w.calcs[i] = rec
    setg(w, s, 'cid', P(i))

def indata(w, s):
    """stream index just after the data in hand, as a conditional"""
    br, be = sinc.priv(w, s, 'b_real_end'), sinc.priv(w, s, 'b_end')
    return br, be, padd(g(w, s, 'base'), P(0))

def account(w, s, T0):
    """input handed over so far == data the window has seen since entry"""
    br, be, base = indata(w, s); iu = sinc.priv(w, s, 'in_used')
    t = padd(iu, T0)
    return And(Implies(cmp('<', br, P(0)), cmp('==', padd(base, be), t)), Implies(cmp('>=', br, P(0)), cmp('==', padd(base, br), t)))

def full_window(w, s):
    bc = sinc.priv(w, s, 'b_current')
    return Or(cmp('==', bc, P(0)), cmp('>=', bc, w.Hspec))

def hints(w):
    def h(E, inf, m, st):
        if E.loop_depth != 1: return []
        out = [('input accounting', lambda s: account(w, s, w.T0)),
               ('end mark is permanent', lambda s: Implies(cmp('>=', w.br0, P(0)), cmp('==', sinc.priv(w, s, 'b_real_end'), w.br0))),
               ('whole filter window in the buffer at a constant ratio', lambda s: Implies(w.const, full_window(w, s)))]
        out += ST.hints(w)(E, inf, m, st)
        out += [('no end mark before the first frame of the call', lambda s: Or(cmp('>=', g(w, s, 'wcur'), P(1)), cmp('==', sinc.priv(w, s, 'b_real_end'), w.br0)))]
        gk = (w.go, ('gr',))
        for k in st.mem:
            if k in inf.W and isinstance(k, tuple) and k != gk and kind_of(E, st, k) == 'f' and not E.f32cell(k, st):
                out.append(('%s is the ratio of the last frame' % cell_name(E, k), lambda s, k=k: hold(s.mem[k] == s.mem[gk])))
        return out
    return h

def iter_hook(w):
    def h(inf, h0, b):
        kw = (w.go, ('wcur',))
        if kw not in b.mem or kw not in h0.mem: return
        if b.mem[kw] == h0.mem[kw]: return
        rs = recips(w, h0, b)
        setg(w, b, 'gr', rs[0] if rs else hold(z3.Const(fresh_name('gr_unknown'), F)))
    return h

def loop_hook(w, ks):
    want = lambda k: ks is None or k in ks
    def h(inf, pairs, leaves):
        E = w.E
        if not E.checking: return
        F_ = inf.F_; where = '%s:%s' % (F_.instrs[inf.h].file, F_.instrs[inf.h].line)
        kw = (w.go, ('wcur',))
        def ob(kind, desc, status): E.obs.append(X.Ob(kind, E.fname(), where, desc, status, False))
        isf = lambda h0, b: not (b.mem[kw] == h0.mem[kw])
        st = next(iter(inf.modes.values())).head
        iters = [x for x in pairs + leaves if isf(x[1], x[2])]
        idle = [x for x in pairs if not isf(x[1], x[2])]
        if not iters:
            for m, h0, b in leaves: pass
            return
        xs = [k for k, v in st.mem.items() if k in inf.W and isinstance(k, tuple) and k[0] != w.go and kind_of(E, st, k) == 'f' and not E.f32cell(k, st)]
        xs.sort(key=lambda k: (next((i for i, n in enumerate(ST.PREF_X) if n in cell_name(E, k)), 99), str(k)))
        best = None
        for xk in xs:
            r = judge(w, inf, iters, idle, xk, want, first=best is not None)
            if r is None: continue
            bad = [x for x in r if x[2] != 'proved']
            if best is None or len(bad) < len(best[1]): best = (r, bad, xk)
            if not bad: break
        if best is None: ob('pos', 'read position found', 'unknown'); return
        r, bad, xk = best
        named = any(n in cell_name(E, xk) for n in ST.PREF_X)
        for kind, desc, stt in r: ob(kind, desc, stt if stt == 'proved' or named else 'unknown')
        w.posnotes.append('%s: read position = (base + b_current)/channels + %s' % (where, cell_name(E, xk)))
        for m, h0, b in leaves:
            if want('pos'): ob('pos', 'input frames used are the frames added to the window', solve.check(b.allpc(), account(w, b, w.T0), 20000))
            for n in ACC: setg(w, b, 'a' + n, sinc.priv(w, b, n))
            setg(w, b, 'abase', g(w, b, 'base')); setg(w, b, 'aset', P(1))
            setg(w, b, 'gI', padd(g(w, b, 'base'), sinc.priv(w, b, 'b_current'))); setg(w, b, 'gx', b.mem[xk])
    return h

def judge(w, inf, iters, idle, xk, want, first=False):
    E = w.E; out = []
    def dec(kind, desc, pc, goal, t=20000):
        if not want(kind): return True
        r = solve.check(pc, goal, t)
        if r != 'proved' and getattr(E, 'debug', False): print('   judge', cell_name(E, xk), kind, desc, r, flush=True)
        out.append((kind, desc, r)); return r == 'proved'
    def pos(s): return padd(g(w, s, 'base'), sinc.priv(w, s, 'b_current')), s.mem[xk]
    for m in inf.modes.values():
        for e in m.entries:
            I, x = pos(e); G, gx = g(w, e, 'gI'), g(w, e, 'gx')
            d = frames(w, psub(I, G))
            if d is None: out.append(('pos', 'position at loop entry', 'unknown')); return out
            df = z3.ToReal(d.z()) + val(x) - val(gx)
            if not dec('pos', 'position is carried over exactly to the loop', e.allpc(), And(fin(x), hold(df <= 0), hold(df >= 0))) and first: return None
    for m, h0, b in idle:
        (I, x), (I2, x2) = pos(h0), pos(b)
        d = frames(w, psub(I2, I))
        if d is None: out.append(('pos', 'iteration without a frame keeps the position', 'unknown')); continue
        dec('pos', 'iteration without a frame keeps the position', b.allpc(), hold(z3.ToReal(d.z()) + val(x2) == val(x)))
    for m, h0, b in iters:
        (I, x), (I2, x2) = pos(h0), pos(b)
        k = g(w, h0, 'wcur'); pc = b.allpc()
        dec('order', 'an iteration writes exactly one frame', pc, cmp('==', psub(g(w, b, 'wcur'), k), w.ch))
        d = frames(w, psub(I2, I))
        rs = recips(w, h0, b)
        if not rs: out.append(('pos', 'step is a reciprocal of the ratio', 'unknown')); return out
        r = rs[0]; step = fop('div', fconst(1.0), r)
        if d is None: out.append(('pos', 'position moves by whole frames and a fraction', 'unknown'))
        else:
            df = z3.ToReal(d.z()) + val(x2) - val(x) - val(step)
            if not dec('pos', 'each frame advances the read position by 1/ratio', pc, And(fin(x2), hold(df <= TOL), hold(df >= -TOL))) and first: return None
        if len(rs) > 1: out.append(('ratio', 'one ratio per frame', 'unknown'))
        for cond, desc in ratio_cond(w, b, r, k, w.no): dec('ratio', desc, pc, cond)
        dec('ratio', 'ratio of the frame lies between the previous and the requested one', pc, And(fin(r), loops.betw(r, w.last0, w.tgt)))
        if d is None: continue
        if want('value'):
            ci = g(w, b, 'cid'); rec = w.calcs.get(ci.const) if isinstance(ci, Poly) and ci.is_const() else None
            if rec is None: out.append(('value', 'one filter evaluation per frame', 'unknown')); continue
            prev = g(w, h0, 'cid')
            out.append(('value', 'one filter evaluation per frame', 'proved' if not prev.is_const() or prev.const != ci.const else 'unknown'))
            dec('value', 'the filter is evaluated at the read position', pc, cmp('==', rec['I'], I))
            ii = i2d(sinc.priv(w, h0, 'index_inc'))
            for fi in (fop('mul', ii, X.ite(hold(val(r) < 1), r, fconst(1.0), 'F')),):
                p1 = pc
                def eqs(t):
                    fs = []
                    seen = set(); stk = [t]
                    while stk:
                        y = stk.pop()
                        if y.get_id() in seen or not z3.is_app(y): continue
                        seen.add(y.get_id())
                        if y.decl().eq(T.FMUL) or y.decl().eq(T.FADD): fs.append(hold(y == y.decl()(y.arg(1), y.arg(0))))
                        stk += [y.arg(i) for i in range(y.num_args())]
                    return fs
                k4 = fconst(4096.0)
                ti = fop('mul', fi, k4); ts = fop('mul', fop('mul', x, fi), k4)
                li, ls = lrint(ti), lrint(ts)
                # fi is the product actually computed: fi == code's float_increment by case split on r < 1
                dec('value', 'increment is 4096*index_inc*min(1, ratio), rounded', p1 + eqs(ti), cmp('==', rec['inc'], li))
                dec('value', 'start index is 4096*index_inc*min(1, ratio)*position, rounded', p1 + eqs(ts), cmp('==', rec['start'], ls))
                sc = fop('div', fi, ii)
                c = X.ranged_atom('chn', 0, 2**31); got = b.mem[(w.oo, ())].sel(padd(k, c))
                if rec['res'] is not None:
                    dec('value', 'output scale is min(1, ratio)', p1 + eqs(fi), hold(rec['scale'] == sc))
                    dec('value', 'the frame written is the result of the filter', p1 + [cmp('<', c, w.ch)], hold(got == rec['res'].sel(c)))
                else:
                    sp = round32(fop('mul', sc, rec['ret']))
                    dec('value', 'the frame written is min(1, ratio) times the result of the filter', p1 + [cmp('<', c, w.ch)] + eqs(fi) + eqs(fop('mul', sc, rec['ret'])), hold(got == sp))
        if want('chan'):
            bad = depends(w, [x2, step], {x.get_id()} | {t.get_id() for _, t in cases(r)}, b)
            if bad and getattr(E, 'debug', False): print('   depends on', bad[:5])
            out.append(('chan', 'position and step do not depend on samples or on the channel count', 'proved' if not bad else 'unknown'))
    return out

@unit
def svalue(c, conv, chv, variant='full', kinds=''):
    ks = UN.kinds_of(kinds)
    w, s, r, d, fn, null = sinc.setup(c, conv, chv, variant, kinds)
    E = w.E; E.debug = DEBUG or E.debug; name = canon(fn.name)
    w.last0 = w.cell(s, w.so, 'last_ratio'); w.tgt = s.mem[(w.do, ('src_ratio',))]
    df = fop('sub', w.last0, w.tgt); t10 = fconst(1e-10)
    w.changed = Or(hold(val(df) > val(t10)), hold(val(df) < -val(t10)))
    w.br0 = sinc.priv(w, s, 'b_real_end'); be0 = sinc.priv(w, s, 'b_end'); bc0 = sinc.priv(w, s, 'b_current')
    w.T0 = X.ite(cmp('<', w.br0, P(0)), be0, w.br0, 'I')
    # half filter length at a constant ratio, in samples
    chl, ii = sinc.priv(w, s, 'coeff_half_len'), sinc.priv(w, s, 'index_inc')
    cnt = fop('div', fop('add', i2d(chl), fconst(2.0)), i2d(ii)); small = hold(val(w.last0) < 1)
    w.Hspec = X.ite(small, pmul(w.ch, padd(lrint(fop('div', cnt, w.last0)), P(1))), pmul(w.ch, padd(lrint(cnt), P(1))), 'I')
    w.const = And(hold(w.last0 == w.tgt), Or(cmp('==', bc0, P(0)), cmp('>=', bc0, w.Hspec)))
    w.posnotes = []
    ghost(w, s, E)
    E.ghost_hints_only = True; E.merge_exits_over = 8; E.mul_hint |= {(w.go, ('base',))}
    w.on_pd = lambda st, old: on_pd(w, st, old); w.on_calc = lambda st, rec: on_calc(w, st, rec)
    E.iter_hook = iter_hook(w); E.loop_hook = loop_hook(w, ks); E.hints.append(hints(w))
    res = E.run_function(s, fn, [r, d])
    E.covered.add(name)
    c.feasible_end([x for x, _ in res], name, 'normal return reachable')
    want = lambda k: ks is None or k in ks
    for s2, rv in res:
        used, gen = s2.mem[(w.do, ('input_frames_used',))], s2.mem[(w.do, ('output_frames_gen',))]
        if want('order'): c.post(s2, name, 'exactly the generated frames were written', cmp('==', g(w, s2, 'wcur'), pmul(gen, w.ch)))
        lp = w.cell(s2, w.so, 'last_position'); lr = w.cell(s2, w.so, 'last_ratio'); gx = g(w, s2, 'gx')
        if want('pos'):
            G = frames(w, psub(padd(g(w, s2, 'base'), sinc.priv(w, s2, 'b_current')), g(w, s2, 'gI')))
            if G is None: raise Unsupported('read position in whole frames')
            e = z3.ToReal(G.z()) + val(lp) - val(gx)
            c.post(s2, name, 'position held after the call is the position reached', And(fin(lp), hold(e <= TOLN), hold(e >= -TOLN)))
            c.post(s2, name, 'input accounting is kept after the last frame', Or(And(cmp('==', g(w, s2, 'aset'), P(0)), account(w, s2, w.T0)), And(cmp('==', g(w, s2, 'aset'), P(1)), *[cmp('==', sinc.priv(w, s2, n), g(w, s2, 'a' + n)) for n in ACC], cmp('==', g(w, s2, 'base'), g(w, s2, 'abase')))))
            c.post(s2, name, 'input frames used are whole frames', cmp('==', sinc.priv(w, s2, 'in_used'), pmul(used, w.ch)))
        if want('ratio'): c.post(s2, name, 'ratio held after the call is the ratio of the last frame', hold(lr == g(w, s2, 'gr')))
        if want('value'):
            c.post(s2, name, 'at a constant ratio the whole filter window stays in the buffer', Implies(w.const, full_window(w, s2)))
        if want('prog'):
            c.post(s2, name, 'a call given input and room makes progress unless the end was marked before', Or(cmp('<=', w.fi, P(0)), cmp('<=', w.fo, P(0)), cmp('>=', w.br0, P(0)), cmp('>', used, P(0)), cmp('>', gen, P(0))))
    c.notes += w.posnotes
DEBUG = False
