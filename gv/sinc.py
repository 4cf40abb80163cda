"""Modular contracts of the sinc converter: calc_output_*, prepare_data, *_vari_process."""
from .run import *
from .run import unit
from . import units as UN
from . import fir

COEF = {2: (2462, 128), 1: (22436, 491)}
CALC = {'1': 'calc_output_single', '2': 'calc_output_stereo', '4': 'calc_output_quad', '6': 'calc_output_hex', 'm': 'calc_output_multi'}

def fpar(E, fn):
    """parameter short name -> position"""
    return {p.split('::')[-1]: i for i, p in enumerate(fn.params)}

def priv(w, s, n): return w.cell(s, w.po, n)

def qatoms(w, s):
    """whole-frame positions as channels * atom"""
    E = w.E
    q = lambda n: pmul(w.ch, X.ranged_atom('q_' + n, 0, 2**31))
    for n in ('b_current', 'b_end'):
        w.cell(s, w.po, n); s.mem[(w.po, (n,))] = q(n)

def tap_count(w, s, inc, start):
    """coeff_count of the right half exactly as C computes it"""
    mx = pscale(priv(w, s, 'coeff_half_len'), 4096)
    sd, w.E.split_div = getattr(w.E, 'split_div', False), False
    try: return w.E.divtrunc(s, psub(mx, psub(inc, start)), inc)[0]
    finally: w.E.split_div = sd

def calc_pre(w, s, inc, start):
    """precondition of calc_output_*: [(name, formula)]"""
    bc, be, bl = priv(w, s, 'b_current'), priv(w, s, 'b_end'), priv(w, s, 'b_len')
    chl, ii = priv(w, s, 'coeff_half_len'), priv(w, s, 'index_inc')
    cc = tap_count(w, s, inc, start)
    return [('1 <= increment <= index_inc in fixed point', And(cmp('>=', inc, P(1)), cmp('<=', inc, pscale(ii, 4096)))),
            ('0 <= start_filter_index <= increment', And(cmp('>=', start, P(0)), cmp('<=', start, inc))),
            ('0 <= b_current', cmp('>=', bc, P(0))),
            ('window and one more frame available', cmp('<=', padd(bc, pmul(w.ch, padd(cc, P(2)))), be)),
            ('b_end <= b_len', cmp('<=', be, bl))]

@unit
def calc(c, conv, chv, kinds='', term=''):
    w = world(conv, chv, kinds=UN.kinds_of(kinds))
    s, r = w.generic_handle()
    E = c.use(w.E); E.debug = DEBUG; E.want_termination = bool(term); E.inv_ms = 700
    if w.ch.is_const(): qatoms(w, s)
    fn = w.fn(CALC[chv]); pos = fpar(E, fn)
    inc = X.ranged_atom('inc', 1, 2**31 - 1); start = X.ranged_atom('start', 0, 2**31 - 1)
    for n, f in calc_pre(w, s, inc, start): s.assume(f)
    FT = ('float', 32)
    w.oo = E.new_obj(s, 'output', 'caller', ('arr', FT, None), w.ch); s.mem[(w.oo, ())] = Base('out', 'F', FT)
    args = [None] * len(fn.params)
    scale = hold(z3.Const('scale', F))
    for n, v in (('filter', Ptr(w.po)), ('channels', w.ch), ('increment', inc), ('start_filter_index', start), ('scale', scale), ('output', Ptr(w.oo))):
        if n in pos: args[pos[n]] = v
    if any(a is None for a in args): raise Unsupported('signature of %s' % fn.name)
    vals = kinds and 'value' in UN.kinds_of(kinds)
    before = dict(s.mem)
    if vals: fir.ghost(w, s); E.loop_hook = fir.hook(w, inc, start, c.notes); E.hints.append(fir.hints)
    res = E.run_function(s, fn, args)
    c.feasible_end([x for x, _ in res], canon(fn.name), 'normal return reachable')
    if vals:
        for s2, rv in res:
            fir.posts(c, w, s2, canon(fn.name), rv, scale, 'output' in pos)
    if vals or (kinds and 'frame' in UN.kinds_of(kinds)):
        for s2, rv in res:
            only(c, w, s2, canon(fn.name), before, {(w.oo, ()), (w.po, ('left_calc',)), (w.po, ('right_calc',))})

def only(c, w, s2, name, before, okw):
    """frame condition: nothing but okw and locals is written"""
    for k, v in before.items():
        if not isinstance(k, tuple) or k in okw or w.E.obinfo[k[0]].kind in ('local', 'ghost'): continue
        v2 = s2.mem.get(k)
        if v2 is not None and api_same(v, v2): c.fact(name, 'unchanged: %s' % X.desc_obj(w.E.obinfo[k[0]].name, k[1]), True)
        elif v2 is None or isinstance(v, (Ptr, Fn, Arr)) or isinstance(v2, (Ptr, Fn, Arr)): c.fact(name, 'unchanged: %s' % X.desc_obj(w.E.obinfo[k[0]].name, k[1]), False)
        else: c.post(s2, name, 'unchanged: %s' % X.desc_obj(w.E.obinfo[k[0]].name, k[1]), cmp('==', v, v2) if isinstance(v, Poly) else hold(v == v2))

def api_same(a, b):
    if a is b: return True
    if type(a) != type(b) or isinstance(a, Arr): return False
    if isinstance(a, (Poly, Ptr, Fn)): return a == b
    return a.eq(b) if hasattr(a, 'eq') else False
DEBUG = False

# ------------------------------------------------------------------ prepare_data
PD = ('b_current', 'b_end', 'b_real_end', 'in_used')
def pd_state(w, s): return {n: priv(w, s, n) for n in PD}

def pd_pre(w, s, H, h, data_null):
    bc, be, br, iu = (priv(w, s, n) for n in PD)
    bl, ic = priv(w, s, 'b_len'), priv(w, s, 'in_count')
    return [('half filter length is at least one frame and a third of the buffer at most', And(cmp('>=', h, P(1)), cmp('<=', padd(pscale(H, 3), P(1)), bl))),
            ('0 <= b_current <= b_end <= b_len', And(cmp('>=', bc, P(0)), cmp('<=', bc, be), cmp('<=', be, bl))),
            ('b_current < b_len', cmp('<', bc, bl)),
            ('b_current is 0 only before the first input', Or(cmp('>=', bc, P(1)), And(cmp('==', be, P(0)), cmp('==', br, P(-1))))),
            ('samples in hand do not exceed half the filter', cmp('<=', psub(be, bc), H)),
            ('b_real_end is -1 or within the data', Or(cmp('==', br, P(-1)), And(cmp('<=', P(0), br), cmp('<=', br, be)))),
            ('0 <= in_used <= in_count', And(cmp('>=', iu, P(0)), cmp('<=', iu, ic)))]

def pd_post(w, s, old, H, data_null):
    bc, be, br, iu = (priv(w, s, n) for n in PD)
    bl, ic = priv(w, s, 'b_len'), priv(w, s, 'in_count')
    obc, obe, obr, oiu = (old[n] for n in PD)
    return [('0 <= b_current <= b_end <= b_len', And(cmp('>=', bc, P(0)), cmp('<=', bc, be), cmp('<=', be, bl), cmp('<', bc, bl))),
            ('b_current is 0 only before the first input', Or(cmp('>=', bc, P(1)), And(cmp('==', be, P(0)), cmp('==', br, P(-1))))),
            ('nothing in hand is lost', cmp('>=', psub(be, bc), psub(obe, obc))),
            ('b_real_end is -1 or within the data', Or(cmp('==', br, P(-1)), And(cmp('<=', P(0), br), cmp('<=', br, be)))),
            ('end mark is permanent', Implies(cmp('>=', obr, P(0)), And(cmp('==', br, obr), cmp('==', bc, obc), cmp('==', be, obe), cmp('==', iu, oiu)))),
            ('in_used grows up to in_count', And(cmp('>=', iu, oiu), cmp('<=', iu, ic))),
            ('the read position stays in the buffer or is put half a filter into it', Or(cmp('==', bc, obc), cmp('==', bc, H))),
            ('available input is taken', TRUE if data_null else Or(cmp('>=', obr, P(0)), cmp('>=', oiu, ic), cmp('>', iu, oiu))),
            ('without input pointer nothing changes', And(cmp('==', br, obr), cmp('==', bc, obc), cmp('==', be, obe), cmp('==', iu, oiu)) if data_null else TRUE),
            ]

def pd_content(w, s, old, j, obuf, inp):
    """contents of the buffer after prepare_data: [(name, formula)] for sample j, 0 <= j < b_end.
    shift = old b_current - b_current (the stream position of b_current does not change)"""
    bc, be, br, iu = (priv(w, s, n) for n in PD)
    obc, obe, obr, oiu = (old[n] for n in PD)
    i = padd(j, psub(obc, bc)); n = psub(iu, oiu); new = s.mem[(w.bufs[('buffer',)], ())].sel(j)
    rng = And(cmp('>=', j, P(0)), cmp('<', j, be), cmp('<', obr, P(0)))
    end = padd(obe, n)
    return [('samples before the first input are zero', Implies(And(rng, cmp('<', i, P(0))), And(cmp('==', obc, P(0)), hold(new == fconst(0.0))))),
            ('samples in the window are kept', Implies(And(rng, cmp('>=', i, P(0)), cmp('<', i, obe)), hold(new == obuf.sel(i)))),
            ('consumed input follows in order', Implies(And(rng, cmp('>=', i, obe), cmp('<', i, end)), hold(new == inp.sel(padd(oiu, psub(i, obe)))) if inp is not None else FALSE)),
            ('samples after the last input are zero', Implies(And(rng, cmp('>=', i, end)), And(cmp('>=', br, P(0)), hold(new == fconst(0.0))))),
            ('once the end is marked the buffer stays', Implies(And(cmp('>=', obr, P(0)), cmp('>=', j, P(0)), cmp('<', j, be)), hold(new == obuf.sel(j))))]

def pd_account(w, s, old):
    bc, be, br, iu = (priv(w, s, n) for n in PD)
    obc, obe, obr, oiu = (old[n] for n in PD)
    ic = priv(w, s, 'in_count'); n = psub(iu, oiu); eoi = s.mem[(w.do, ('end_of_input',))]
    return [('data in hand grows by the input consumed', Implies(cmp('<', br, P(0)), cmp('==', psub(be, bc), padd(psub(obe, obc), n)))),
            ('end mark is placed after the last input', Implies(And(cmp('<', obr, P(0)), cmp('>=', br, P(0))), And(cmp('==', psub(br, bc), padd(psub(obe, obc), n)), cmp('==', iu, ic), cmp('!=', eoi, P(0)))))]

@unit
def prepare(c, conv, chv, variant='full', kinds=''):
    w = world(conv, chv, kinds=UN.kinds_of(kinds))
    s, r = w.generic_handle()
    E = c.use(w.E); E.debug = DEBUG
    if w.ch.is_const():
        requant(w, s)
        s.assume(w.mult(priv(w, s, 'b_real_end'), True))
    null = variant == 'innull'
    d = w.request(s, null, False)
    s.mem[(w.po, ('in_count',))] = w.ni; s.mem[(w.po, ('out_count',))] = w.no
    s.mem[(w.po, ('in_used',))] = pmul(w.ch, X.ranged_atom('u', 0, 2**45))
    h = X.ranged_atom('h', 1, 2**31 - 1); H = pmul(w.ch, h)
    for n, f in pd_pre(w, s, H, h, null): s.assume(f)
    fn = w.fn('prepare_data'); pos = fpar(E, fn)
    args = [None] * len(fn.params)
    for n, v in (('filter', Ptr(w.po)), ('channels', w.ch), ('data', d), ('half_filter_chan_len', H)):
        if n in pos: args[pos[n]] = v
    if any(a is None for a in args): raise Unsupported('signature of %s' % fn.name)
    old = pd_state(w, s); name = canon(fn.name); before = dict(s.mem)
    vals = 'value' in (UN.kinds_of(kinds) or ()); bo = w.bufs[('buffer',)]
    obuf = s.mem[(bo, ())]; inp = None if null else s.mem[(w.io, ())]
    j = X.ranged_atom('j', 0, 2**31)
    # the buffer is zero before the first input (established by reset: unit lifecycle)
    if vals:
        s0 = w.fresh_state
        z = s0.fork(); z.assume(cmp('<', j, w.cell(z, w.po, 'b_len')))
        b0 = z.mem[(bo, ())]
        c.post(z, name, 'a fresh handle has an all zero buffer', And(cmp('==', w.cell(z, w.po, 'b_current'), P(0)), hold(b0.sel(j) == fconst(0.0))))
        s.assume(Implies(cmp('==', old['b_current'], P(0)), hold(obuf.sel(j) == fconst(0.0))))
    res = E.run_function(s, fn, args)
    c.feasible_end([x for x, _ in res], name, 'normal return reachable')
    for s2, rv in res:
        c.post(s2, name, 'returns SRC_ERR_NO_ERROR', cmp('==', rv, P(0)))
        for n, f in pd_account(w, s2, old): c.post(s2, name, n, f)
        if vals:
            for n, f in pd_content(w, s2, old, j, obuf, inp): c.post(s2, name, n, f)
            c.post(s2, name, 'until the first input arrives the whole buffer stays zero', Implies(And(cmp('==', priv(w, s2, 'b_current'), P(0)), cmp('<', j, priv(w, s2, 'b_len'))), hold(s2.mem[(bo, ())].sel(j) == fconst(0.0))))
            UN.frame(c, w, name, before, s2)
        for n, f in pd_post(w, s2, old, H, null): c.post(s2, name, n, f)
        for n in ('b_current', 'b_end', 'in_used'): c.post(s2, name, '%s whole frames' % n, w.mult(priv(w, s2, n)))
        c.post(s2, name, 'b_real_end whole frames', w.mult(priv(w, s2, 'b_real_end'), True))

# ------------------------------------------------------------------ contracts used by the callers
def argmap(E, fn, args, need):
    pos = fpar(E, fn)
    for n in need:
        if n not in pos: raise Unsupported('parameter %s of %s' % (n, fn.name))
    return {n: args[i] for n, i in pos.items()}

def havoc(w, s, names):
    for n in names:
        k = (w.po, (n,))
        if s.wlog is not None: s.wlog.add(k)
        for m in w.E.monitors: m(w.E, s, w.po, (n,), None, None)

def pd_contract(w, null):
    fn = w.fn('prepare_data')
    def f(E, s, args):
        a = argmap(E, fn, args, ('filter', 'channels', 'data', 'half_filter_chan_len'))
        E.ob(s, 'pre', z3.BoolVal(a['filter'] == Ptr(w.po) and a['data'] == Ptr(w.do)), 'prepare_data: called with the handle and the request')
        E.ob(s, 'pre', cmp('==', a['channels'], w.ch), 'prepare_data: channel count')
        H = a['half_filter_chan_len']; h = pdiv_exact(H, w.ch)
        if h is None:
            h = E.divtrunc(s, H, w.ch)[0]
            E.ob(s, 'pre', cmp('==', H, pmul(h, w.ch)), 'prepare_data: half filter length is whole frames')
        for n, c in pd_pre(w, s, H, h, null): E.ob(s, 'pre', c, 'prepare_data: ' + n)
        for n in ('b_current', 'b_end', 'in_used'): E.ob(s, 'pre', w.mult(priv(w, s, n)), 'prepare_data: %s whole frames' % n, assume=False)
        s = s.fork(); old = pd_state(w, s)
        havoc(w, s, PD)
        for n, hi in (('b_current', 2**31), ('b_end', 2**31), ('in_used', 2**45)):
            s.mem[(w.po, (n,))] = pmul(w.ch, X.ranged_atom('q_' + n, 0, hi))
        s.mem[(w.po, ('b_real_end',))] = X.ranged_atom('b_real_end', -1, 2**31 - 1)
        k = (w.po, ('b_real_end',))
        bo = w.bufs[('buffer',)]
        if s.wlog is not None: s.wlog.add((bo, ()))
        s.mem[(bo, ())] = Base('buf', 'F', ('float', 32))
        for n, c in pd_post(w, s, old, H, null): s.assume(c)
        for n, c in pd_account(w, s, old): s.assume(c)
        if hasattr(w, 'on_pd'): w.on_pd(s, old)
        return [(s, P(0))]
    return f

def min_ratio_lemma(): pass

def calc_contract(w, kind):
    fn = w.fn(CALC[kind])
    def f(E, s, args):
        a = argmap(E, fn, args, ('filter', 'increment', 'start_filter_index'))
        inc, start = a['increment'], a['start_filter_index']
        E.ob(s, 'pre', z3.BoolVal(a['filter'] == Ptr(w.po)), '%s: called with the handle' % CALC[kind])
        if 'channels' in a: E.ob(s, 'pre', cmp('==', a['channels'], w.ch), '%s: channel count' % CALC[kind])
        if E.checking: cover(w, s, inc, start)
        for n, c in calc_pre(w, s, inc, start): E.ob(s, 'pre', c, '%s: %s' % (CALC[kind], n))
        for n in ('b_current', 'b_end'): E.ob(s, 'pre', w.mult(priv(w, s, n)), '%s: %s whole frames' % (CALC[kind], n), assume=False)
        s = s.fork()
        for n in ('left_calc', 'right_calc'):
            k = (w.po, (n,))
            if k in s.mem:
                if s.wlog is not None: s.wlog.add(k)
                s.mem[k] = Base(n, 'F', ('float', 64))
        if 'output' in a:
            o = a['output']
            t = X.region(E, s, o)
            X.range_ob(E, s, o, w.ch, 'output of ' + CALC[kind])
            X.note_range_write(E, s, o, w.ch)
            if s.wlog is not None: s.wlog.add((o.oid, o.path))
            res = Base('res', 'F', ('float', 32))
            s.mem[(o.oid, o.path)] = Copy(s.mem[(o.oid, o.path)], o.off, w.ch, res, P(0))
            if hasattr(w, 'on_calc'): w.on_calc(s, dict(inc=inc, start=start, scale=a.get('scale'), res=res))
            return [(s, None)]
        ret = hold(z3.Const(fresh_name('calc'), F))
        if hasattr(w, 'on_calc'): w.on_calc(s, dict(inc=inc, start=start, res=None, ret=ret))
        return [(s, ret)]
    return f

_cover = {}
def cover_lemma(chl, ii, c):
    """real arithmetic, proved once per run: a window of cc taps with cc*I <= 4096*chl, I >= 4096*ii*z - 1/2 (up to rounding),
    and a quotient q with q*z >= c (up to rounding) satisfy cc < q + 1/2"""
    k = (chl, ii, c)
    if k not in _cover:
        cc, i, z, q = z3.Reals('cc i z q')
        u = RV(1 - T.U)
        s = z3.Solver(); s.set('timeout', 30000)
        s.add(cc >= 0, cc * i <= 4096 * chl, i >= RV(4096 * ii) * u * z - RV(Fraction(1, 2)), z >= RV(Fraction(1, 256)), z <= 1, q * z >= RV(c) * u, cc >= q + RV(Fraction(1, 2)))
        _cover[k] = s.check() == z3.unsat
    return _cover[k]

def quot_cases(w, s, y):
    """[(path condition, q, z, c)] with q*z >= c(1-2^-53): the quotients y may be"""
    if is_ite(y): return [(And(y.arg(0), a), *r) for a, *r in quot_cases(w, s, y.arg(1))] + [(And(Not(y.arg(0)), a), *r) for a, *r in quot_cases(w, s, y.arg(2))]
    c = T.iconst(y)
    if c is not None: return [(TRUE, RV(c), RV(1), c)]
    if T.is_op(y, T.FDIV) and T.iconst(y.arg(0)) is not None: return [(And(fin(y.arg(1)), fin(y)), val(y), val(y.arg(1)), T.iconst(y.arg(0)))]
    return []

def cover(w, s, inc, start):
    """adds the coverage lemma for the tap count of this call; every hypothesis is proved here"""
    chl, ii = priv(w, s, 'coeff_half_len'), priv(w, s, 'index_inc')
    if chl.const is None or ii.const is None: return
    chl, ii = chl.const, ii.const
    cc = tap_count(w, s, inc, start)
    base = Fraction(float(chl + 2.0) / ii)
    cand = [(TRUE, RV(base), RV(1), base)]
    seen = set()
    def lr(t, g=TRUE):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if T.is_op(t, T.LRINT): cand.extend((And(g, a), *r) for a, *r in quot_cases(w, s, t.arg(0)))
    def at(n, g=TRUE):
        if n in seen: return
        seen.add(n)
        if n in T.TERM_OF_ATOM: lr(T.TERM_OF_ATOM[n], g)
        elif n in X.ITE_DEF:
            c, a, b = X.ITE_DEF[n]
            for g2, p in ((And(g, c), a), (And(g, Not(c)), b)):
                for x in p.atoms(): at(x, g2)
                if p.is_const(): cand.append((g2, RV(base), RV(1), base))
        elif n in T.MONO_INV:
            for a in T.MONO_INV[n]: at(a, g)
    for v in s.mem.values():
        if isinstance(v, Poly):
            for a in v.atoms(): at(a)
    for f in s.allpc():
        for k, n in solve.deps(f):
            if k == 't': lr(solve._TERM[n])
            elif k == 'a': at(n)
    iz = z3.ToReal(inc.z()); half = RV(Fraction(1, 2)); pc = s.allpc()
    for g, q, z, c in cand:
        if DEBUG == 2: print('cover', str(q)[:80], str(z)[:60], float(c), cover_lemma(chl, ii, c))
        if not cover_lemma(chl, ii, c): continue
        hyp = And(cmp('>=', cc, P(0)), hold(iz >= RV(4096 * ii) * RV(1 - T.U) * z - half), hold(z >= RV(Fraction(1, 256))), hold(z <= 1))
        if solve.check(pc + [g], hyp, 8000) == 'proved' and solve.check(pc + [g], cmp('<=', pmul(cc, inc), P(4096 * chl)), 8000) == 'proved':
            if DEBUG == 2: print('assumed')
            s.assume(Implies(g, hold(z3.ToReal(cc.z()) < q + half)))

def hints(w):
    def h(E, inf, m, st):
        if inf.F_.name not in w.procs or E.fn_stack[-1] != inf.F_.name: return []
        out = [('in_used >= 0', lambda s: cmp('>=', priv(w, s, 'in_used'), P(0))), ('in_used <= in_count', lambda s: cmp('<=', priv(w, s, 'in_used'), priv(w, s, 'in_count')))]
        for k, v in st.mem.items():
            if k in inf.W and loops.kind_of(E, st, k) == 'f':
                out.append(('%s between the last and the requested ratio' % loops.cell_name(E, k), lambda s, k=k: And(fin(s.mem[k]), loops.betw(s.mem[k], w.cell(s, w.so, 'last_ratio'), w.cell(s, w.do, 'src_ratio')))))
                out.append(('0 <= %s < 1' % loops.cell_name(E, k), lambda s, k=k: And(fin(s.mem[k]), hold(val(s.mem[k]) >= 0), hold(val(s.mem[k]) < 1))))
        out += [(n, lambda s, i=i: w.ri(s)[i][1]) for i, (n, _) in enumerate(w.ri(st)) if 'position' not in n and 'ratio' not in n and 'whole' not in n]
        return out
    return h

def setup(c, conv, chv, variant='full', kinds='', term=''):
    """contract of the sinc process functions, with calc_output_* and prepare_data replaced by their contracts"""
    w = world(conv, chv, kinds=UN.kinds_of(kinds))
    s, r = w.generic_handle()
    s.mem[(w.so, ('mode',))] = P(0)
    E = c.use(w.E); E.want_termination = bool(term); E.debug = DEBUG
    if w.ch.is_const():
        requant(w, s)
        if w.ch.const > 1: E.scale_const = [w.ch.const]
    null = variant == 'innull'
    d = w.request(s, null, variant == 'outnull')
    UN.zero_counts(w, s); UN.last_ratio_set(w, s)
    fn = UN.target(w, s, 'vari_process')
    kind = chv
    E.contracts['prepare_data'] = pd_contract(w, null)
    E.contracts[CALC[kind]] = calc_contract(w, kind)
    c.contracts |= {'prepare_data', CALC[kind]}
    if w.ch != P(1): X.FACTOR.append(w.ch)
    E.mul_hint = {(w.po, (n,)) for n in ('b_current', 'b_end', 'in_used')}
    w.procs = {fn.name}; E.hints.append(hints(w)); E.split_div = True
    E.hints_only = c.stage()
    return w, s, r, d, fn, null

@unit
def sproc(c, conv, chv, variant='full', kinds='', term=''):
    """contract of the sinc process functions, with calc_output_* and prepare_data replaced by their contracts"""
    w, s, r, d, fn, null = setup(c, conv, chv, variant, kinds, term)
    E = w.E; name = canon(fn.name)
    before = dict(s.mem)
    res = E.run_function(s, fn, [r, d])
    E.covered.add(name)
    c.feasible_end([x for x, _ in res], name, 'normal return reachable')
    for s2, rv in res:
        c.post(s2, name, 'returns SRC_ERR_NO_ERROR', cmp('==', rv, P(0)))
        for n, f in w.ri(s2): c.post(s2, name, 'invariant kept: ' + n, f)
        c.post(s2, name, 'last ratio set and in range', And(fin(w.cell(s2, w.so, 'last_ratio')), hold(val(w.cell(s2, w.so, 'last_ratio')) >= RV(Fraction(1, 256)))))
        c.post(s2, name, '0 <= input_frames_used <= input_frames, 0 <= output_frames_gen <= output_frames', UN.counts_ok(w, s2))
        UN.frame(c, w, name, before, s2)

def requant(w, s):
    """const channel count: the generic positions are whole frames by construction"""
    if w.ch == P(1): return
    old = {n: priv(w, s, n) for n in ('b_current', 'b_end')}
    qatoms(w, s)
    for n, v in old.items(): s.assume(cmp('==', v, priv(w, s, n)))
