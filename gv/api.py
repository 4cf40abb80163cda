"""Units for src/samplerate.c (public API) and for construction, reset, clone, delete."""
from .run import *
from .run import unit
from .units import kinds_of, target, frame
from . import terms as T

ERR = dict(OK=0, MALLOC=1, STATE=2, DATA=3, PTR=4, RATIO=6, CONV=10, CHANS=11, OVERLAP=16, BADCB=17, MODE=18, NULLCB=19)
PROCESS, CALLBACK = 0, 1
VALID = lambda r: And(fin(r), hold(val(r) >= RV(Fraction(1, 256))), hold(val(r) <= 256))

def same_value(a, b):
    """same term (identity of symbolic values)"""
    if a is b: return True
    if type(a) != type(b): return False
    if isinstance(a, Arr): return False
    if isinstance(a, (Poly, Ptr, Fn)): return a == b
    if isinstance(a, Undef): return a.n == b.n
    return a.eq(b)
Undef = X.Undef

def eqf(a, b):
    """formula: equal values"""
    if same_value(a, b): return TRUE
    if isinstance(a, Poly) and isinstance(b, Poly): return cmp('==', a, b)
    if isinstance(a, (Ptr, Fn, Undef)) or isinstance(b, (Ptr, Fn, Undef)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and (a.oid, a.path) == (b.oid, b.path): return cmp('==', a.off, b.off)
        return FALSE
    if isinstance(a, (Poly, Arr)) or isinstance(b, (Poly, Arr)): return FALSE
    return hold(a == b)

class Abs:
    """an abstract handle: SRC_STATE of an unknown converter, whose vt functions are known
    only by their contracts"""
    def __init__(self, kinds=None):
        self.prog = program()
        self.E = E = Engine(self.prog, check_kinds=kinds)
        self.ch = X.ranged_atom('ch', 1, 2**31 - 1); (self.chn,) = self.ch.atoms()
        E.scale = [self.chn]; E.addr_scale = {}
        E.contracts = {}
        self.calls = []
    def struct_with(self, *names):
        for k, fl in self.prog.structs.items():
            if set(names) <= {n for n, _ in fl}: return ('struct', k)
        raise Unsupported('structure with fields %s not found' % (names,))
    def fn(self, name):
        n = self.prog.alias.get(name)
        if n is None or not self.prog.funcs[n].body: raise Unsupported('function %s not found' % name)
        return self.prog.funcs[n]
    def handle(self, s, mode=None, name='state', kind='heap'):
        E = self.E
        t = self.struct_with('vt', 'last_ratio')
        so = E.new_obj(s, name, kind, t, P(1))
        for p, ft in E.leaves(t): E.init_leaf(s, so, p, ft, False, name)
        vt = self.struct_with('vari_process', 'const_process')
        vo = E.new_obj(s, 'vt', 'static', vt, P(1))
        for p, ft in E.leaves(vt): s.mem[(vo, p)] = Fn('__vt_' + p[0])
        po = E.new_obj(s, 'private', 'heap', ('arr', ('int', 8, True), None), X.ranged_atom('psz', 1, 2**40))
        s.mem[(po, ())] = Base('private', 'I', ('int', 8, True))
        m = s.mem
        self.need(s, so, 'vt', 'channels', 'mode', 'callback_func', 'saved_data', 'saved_frames', 'last_ratio', 'last_position', 'error', 'private_data', 'user_callback_data')
        m[(so, ('vt',))] = Ptr(vo); m[(so, ('channels',))] = self.ch; m[(so, ('private_data',))] = Ptr(po)
        m[(so, ('mode',))] = P(mode) if mode is not None else X.ranged_atom('mode', 0, 1)
        uo = E.new_obj(s, 'userdata', 'caller', ('arr', ('int', 8, True), None), P(1))
        m[(uo, ())] = Base('user', 'I', ('int', 8, True))
        m[(so, ('user_callback_data',))] = Ptr(uo)
        m[(so, ('callback_func',))] = Fn('__cb'); m[(so, ('saved_data',))] = NULL
        m[(so, ('error',))] = X.ranged_atom('err', 0, 23)
        self.so, self.vo, self.po, self.uo = so, vo, po, uo
        for f in self.ri(s): s.assume(f)
        return Ptr(so)
    def need(self, s, o, *names):
        for n in names:
            if (o, (n,)) not in s.mem: raise Unsupported('field %s not found' % n)
    def ri(self, s):
        lr, lp = s.mem[(self.so, ('last_ratio',))], s.mem[(self.so, ('last_position',))]
        return [And(fin(lr), Or(hold(val(lr) == 0), And(hold(val(lr) >= RV(Fraction(1, 256))), hold(val(lr) <= 256)))),
                And(fin(lp), hold(val(lp) >= 0), hold(val(lp) <= 258))]
    def request(self, s, innull, outnull, neg=True, disjoint=False):
        E = self.E
        L = 2**63
        self.fi = X.ranged_atom('fi', -L if neg else 0, L - 1); self.fo = X.ranged_atom('fo', -L if neg else 0, L - 1)
        FT = ('float', 32)
        self.ni, self.no = X.ranged_atom('N_in', 0, 2**45), X.ranged_atom('N_out', 0, 2**45)
        self.io = self.oo = None
        t = self.struct_with('data_in', 'data_out', 'src_ratio')
        self.do = E.new_obj(s, 'SRC_DATA', 'caller', t, P(1)); d = self.do
        for p, ft in E.leaves(t): E.init_leaf(s, d, p, ft, False, 'data')
        self.need(s, d, 'data_in', 'data_out', 'input_frames', 'output_frames', 'input_frames_used', 'output_frames_gen', 'src_ratio', 'end_of_input')
        m = s.mem
        for nul, key, nm, n, f in ((innull, 'io', 'data_in', self.ni, self.fi), (outnull, 'oo', 'data_out', self.no, self.fo)):
            if nul: m[(d, (nm,))] = NULL; continue
            o = E.new_obj(s, nm, 'caller', ('arr', FT, None), n)
            setattr(self, key, o); m[(o, ())] = Base(nm, 'F', FT)
            if nm == 'data_in': s.objs[o]['ro'] = True
            m[(d, (nm,))] = Ptr(o); E.addr_scale[o] = 4
            s.assume(cmp('>=', n, pmul(f, self.ch)))      # the buffer is as long as announced
        m[(d, ('input_frames',))] = self.fi; m[(d, ('output_frames',))] = self.fo
        self.ratio = m[(d, ('src_ratio',))]
        return Ptr(d)

def converter_contract(w, kinds_post=True, anyret=False):
    """contract of vt->vari_process / const_process as the callers in samplerate.c see it"""
    E = w.E
    def mk(which):
        def f(E, st, args):
            sp, dp = args
            E.ob(st, 'pre', z3.BoolVal(isinstance(sp, Ptr) and sp == Ptr(w.so)), 'converter called with the handle')
            E.ob(st, 'pre', z3.BoolVal(isinstance(dp, Ptr) and dp.oid != 0 and dp.off == P(0)), 'converter called with a request')
            d = dp.oid; m = st.mem
            g = lambda n: m[(d, (n,))]
            fi, fo, r = g('input_frames'), g('output_frames'), g('src_ratio')
            lr = m[(w.so, ('last_ratio',))]
            E.ob(st, 'pre', And(cmp('>=', fi, P(0)), cmp('>=', fo, P(0))), 'converter called with frame counts >= 0')
            E.ob(st, 'pre', VALID(r), 'converter called with a valid ratio')
            E.ob(st, 'pre', VALID(lr), 'converter called with a valid last ratio')
            E.ob(st, 'pre', And(cmp('==', g('input_frames_used'), P(0)), cmp('==', g('output_frames_gen'), P(0))), 'result counts zeroed before conversion')
            for nm, n in (('data_in', fi), ('data_out', fo)):
                p = g(nm)
                if isinstance(p, Undef): E.ob(st, 'pre', FALSE, '%s is set' % nm); raise X.PathEnd()
                if p.oid == 0: E.ob(st, 'pre', cmp('==', n, P(0)), 'converter called with NULL %s only for no frames' % nm)
                else: E.ob(st, 'pre', And(cmp('>=', p.off, P(0)), Or(cmp('<=', n, P(0)), cmp('<=', padd(p.off, pmul(n, w.ch)), E.rlen(st, p.oid, p.path)))), '%s holds the announced frames' % nm)
            pi, po = g('data_in'), g('data_out')
            if pi.oid and po.oid and pi.oid in E.addr_scale and po.oid in E.addr_scale:
                ai, ao = E.addr(pi), E.addr(po)
                ei, eo = padd(ai, pscale(pmul(fi, w.ch), 4)), padd(ao, pscale(pmul(fo, w.ch), 4))
                E.ob(st, 'pre', Or(cmp('<=', ei, ao), cmp('<=', eo, ai), cmp('<=', fi, P(0)), cmp('<=', fo, P(0))), 'converter called with disjoint buffers')
            hook = getattr(w, 'on_convert', None)
            if hook: hook(E, st, which, d)
            st = st.fork(); m = st.mem
            u, gn = X.ranged_atom('used', 0, 2**62), X.ranged_atom('gen', 0, 2**62)
            st.assume(And(cmp('<=', u, fi), cmp('<=', gn, fo)))
            w.fresh_private(st)
            def wr(o, n, v):
                m[(o, (n,))] = v
                if st.wlog is not None: st.wlog.add((o, (n,)))
            wr(d, 'input_frames_used', u); wr(d, 'output_frames_gen', gn)
            wr(w.so, 'last_ratio', E.fresh(('float', 64), 'lr')); wr(w.so, 'last_position', E.fresh(('float', 64), 'lp'))
            for f_ in w.ri(st): st.assume(f_)
            st.assume(hold(val(m[(w.so, ('last_ratio',))]) >= RV(Fraction(1, 256))))
            if po.oid:
                m[(po.oid, po.path)] = Copy(m[(po.oid, po.path)], po.off, pmul(gn, w.ch), Base('conv', 'F', ('float', 32)), P(0))
                if st.wlog is not None: st.wlog.add((po.oid, po.path))
            post = getattr(w, 'after_convert', None)
            if post: post(E, st, d, u, gn)
            rv = X.ranged_atom('cret', 0, 23) if anyret else P(0)
            w.last_ret = rv
            if w.tagcalls: st.tag = (st.tag or ()) + (('called', which, (rv.key() if isinstance(rv, Poly) else None)),)
            return [(st, rv)]
        return f
    w.tagcalls = True
    w.fresh_private = lambda st: None
    E.contracts['__vt_vari_process'] = mk('vari'); E.contracts['__vt_const_process'] = mk('const')
    return E

def unchanged(c, w, before, st, name, skip=()):
    """all caller and handle memory is what it was"""
    for k, v in before.items():
        if not isinstance(k, tuple) or k in skip: continue
        if w.E.obinfo[k[0]].kind == 'local': continue
        v2 = st.mem.get(k)
        if v2 is None: c.fact(name, 'kept: %s' % X.desc_obj(w.E.obinfo[k[0]].name, k[1]), False); continue
        if same_value(v, v2): c.fact(name, 'unchanged: %s' % X.desc_obj(w.E.obinfo[k[0]].name, k[1]), True)
        elif isinstance(v, Arr): arr_same(c, w, st, name, k, v, v2)
        else: c.post(st, name, 'unchanged: %s' % X.desc_obj(w.E.obinfo[k[0]].name, k[1]), eqf(v, v2))

def arr_same(c, w, st, name, k, v, v2, lo=None, hi=None, what='unchanged'):
    i = X.ranged_atom('i', 0, 2**47)
    s = st.fork()
    if lo is not None: s.assume(cmp('>=', i, lo))
    if hi is not None: s.assume(cmp('<', i, hi))
    else: s.assume(cmp('<', i, w.E.rlen(st, k[0], k[1])))
    c.post(s, name, '%s: every element of %s' % (what, X.desc_obj(w.E.obinfo[k[0]].name, k[1])), eqf(v.sel(i), v2.sel(i)))

# ------------------------------------------------------------------ src_process
@unit
def process(c, kinds=''):
    """src_process: validation order, no side effect on rejection, converter called with its
    precondition established, result and counts passed through (C04 C05 C19 C01 C03)"""
    ks = kinds_of(kinds)
    # NULL handle
    w = Abs(ks); c.use(w.E); E = w.E; converter_contract(w)
    s = St(); w.handle(s); d = w.request(s, False, False); before = dict(s.mem)
    f = w.fn('src_process'); name = 'src_process'; E.covered.add(name)
    for s2, rv in E.run_function(s, f, [NULL, d]):
        c.post(s2, name, 'NULL handle: returns SRC_ERR_BAD_STATE', cmp('==', rv, P(ERR['STATE']))); unchanged(c, w, before, s2, name)
    for s2, rv in E.run_function(s, f, [NULL, NULL]):
        c.post(s2, name, 'NULL handle and request: returns SRC_ERR_BAD_STATE', cmp('==', rv, P(ERR['STATE'])))
    # NULL request
    w = Abs(ks); c.use(w.E); E = w.E; converter_contract(w)
    s = St(); h = w.handle(s); before = dict(s.mem)
    mode = s.mem[(w.so, ('mode',))]
    for s2, rv in E.run_function(s, f, [h, NULL]):
        c.fact(name, 'NULL request: converter not called', not s2.tag)
        c.post(s2, name, 'NULL request: SRC_ERR_BAD_MODE in callback mode, else SRC_ERR_BAD_DATA',
               Or(And(cmp('==', rv, P(ERR['MODE'])), cmp('!=', mode, P(PROCESS))), And(cmp('==', rv, P(ERR['DATA'])), cmp('==', mode, P(PROCESS)))))
        unchanged(c, w, before, s2, name)
    for innull in (False, True):
        for outnull in (False, True):
            w = Abs(ks); c.use(w.E); E = w.E; converter_contract(w, anyret=True)
            s = St(); h = w.handle(s); d = w.request(s, innull, outnull); before = dict(s.mem); m0 = dict(s.mem)
            mode = s.mem[(w.so, ('mode',))]; r = w.ratio; fi, fo = w.fi, w.fo
            lr0 = s.mem[(w.so, ('last_ratio',))]
            def on_convert(E_, st, which, d_):
                lr = st.mem[(w.so, ('last_ratio',))]
                E_.ob(st, 'ratio', Or(And(hold(val(lr0) < RV(Fraction(1, 256))), hold(lr == r)), And(hold(val(lr0) >= RV(Fraction(1, 256))), hold(lr == lr0))), 'the converter ramps from the ratio in force, or starts at the requested one', assume=False)
                E_.ob(st, 'ratio', hold(st.mem[(d_, ('src_ratio',))] == r), 'the converter is given the requested ratio', assume=False)
                if which == 'const': E_.ob(st, 'ratio', And(hold(val(lr) - val(r) <= RV(Fraction(1, 10**14))), hold(val(r) - val(lr) <= RV(Fraction(1, 10**14)))), 'the constant ratio path is taken only at an unchanged ratio', assume=False)
            w.on_convert = on_convert
            res = E.run_function(s, f, [h, d])
            e_mode = cmp('!=', mode, P(PROCESS))
            e_ptr = Or(cmp('>', fi, P(0)) if innull else FALSE, cmp('>', fo, P(0)) if outnull else FALSE)
            e_rat = Not(VALID(r))
            pos = lambda n: X.ite(cmp('>', n, P(0)), n, P(0), 'I')
            ai, ao = E.addr(m0[(w.do, ('data_in',))]), E.addr(m0[(w.do, ('data_out',))])
            bi, bo = pscale(pmul(fi, w.ch), 4), pscale(pmul(fo, w.ch), 4)
            # overlap of two non-empty ranges; ranges that are disjoint must be accepted
            nonempty = And(cmp('>', fi, P(0)), cmp('>', fo, P(0)))
            overlap = And(nonempty, cmp('<', ai, padd(ao, bo)), cmp('<', ao, padd(ai, bi)))
            z = lambda n, b: (lambda: None)
            disj = Or(And(cmp('>', fi, P(0)), cmp('<=', padd(ai, bi), ao)), And(cmp('<=', fi, P(0)), cmp('<', ai, ao)),
                      And(cmp('>', fo, P(0)), cmp('<=', padd(ao, bo), ai)), And(cmp('<=', fo, P(0)), cmp('<=', ao, ai)))
            tagv = 'in %s, out %s' % ('NULL' if innull else 'set', 'NULL' if outnull else 'set')
            called = [x for x in res if x[0].tag]
            c.feasible_end([x for x, _ in called], name, 'accepting path (%s)' % tagv)
            for s2, rv in res:
                if s2.tag:
                    c.fact(name, 'converter called once', len(s2.tag) == 1)
                    c.post(s2, name, 'converter called only in process mode', Not(e_mode)); c.post(s2, name, 'converter called only with usable pointers', Not(e_ptr))
                    c.post(s2, name, 'converter called only with a valid ratio', Not(e_rat)); c.post(s2, name, 'converter called only when the ranges do not overlap', Not(overlap))
                    c.post(s2, name, 'result of the converter is returned', cmp('==', rv, Poly(dict(s2.tag[-1][2]))))
                    c.post(s2, name, 'frame counts within the request', And(*[And(cmp('>=', s2.mem[(w.do, (a,))], P(0)), Or(cmp('<=', s2.mem[(w.do, (a,))], b), cmp('==', s2.mem[(w.do, (a,))], P(0)))) for a, b in (('input_frames_used', fi), ('output_frames_gen', fo))]))
                    skip = {(w.do, (n,)) for n in ('input_frames_used', 'output_frames_gen', 'input_frames', 'output_frames')} | {(w.so, ('last_ratio',)), (w.so, ('last_position',)), (w.oo, ())}
                    unchanged(c, w, before, s2, name, skip)
                    for n, v in (('input_frames', fi), ('output_frames', fo)):
                        x = s2.mem[(w.do, (n,))]
                        c.post(s2, name, 'negative %s treated as zero, others kept' % n, Or(cmp('==', x, v), And(cmp('<', v, P(0)), cmp('==', x, P(0)))))
                    for i, g in enumerate(w.ri(s2)): c.post(s2, name, 'handle stays valid (%d)' % i, g)
                else:
                    for code, cond in ((ERR['MODE'], e_mode), (ERR['PTR'], And(Not(e_mode), e_ptr)), (ERR['RATIO'], And(Not(e_mode), Not(e_ptr), e_rat)),
                                       (ERR['OVERLAP'], And(Not(e_mode), Not(e_ptr), Not(e_rat), Not(disj)))):
                        if isinstance(rv, Poly) and rv.is_const() and rv.const != code: continue
                        c.post(s2, name, 'error %d returned only in its case' % code, Implies(cmp('==', rv, P(code)), cond))
                    c.post(s2, name, 'a rejected request returns a documented error', Or(*[cmp('==', rv, P(k)) for k in (ERR['MODE'], ERR['PTR'], ERR['RATIO'], ERR['OVERLAP'])]))
                    unchanged(c, w, before, s2, name, {(w.do, ('input_frames',)), (w.do, ('output_frames',))})
                    for n, v in (('input_frames', fi), ('output_frames', fo)):
                        x = s2.mem[(w.do, (n,))]
                        c.post(s2, name, 'rejection keeps %s (or zero for a negative count)' % n, Or(cmp('==', x, v), And(cmp('<', v, P(0)), cmp('==', x, P(0)))))

# ------------------------------------------------------------------ ratios
@unit
def ratios(c, kinds=''):
    ks = kinds_of(kinds)
    w = Abs(ks); E = c.use(w.E); s = St()
    r = E.fresh(('float', 64), 'ratio')
    f = w.fn('src_is_valid_ratio'); E.covered.add('src_is_valid_ratio')
    for s2, rv in E.run_function(s, f, [r]):
        c.post(s2, 'src_is_valid_ratio', 'returns 1 exactly for finite ratios in [1/256,256], else 0', z3.If(VALID(r), cmp('==', rv, P(1)), cmp('==', rv, P(0))))
    f = w.fn('src_set_ratio'); name = 'src_set_ratio'; E.covered.add(name)
    for s2, rv in E.run_function(s, f, [NULL, r]): c.post(s2, name, 'NULL handle: SRC_ERR_BAD_STATE', cmp('==', rv, P(ERR['STATE'])))
    s = St(); h = w.handle(s); before = dict(s.mem); s.assume(VALID(r))
    c.feasible_end([s], name, 'valid ratio')
    for s2, rv in E.run_function(s, f, [h, r]):
        c.post(s2, name, 'valid ratio: returns 0', cmp('==', rv, P(0)))
        c.post(s2, name, 'valid ratio: stored', eqf(s2.mem[(w.so, ('last_ratio',))], r))
        unchanged(c, w, before, s2, name, {(w.so, ('last_ratio',))})
    s = St(); h = w.handle(s); before = dict(s.mem); s.assume(Not(VALID(r)))
    for s2, rv in E.run_function(s, f, [h, r]):
        c.post(s2, name, 'invalid ratio: SRC_ERR_BAD_SRC_RATIO', cmp('==', rv, P(ERR['RATIO'])))
        unchanged(c, w, before, s2, name)

# ------------------------------------------------------------------ sample conversion arrays
def arr_state(E, s, name, t, n, ro):
    o = E.new_obj(s, name, 'caller', ('arr', t, None), n); s.mem[(o, ())] = Base(name, 'F' if t[0] == 'float' else 'I', t)
    if ro: s.objs[o]['ro'] = True
    return o

def conv_arrays(c, fname, tin, tout, ks):
    w = Abs(ks); E = c.use(w.E); E.merge_backs = True; E.small_merge = 12; E.want_termination = True
    s = St(); E.scale = []
    n = X.ranged_atom('len', -2**31, 2**31 - 1)
    N = X.ite(cmp('>', n, P(0)), n, P(0), 'I')
    # the two arrays are distinct objects; elements outside [0,len) belong to somebody else
    slack = X.ranged_atom('slack', 0, 8)
    io = arr_state(E, s, 'in', tin, N, True); oo = arr_state(E, s, 'out', tout, N, False)
    before = dict(s.mem)
    f = w.fn(fname); E.covered.add(fname)
    res = E.run_function(s, f, [Ptr(io), Ptr(oo), n])
    c.feasible_end([x for x, _ in res], fname, 'returns')
    for s2, rv in res: 
        c.fact(fname, 'input array unchanged', s2.mem[(io, ())] is before[(io, ())])
    return w, E, res, io, oo, before, n

def elem(st, n):
    k = X.ranged_atom('k', 0, 2**31)
    s = st.fork(); s.assume(cmp('<', k, n))
    return s, k

@unit
def f2i(c, bits, kinds=''):
    """float -> 16/32 bit integers: nearest, ties to even, saturating (C06)"""
    T.F32FACTS = True
    bits = int(bits); nm = {16: 'src_float_to_short_array', 32: 'src_float_to_int_array'}[bits]
    w, E, res, io, oo, before, n = conv_arrays(c, nm, ('float', 32), ('int', bits, True), kinds_of(kinds))
    for s2, rv in res:
        s, k = elem(s2, n)
        x = before[(io, ())].sel(k); o = s2.mem[(oo, ())].sel(k)
        y = RV(2**(bits - 1)) * val(x); hi = 2**(bits - 1) - 1; lo = -2**(bits - 1)
        oz = o.z(); ro = z3.ToReal(oz)
        half = RV(Fraction(1, 2))
        fx = fin(x)
        c.post(s, nm, 'finite, at or above the top: clamped to the maximum', Implies(And(fx, hold(y >= hi)), oz == hi))
        c.post(s, nm, 'finite, at or below the bottom: clamped to the minimum', Implies(And(fx, hold(y <= lo)), oz == lo))
        c.post(s, nm, 'in range: nearest integer', Implies(And(fx, hold(y < hi), hold(y > lo)), And(ro - y <= half, y - ro <= half)))
        c.post(s, nm, 'in range: ties to even', Implies(And(fx, hold(y < hi), hold(y > lo), Or(ro - y == half, y - ro == half)), oz % 2 == 0))
        c.post(s, nm, '+infinity: maximum', Implies(rank(x) == 1, oz == hi)); c.post(s, nm, '-infinity: minimum', Implies(rank(x) == -1, oz == lo))

@unit
def i2f(c, bits, kinds=''):
    """16/32 bit integers -> float: exact scaling / nearest float (C07)"""
    T.F32FACTS = True
    bits = int(bits); nm = {16: 'src_short_to_float_array', 32: 'src_int_to_float_array'}[bits]
    w, E, res, io, oo, before, n = conv_arrays(c, nm, ('int', bits, True), ('float', 32), kinds_of(kinds))
    for s2, rv in res:
        s, k = elem(s2, n)
        x = before[(io, ())].sel(k); o = s2.mem[(oo, ())].sel(k)
        sc = RV(Fraction(1, 2**(bits - 1)))
        c.post(s, nm, 'result finite and within [-1,1]', And(fin(o), val(o) >= -1, val(o) <= 1))
        if bits == 16: c.post(s, nm, 'result is exactly s/2^15', val(o) == z3.ToReal(x.z()) * sc)
        else: c.post(s, nm, 'result is the float nearest to i/2^31', val(o) == val(hold(T.I2F32(x.z()))) * sc)

@unit
def roundtrip(c, kinds=''):
    """short -> float -> short is the identity (C07)"""
    T.F32FACTS = True
    w = Abs(kinds_of(kinds)); E = c.use(w.E); E.merge_backs = True; E.small_merge = 12; E.scale = []
    s = St(); n = X.ranged_atom('len', 0, 2**31 - 1)
    io = arr_state(E, s, 'in', ('int', 16, True), n, True); fo = arr_state(E, s, 'mid', ('float', 32), n, False); oo = arr_state(E, s, 'out', ('int', 16, True), n, False)
    a = s.mem[(io, ())]
    for s1, _ in E.run_function(s, w.fn('src_short_to_float_array'), [Ptr(io), Ptr(fo), n]):
        for s2, _ in E.run_function(s1, w.fn('src_float_to_short_array'), [Ptr(fo), Ptr(oo), n]):
            st, k = elem(s2, n)
            c.post(st, 'src_float_to_short_array', 'short to float to short returns the same sample', cmp('==', a.sel(k), s2.mem[(oo, ())].sel(k)))

# ------------------------------------------------------------------ names and strings
@unit
def names(c, kinds=''):
    w = Abs(kinds_of(kinds)); E = c.use(w.E); E.join = 10**9; E.merge_threshold = 10**9
    def text(r):
        if isinstance(r, Ptr) and r.oid == 0: return None
        if isinstance(r, Ptr) and E.obinfo[r.oid].kind == 'const' and r.off == P(0): return E.obinfo[r.oid].name[4:]
        raise Unsupported('returned string is not a literal')
    n = X.ranged_atom('n', -2**31, 2**31 - 1)
    allt = {}
    for fname in ('src_get_name', 'src_get_description'):
        f = w.fn(fname); E.covered.add(fname); s = St()
        seen = {}
        for s2, rv in E.run_function(s, f, [n]):
            if not solve.feasible(s2.allpc()): continue
            t = text(rv)
            if t is None: c.post(s2, fname, 'NULL only for numbers outside 0..4', Or(cmp('<', n, P(0)), cmp('>', n, P(4))))
            else:
                c.fact(fname, 'returned string is not empty', len(t) > 0)
                c.post(s2, fname, 'non-NULL only for converters 0..4', And(cmp('>=', n, P(0)), cmp('<=', n, P(4))))
                for k in range(5):
                    st = s2.fork(); st.assume(cmp('==', n, P(k)))
                    if solve.feasible(st.allpc()): seen.setdefault(k, set()).add(t)
        for k in range(5): c.fact(fname, 'converter %d has one string' % k, len(seen.get(k, ())) == 1)
        ts = [t for k in seen for t in seen[k]]
        c.fact(fname, 'strings of different converters differ', len(set(ts)) == len(ts))
        KEY = {3: 'ZOH', 4: 'Linear', 0: 'Best', 1: 'Medium', 2: 'Fastest'}
        if fname == 'src_get_name':
            for k in range(5): c.fact(fname, 'name of converter %d is its own (%s)' % (k, KEY[k]), any(KEY[k].lower() in t.lower() for t in seen.get(k, ())))
        else:
            DK = {3: 'zero', 4: 'linear', 0: '144', 1: '121', 2: '97'}
            for k in range(5): c.fact(fname, 'description of converter %d is its own (%s)' % (k, DK[k]), any(DK[k] in t.lower() for t in seen.get(k, ())))
    f = w.fn('src_strerror'); E.covered.add('src_strerror'); seen = {}
    for s2, rv in E.run_function(St(), f, [n]):
        if not solve.feasible(s2.allpc()): continue
        t = text(rv)
        if t is None: c.post(s2, 'src_strerror', 'NULL only outside the defined error numbers', Or(cmp('<', n, P(0)), cmp('>', n, P(22))))
        else:
            c.fact('src_strerror', 'error string is not empty', len(t) > 0)
            c.post(s2, 'src_strerror', 'non-NULL only for defined numbers', And(cmp('>=', n, P(0)), cmp('<=', n, P(23))))
            for k in range(24):
                st = s2.fork(); st.assume(cmp('==', n, P(k)))
                if solve.feasible(st.allpc()): seen.setdefault(k, set()).add(t)
    for k in range(23): c.fact('src_strerror', 'error %d has one string' % k, len(seen.get(k, ())) == 1)
    ts = [t for k in seen for t in seen[k]]
    c.fact('src_strerror', 'error strings are distinct', len(set(ts)) == len(ts))
    f = w.fn('src_get_version'); E.covered.add('src_get_version'); vs = {text(rv) for _, rv in E.run_function(St(), f, [])}
    c.fact('src_get_version', 'one fixed non-empty version string', len(vs) == 1 and bool(list(vs)[0]))
    f = w.fn('src_error'); E.covered.add('src_error')
    for s2, rv in E.run_function(St(), f, [NULL]): c.post(s2, 'src_error', 'NULL handle: 0', cmp('==', rv, P(0)))
    f = w.fn('src_get_channels'); E.covered.add('src_get_channels')
    for s2, rv in E.run_function(St(), f, [NULL]): c.post(s2, 'src_get_channels', 'NULL handle: -SRC_ERR_BAD_STATE', cmp('==', rv, P(-ERR['STATE'])))
    s = St(); h = w.handle(s); b = dict(s.mem)
    for s2, rv in E.run_function(s, w.fn('src_error'), [h]):
        c.post(s2, 'src_error', 'returns the stored error', cmp('==', rv, b[(w.so, ('error',))])); unchanged(c, w, b, s2, 'src_error')
    for s2, rv in E.run_function(s, w.fn('src_get_channels'), [h]):
        c.post(s2, 'src_get_channels', 'returns the channel count', cmp('==', rv, w.ch)); unchanged(c, w, b, s2, 'src_get_channels')
