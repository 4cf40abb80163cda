"""src_callback_read over the contracts of the user's callback and of the converter (C13, C18).

Ghost state: blk = frames in the block the callback supplied last, cons = frames of it consumed so
far, gen = frames delivered by this read.  The handle's saved input is blk - cons frames starting at
frame cons of that block (invariant, proved again at the end of every read).  The converter contract
carries the ghost measure `need` (frames it can consume before it must generate one)."""
from .run import *
from .run import unit
from . import units as UN
from .api import *
from .loops import get

GT = 'tag-gv_cb_ghost'

class Cb:
    def __init__(self, kinds, start, term=False):
        self.w = w = Abs(kinds); self.E = E = w.E; self.term = term
        converter_contract(w)
        self.s = s = St(); self.h = w.handle(s, CALLBACK)
        m = s.mem
        E.prog.structs[GT] = [(n, ('int', 64, True)) for n in ('blk', 'cons', 'gen', 'need', 'asked')]
        self.go = go = E.new_obj(s, 'ghost', 'ghost', ('struct', GT), P(1))
        FT = ('float', 32)
        self.bo = E.new_obj(s, 'block', 'caller', ('arr', FT, None), P(2**46)); m[(self.bo, ())] = Base('block', 'F', FT); s.objs[self.bo]['ro'] = True
        self.bad = {'nodata': 'PTR', 'overlap': 'OVERLAP'}.get(start)   # requests the converter call refuses once the data are known
        blk, cons = (P(0), P(0)) if start == 'null' else (X.ranged_atom('blk', 0, 2**45), X.ranged_atom('cons', 0, 2**45))
        s.assume(And(cmp('<=', cons, blk), cmp('<=', pmul(blk, w.ch), P(2**45))))
        for n, v in (('blk', blk), ('cons', cons), ('gen', P(0)), ('need', X.ranged_atom('need', 0, 2**40)), ('asked', P(0))): m[(go, (n,))] = v
        m[(w.so, ('saved_frames',))] = psub(blk, cons)
        m[(w.so, ('saved_data',))] = NULL if start == 'null' else Ptr(self.bo, (), pmul(cons, w.ch))
        self.frames = X.ranged_atom('frames', -2**63, 2**63 - 1)
        self.N = X.ranged_atom('N_out', 0, 2**45)
        self.oo = w.oo = E.new_obj(s, 'data', 'caller', ('arr', FT, None), self.N); m[(self.oo, ())] = Base('data', 'F', FT)
        s.assume(cmp('>=', self.N, pmul(self.frames, w.ch)))
        E.addr_scale = {self.oo: 4, self.bo: 4}
        ai, ao = E.addr(Ptr(self.bo)), E.addr(Ptr(self.oo))
        if start != 'overlap': s.assume(Or(cmp('<=', padd(ai, P(2**48)), ao), cmp('<=', padd(ao, pscale(self.N, 4)), ai)))     # blocks supplied do not overlap the output
        self.ratio = E.fresh(('float', 64), 'ratio')
        E.contracts['__cb'] = self.callback
        w.on_convert = self.on_convert; w.after_convert = self.after_convert
        w.tagcalls = False
        def wm(E_, st, oid, path, off, v):
            if oid == self.oo: E_.ob(st, 'frame', FALSE, 'output written only by the converter')
        E.monitors.append(wm)

    def g(self, st, n): return st.mem[(self.go, (n,))]
    def set(self, st, n, v):
        st.mem[(self.go, (n,))] = v
        if st.wlog is not None: st.wlog.add((self.go, (n,)))

    def callback(self, E, st, a):
        w = self.w
        ob = lambda c, d: E.ob(st, 'pre', c, d)
        ob(z3.BoolVal(len(a) == 2 and a[0] == Ptr(w.uo)), 'callback gets the registered user data')
        ob(cmp('==', self.g(st, 'cons'), self.g(st, 'blk')), 'callback asked for data only when everything supplied before is consumed')
        ob(cmp('<', self.g(st, 'gen'), self.frames), 'callback asked only while frames are missing')
        outs = []
        s0 = st.fork(); s1 = st.fork()
        n = X.ranged_atom('supplied', 0, 2**45); s1.assume(cmp('<=', pmul(n, w.ch), P(2**45)))
        pp = a[1]
        for s, v in ((s0, P(0)), (s1, n)):
            self.set(s, 'blk', v); self.set(s, 'cons', P(0)); self.set(s, 'asked', P(1))
        E.write(s1, E.deref(s1, pp, ('ptr', ('float', 32))), Ptr(self.bo, (), P(0)))
        return [(s0, P(0)), (s1, n)]

    def on_convert(self, E, st, which, d):
        w = self.w; m = st.mem
        p, n, q, k = m[(d, ('data_in',))], m[(d, ('input_frames',))], m[(d, ('data_out',))], m[(d, ('output_frames',))]
        blk, cons, gen = (self.g(st, x) for x in ('blk', 'cons', 'gen'))
        ob = lambda c, t: E.ob(st, 'pre', c, t)
        ob(cmp('==', n, psub(blk, cons)), 'the converter is offered all frames supplied and not yet consumed')
        if isinstance(p, Ptr) and p.oid == self.bo: ob(Or(cmp('==', n, P(0)), cmp('==', p.off, pmul(cons, w.ch))), 'in order, starting with the first one not consumed')
        else: ob(cmp('==', n, P(0)), 'no input without a block')
        ob(cmp('==', k, psub(self.frames, gen)), 'the converter is asked for the frames still missing')
        ob(z3.BoolVal(isinstance(q, Ptr) and q.oid == self.oo and q.path == ()), 'output goes to the caller\'s buffer')
        ob(cmp('==', q.off, pmul(gen, w.ch)) if isinstance(q, Ptr) else FALSE, 'output follows the frames already delivered')
        e = m[(d, ('end_of_input',))]
        ob(Or(cmp('!=', e, P(0)), cmp('>', n, P(0))), 'no input is offered only at the end of input')
        ob(feq(m[(d, ('src_ratio',))], self.ratio), 'the ratio asked for is used')

    def after_convert(self, E, st, d, u, gn):
        self.set(st, 'cons', padd(self.g(st, 'cons'), u)); self.set(st, 'gen', padd(self.g(st, 'gen'), gn))
        n0 = self.g(st, 'need'); n1 = X.ranged_atom('need', 0, 2**40); self.set(st, 'need', n1)
        st.assume(Implies(cmp('==', gn, P(0)), cmp('<=', padd(n1, u), n0)))

    def loop_hook(self, inf, pairs, leaves):
        """termination: (frames missing, need) decreases lexicographically on every iteration"""
        E = self.E
        if not E.checking or not self.term: return
        F_ = inf.F_; where = '%s:%s' % (F_.instrs[inf.h].file, F_.instrs[inf.h].line)
        if (self.go, ('gen',)) not in inf.W: return
        for m, h, b in pairs:
            g0, g1, n0, n1 = get(h, (self.go, ('gen',))), get(b, (self.go, ('gen',))), get(h, (self.go, ('need',))), get(b, (self.go, ('need',)))
            goal = And(cmp('<=', g0, self.frames), Or(cmp('>', g1, g0), And(cmp('==', g1, g0), cmp('<', n1, n0))))
            r = solve.check(b.allpc(), goal, 10000)
            E.obs.append(X.Ob('term', E.fname(), where, 'every iteration delivers a frame or brings the next one closer', r, False))

def hints(cb):
    w = cb.w
    def h(E, inf, m, st):
        out = []
        def okcell(k): return isinstance(k, tuple) and k in st.mem and kind_of(E, st, k) == 'i'
        go, fr = cb.go, cb.frames
        g = lambda s, n: get(s, (go, (n,)))
        out.append(('0 <= consumed <= supplied', lambda s: And(cmp('>=', g(s, 'cons'), P(0)), cmp('<=', g(s, 'cons'), g(s, 'blk')))))
        out.append(('supplied samples bounded', lambda s: And(cmp('<=', pmul(g(s, 'blk'), w.ch), P(2**45)), cmp('>=', g(s, 'blk'), P(0)))))
        out.append(('0 <= delivered <= frames', lambda s: And(cmp('>=', g(s, 'gen'), P(0)), cmp('<=', g(s, 'gen'), fr))))
        out.append(('need >= 0', lambda s: cmp('>=', g(s, 'need'), P(0))))
        for k in [k for k in st.mem if isinstance(k, tuple) and k[0] != go and k[0] in st.objs]:
            kd = kind_of(E, st, k); nm = cell_name(E, k)
            if kd == 'i':
                if k not in inf.W: continue
                out.append((nm + ' = supplied - consumed', lambda s, k=k: cmp('==', get(s, k), psub(g(s, 'blk'), g(s, 'cons')))))
                out.append((nm + ' = frames - delivered', lambda s, k=k: cmp('==', get(s, k), psub(fr, g(s, 'gen')))))
                out.append((nm + ' = delivered', lambda s, k=k: cmp('==', get(s, k), g(s, 'gen'))))
            elif kd == 'p' and k in inf.W:
                p = st.mem[k]
                if p.oid == cb.bo: out.append((nm + ' = block + consumed', lambda s, k=k: Or(cmp('==', g(s, 'cons'), g(s, 'blk')), cmp('==', get(s, k), pmul(g(s, 'cons'), w.ch)))))
                if p.oid == cb.oo: out.append((nm + ' = data + delivered', lambda s, k=k: cmp('==', get(s, k), pmul(g(s, 'gen'), w.ch))))
        for i, f in enumerate(w.ri(st)): out.append(('handle invariant %d' % i, lambda s, i=i: w.ri(s)[i]))
        return out
    return h

from .loops import kind_of, cell_name

@unit
def cbread(c, start='pending', kinds='', term=''):
    ks = UN.kinds_of(kinds); name = 'src_callback_read'
    # rejected requests
    def fresh():
        cb = Cb(ks, start, bool(term)); c.use(cb.E); cb.E.debug = DEBUG; return cb
    rej = lambda cb, s2, before, code, what: reject(c, cb, s2, before, code, what)
    cb = fresh(); E = cb.E; w = cb.w; f = w.fn(name); E.covered.add(name)
    if not term and not cb.bad:
        before = dict(cb.s.mem)
        for s2, rv in E.run_function(cb.s, f, [NULL, cb.ratio, cb.frames, Ptr(cb.oo)]):
            c.post(s2, name, 'NULL handle: returns 0', cmp('==', rv, P(0))); reject(c, cb, s2, before, None, 'NULL handle')
        s = cb.s.fork(); s.assume(cmp('<=', cb.frames, P(0)))
        for s2, rv in E.run_function(s, f, [cb.h, cb.ratio, cb.frames, Ptr(cb.oo)]):
            c.post(s2, name, 'no frames asked for: returns 0', cmp('==', rv, P(0))); reject(c, cb, s2, before, None, 'no frames asked for')
        s = cb.s.fork(); s.assume(cmp('>', cb.frames, P(0))); s.mem[(w.so, ('mode',))] = P(PROCESS); b2 = dict(s.mem)
        for s2, rv in E.run_function(s, f, [cb.h, cb.ratio, cb.frames, Ptr(cb.oo)]):
            c.post(s2, name, 'wrong mode: returns 0', cmp('==', rv, P(0))); reject(c, cb, s2, b2, ERR['MODE'], 'wrong mode')
        s = cb.s.fork(); s.assume(cmp('>', cb.frames, P(0))); s.assume(Not(VALID(cb.ratio)))
        for s2, rv in E.run_function(s, f, [cb.h, cb.ratio, cb.frames, Ptr(cb.oo)]):
            c.post(s2, name, 'invalid ratio: returns 0', cmp('==', rv, P(0))); reject(c, cb, s2, before, ERR['RATIO'], 'invalid ratio')
    # accepted requests
    cb = fresh(); E = cb.E; w = cb.w
    s = cb.s; s.assume(cmp('>', cb.frames, P(0))); s.assume(VALID(cb.ratio)); before = dict(s.mem)
    E.hints.append(hints(cb)); E.loop_hook = cb.loop_hook
    res = E.run_function(s, f, [cb.h, cb.ratio, cb.frames, NULL if start == 'nodata' else Ptr(cb.oo)])
    c.feasible_end([x for x, _ in res], name, 'normal return reachable')
    for s2, rv in res:
        g = lambda n: cb.g(s2, n)
        if cb.bad:
            err, e0 = s2.mem[(w.so, ('error',))], before[(w.so, ('error',))]
            bad = And(cmp('==', rv, P(0)), cmp('==', err, P(ERR[cb.bad])))
            c.post(s2, name, 'refused: returns 0 and records the error; else returns the number of frames delivered', bad if start == 'nodata' else Or(bad, And(cmp('==', rv, g('gen')), cmp('==', err, e0))))
        else: c.post(s2, name, 'returns the number of frames delivered', cmp('==', rv, g('gen')))
        c.post(s2, name, 'between 0 and the frames asked for', And(cmp('>=', rv, P(0)), cmp('<=', rv, cb.frames)))
        c.post(s2, name, 'handle is in callback mode', cmp('==', s2.mem[(w.so, ('mode',))], P(CALLBACK)))
        sf, sd = s2.mem[(w.so, ('saved_frames',))], s2.mem[(w.so, ('saved_data',))]
        c.post(s2, name, 'frames supplied and not consumed are kept', cmp('==', sf, psub(g('blk'), g('cons'))))
        at = And(cmp('==', sd.off, pmul(g('cons'), w.ch))) if isinstance(sd, Ptr) and sd.oid == cb.bo else FALSE
        c.post(s2, name, 'kept frames start at the first one not consumed', Or(cmp('==', sf, P(0)), at))
        c.post(s2, name, 'block bounds kept', And(cmp('>=', g('cons'), P(0)), cmp('<=', g('cons'), g('blk'))))
        for i, q in enumerate(w.ri(s2)): c.post(s2, name, 'handle stays valid (%d)' % i, q)
        skip = {(w.so, (n,)) for n in ('saved_frames', 'saved_data', 'last_ratio', 'last_position') + (('error',) if cb.bad else ())} | {(cb.oo, ())} | {(cb.go, (n,)) for n in ('blk', 'cons', 'gen', 'need', 'asked')}
        unchanged(c, w, before, s2, name, skip)

def reject(c, cb, s2, before, code, what):
    w = cb.w; name = 'src_callback_read'
    skip = set()
    if code is not None:
        c.post(s2, name, '%s: the matching error is recorded' % what, cmp('==', s2.mem[(w.so, ('error',))], P(code))); skip = {(w.so, ('error',))}
    c.post(s2, name, '%s: the callback is not called' % what, cmp('==', cb.g(s2, 'asked'), P(0)))
    unchanged(c, w, before, s2, name, skip)
DEBUG = False
