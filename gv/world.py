"""Initial states, representation invariant and request preconditions for the contracts."""
import z3, time
from .terms import *
from . import terms as T
from . import front, solve, exec as X, loops
from .exec import *

NAMES = {0: 'sinc-best', 1: 'sinc-medium', 2: 'sinc-fastest', 3: 'zoh', 4: 'linear'}
MAXN = 2**45          # samples in one caller buffer: 2^47 bytes of user address space
_prog = None
def program():
    global _prog
    if _prog is None: _prog = front.load()
    return _prog

def reg_const(*xs):
    for x in xs: fconst(x)
reg_const(0.0, 1.0, 1.0 / 256, 256.0, 257.0, 0.5, 2.0, -1.0)

def world(conv, chv, kinds=None):
    """chv: 's' symbolic (all counts for zoh/linear), 'm' the sinc multichannel case, or a number"""
    conv = int(conv)
    if conv in (3, 4): return World(conv, None if chv in ('s', 'm') else int(chv), kinds=kinds)
    if chv in ('s', 'm'): return World(conv, None, ch_lo=3, ch_hi=128, kinds=kinds, excl=(4, 6))
    return World(conv, int(chv), kinds=kinds)

class World:
    """one converter kind, channel count symbolic or fixed"""
    def __init__(self, conv, channels=None, ch_lo=1, ch_hi=2**31 - 1, kinds=None, prog=None, excl=()):
        self.excl = excl
        self.prog = prog or program()
        self.conv = conv
        self.E = E = Engine(self.prog, check_kinds=kinds)
        if channels is None:
            self.ch = X.ranged_atom('ch', ch_lo, ch_hi, exact=False)
            (self.chn,) = self.ch.atoms()
            E.scale = [self.chn]
        else:
            self.ch = P(channels); self.chn = None
        E.addr_scale = {}

    def fn(self, name):
        n = self.prog.alias.get(name)
        if n is None or not self.prog.funcs[n].body: raise Unsupported('function %s not found' % name)
        return self.prog.funcs[n]

    def fresh_handle(self, st=None):
        """run the real constructor on every path without allocation failure"""
        E = self.E
        st = st or St()
        for x in self.excl: st.assume(cmp('!=', self.ch, P(x)))
        eo = E.new_obj(st, 'err', 'arg', ('int', 32, True)); st.mem[(eo, ())] = P(0)
        mf, E.malloc_may_fail = E.malloc_may_fail, False
        ck, E.checking = E.checking, False
        try: rs = E.run_function(st, self.fn('src_new'), [P(self.conv), self.ch, Ptr(eo)])
        finally: E.malloc_may_fail = mf; E.checking = ck
        rs = [(s, r) for s, r in rs if isinstance(r, Ptr) and r.oid and (len(rs) == 1 or solve.feasible(s.allpc()))]
        if len(rs) != 1: raise Unsupported('constructor has %d successful paths' % len(rs))
        s, r = rs[0]
        del s.objs[eo]; del s.mem[(eo, ())]
        self.locate(s, r)
        return s, r

    def locate(self, s, r):
        """find the objects a handle owns"""
        E = self.E
        self.so = r.oid
        pp = s.mem[(r.oid, ('private_data',))]
        self.po = pp.oid
        self.bufs = {}
        for p, ft in E.leaves(s.objs[self.po]['type']):
            v = s.mem.get((self.po, p))
            if isinstance(v, Ptr) and v.oid and E.obinfo[v.oid].kind == 'heap': self.bufs[p] = v.oid
        self.owned = [self.so, self.po] + list(self.bufs.values())

    def heap_objs(self, s):
        return [o for o in s.objs if self.E.obinfo[o].kind == 'heap' and s.objs[o]['alive'] == 'live']

    IMMUT_STATE = ('vt', 'channels', 'private_data', 'mode')
    IMMUT_PRIV = ('coeff_half_len', 'index_inc', 'b_len', 'sinc_magic_marker', 'zoh_magic_marker', 'linear_magic_marker')

    def immut(self, s, o, p, v):
        if isinstance(v, (Ptr, Fn)) and not (o == self.so and p[0] in ('saved_data', 'callback_func', 'user_callback_data')): return True
        if o == self.so: return p[0] in self.IMMUT_STATE
        if o == self.po: return p[0] in self.IMMUT_PRIV
        return False

    def generic_handle(self):
        """an arbitrary handle satisfying the representation invariant"""
        E = self.E
        s, r = self.fresh_handle()
        self.fixed = {}
        self.fresh_mem = dict(s.mem); self.fresh_state = s.fork()
        for o in self.owned:
            t = s.objs[o]['type']
            for p, ft in E.leaves(t) if t[0] == 'struct' else [((), t)]:
                k = (o, p)
                v = s.mem[k]
                if p and p[-1].startswith('$pad'): continue
                if self.immut(s, o, p, v): self.fixed[k] = v; continue
                if isinstance(v, (Ptr, Fn)): continue
                if ft[0] == 'arr': s.mem[k] = E.mkarr(ft[1], 'g_' + (p[-1] if p else 'buf'), False)
                else: s.mem[k] = E.fresh(ft, 'g_' + p[-1])
        if self.conv not in (3, 4) and not self.ch.is_const():
            # whole-frame positions are written as channels * atom
            q = lambda n: pmul(self.ch, X.ranged_atom('q_' + n, 0, 2**31))
            for n in ('b_current', 'b_end'):
                self.cell(s, self.po, n); s.mem[(self.po, (n,))] = q(n)
            self.cell(s, self.po, 'b_real_end')
            s.mem[(self.po, ('b_real_end',))] = X.ite(hold(z3.Bool(fresh_name('eof'))), q('b_real_end'), P(-1), 'I')
        for f in self.ri(s): s.assume(f[1])
        if not solve.feasible(s.allpc()): raise Unsupported('representation invariant is contradictory')
        self.pre = dict(s.mem)
        return s, r

    def cell(self, s, o, name):
        k = (o, (name,))
        if k not in s.mem: raise Unsupported('state field %s not found' % name)
        return s.mem[k]

    def ri(self, s):
        """representation invariant: list of (name, formula)"""
        lr = self.cell(s, self.so, 'last_ratio'); lp = self.cell(s, self.so, 'last_position')
        out = []
        out.append(('last ratio unset or in [1/256,256]', And(fin(lr), Or(hold(val(lr) == 0), And(hold(val(lr) >= RV(Fraction(1, 256))), hold(val(lr) <= 256))))))
        out.append(('position finite and >= 0', And(fin(lp), hold(val(lp) >= 0))))
        if self.conv in (3, 4):
            out.append(('position <= 258', hold(val(lp) <= 258)))
        else:
            out.append(('position < 1', hold(val(lp) < 1)))
            bc, be, br = (self.cell(s, self.po, n) for n in ('b_current', 'b_end', 'b_real_end'))
            bl = self.cell(s, self.po, 'b_len')
            out.append(('0 <= b_current <= b_end <= b_len', And(cmp('>=', bc, P(0)), cmp('<=', bc, be), cmp('<=', be, bl))))
            out.append(('b_current < b_len', cmp('<', bc, bl)))
            out.append(('b_current is 0 only before the first input', Or(cmp('>=', bc, P(1)), And(cmp('==', be, P(0)), cmp('==', br, P(-1))))))
            out.append(('b_real_end', Or(cmp('==', br, P(-1)), And(cmp('<=', P(0), br), cmp('<=', br, be)))))
            for nm, v in (('b_current', bc), ('b_end', be)):
                out.append(('%s whole frames' % nm, self.mult(v)))
        return out

    def mult(self, v, eof=False):
        """v is a whole number of frames (or -1 when eof): every summand is a multiple of the channel count"""
        if self.ch == P(1): return TRUE
        if pdiv_exact(v, self.ch) is not None: return TRUE
        if eof and v == P(-1): return TRUE
        if self.ch.is_const():
            q, r = self.E.divmod_const(v, self.ch.const)
            return Or(cmp('==', r, P(0)), cmp('==', v, P(-1)) if eof else FALSE)
        rest = {}; out = []
        (cm, cc), = self.ch.t.items() if len(self.ch.t) == 1 else (((), 1),)
        for m, c in v.t.items():
            if cm[0] in m: continue
            if len(m) == 1 and m[0] in X.ITE_DEF:
                cnd, a, b = X.ITE_DEF[m[0]]
                alone = eof and len(v.t) == 1 and c == 1
                out.append(And(Implies(cnd, self.mult(a, alone)), Implies(Not(cnd), self.mult(b, alone)))); continue
            rest[m] = c
        if rest: return FALSE
        return And(*out)

    def request(self, s, in_null=False, out_null=False):
        """a valid process request with its own buffers"""
        E = self.E
        fi = P(0) if in_null else X.ranged_atom('in_frames', 0, 2**45, exact=False)
        fo = P(0) if out_null else X.ranged_atom('out_frames', 0, 2**45, exact=False)
        self.fi, self.fo = fi, fo
        ni, no = pmul(fi, self.ch), pmul(fo, self.ch)
        s.assume(And(cmp('<=', ni, P(MAXN)), cmp('<=', no, P(MAXN))))
        self.ni, self.no = ni, no
        FT = ('float', 32)
        self.io = E.new_obj(s, 'data_in', 'caller', ('arr', FT, None), ni); s.objs[self.io]['ro'] = True
        s.mem[(self.io, ())] = Base('in', 'F', FT)
        self.oo = E.new_obj(s, 'data_out', 'caller', ('arr', FT, None), no)
        s.mem[(self.oo, ())] = Base('out', 'F', FT)
        t = None
        for k, fl in self.prog.structs.items():
            if {'data_in', 'data_out', 'src_ratio'} <= {n for n, _ in fl}: t = ('struct', k)
        if t is None: raise Unsupported('SRC_DATA not found')
        self.do = E.new_obj(s, 'SRC_DATA', 'caller', t, P(1))
        for p, ft in E.leaves(t):
            E.init_leaf(s, self.do, p, ft, False, 'data')
        m = s.mem; d = self.do
        m[(d, ('data_in',))] = NULL if in_null else Ptr(self.io); m[(d, ('data_out',))] = NULL if out_null else Ptr(self.oo)
        m[(d, ('input_frames',))] = fi; m[(d, ('output_frames',))] = fo
        ei = X.ranged_atom('eoi', -2**31, 2**31 - 1); m[(d, ('end_of_input',))] = ei
        r = m[(d, ('src_ratio',))]
        s.assume(And(fin(r), hold(val(r) >= RV(Fraction(1, 256))), hold(val(r) <= 256)))
        # the caller's buffers do not overlap (addresses in samples)
        E.addr_scale = {self.io: 4, self.oo: 4}
        ai, ao = E.addr(Ptr(self.io)), E.addr(Ptr(self.oo))
        s.assume(Or(cmp('<=', padd(ai, pscale(ni, 4)), ao), cmp('<=', padd(ao, pscale(no, 4)), ai)))
        return Ptr(d)
