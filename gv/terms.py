"""Terms: integer polynomials over named atoms, abstract floating point, and the
registry of definitional facts / lemma instances that queries pull in.

Integers are mathematical (every C operation that could overflow generates an
obligation, conversions wrap explicitly).  Floating point values live in an
uninterpreted sort F with an interpretation  val: F -> Real,  rank: F -> Int
(0 finite, +-1 infinite, 2 NaN); operations are uninterpreted functions constrained
by instances of the IEEE-754 binary64 lemmas listed in FP_LEMMAS."""
import z3, struct, itertools
from fractions import Fraction

F = z3.DeclareSort('F')
VAL = z3.Function('val', F, z3.RealSort())
RANK = z3.Function('rank', F, z3.IntSort())
_fun2 = {}
def fun(name, *sorts):
    k = (name,) + sorts
    if k not in _fun2: _fun2[k] = z3.Function(name, *sorts)
    return _fun2[k]
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
FADD = fun('fadd', F, F, F); FSUB = fun('fsub', F, F, F); FMUL = fun('fmul', F, F, F); FDIV = fun('fdiv', F, F, F)
FADD32 = fun('fadd32', F, F, F); FSUB32 = fun('fsub32', F, F, F); FMUL32 = fun('fmul32', F, F, F); FDIV32 = fun('fdiv32', F, F, F)
FNEG = fun('fneg', F, F); FABS = fun('fabs', F, F); ROUND32 = fun('round32', F, F)
I2D = fun('i2d', I, F); I2F32 = fun('i2f32', I, F); LRINT = fun('lrint32', F, I); F2I = fun('f2i', F, I)
FLOOR = fun('ffloor', F, F)

U = Fraction(1, 2**53)

def RV(q):
    q = Fraction(q)
    return z3.RealVal('%d/%d' % (q.numerator, q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)

TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)
def isT(b): return z3.is_true(b)
def isF(b): return z3.is_false(b)
def And(*a):
    a = list(itertools.chain.from_iterable(x if isinstance(x, (list, tuple)) else [x] for x in a))
    a = [x for x in a if not isT(x)]
    if any(isF(x) for x in a): return FALSE
    return TRUE if not a else a[0] if len(a) == 1 else z3.And(*a)
def Or(*a):
    a = list(itertools.chain.from_iterable(x if isinstance(x, (list, tuple)) else [x] for x in a))
    a = [x for x in a if not isF(x)]
    if any(isT(x) for x in a): return TRUE
    return FALSE if not a else a[0] if len(a) == 1 else z3.Or(*a)
def Not(a):
    if isT(a): return FALSE
    if isF(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def Implies(a, b):
    if isT(a): return b
    if isF(a) or isT(b): return TRUE
    return z3.Implies(a, b)

# ---------------------------------------------------------------- atoms and polys
ATOM = {}        # name -> z3 Int term
ATOMFACT = {}    # name -> list of z3 facts
ATOM_BY_AST = {} # ast id -> name
MONO = {}        # monomial tuple -> name of z3 Int var
MONO_INV = {}
CMP = {}         # z3 bool ast id -> (Poly diff, z3 bool)   nonlinear comparisons
POSATOM = set()  # atoms known >= 1 (for cheap sign reasoning)
_ctr = itertools.count()
_hold = []       # keep z3 asts alive so ids stay unique

def hold(x):
    _hold.append(x); return x

def fresh_name(base): return '%s!%d' % (base, next(_ctr))

class Poly:
    __slots__ = ('t', '_z', '_h')
    def __init__(self, t): self.t = t; self._z = None; self._h = None
    @property
    def const(self):
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def key(self):
        if self._h is None: self._h = tuple(sorted(self.t.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __hash__(self): return hash(self.key())
    def __repr__(self): return ' + '.join(('%d' % c if not m else ('' if c == 1 else '%d*' % c) + '*'.join(m)) for m, c in sorted(self.t.items())) or '0'
    def atoms(self):
        s = set()
        for m in self.t: s.update(m)
        return s
    def nonlinear(self): return any(len(m) > 1 for m in self.t)
    def z(self):
        if self._z is None:
            if self.is_const(): self._z = z3.IntVal(self.const)
            else:
                a = []
                for m, c in sorted(self.t.items()):
                    if not m: a.append(z3.IntVal(c)); continue
                    v = ATOM[m[0]] if len(m) == 1 else mono(m)
                    a.append(v if c == 1 else c * v)
                self._z = a[0] if len(a) == 1 else z3.Sum(*a)
            hold(self._z)
        return self._z

def mono(m):
    if m not in MONO:
        n = 'm{' + '*'.join(m) + '}'
        v = z3.Int(n); hold(v)
        MONO[m] = v; MONO_INV[n] = m
    return MONO[m]

def P(c): return Poly({(): c} if c else {})
def padd(a, b):
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + c
        if n: t[m] = n
        else: t.pop(m, None)
    return Poly(t)
def pscale(a, k): return Poly({m: c * k for m, c in a.t.items()}) if k else P(0)
def psub(a, b): return padd(a, pscale(b, -1))
def pmul(a, b):
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2)); n = t.get(m, 0) + c1 * c2
            if n: t[m] = n
            else: t.pop(m, None)
    return Poly(t)
def pdiv_exact(a, b):
    """exact polynomial quotient a/b or None; b a constant, an atom, const*atom or monomial"""
    if b.is_const():
        k = b.const
        if k == 0 or any(c % k for c in a.t.values()): return None
        return Poly({m: c // k for m, c in a.t.items()})
    if len(b.t) != 1: return P(1) if a == b else (P(0) if not a.t else None)
    (bm, bc), = b.t.items()
    t = {}
    for m, c in a.t.items():
        l = list(m)
        for x in bm:
            if x not in l: return None
            l.remove(x)
        if c % bc: return None
        t[tuple(l)] = c // bc
    return Poly(t)

def atom(base, facts=None, lo=None, hi=None, exact=False):
    """fresh (or named) integer atom"""
    n = base if exact else fresh_name(base)
    if n in ATOM: return Poly({(n,): 1})
    v = z3.Int(n); hold(v); ATOM[n] = v
    fs = ATOMFACT.setdefault(n, [])
    if lo is not None: fs.append(hold(v >= lo))
    if hi is not None: fs.append(hold(v <= hi))
    if facts: fs += [hold(f) for f in facts]
    return Poly({(n,): 1})

def add_fact(p, f):
    (m, c), = p.t.items()
    ATOMFACT[m[0]].append(hold(f))

TERM_ATOM = {}
TERM_OF_ATOM = {}
def atom_of_term(t, lo=None, hi=None):
    """atom standing for an Int-sorted z3 application (e.g. lrint32(x), sel(i))"""
    k = t.get_id()
    if k not in TERM_ATOM:
        hold(t)
        n = fresh_name('t_' + t.decl().name())
        ATOM[n] = t; ATOMFACT[n] = []
        if lo is not None: ATOMFACT[n].append(hold(t >= lo))
        if hi is not None: ATOMFACT[n].append(hold(t <= hi))
        TERM_ATOM[k] = n; ATOM_BY_AST[k] = n; TERM_OF_ATOM[n] = t
    return Poly({(TERM_ATOM[k],): 1})

CMP_TERMS = []
def cmp(op, a, b):
    """z3 Bool for a op b (Polys)"""
    d = psub(a, b)
    if d.is_const():
        c = d.const
        return z3.BoolVal({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op])
    # divide by common constant factor / common positive atom
    d = reduce_common(d)
    # drop to canonical form: positive side / negative side
    zc = d.z()
    r = {'<': zc < 0, '<=': zc <= 0, '>': zc > 0, '>=': zc >= 0, '==': zc == 0}.get(op)
    if r is None:
        r0 = hold(zc == 0)
        if d.nonlinear(): CMP[r0.get_id()] = d
        return hold(z3.Not(r0))
    hold(r)
    if d.nonlinear(): CMP[r.get_id()] = d
    return r

def reduce_common(d):
    """divide d by atoms common to every monomial that are known positive (sign preserving)"""
    ms = list(d.t)
    if () in d.t: return d
    com = set(ms[0])
    for m in ms[1:]: com &= set(m)
    for a in com:
        if a in POSATOM and any(len(m) > 1 for m in d.t):
            q = pdiv_exact(d, Poly({(a,): 1}))
            if q is not None: return reduce_common(q)
    return d

# ---------------------------------------------------------------- floating point
FCONST = {}      # bits -> F const
FCVAL = {}       # ast id -> python float
def fconst(x):
    if x == 0.0: x = 0.0 if struct.pack('>d', x)[0] == 0 else -0.0
    k = struct.pack('>d', x).hex()
    if k not in FCONST:
        c = z3.Const('fc_%s_%r' % (k, x), F); hold(c)
        FCONST[k] = c; FCVAL[c.get_id()] = x
    return FCONST[k]
def fcval(t): return FCVAL.get(t.get_id())

def is_ite(t): return z3.is_app_of(t, z3.Z3_OP_ITE)

def val(t):
    c = fcval(t)
    if c is not None and c == c and abs(c) != float('inf'): return RV(Fraction(c))
    if is_ite(t): return z3.If(t.arg(0), val(t.arg(1)), val(t.arg(2)))
    return VAL(t)
def rank(t):
    c = fcval(t)
    if c is not None:
        return z3.IntVal(2 if c != c else 0 if abs(c) != float('inf') else (1 if c > 0 else -1))
    if t.decl().eq(I2D): return z3.IntVal(0)
    if is_ite(t): return z3.If(t.arg(0), rank(t.arg(1)), rank(t.arg(2)))
    return RANK(t)
def _eqi(a, k):
    if z3.is_int_value(a): return z3.BoolVal(a.as_long() == k)
    return hold(a == k)
def fin(t): return _eqi(rank(t), 0)
def isnan(t): return _eqi(rank(t), 2)

def flt(a, b):
    x, y = fcval(a), fcval(b)
    if x is not None and y is not None: return z3.BoolVal(x < y)
    return And(Not(isnan(a)), Not(isnan(b)), Or(And(fin(a), fin(b), hold(val(a) < val(b))),
        And(Not(And(fin(a), fin(b))), hold(rank(a) < rank(b)))))
def fle(a, b):
    x, y = fcval(a), fcval(b)
    if x is not None and y is not None: return z3.BoolVal(x <= y)
    return And(Not(isnan(a)), Not(isnan(b)), Or(And(fin(a), fin(b), hold(val(a) <= val(b))),
        And(Not(And(fin(a), fin(b))), hold(rank(a) <= rank(b)))))
def feq(a, b):
    x, y = fcval(a), fcval(b)
    if x is not None and y is not None: return z3.BoolVal(x == y)
    return And(Not(isnan(a)), Not(isnan(b)), hold(rank(a) == rank(b)), Or(Not(fin(a)), hold(val(a) == val(b))))

def _pyop(op, x, y):
    import math
    try:
        if op == 'add': return x + y
        if op == 'sub': return x - y
        if op == 'mul': return x * y
        if op == 'div':
            if y == 0: return None
            return x / y
    except OverflowError:
        return None

def r32(x):
    return struct.unpack('f', struct.pack('f', x))[0]

def fop(op, a, b, w=64):
    x, y = fcval(a), fcval(b)
    if x is not None and y is not None:
        r = _pyop(op, x, y)
        if r is not None:
            if w == 32:
                try: r = r32(r)     # double rounding is innocuous for + - * / of binary32
                except OverflowError: r = None
            if r is not None: return fconst(r)
    if w == 64 and op == 'mul' and x == 1: return b
    if w == 64 and op in ('mul', 'div') and y == 1: return a
    if op in ('add', 'mul') and a.get_id() > b.get_id(): a, b = b, a
    f = {('add', 64): FADD, ('sub', 64): FSUB, ('mul', 64): FMUL, ('div', 64): FDIV,
         ('add', 32): FADD32, ('sub', 32): FSUB32, ('mul', 32): FMUL32, ('div', 32): FDIV32}[(op, w)]
    return hold(f(a, b))

def i2d(p, w=64):
    if p.is_const():
        c = p.const
        v = float(c)
        return fconst(r32(v) if w == 32 else v)
    return hold((I2D if w == 64 else I2F32)(p.z()))
I2D_POLY = {}
def i2d_poly(p, w=64):
    t = i2d(p, w)
    I2D_POLY[t.get_id()] = p
    return t
def fneg(a):
    x = fcval(a)
    return fconst(-x) if x is not None else hold(FNEG(a))
def fabs_(a):
    x = fcval(a)
    return fconst(abs(x)) if x is not None else hold(FABS(a))
def round32(a):
    x = fcval(a)
    if x is not None:
        try: return fconst(r32(x))
        except OverflowError: pass
    if z3.is_app(a) and a.decl().name() in ('round32', 'fadd32', 'fsub32', 'fmul32', 'fdiv32', 'i2f32'): return a
    if a.get_id() in F32: return a
    return hold(ROUND32(a))
F32FACTS = False   # add range facts for binary32 array elements
def f32_fact(t):
    v = val(t); tiny = RV(Fraction(1, 2**149)); top = RV(2**128)
    return z3.Implies(fin(t), z3.And(z3.Or(v == 0, v >= tiny, v <= -tiny), v < top, v > -top))
F32 = set()   # ast ids of terms known to be binary32 values
def lrint(a):
    x = fcval(a)
    if x is not None and abs(x) < 2**31 - 1:
        return P(round(x))       # python rounds half to even
    return atom_of_term(hold(LRINT(a)), -2**31, 2**31 - 1)

# ---- lemma instances ------------------------------------------------------
CONSTS = [Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 256), Fraction(256), Fraction(257), Fraction(258), Fraction(2), Fraction(-1), Fraction(512), Fraction(-512)]

FP_LEMMAS = {   # name -> (statement, lemmas of /verif/lemmas/fp.v that prove it)
 'add-rel': ('fl(a+b) within relative error 2^-53 of a+b (finite operands); |a+b| <= 2^1000 implies a finite result', ('add_rel64', 'sub_rel64', 'rel_two', 'no_overflow64', 'plus_is_rnd', 'minus_is_rnd')),
 'add-mono-c': ('rounding is monotone and fixes representable values: s>=c -> fl(s)>=c, s<=c -> fl(s)<=c', ('mono_ge', 'mono_le', 'rnd_id')),
 'add-mono': ('a+b <= x -> fl(a+b) <= x for any double x (operands of differences occurring in a, b); fl(a-b) = -fl(b-a)', ('mono_le', 'mono_ge', 'rnd_opp')),
 'add-mono-arg': ('b>=0 -> fl(a+b)>=a ; b<=0 -> fl(a+b)<=a', ('mono_ge', 'mono_le')),
 'add-int': ('sums of two integers of magnitude <= 2^53 are exact', ('add_int', 'F_int')),
 'sub-near': ('x - lrint(x) is exact for 0<=x<2^31-2; (x - lrint(x)) + 1 is exact and <= 1-2^-53 when x - lrint(x) < 0; a difference that is an integer is exact', ('sub_near_r', 'wrap_near', 'add_int')),
 'sub-sterbenz': ('y/2<=x<=2y -> fl(x-y)=x-y', ('sub_sterbenz',)),
 'mul-const': ('product with a constant of magnitude 2^-60..2^60: relative error 2^-53 for operands 0 or >= 2^-900, exact for powers of two, monotone', ('mul_const_rel', 'mul_pow2', 'mono', 'mult_is_rnd')),
 'mul-sign': ('signs; finite for |a|,|b|<=2^500; 0<=x<=1,y>=0 -> 0<=fl(xy)<=y; x>=1 -> fl(xy)>=y; 0<=x<=2^k -> fl(xy)<=2^k y; 0<=x<1,y>=1 -> fl(xy)<y', ('mul_le1', 'mul_ge1', 'mul_k', 'mul_lt', 'mul_sign_neg', 'mul_sign_pos', 'mag_mul')),
 'div-const': ('c/x and x/c monotone against constants (bounds evaluated with IEEE arithmetic); x/c relative error, exact for powers of two', ('div_const_rel', 'div_pow2', 'mono', 'div_pair', 'div_sign', 'mag_div', 'div_is_rnd')),
 'div-pair': ('0<=c1<=c2, 0<x<=y -> fl(c1/y)<=fl(c2/x)', ('div_pair',)),
 'ramp': ('d = 0 or 2^-200<=|d|<=2^100, integers 0<=g<=n-1, n<=2^50: fl(fl(g*d)/n) is between 0 and d(1-2^-51)', ('ramp_pos', 'ramp_neg')),
 'i2d': ('integer to double: exact for |n|<=2^53, relative error otherwise, monotone', ('i2d_exact', 'i2d_rel', 'mono')),
 'i2f': ('integer to float: exact for |n|<=2^24, monotone; scaling by 2^k commutes with the rounding', ('i2f_exact', 'i2f_scale', 'mono')),
 'f32': ('products of floats with 2^k, k>=0, exact; quotients of rounded integers by 2^k exact; nonzero floats are >= 2^-149; |x|<=2^127 rounds to a finite float', ('mul32_pow2', 'div32_pow2', 'f32_tiny', 'no_overflow32')),
 'lrint': ('|lrint(x)-x|<=1/2, even on ties, monotone (|x| within int range)', ('lrint_half', 'lrint_tie', 'lrint_mono')),
}

def is_op(t, f): return z3.is_app(t) and t.decl().eq(f)

def iconst(t):
    """Fraction if F-term is a finite constant"""
    c = fcval(t)
    if c is None or c != c or abs(c) == float('inf'): return None
    return Fraction(c)

def pow2(q):
    q = abs(q)
    return q != 0 and (q.numerator & (q.numerator - 1)) == 0 and (q.denominator & (q.denominator - 1)) == 0

def rel(rv, s):
    """rv = s(1+d), |d|<=2^-53"""
    lo, hi = RV(1 - U), RV(1 + U)
    return And(Implies(s >= 0, z3.And(rv >= lo * s, rv <= hi * s)), Implies(s <= 0, z3.And(rv <= lo * s, rv >= hi * s)))

def sub_operands(t, d=3):
    """operands of differences inside t: rounding is monotone with respect to any representable value"""
    if d == 0 or not z3.is_app(t): return []
    if t.decl().eq(FSUB): return [x for x in (t.arg(0), t.arg(1)) if iconst(x) is None]
    return [y for i in range(t.num_args()) if t.arg(i).sort() == F for y in sub_operands(t.arg(i), d - 1)]

def isint_term(t):
    if is_op(t, I2D): return True
    c = iconst(t)
    return c is not None and c.denominator == 1

_AX = {}
def axioms(t):
    """lemma instances for one F- or Int-sorted term"""
    k = t.get_id()
    if k in _AX: return _AX[k]
    _AX[k] = r = [hold(x) for x in _axioms(t) if not isT(x)]
    return r

def all_consts():
    cs = set(CONSTS)
    for x in FCVAL.values():
        if x == x and abs(x) < 2.0**60: cs.add(Fraction(x))
    return sorted(cs)

def _axioms(t):
    if not z3.is_app(t): return []
    d = t.decl()
    out = []
    if t.sort() == F:
        if fcval(t) is None and not is_ite(t) and not is_op(t, I2D):
            out.append(z3.And(RANK(t) >= -1, RANK(t) <= 2))
    if d.eq(FADD) or d.eq(FSUB):
        a, b = t.arg(0), t.arg(1); sub = d.eq(FSUB)
        va, vb = val(a), val(b); s = (va - vb) if sub else (va + vb)
        pre = And(fin(a), fin(b)); r = val(t)
        big = RV(2**1000)
        f = [Implies(And(pre, s <= big, s >= -big), fin(t))]
        g = [rel(r, s)]
        for c in all_consts():
            cv = RV(c); g.append(z3.And(z3.Implies(s >= cv, r >= cv), z3.Implies(s <= cv, r <= cv)))
        if sub:
            g += [Implies(vb >= 0, r <= va), Implies(vb <= 0, r >= va)]
            g.append(Implies(And(vb <= 2 * va, va <= 2 * vb), r == s))
            g.append(Implies(va == vb, r == 0))
        else:
            for x in sub_operands(a) + sub_operands(b):
                vx = val(x); g.append(Implies(fin(x), z3.And(z3.Implies(s >= vx, r >= vx), z3.Implies(s <= vx, r <= vx))))
            g += [Implies(vb >= 0, r >= va), Implies(vb <= 0, r <= va), Implies(va >= 0, r >= vb), Implies(va <= 0, r <= vb)]
        if isint_term(a) and isint_term(b):
            L = RV(2**53); g.append(Implies(And(va <= L, va >= -L, vb <= L, vb >= -L, s <= L, s >= -L), r == s))
        # split lemmas around lrint
        if sub:
            n = None
            if is_op(b, I2D):
                x = b.arg(0)
                if z3.is_app(x) and is_op(x, LRINT) and x.arg(0).eq(a):
                    g.append(Implies(And(va >= 0, va < RV(2**31 - 2)), r == s))
            LR = z3.ToReal(LRINT(a))
            for kk in (LR, LR - 1):
                g.append(Implies(And(va >= 0, va < RV(2**31 - 2), s == kk), r == s))
        else:
            for x, y in ((a, b), (b, a)):
                if iconst(y) == 1 and is_op(x, FSUB) and is_op(x.arg(1), I2D) and is_op(x.arg(1).arg(0), LRINT) \
                        and x.arg(1).arg(0).arg(0).eq(x.arg(0)):
                    v0 = val(x.arg(0))
                    g.append(Implies(And(v0 >= 0, v0 < RV(2**31 - 2), val(x) < 0), And(r == s, r <= RV(1 - U))))
        f.append(Implies(And(pre, fin(t)), And(*g)))
        # infinities / nan propagate (needed only for finiteness reasoning)
        f.append(Implies(isnan(a), isnan(t))); f.append(Implies(isnan(b), isnan(t)))
        out += f
    elif d.eq(FMUL):
        a, b = t.arg(0), t.arg(1); va, vb, r = val(a), val(b), val(t)
        pre = And(fin(a), fin(b))
        for x, y in ((a, b), (b, a)):
            if is_ite(x) or is_op(x, FDIV): out.append(Implies(hold(x == fconst(1.0)), hold(t == y)))      # 1*y is y
        L = RV(2**500)
        out.append(Implies(And(pre, va <= L, va >= -L, vb <= L, vb >= -L), fin(t)))
        g = []
        for x, y in ((a, b), (b, a)):
            c = iconst(x); vy = val(y); vx = val(x)
            if c is not None and c != 0:
                s = RV(c) * vy
                small = RV(Fraction(1, 2**900))
                nz = Or(vy == 0, vy >= small, vy <= -small)
                if pow2(c) and abs(c) <= 2**60 and abs(c) >= Fraction(1, 2**60):
                    g.append(Implies(nz, r == s))
                    if F32FACTS and abs(c) <= 2**60: out.append(Implies(rank(y) != 0, rank(t) == (rank(y) if c > 0 else z3.If(rank(y) == 2, 2, -rank(y)))))
                elif abs(c) <= 2**60 and abs(c) >= Fraction(1, 2**60):
                    g.append(Implies(nz, rel(r, s)))
                for k in all_consts():
                    kk = Fraction(float(c) * float(k)) if abs(k) < 2**60 else None
                    if kk is None: continue
                    if c > 0: g.append(z3.And(z3.Implies(vy >= RV(k), r >= RV(kk)), z3.Implies(vy <= RV(k), r <= RV(kk))))
                    else: g.append(z3.And(z3.Implies(vy >= RV(k), r <= RV(kk)), z3.Implies(vy <= RV(k), r >= RV(kk))))
            elif c is None and iconst(y) is None:
                g.append(Implies(And(vx >= 0, vx <= 1, vy >= 0), And(r >= 0, r <= vy)))
                g.append(Implies(And(vx >= 1, vy >= 0), r >= vy))
                for k in (2, 256, 512):
                    g.append(Implies(And(vx <= k, vy >= 0, vx >= 0), r <= k * vy))
                g.append(Implies(And(vx >= 0, vy <= 0), r <= 0)); g.append(Implies(And(vx <= 0, vy <= 0), r >= 0))
                if isint_term(y):
                    g.append(Implies(And(vy >= 1, vy <= RV(2**53), vx < 1, vx >= 0), r < vy))
        if isint_term(a) and isint_term(b) and iconst(a) is None and iconst(b) is None:
            pass
        g.append(Implies(Or(va == 0, vb == 0), r == 0))
        out.append(Implies(And(pre, fin(t)), And(*g)))
    elif d.eq(FDIV):
        a, b = t.arg(0), t.arg(1); va, vb, r = val(a), val(b), val(t)
        pre = And(fin(a), fin(b), vb != 0)
        ca, cb = iconst(a), iconst(b)
        g = []
        if cb is not None and cb != 0: out.append(Implies(hold(a == b), hold(t == fconst(1.0))))      # x/x is 1
        if cb is not None and cb != 0:
            s = va * RV(1 / cb); small = RV(Fraction(1, 2**900))
            nz = Or(va == 0, va >= small, va <= -small)
            L = RV(2**500)
            if abs(cb) >= Fraction(1, 2**100): out.append(Implies(And(pre, va <= L, va >= -L), fin(t)))
            if abs(cb) < 2**60 and abs(cb) > Fraction(1, 2**60):
                g.append(Implies(nz, r == s if pow2(cb) else rel(r, s)))
            for k in all_consts():
                kk = Fraction(float(k) / float(cb))
                if cb > 0: g.append(z3.And(z3.Implies(va >= RV(k), r >= RV(kk)), z3.Implies(va <= RV(k), r <= RV(kk))))
        elif ca is not None and ca > 0:
            # c / x, monotone decreasing in x > 0
            if ca <= 2**500: out.append(Implies(And(pre, vb >= RV(Fraction(1, 2**100))), fin(t)))
            g.append(Implies(vb > 0, r >= 0))
            for k in all_consts():
                if k > Fraction(1, 2**60):
                    kk = Fraction(float(ca) / float(k))
                    g.append(z3.And(z3.Implies(vb >= RV(k), z3.Implies(vb > 0, r <= RV(kk))), z3.Implies(z3.And(vb > 0, vb <= RV(k)), r >= RV(kk))))
        else:
            out.append(Implies(And(pre, va <= RV(2**500), va >= -RV(2**500), Or(vb >= RV(Fraction(1, 2**100)), vb <= -RV(Fraction(1, 2**100)))), fin(t)))
            g.append(Implies(And(va >= 0, vb > 0), r >= 0)); g.append(Implies(And(va <= 0, vb > 0), r <= 0))
            g.append(Implies(va == 0, r == 0))
            # general: r*b ~ a left out; pattern lemma 'ramp'
            if is_op(b, I2D) and is_op(a, FMUL):
                for gx, dx in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                    if is_op(gx, I2D) or (iconst(gx) is not None and iconst(gx).denominator == 1):
                        out.append(ramp(gx, dx, b, t))
        out.append(Implies(And(pre, fin(t)), And(*g)))
    elif d.eq(I2D):
        n = z3.ToReal(t.arg(0)); r = val(t)
        L = RV(2**53)
        out.append(z3.If(z3.And(n <= L, n >= -L), r == n, rel(r, n)))
        out.append(z3.And(z3.Implies(n >= L, r >= L), z3.Implies(n <= -L, r <= -L)))
    elif d.eq(I2F32):
        n = z3.ToReal(t.arg(0)); r = val(t); out.append(fin(t))
        L = RV(2**24); out.append(Implies(And(n <= L, n >= -L), r == n))
        for k in (2**31, 2**15): out.append(z3.And(z3.Implies(n <= k, r <= k), z3.Implies(n >= -k, r >= -k)))
    elif d.eq(LRINT):
        x = t.arg(0); v = val(x); n = z3.ToReal(t)
        L = RV(2**31 - 1)
        out.append(Implies(And(fin(x), v <= L, v >= -RV(2**31)), And(n - v <= RV(Fraction(1, 2)), v - n <= RV(Fraction(1, 2)))))
        if F32FACTS:
            half = RV(Fraction(1, 2))
            out.append(Implies(And(fin(x), v <= L, v >= -RV(2**31), Or(n - v == half, v - n == half)), t % 2 == 0))
        out.append(z3.And(t >= -2**31, t <= 2**31 - 1))
    elif d.eq(F2I):
        x = t.arg(0); v = val(x); n = z3.ToReal(t)
        L = RV(2**63 - 2048)
        out.append(Implies(And(fin(x), v <= L, v >= 0), And(n <= v, v < n + 1)))
        out.append(Implies(And(fin(x), v >= -L, v <= 0), And(n >= v, v > n - 1)))
    elif d.eq(FLOOR):
        x = t.arg(0); v = val(x)
        n = z3.ToReal(z3.ToInt(v))
        out.append(Implies(fin(x), And(fin(t), val(t) == n)))
    elif d.eq(FNEG):
        out += [val(t) == -val(t.arg(0)), z3.If(isnan(t.arg(0)), isnan(t), RANK(t) == -rank(t.arg(0)))]
    elif d.eq(FABS):
        v = val(t.arg(0)); k = rank(t.arg(0))
        out += [val(t) == z3.If(v >= 0, v, -v), z3.If(k == -1, RANK(t) == 1, RANK(t) == k)]
    elif d.eq(ROUND32):
        x = t.arg(0)
        out.append(Implies(isnan(x), isnan(t)))
        if F32FACTS:
            v = val(x); r = val(t)
            out.append(Implies(And(fin(x), v <= RV(2**127), v >= -RV(2**127)), fin(t)))
            for k in (0, 1, -1): out.append(Implies(fin(x), And(z3.Implies(v <= k, r <= k), z3.Implies(v >= k, r >= k))))
            n = c = None
            if is_op(x, I2D): n, c = x.arg(0), Fraction(1)
            elif is_op(x, FDIV) and is_op(x.arg(0), I2D) and iconst(x.arg(1)) and pow2(iconst(x.arg(1))): n, c = x.arg(0).arg(0), 1 / iconst(x.arg(1))
            elif is_op(x, FMUL):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if is_op(a, I2D) and iconst(b) and pow2(iconst(b)): n, c = a.arg(0), iconst(b)
            if n is not None and abs(c) <= 2**60 and abs(c) >= Fraction(1, 2**60):
                # scaling by a power of two commutes with rounding (no overflow/underflow: |n| < 2^32)
                lim = z3.And(n < 2**32, n > -2**32)
                out.append(z3.Implies(lim, r == val(hold(I2F32(n))) * RV(c)))
    elif d.eq(FMUL32) and F32FACTS:
        a, b = t.arg(0), t.arg(1); r = val(t)
        for x, y in ((a, b), (b, a)):
            c = iconst(x)
            if c is not None and c > 0 and pow2(c) and 1 <= c <= 2**60:
                vy = val(y); s = RV(c) * vy; top = RV(2**128)
                out.append(Implies(And(fin(y), s < top, s > -top), And(fin(t), r == s)))
                out.append(Implies(And(fin(y), s >= top), rank(t) == 1)); out.append(Implies(And(fin(y), s <= -top), rank(t) == -1))
                out.append(Implies(rank(y) != 0, rank(t) == rank(y)))
            elif c is not None and c > 0 and pow2(c) and c >= Fraction(1, 2**60) and is_op(y, I2F32):
                out.append(And(fin(t), r == RV(c) * val(y)))
    elif d.eq(FDIV32) and F32FACTS:
        c = iconst(t.arg(1)); y = t.arg(0)
        if c is not None and c > 0 and pow2(c) and 1 <= c <= 2**60 and is_op(y, I2F32):
            out.append(And(fin(t), val(t) == val(y) / RV(c)))
    return out

def ramp(g, dx, n, t):
    vg, vd, vn, r = val(g), val(dx), val(n), val(t)
    tiny = RV(Fraction(1, 2**200))
    k = RV(1 - Fraction(1, 2**51))
    pre = And(fin(dx), vg >= 0, vg <= vn - 1, vn >= 1, vn <= RV(2**50), vd <= RV(2**100), vd >= -RV(2**100), Or(vd == 0, vd >= tiny, vd <= -tiny))
    return Implies(pre, And(fin(t), Implies(vd >= 0, And(r >= 0, r <= k * vd)), Implies(vd <= 0, And(r <= 0, r >= k * vd))))

_pair = {}
def pair_axioms(terms):
    """lemmas relating two terms of one query"""
    out = []
    lr = [t for t in terms if is_op(t, LRINT)]
    for a, b in itertools.combinations(lr, 2):
        k = ('l', a.get_id(), b.get_id())
        if k not in _pair:
            x, y = a.arg(0), b.arg(0); hold(a); hold(b)
            lo, hi = -RV(2**31), RV(2**31 - 1)
            _pair[k] = hold(Implies(And(fin(x), fin(y), val(x) >= lo, val(y) >= lo, val(x) <= hi, val(y) <= hi), And(Implies(val(x) <= val(y), a <= b), Implies(val(y) <= val(x), b <= a))))
        out.append(_pair[k])
    sb = {(t.arg(0).get_id(), t.arg(1).get_id()): t for t in terms if is_op(t, FSUB)}
    for (x, y), t in sb.items():
        if x < y and (y, x) in sb:
            k = ('s', x, y)
            if k not in _pair:
                hold(t); hold(sb[(y, x)])
                _pair[k] = hold(Implies(And(fin(t.arg(0)), fin(t.arg(1))), And(rank(sb[(y, x)]) == -rank(t), val(sb[(y, x)]) == -val(t))))
            out.append(_pair[k])
    dv = [(t, iconst(t.arg(0))) for t in terms if is_op(t, FDIV) and iconst(t.arg(0)) is not None and iconst(t.arg(0)) > 0 and iconst(t.arg(1)) is None]
    for (a, ca), (b, cb) in itertools.permutations(dv, 2):
        if ca <= cb:
            k = ('d', a.get_id(), b.get_id())
            if k not in _pair:
                x, y = b.arg(1), a.arg(1); hold(a); hold(b)   # c1/y <= c2/x when x <= y
                _pair[k] = hold(Implies(And(fin(x), fin(y), val(x) > 0, val(x) <= val(y), fin(a), fin(b)), val(a) <= val(b)))
            out.append(_pair[k])
    return out
