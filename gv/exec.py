"""Symbolic executor / verification-condition generator over goto programs."""
import z3, itertools, time, sys
from .terms import *
from . import terms as T
from . import solve
from .front import Func, canon

class Unsupported(Exception):
    pass

class Ptr:
    __slots__ = ('oid', 'path', 'off')
    def __init__(self, oid, path=(), off=None): self.oid = oid; self.path = path; self.off = off if off is not None else P(0)
    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.oid, self.path, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and (self.oid, self.path, self.off) == (o.oid, o.path, o.off)
    def __hash__(self): return hash((self.oid, self.path))
NULL = Ptr(0)
class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'Fn(%s)' % self.name

# ------------------------------------------------------------- arrays (functional)
class Arr:
    """persistent array value; kind in F (sort F) / I (Poly)"""
    def sel(self, i): raise NotImplementedError
class Base(Arr):
    def __init__(self, name, kind, ety=None):
        self.name = fresh_name(name); self.kind = kind; self.ety = ety; self.hooks = []
        self.uf = z3.Function(self.name, I, F if kind == 'F' else I); hold(self.uf)
        solve.HOOKS[self.name] = self._hook
    def sel(self, i):
        t = hold(self.uf(i.z()))
        if self.kind == 'F':
            if self.ety == ('float', 32): F32.add(t.get_id())
            return t
        lo, hi = int_range(self.ety) if self.ety else (None, None)
        return atom_of_term(t, lo, hi)
    def _hook(self, t):
        out = []
        if self.ety == ('float', 32) and T.F32FACTS: out.append(hold(T.f32_fact(t)))
        for h in self.hooks:
            f = h(t)
            if f is not None: out.append(hold(f))
        return out
class Const(Arr):
    def __init__(self, v, kind): self.v = v; self.kind = kind
    def sel(self, i): return self.v
class Store(Arr):
    def __init__(self, prev, i, v): self.prev = prev; self.i = i; self.v = v; self.kind = prev.kind
    def sel(self, i):
        c = cmp('==', i, self.i)
        if isT(c): return self.v
        if isF(c): return self.prev.sel(i)
        return ite(c, self.v, self.prev.sel(i), self.kind)
class Copy(Arr):
    """prev with [lo,lo+n) replaced by src[slo..]"""
    def __init__(self, prev, lo, n, src, slo): self.prev = prev; self.lo = lo; self.n = n; self.src = src; self.slo = slo; self.kind = prev.kind
    def sel(self, i):
        c = And(cmp('>=', i, self.lo), cmp('<', i, padd(self.lo, self.n)))
        if isT(c): return self.src.sel(padd(psub(i, self.lo), self.slo))
        if isF(c): return self.prev.sel(i)
        return ite(c, self.src.sel(padd(psub(i, self.lo), self.slo)), self.prev.sel(i), self.kind)
class Fill(Arr):
    def __init__(self, prev, lo, n, v): self.prev = prev; self.lo = lo; self.n = n; self.v = v; self.kind = prev.kind
    def sel(self, i):
        c = And(cmp('>=', i, self.lo), cmp('<', i, padd(self.lo, self.n)))
        if isT(c): return self.v
        if isF(c): return self.prev.sel(i)
        return ite(c, self.v, self.prev.sel(i), self.kind)
class IteArr(Arr):
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b; self.kind = a.kind
    def sel(self, i): return ite(self.c, self.a.sel(i), self.b.sel(i), self.kind)

_itecache = {}
WRAP_DEF = {}    # atom -> (Poly, type)
ITE_DEF = {}     # atom -> (cond, Poly, Poly)
FACTOR = []      # common factors (Polys) pulled out of conditional values
def ite(c, a, b, kind):
    if isT(c): return a
    if isF(c): return b
    if kind == 'F':
        if a.eq(b): return a
        return hold(z3.If(c, a, b))
    if a == b: return a
    for A in FACTOR:
        qa, qb = pdiv_exact(a, A), pdiv_exact(b, A)
        if qa is not None and qb is not None and not (a.is_const() and b.is_const()): return pmul(A, ite(c, qa, qb, kind))
    k = (c.get_id(), a.key(), b.key())
    if k not in _itecache:
        hold(c)
        t = atom('ite')
        add_fact(t, z3.If(c, t.z() == a.z(), t.z() == b.z()))
        (m, _), = t.t.items()
        ra, rb = prange(a), prange(b)
        if ra[0] is not None and rb[0] is not None: RANGE_LO[m[0]] = min(ra[0], rb[0])
        if ra[1] is not None and rb[1] is not None: RANGE_HI[m[0]] = max(ra[1], rb[1])
        _itecache[k] = t; ITE_DEF[m[0]] = (c, a, b)
    return _itecache[k]

RANGE_LO = {}; RANGE_HI = {}
def ranged_atom(base, lo, hi, exact=False):
    p = atom(base, lo=lo, hi=hi, exact=exact)
    (m, _), = p.t.items()
    if lo is not None: RANGE_LO[m[0]] = lo
    if hi is not None: RANGE_HI[m[0]] = hi
    if lo is not None and lo >= 1: POSATOM.add(m[0])
    return p
def prange(p):
    lo = hi = 0
    for m, c in p.t.items():
        a = b = 1
        if m:
            for x in m:
                l, h = RANGE_LO.get(x), RANGE_HI.get(x)
                if l is None or h is None or a is None:
                    a = b = None; break
                ps = [a * l, a * h, b * l, b * h]; a, b = min(ps), max(ps)
        if a is None: return (None, None)
        if c > 0: lo += c * a; hi += c * b
        else: lo += c * b; hi += c * a
    return lo, hi

def int_range(t):
    if t[0] == 'bool': return (0, 1)
    if t[0] == 'int':
        w, s = t[1], t[2]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    raise Unsupported('range of %r' % (t,))

class ObjInfo:
    def __init__(self, oid, name, kind): self.oid = oid; self.name = name; self.kind = kind

class St:
    __slots__ = ('pc', 'mem', 'objs', 'wlog', 'guards', 'rlog', 'tag')
    def __init__(self):
        self.pc = []; self.mem = {}; self.objs = {}; self.wlog = None; self.guards = []; self.rlog = None; self.tag = None
    def fork(self):
        s = St(); s.pc = list(self.pc); s.mem = dict(self.mem); s.objs = dict(self.objs)
        s.wlog = self.wlog; s.guards = list(self.guards); s.rlog = self.rlog; s.tag = self.tag
        return s
    def assume(self, c):
        if not isT(c): self.pc.append(c)
    def allpc(self): return self.pc + self.guards

class Ob:
    __slots__ = ('kind', 'where', 'desc', 'status', 'trivial', 'fn', 'nq')
    def __init__(self, kind, fn, where, desc, status, trivial):
        self.kind = kind; self.fn = fn; self.where = where; self.desc = desc; self.status = status; self.trivial = trivial
    def ident(self): return '%s:%s:%s:%s' % (self.kind, self.fn, self.where, self.desc)

class Engine:
    def __init__(self, prog, check_kinds=None, scale=()):
        self.prog = prog
        self.obinfo = {}
        self.oidc = itertools.count(1)
        self.contracts = {}       # canonical name -> callable
        self.obs = []
        self.checking = True      # obligations are decided (False in dry runs)
        self.check_kinds = check_kinds   # None = all ; else set of kinds that are decided, others assumed
        self.monitors = []        # callables(engine, st, oid, path, idx, value, instr)
        self.read_monitors = []
        self.fn_stack = []
        self.scale = list(scale)  # atoms (names) that act as scale factors (channels)
        self.static_oid = {}
        self.str_oid = {}
        self.max_unroll = 140
        self.cur = None
        self.loop_log = []
        self.want_termination = False
        self.merge_threshold = 5
        self.static_writes = []
        self.loopcache = {}
        self.deadline = None
        self.hints = []
        self.malloc_may_fail = True
        self.ob_cache = {}
        self.timeout = 4000
        self.fdom = None
        self.extra_cells = []
        self.trace_assumed = {}
        self.no_merge_keys = set()
        self.inlined = set()
        self.covered = set()
        self.nounroll = {}
        self.join = 2
        self.light = False
        self.cmp_log = None
        self.loop_depth = 0
        self.merge_backs = False
        self.small_merge = 0
        self.iter_hook = None      # (loop, head state, end-of-iteration state): ghost updates, outermost loops
        self.loop_hook = None      # (loop, back edges, exits): obligations on whole iterations

    # ---------------------------------------------------------- objects / memory
    def new_obj(self, st, name, kind, typ=None, n=None, size=None, zero=False, alive='live'):
        oid = next(self.oidc)
        self.obinfo[oid] = ObjInfo(oid, name, kind)
        st.objs[oid] = dict(type=typ, n=n, size=size, zero=zero, alive=alive)
        return oid

    def resolve(self, t):
        while t[0] == 'enum': t = self.prog.enums[t[1]]
        return t

    def sizeof(self, t):
        t = self.resolve(t)
        if t[0] == 'int' or t[0] == 'float': return t[1] // 8
        if t[0] == 'bool': return 1
        if t[0] == 'ptr': return 8
        if t[0] == 'arr': return self.sizeof(t[1]) * t[2]
        if t[0] == 'struct': return self.layout(t)[1]
        if t[0] in ('void', 'code'): return 1
        raise Unsupported('sizeof %r' % (t,))

    def layout(self, t):
        off = 0; out = []
        for n, ft in self.prog.structs[t[1]]:
            ft = self.resolve(ft)
            s = ft[1] // 8 if ft[0] == 'int' else self.sizeof(ft)
            a = min(8, max(1, self.align(ft)))
            if not n.startswith('$pad'): off = (off + a - 1) // a * a
            out.append((n, ft, off)); off += s
        return out, off

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'arr': return self.align(t[1])
        if t[0] == 'struct': return max(self.align(ft) for _, ft in self.prog.structs[t[1]])
        if t[0] == 'int' and t[1] not in (8, 16, 32, 64): return 1
        return self.sizeof(t)

    def leaves(self, t, path=()):
        """(path, type) of scalar or array leaves"""
        t = self.resolve(t)
        if t[0] == 'struct':
            for n, ft in self.prog.structs[t[1]]:
                yield from self.leaves(ft, path + (n,))
        else:
            yield path, t

    def subtype(self, t, path):
        t = self.resolve(t)
        for f in path:
            if t[0] != 'struct': raise Unsupported('path into %r' % (t,))
            d = dict(self.prog.structs[t[1]])
            if f not in d: raise Unsupported('no field %s' % f)
            t = self.resolve(d[f])
        return t

    def fresh(self, t, name):
        t = self.resolve(t)
        if t[0] in ('int',):
            lo, hi = int_range(t); return ranged_atom(name, lo, hi)
        if t[0] == 'bool':
            return hold(z3.Bool(fresh_name(name)))
        if t[0] == 'float':
            if self.fdom: return self.fdom.fresh(t[1], name)
            c = hold(z3.Const(fresh_name(name), F))
            if t[1] == 32: F32.add(c.get_id())
            return c
        if t[0] == 'ptr': return Undef(name)
        raise Unsupported('fresh %r' % (t,))

    def zero(self, t):
        t = self.resolve(t)
        if t[0] == 'int': return P(0)
        if t[0] == 'bool': return FALSE
        if t[0] == 'float': return self.fdom.const(0.0, t[1]) if self.fdom else fconst(0.0)
        if t[0] == 'ptr': return NULL
        raise Unsupported('zero %r' % (t,))

    def mkarr(self, t, name, zero):
        et = self.resolve(t)
        if et[0] == 'float':
            if self.fdom: return self.fdom.base(name, et) if not zero else Const(self.zero(et), 'F')
            return Const(fconst(0.0), 'F') if zero else Base(name, 'F', et)
        if et[0] == 'int': return Const(P(0), 'I') if zero else Base(name, 'I', et)
        raise Unsupported('array of %r' % (et,))

    def settype(self, st, oid, t, checkloc=None):
        """give an untyped (malloc'ed) object its type"""
        o = st.objs[oid]; t = self.resolve(t)
        if o['type'] is not None: return
        o = dict(o); sz = o['size']
        name = self.obinfo[oid].name
        if t[0] == 'struct':
            s = self.sizeof(t)
            self.ob(st, 'mem', cmp('>=', sz, P(s)), 'allocation large enough for %s' % tname(t))
            o['type'] = t; o['n'] = P(1)
            st.objs[oid] = o
            for p, ft in self.leaves(t):
                self.init_leaf(st, oid, p, ft, o['zero'], name)
        else:
            es = self.sizeof(t)
            q = pdiv_exact(sz, P(es))
            if q is None:
                q, _ = self.divmod_const(sz, es)
            o['type'] = ('arr', t, None); o['n'] = q
            st.objs[oid] = o
            st.mem[(oid, ())] = self.mkarr(t, name, o['zero'])
        o = st.objs[oid]

    def init_leaf(self, st, oid, p, ft, zero, name):
        if ft[0] == 'arr':
            st.mem[(oid, p)] = self.mkarr(ft[1], name + '.' + '.'.join(p), zero)
        else:
            st.mem[(oid, p)] = self.zero(ft) if zero else self.fresh(ft, name + '.' + '.'.join(p))

    def divmod_const(self, a, k):
        """floor division by positive constant: (q, r)"""
        if a.is_const(): return P(a.const // k), P(a.const % k)
        key = ('dm', a.key(), k)
        if key not in _divcache:
            q = atom('q'); r = ranged_atom('r', 0, k - 1)
            lo, hi = prange(a)
            (m, _), = q.t.items()
            if lo is not None: RANGE_LO[m[0]] = lo // k; RANGE_HI[m[0]] = hi // k
            f = a.z() == k * q.z() + r.z()
            add_fact(q, f); add_fact(r, f)
            _divcache[key] = (q, r)
        return _divcache[key]

    def divtrunc(self, st, a, b):
        """C division a/b, a%b (b != 0 already an obligation)"""
        if a.is_const() and b.is_const() and b.const:
            q = abs(a.const) // abs(b.const)
            if (a.const < 0) != (b.const < 0): q = -q
            return P(q), P(a.const - q * b.const)
        e = pdiv_exact(a, b)
        if e is not None: return e, P(0)
        key = ('dt', a.key(), b.key())
        if key not in _divcache and not self.light and getattr(self, 'split_div', False) and not (b.is_const() and b.const < 64):
            # quotient decided by the context: 0 <= a < b or b <= a < 2b
            for k in (1, 0) if b.key() and all(a.t.get(m, 0) == c for m, c in b.t.items()) else (0,):
                r = psub(a, pscale(b, k))
                x = [solve.check(st.allpc(), g, 10000) for g in (cmp('<', r, b), cmp('>=', r, P(0)))]
                if x == ['proved'] * 2: return P(k), r
                if getattr(self, 'debug', False): print('split_div undecided', k, x, self.where(), str(a)[:200], '/', str(b)[:100], flush=True)
        if key not in _divcache:
            q = atom('quo')
            # a % channels is kept as a - channels*q so that len - len % channels is visibly whole frames
            struct_r = len(b.t) == 1 and all(len(m) == 1 and m[0] in self.scale and k == 1 for m, k in b.t.items())
            r = psub(a, pmul(q, b)) if struct_r else atom('rem')
            za, zb, zq, zr = a.z(), b.z(), q.z(), r.z()
            qb = pmul(q, b)
            f = [psub(psub(a, qb), r).z() == 0,
                 z3.Implies(z3.And(za >= 0, zb > 0), z3.And(zr >= 0, zr < zb, zq >= 0, zq <= za)),
                 z3.Implies(z3.And(za <= 0, zb > 0), z3.And(zr <= 0, zr > -zb, zq <= 0, zq >= za)),
                 z3.Implies(zb < 0, z3.And(zr > zb, zr < -zb)),
                 z3.Implies(z3.And(zb > 0, za >= 0, za < zb), z3.And(zq == 0, zr == za))]
            for x in f:
                add_fact(q, x)
                if not struct_r: add_fact(r, x)
            _divcache[key] = (q, r)
        return _divcache[key]

    # ---------------------------------------------------------- obligations
    def where(self):
        i = self.cur
        return '%s:%s' % (i.file, i.line) if i is not None else '?'
    def fname(self):
        return canon(self.fn_stack[-1]) if self.fn_stack else '-'

    def ob(self, st, kind, cond, desc, timeout=None, assume=True):
        if self.checking:
            trivial = isT(cond)
            if trivial:
                self.obs.append(Ob(kind, self.fname(), self.where(), desc, 'proved', True))
            elif self.check_kinds is not None and kind not in self.check_kinds:
                k = (kind, self.fname(), self.where(), desc)
                self.trace_assumed[k] = self.trace_assumed.get(k, 0) + 1
            else:
                r = solve.check(st.allpc(), cond, timeout or self.timeout)
                self.obs.append(Ob(kind, self.fname(), self.where(), desc, r, False))
                if r != 'proved' and getattr(self, 'debug', False):
                    print('FAILED', kind, self.fname(), self.where(), desc, r)
                    if self.debug == 'stop': raise StopHere(st, cond)
        if not isT(cond) and assume:
            st.assume(Implies(And(*st.guards), cond))

    # ---------------------------------------------------------- statics
    def static(self, st, name):
        oid = self.static_oid.get(name)
        if oid is None:
            oid = next(self.oidc); self.obinfo[oid] = ObjInfo(oid, name, 'static'); self.static_oid[name] = oid
        if oid not in st.objs:
            t = self.resolve(self.prog.symtype[name])
            st.objs[oid] = dict(type=t, n=P(1) if t[0] != 'arr' else P(t[2]), size=None, zero=True, alive='live')
            self.static_init(st, oid, (), t, self.prog.statics.get(name), name)
        return oid

    def static_init(self, st, oid, path, t, v, name):
        from .front import ex
        t = self.resolve(t)
        v = ex(v) if isinstance(v, dict) else v
        if t[0] == 'struct':
            fs = self.prog.structs[t[1]]
            vals = v[2] if v is not None and v[0] == 'struct' else [None] * len(fs)
            for (n, ft), x in zip(fs, vals): self.static_init(st, oid, path + (n,), ft, x, name)
        elif t[0] == 'arr':
            et = self.resolve(t[1])
            if et[0] in ('int', 'float'):
                if v is not None and v[0] == 'array' and et[0] == 'int' and len(v[2]) <= 64:
                    a = Const(P(0), 'I')
                    for i, x in enumerate(v[2]): a = Store(a, P(i), self.ev(x, st))
                    st.mem[(oid, path)] = a
                elif v is None or v[0] == 'str':
                    st.mem[(oid, path)] = self.mkarr(et, name, v is None)
                else:
                    k = ('static', name, path)
                    if k not in _statcache: _statcache[k] = self.mkarr(et, name, False)
                    st.mem[(oid, path)] = _statcache[k]
            else:
                raise Unsupported('static array of %r' % (et,))
        else:
            st.mem[(oid, path)] = self.zero(t) if v is None else self.ev(v, st)

    # ---------------------------------------------------------- lvalues
    def lval(self, e, st):
        """-> (oid, path, off or None, type)  off None = whole region"""
        op = e[0]
        if op == 'sym':
            name = e[2]
            if name in self.prog.statics:
                oid = self.static(st, name)
            else:
                oid = self.localoid(st, name, e[1])
            return (oid, (), None, self.resolve(e[1]))
        if op == 'member':
            oid, path, off, t = self.lval(e[2], st)
            return (oid, path + (e[3],), None, self.resolve(e[1]))
        if op == 'index':
            oid, path, off, t = self.lval(e[2], st)
            i = self.ev(e[3], st)
            et = self.resolve(e[1])
            if off is not None: raise Unsupported('index of element')
            self.bounds(st, oid, path, i, et, 'array index')
            return (oid, path, i, et)
        if op == 'deref':
            p = self.ev(e[2], st)
            et = self.resolve(e[1])
            return self.deref(st, p, et)
        if op == 'cast':
            return self.lval(e[2], st)
        raise Unsupported('lvalue %s' % op)

    def localoid(self, st, name, t):
        oid = self.static_oid.get(('local', name))
        if oid is None:
            oid = next(self.oidc); self.obinfo[oid] = ObjInfo(oid, name, 'local'); self.static_oid[('local', name)] = oid
        if oid not in st.objs:
            self.decl(st, oid, name, t)
        return oid

    def decl(self, st, oid, name, t):
        t = self.resolve(t)
        st.objs[oid] = dict(type=t, n=P(t[2]) if t[0] == 'arr' and t[2] is not None else P(1), size=None, zero=False, alive='live')
        if t[0] == 'struct':
            for p, ft in self.leaves(t): self.init_leaf(st, oid, p, ft, False, short(name))
        else:
            self.init_leaf(st, oid, (), t, False, short(name))

    def deref(self, st, p, et):
        if isinstance(p, Undef): 
            self.ob(st, 'mem', FALSE, 'dereference of an uninitialised pointer'); raise PathEnd()
        if not isinstance(p, Ptr): raise Unsupported('deref of %r' % (p,))
        if p.oid == 0:
            self.ob(st, 'mem', FALSE, 'dereference of NULL'); raise PathEnd()
        o = st.objs[p.oid]
        if o['alive'] != 'live':
            self.ob(st, 'mem', FALSE, 'access to freed or dead object'); raise PathEnd()
        if o['type'] is None: self.settype(st, p.oid, et); o = st.objs[p.oid]
        rt = self.subtype(o['type'], p.path)
        if rt[0] == 'arr':
            if self.resolve(rt[1]) != et and not self.compat(rt[1], et): raise Unsupported('type punning %r %r' % (rt, et))
            self.bounds(st, p.oid, p.path, p.off, et, 'pointer access')
            return (p.oid, p.path, p.off, et)
        if not (rt == et or self.compat(rt, et)): raise Unsupported('type punning %r as %r' % (rt, et))
        self.ob(st, 'mem', cmp('==', p.off, P(0)), 'pointer access within object')
        return (p.oid, p.path, None, et)

    def compat(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a == b: return True
        if a[0] == 'int' and b[0] == 'int' and a[1] == b[1]: return True
        if a[0] == 'ptr' and b[0] == 'ptr': return True
        return False

    def rlen(self, st, oid, path):
        o = st.objs[oid]
        if path == (): return o['n']
        t = self.subtype(o['type'], path)
        return P(t[2]) if t[0] == 'arr' else P(1)

    def bounds(self, st, oid, path, i, et, what):
        n = self.rlen(st, oid, path)
        nm = self.obinfo[oid].name
        self.ob(st, 'mem', And(cmp('>=', i, P(0)), cmp('<', i, n)), '%s %s within bounds' % (what, desc_obj(nm, path)))

    def read(self, st, lv):
        oid, path, off, t = lv
        if t[0] in ('struct',): raise Unsupported('struct read')
        o = st.objs.get(oid)
        if o is None or o['alive'] != 'live':
            self.ob(st, 'mem', FALSE, 'read of dead object'); raise PathEnd()
        v = st.mem.get((oid, path))
        if v is None: raise Unsupported('unknown cell %s %s' % (self.obinfo[oid].name, path))

        for m in self.read_monitors: m(self, st, oid, path, off)
        if off is not None:
            if not isinstance(v, Arr): raise Unsupported('element of scalar')
            return v.sel(off)
        if isinstance(v, Arr): return ArrRef(oid, path)
        return v

    def write(self, st, lv, v):
        oid, path, off, t = lv
        o = st.objs.get(oid)
        if o is None or o['alive'] != 'live':
            self.ob(st, 'mem', FALSE, 'write to dead object'); raise PathEnd()
        info = self.obinfo[oid]
        if info.kind == 'static': self.static_writes.append((self.fname(), self.where(), info.name))
        if info.kind == 'const' or o.get('ro'):
            self.ob(st, 'frame', FALSE, 'write to read-only memory %s' % info.name)
        for m in self.monitors: m(self, st, oid, path, off, v)
        if st.wlog is not None: st.wlog.add((oid, path))
        if off is not None:
            a = st.mem[(oid, path)]
            st.mem[(oid, path)] = Store(a, off, v)
        else:
            st.mem[(oid, path)] = v

    # ---------------------------------------------------------- expressions
    def ev(self, e, st):
        op = e[0]; t = e[1]
        if op == 'const':
            t = self.resolve(t); v = e[2]
            if t[0] == 'int':
                x = int(v, 16)
                if t[2] and x >= 1 << (t[1] - 1): x -= 1 << t[1]
                return P(x)
            if t[0] == 'bool': return TRUE if v in ('true', '1') else FALSE
            if t[0] == 'float':
                b = int(v, 16)
                if t[1] == 64: x = struct.unpack('>d', b.to_bytes(8, 'big'))[0]
                else: x = struct.unpack('>f', b.to_bytes(4, 'big'))[0]
                return self.fdom.const(x, t[1]) if self.fdom else fconst(x)
            if t[0] == 'ptr':
                if v == 'NULL' or int(v, 16) == 0: return NULL
            raise Unsupported('constant %r %r' % (t, v))
        if op == 'sym':
            tt = self.resolve(t)
            if tt[0] == 'code': return Fn(e[2])
            return self.read(st, self.lval(e, st))
        if op == 'deref' and e[1][0] == 'code':
            p = self.ev(e[2], st)
            if isinstance(p, Undef): self.ob(st, 'mem', FALSE, 'call through uninitialised pointer'); raise PathEnd()
            return p
        if op in ('member', 'index', 'deref'):
            lv = self.lval(e, st)
            if lv[3][0] == 'arr': return ArrRef(lv[0], lv[1])
            if lv[3][0] == 'struct': return ('structref', lv)
            return self.read(st, lv)
        if op == 'str':
            s = e[2]
            if s not in self.str_oid:
                oid = next(self.oidc); self.obinfo[oid] = ObjInfo(oid, 'str:' + s, 'const'); self.str_oid[s] = oid
            oid = self.str_oid[s]
            if oid not in st.objs:
                st.objs[oid] = dict(type=('arr', ('int', 8, True), len(s) + 1), n=P(len(s) + 1), size=None, zero=False, alive='live')
                st.mem[(oid, ())] = Base('str', 'I', ('int', 8, True))
            return ArrRef(oid, ())
        if op == 'addr':
            x = e[2]
            if x[0] == 'sym' and self.resolve(x[1])[0] == 'code': return Fn(x[2])
            if x[0] == 'index':
                base = self.ev_arr(x[2], st)
                return Ptr(base.oid, base.path, padd(base.off, self.ev(x[3], st)))
            if x[0] == 'str':
                r = self.ev(x, st); return Ptr(r.oid, r.path)
            if x[0] == 'deref':
                return self.ev(x[2], st)
            lv = self.lval(x, st)
            return Ptr(lv[0], lv[1], lv[2])
        if op == 'cast': return self.cast(e, st)
        if op == 'op': return self.evop(e, st)
        if op == 'nil': return None
        raise Unsupported('expression %s' % op)

    def ev_arr(self, x, st):
        """array-valued expression -> Ptr to first element"""
        r = self.ev(x, st)
        if isinstance(r, ArrRef): return Ptr(r.oid, r.path)
        if isinstance(r, Ptr): return r
        raise Unsupported('array expr')

    def bool(self, v):
        """any scalar value -> z3 Bool (C truth)"""
        if isinstance(v, Poly):
            b = boolof(v)
            return b if b is not None else cmp('!=', v, P(0))
        if isinstance(v, (Ptr, Fn)): return z3.BoolVal(not (isinstance(v, Ptr) and v.oid == 0))
        if z3.is_bool(v): return v
        if self.fdom: return self.fdom.truth(v)
        return Not(feq(v, fconst(0.0)))

    def cast(self, e, st):
        t = self.resolve(e[1]); src = e[2]; v = self.ev(src, st); s = self.resolve(src[1])
        if t[0] == 'void': return None
        if t[0] == 'bool': return self.bool(v)
        if t[0] == 'ptr':
            if isinstance(v, (Ptr, Fn)):
                to = self.resolve(t[1])
                if isinstance(v, Ptr) and v.oid and to[0] not in ('void', 'code') and v.path == ():
                    o = st.objs.get(v.oid)
                    if o and o['type'] is None and o['alive'] == 'live' and v.off.is_const() and v.off.const == 0: self.settype(st, v.oid, to)
                return v
            if isinstance(v, ArrRef): return Ptr(v.oid, v.path)
            if isinstance(v, Undef): return v
            if isinstance(v, Poly) and v.is_const() and v.const == 0: return NULL
            raise Unsupported('cast to pointer')
        if t[0] == 'int':
            if z3.is_bool(v) if not isinstance(v, (Poly, Ptr, Fn)) else False: return boolint(v)
            if isinstance(v, Poly):
                if s[0] == 'bool': return v
                if t[1] == 8 and not t[2] and False: pass
                return self.wrap(st, v, s, t)
            if isinstance(v, Ptr): raise Unsupported('pointer to int')
            # float -> int truncation
            if self.fdom: return self.fdom.toint(self, st, v, s, t)
            lo, hi = int_range(t)
            c = fcval(v)
            if c is not None:
                if c == c and abs(c) < 2.0**62 and lo <= int(c) <= hi: return P(int(c))
            self.ob(st, 'fpconv', And(fin(v), hold(val(v) > RV(lo - 1)), hold(val(v) < RV(hi + 1))), 'float to integer conversion in range')
            return atom_of_term(hold(F2I(v)), lo, hi)
        if t[0] == 'float':
            if z3.is_bool(v) if not isinstance(v, Poly) else False: v = boolint(v)
            if self.fdom:
                return self.fdom.fromint(v, s, t[1]) if isinstance(v, Poly) else self.fdom.tofloat(v, s[1], t[1])
            if isinstance(v, Poly): return i2d_poly(v, t[1])
            if s[0] == 'float' and t[1] == 32 and s[1] == 64: return round32(v)
            return v
        if t[0] == 'struct' : return v
        raise Unsupported('cast to %r' % (t,))

    def wrap(self, st, v, s, t):
        lo, hi = int_range(t)
        if s[0] == 'int':
            slo, shi = int_range(s)
            if lo <= slo and shi <= hi: return v
        a, b = prange(v)
        if a is not None and a >= lo and b <= hi: return v
        inr = And(cmp('>=', v, P(lo)), cmp('<=', v, P(hi)))
        if isT(inr): return v
        key = ('inr', v.key(), t)
        if solve.check(st.allpc(), inr, 1500, deep=False) == 'proved': return v
        # genuinely may wrap: x = v - k*2^w
        w = t[1]
        k = ('wrap', v.key(), t)
        if k not in _divcache:
            x = ranged_atom('wrap', lo, hi); kk = atom('wk')
            f = x.z() == v.z() - kk.z() * (1 << w)
            add_fact(x, f); add_fact(kk, f)
            (nm,) = x.atoms(); WRAP_DEF[nm] = (v, t)
            _divcache[k] = x
        return _divcache[k]

    def rewrap(self, v, t): return self.wrap(St(), v, ('none',), t)

    def arith(self, st, p, t, what):
        t = self.resolve(t)
        lo, hi = int_range(t)
        a, b = prange(p)
        if a is not None and a >= lo and b <= hi: return p
        if p.is_const() and lo <= p.const <= hi: return p
        if not t[2]:
            return self.wrap(st, p, ('none',), t)
        if getattr(self, 'skip_overflow', False): return p
        self.ob(st, 'arith', And(cmp('>=', p, P(lo)), cmp('<=', p, P(hi))), 'no signed overflow in %s' % what)
        return p

    def evop(self, e, st):
        t = self.resolve(e[1]); o = e[2]; a = e[3]
        if o in ('and', 'or'):
            r = []
            depth = len(st.guards)
            for x in a:
                v = self.bool(self.ev(x, st)); r.append(v)
                st.guards.append(v if o == 'and' else Not(v))
                if isF(st.guards[-1]): break
            del st.guards[depth:]
            return And(*r) if o == 'and' else Or(*r)
        if o == 'not': return Not(self.bool(self.ev(a[0], st)))
        if o == '=>':
            x = self.bool(self.ev(a[0], st)); y = self.bool(self.ev(a[1], st)); return Implies(x, y)
        if o == 'if':
            c = self.bool(self.ev(a[0], st))
            if isT(c): return self.ev(a[1], st)
            if isF(c): return self.ev(a[2], st)
            st.guards.append(c); x = self.ev(a[1], st); st.guards.pop()
            st.guards.append(Not(c)); y = self.ev(a[2], st); st.guards.pop()
            return self.merge2(c, x, y, t)
        v = [self.ev(x, st) for x in a]
        for k in range(len(v)):
            if isinstance(v[k], ArrRef): v[k] = Ptr(v[k].oid, v[k].path)
        s = self.resolve(a[0][1])
        if o in ('<', '<=', '>', '>=', '=', 'notequal', 'ieee_float_equal', 'ieee_float_notequal'):
            return self.compare(o, v[0], v[1], s, st)
        if t[0] == 'ptr' and o in ('+', '-'):
            p, i = v[0], v[1]
            if isinstance(i, (Ptr, Undef)): p, i = i, p
            if isinstance(p, Undef): self.ob(st, 'mem', FALSE, 'arithmetic on uninitialised pointer'); raise PathEnd()
            if o == '-': i = pscale(i, -1)
            if p.oid == 0:
                self.ob(st, 'mem', cmp('==', i, P(0)), 'no arithmetic on NULL'); return p
            if self.check_ptr_arith(st, p): 
                n = self.rlen(st, p.oid, p.path)
                no = padd(p.off, i)
                self.ob(st, 'mem', And(cmp('>=', no, P(0)), cmp('<=', no, n)), 'pointer arithmetic stays within %s' % desc_obj(self.obinfo[p.oid].name, p.path))
            return Ptr(p.oid, p.path, padd(p.off, i))
        if o == '-' and isinstance(v[0], Ptr) and isinstance(v[1], Ptr):
            if (v[0].oid, v[0].path) != (v[1].oid, v[1].path): raise Unsupported('pointer difference')
            return psub(v[0].off, v[1].off)
        if t[0] == 'float':
            if self.fdom: return self.fdom.op(o, v, t[1])
            if o in ('+', '-', '*', '/'):
                r = v[0]
                for y in v[1:]: r = fop({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[o], r, y, t[1])
                return r
            if o == 'unary-': return fneg(v[0])
            if o == 'abs': return fabs_(v[0])
            raise Unsupported('fp op ' + o)
        if t[0] == 'int':
            if o == '+':
                r = v[0]
                for y in v[1:]: r = self.arith(st, padd(r, y), t, 'addition')
                return r
            if o == '-': return self.arith(st, psub(v[0], v[1]), t, 'subtraction')
            if o == '*':
                r = v[0]
                for y in v[1:]: r = self.arith(st, pmul(r, y), t, 'multiplication')
                return r
            if o == 'unary-': return self.arith(st, pscale(v[0], -1), t, 'negation')
            if o in ('/', 'mod'):
                self.ob(st, 'arith', cmp('!=', v[1], P(0)), 'divisor is not zero')
                if t[2]: 
                    lo, hi = int_range(t)
                    if not (v[1].is_const() and v[1].const != -1) and not (prange(v[0])[0] is not None and prange(v[0])[0] > lo) :
                        self.ob(st, 'arith', Or(cmp('>', v[0], P(lo)), cmp('!=', v[1], P(-1))), 'no overflow in division')
                q, r = self.divtrunc(st, v[0], v[1])
                return q if o == '/' else r
            if o in ('shl', 'ashr', 'lshr'):
                if not v[1].is_const() or not 0 <= v[1].const < t[1]: raise Unsupported('shift by variable')
                k = 1 << v[1].const
                if o == 'shl':
                    if t[2]: self.ob(st, 'arith', cmp('>=', v[0], P(0)), 'shifted value is not negative')
                    return self.arith(st, pscale(v[0], k), t, 'shift')
                return self.divmod_const(v[0], k)[0]
            if o == 'bitand':
                for x, y in ((v[0], v[1]), (v[1], v[0])):
                    if y.is_const() and y.const >= 0 and (y.const & (y.const + 1)) == 0:
                        return self.divmod_const(x, y.const + 1)[1]
                if v[0].is_const() and v[1].is_const(): return P(v[0].const & v[1].const)
                for x, y in ((v[0], v[1]), (v[1], v[0])):
                    # a mask of high bits: two's complement, or 2^width - 2^k for unsigned operands
                    c = -y.const if y.is_const() and y.const < 0 else (1 << t[1]) - y.const if y.is_const() and not t[2] else 0
                    if c > 0 and c & (c - 1) == 0: return psub(x, self.divmod_const(x, c)[1])
                raise Unsupported('bitand')
            if o == 'bitnot': return psub(P(-1) if t[2] else P((1 << t[1]) - 1), v[0])
            if o == 'bitor' and v[0].is_const() and v[1].is_const(): return P(v[0].const | v[1].const)
            if o == 'bitxor' and v[0].is_const() and v[1].is_const(): return P(v[0].const ^ v[1].const)
            raise Unsupported('int op ' + o)
        if t[0] == 'bool':
            if o == 'xor': return hold(z3.Xor(self.bool(v[0]), self.bool(v[1])))
        raise Unsupported('op %s %r' % (o, t))

    def check_ptr_arith(self, st, p): return True

    def addr(self, p):
        """numeric address of pointer as Poly (bytes)"""
        if p.oid == 0: return P(0)
        return padd(atom('addr_%d' % p.oid, lo=4096, hi=2**47, exact=True), pscale(p.off, self.addr_scale.get(p.oid, 4)))
    addr_scale = {}

    def compare(self, o, a, b, s, st):
        if isinstance(a, (Ptr, Fn, Undef)) or isinstance(b, (Ptr, Fn, Undef)):
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.ob(st, 'mem', FALSE, 'comparison of uninitialised pointer'); raise PathEnd()
            if isinstance(a, Fn) or isinstance(b, Fn):
                r = a == b
                return z3.BoolVal(r if o == '=' else not r)
            if a.oid == b.oid and a.path == b.path:
                if self.cmp_log is not None: self.cmp_log.append((o, a.off, b.off))
                return cmp({'=': '==', 'notequal': '!='}.get(o, o), a.off, b.off)
            if o in ('=', 'notequal'):
                if a.oid == 0 or b.oid == 0: return z3.BoolVal(o == 'notequal')
                if (a.oid in self.addr_scale) and (b.oid in self.addr_scale):
                    return cmp({'=': '==', 'notequal': '!='}[o], self.addr(a), self.addr(b))
                return z3.BoolVal(o == 'notequal')
            if a.oid and b.oid and 'local' in (self.obinfo[a.oid].kind, self.obinfo[b.oid].kind) and a.oid in st.objs and b.oid in st.objs:
                # distinct live objects do not overlap
                try: la, lb = (pscale(self.rlen(st, x.oid, x.path), 4) for x in (a, b))
                except Exception: la = None
                if la is not None and a.path == () and b.path == ():
                    za, zb = self.addr(Ptr(a.oid)), self.addr(Ptr(b.oid))
                    st.assume(Or(cmp('<=', padd(za, la), zb), cmp('<=', padd(zb, lb), za)))
            return cmp(o, self.addr(a), self.addr(b))
        if isinstance(a, Poly) and isinstance(b, Poly):
            if self.cmp_log is not None: self.cmp_log.append((o, a, b))
            if o in ('=', 'notequal'):
                for x, y in ((a, b), (b, a)):
                    if y.is_const() and y.const in (0, 1):
                        c = boolof(x)
                        if c is not None:
                            r = c if (o == '=') == (y.const == 1) else Not(c)
                            return r
            return cmp({'=': '==', 'notequal': '!='}.get(o, o), a, b)
        if z3.is_bool(a) if not isinstance(a, Poly) else False:
            b = self.bool(b)
            r = hold(a == b)
            return r if o == '=' else Not(r)
        if self.fdom: return self.fdom.compare(o, a, b)
        if o == '<': return flt(a, b)
        if o == '<=': return fle(a, b)
        if o == '>': return flt(b, a)
        if o == '>=': return fle(b, a)
        if o in ('=', 'ieee_float_equal'): return feq(a, b)
        return Not(feq(a, b))

    def merge2(self, c, x, y, t=None):
        if isinstance(x, Poly) and isinstance(y, Poly): return ite(c, x, y, 'I')
        if isinstance(x, (Ptr, Fn, Undef)) or isinstance(y, (Ptr, Fn, Undef)):
            if x == y: return x
            if isinstance(x, Ptr) and isinstance(y, Ptr) and (x.oid, x.path) == (y.oid, y.path):
                return Ptr(x.oid, x.path, ite(c, x.off, y.off, 'I'))
            if isinstance(x, Undef) and isinstance(y, Undef): return x
            raise NoMerge()
        if isinstance(x, Arr):
            if x is y: return x
            if isinstance(x, Store) and isinstance(y, Store) and x.prev is y.prev and x.i == y.i:
                try: return Store(x.prev, x.i, self.merge2(c, x.v, y.v))
                except NoMerge: pass
            return IteArr(c, x, y)
        if isinstance(x, ArrRef): 
            if x == y: return x
            raise NoMerge()
        if z3.is_bool(x): return x if x.eq(y) else hold(z3.If(c, x, y))
        if self.fdom: return self.fdom.ite(c, x, y)
        return ite(c, x, y, 'F')

    # ---------------------------------------------------------- functions
    def call(self, st, name, args, instr=None):
        """returns list of (st, ret)"""
        cn = canon(name)
        if cn in self.contracts: return self.contracts[cn](self, st, args)
        b = BUILTINS.get(cn)
        if b: return b(self, st, args)
        F_ = self.prog.funcs.get(name)
        if F_ is None or not F_.body:
            n2 = self.prog.alias.get(cn)
            F_ = self.prog.funcs.get(n2) if n2 else None
            if F_ is None or not F_.body: raise Unsupported('external function %s' % name)
        if F_.name in self.fn_stack: raise Unsupported('recursion in %s' % name)
        self.covered.add(cn)
        return self.run_function(st, F_, args)

    def run_function(self, st, F_, args):
        self.fn_stack.append(F_.name)
        saved = self.cur
        try:
            st = st.fork()
            for p, v in zip(F_.params, args):
                t = self.prog.symtype[p]
                oid = self.static_oid.get(('local', p))
                if oid is None:
                    oid = next(self.oidc); self.obinfo[oid] = ObjInfo(oid, p, 'local'); self.static_oid[('local', p)] = oid
                rt = self.resolve(t)
                st.objs[oid] = dict(type=rt, n=P(1), size=None, zero=False, alive='live')
                if isinstance(v, ArrRef): v = Ptr(v.oid, v.path)
                st.mem[(oid, ())] = v
                if st.wlog is not None: st.wlog.add((oid, ()))
            st.mem.pop('ret', None)
            outs, backs = self.run_region(F_, [(0, st)], 0, len(F_.instrs) - 1, None)
            res = []
            for loc, s in outs:
                r = s.mem.pop('ret', None)
                for p in F_.params:
                    self.kill(s, ('local', p))
                res.append((s, r))
            if len(res) > self.merge_threshold: res = self.merge_rets(res)
            return res
        finally:
            self.fn_stack.pop(); self.cur = saved

    def kill(self, s, key):
        oid = self.static_oid.get(key)
        if oid is not None and oid in s.objs:
            del s.objs[oid]
            for k in [k for k in s.mem if k[0] == oid]: del s.mem[k]

    def merge_rets(self, res):
        groups = {}
        for s, r in res:
            rk = r.const if isinstance(r, Poly) and r.is_const() else ('p', repr(r)) if isinstance(r, (Ptr, Fn)) else None
            groups.setdefault((rk, self.shape(s)), []).append((s, r))
        out = []
        for k, g in groups.items():
            if len(g) == 1: out.append(g[0]); continue
            for s, r in g: s.mem['ret'] = r if r is not None else P(0)
            try:
                m = self.merge([s for s, _ in g])
            except NoMerge:
                out += g; continue
            out.append((m, m.mem.pop('ret')))
        return out

    def shape(self, s):
        it = []
        for k, v in s.mem.items():
            if isinstance(v, Ptr): it.append((str(k), v.oid, v.path))
            elif isinstance(v, Fn): it.append((str(k), v.name))
            elif isinstance(v, Undef): it.append((str(k), '?'))
        ob = tuple(sorted((o, d['alive'], str(d['type'])) for o, d in s.objs.items()))
        it.append(('tag', s.tag))
        r = s.mem.get('ret')
        if isinstance(r, Poly) and r.is_const(): it.append(('ret', r.const))
        return (tuple(sorted(it, key=str)), ob)

    def merge(self, states):
        """join states of identical shape"""
        if len(states) == 1: return states[0]
        # common pc prefix
        pcs = [s.pc for s in states]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n].eq(pcs[0][n]) for p in pcs[1:]): n += 1
        rests = [And(*p[n:]) for p in pcs]
        m = St(); m.wlog = states[0].wlog; m.guards = list(states[0].guards); m.rlog = states[0].rlog; m.tag = states[0].tag
        m.pc = list(pcs[0][:n])
        m.objs = dict(states[0].objs)
        keys = set(states[0].mem)
        for s in states[1:]: keys &= set(s.mem)
        # selector booleans keep formulas small
        sels = []
        small = all(len(p) - n <= self.small_merge for p in pcs) and len(states) <= 4
        for r in rests:
            if isT(r) or small: sels.append(hold(r)); continue
            b = hold(z3.Bool(fresh_name('path')))
            sels.append(b); ATOMFACT[b.decl().name()] = [hold(z3.Implies(b, r))]
        m.assume(hold(Or(*sels)))
        for k in keys:
            v = states[-1].mem[k]
            for s, c in list(zip(states, sels))[-2::-1]:
                x = s.mem[k]
                if x is v or (isinstance(x, Poly) and x == v): continue
                v = self.merge2(c, x, v)
            m.mem[k] = v
        return m

    # ---------------------------------------------------------- region execution
    def run_region(self, F_, work, lo, hi, head, nonconst=None):
        """run states within instr range [lo,hi]; stop at back edges to `head` and at
        jumps outside.  returns (exits [(loc,st)], backs [st])"""
        pend = {}
        for loc, s in work: pend.setdefault(loc, []).append(s)
        exits = []; backs = []
        first = True
        while pend:
            loc = min(pend)
            sts = pend.pop(loc)
            if loc in F_.heads and not (loc == head and first):
                if loc == head: raise Unsupported('re-entry of loop head')
                for l2, s2 in self.handle_loop(F_, loc, sts): 
                    if lo <= l2 <= hi: pend.setdefault(l2, []).append(s2)
                    else: exits.append((l2, s2))
                continue
            first = False
            if len(sts) >= self.join:
                sts = self.merge_group(sts)
            for s in sts:
                try:
                    for l2, s2 in self.step(F_, loc, s, head, lo, hi, nonconst):
                        if head is not None and l2 == head: backs.append(s2)
                        elif l2 is None: exits.append((None, s2))
                        elif lo <= l2 <= hi: pend.setdefault(l2, []).append(s2)
                        else: exits.append((l2, s2))
                except PathEnd:
                    continue
        if self.merge_backs and len(backs) > 1: backs = self.merge_group(backs)
        return exits, backs

    def is_back(self, F_, loc, head):
        i = F_.instrs[loc]
        return i.kind == 'GOTO' and i.target == head

    def merge_group(self, sts):
        g = {}
        for s in sts: g.setdefault(self.shape(s), []).append(s)
        out = []
        for v in g.values():
            try: out.append(self.merge(v))
            except NoMerge: out += v
        return out

    def step(self, F_, loc, st, head, lo, hi, nonconst):
        """execute straight-line code from loc until a branch/loop head/end"""
        while True:
            if self.deadline and time.time() > self.deadline: raise Timeout()
            if loc >= len(F_.instrs): return [(None, st)]
            i = F_.instrs[loc]; self.cur = i
            k = i.kind
            if k == 'GOTO':
                c = self.bool(self.ev(i.guard, st))
                t = i.target
                if isT(c): nxt = [(t, st)]
                elif isF(c): nxt = [(loc + 1, st)]
                else:
                    if nonconst is not None and ((t < lo or t > hi or t == head) or (loc + 1 > hi)): nonconst.append(loc)
                    s1 = st; s2 = st.fork()
                    s1.assume(c); s2.assume(Not(c))
                    nxt = []
                    if self.feasible(s1): nxt.append((t, s1))
                    if self.feasible(s2): nxt.append((loc + 1, s2))
                if len(nxt) == 1:
                    l2, st = nxt[0]
                    # stop at loop heads / back edges / region ends / forward jumps
                    if l2 <= loc or l2 in F_.heads or l2 < lo or l2 > hi: return [(l2, st)]
                    return [(l2, st)]
                return nxt
            if k in ('SKIP', 'LOCATION', 'OTHER'): pass
            elif k == 'DECL':
                name = i.lhs[2]
                oid = self.static_oid.get(('local', name))
                if oid is None:
                    oid = next(self.oidc); self.obinfo[oid] = ObjInfo(oid, name, 'local'); self.static_oid[('local', name)] = oid
                self.decl(st, oid, name, i.lhs[1])
            elif k == 'DEAD':
                oid = self.static_oid.get(('local', i.lhs[2]))
                if oid is not None and oid in st.objs:
                    del st.objs[oid]
                    for kk in [kk for kk in st.mem if kk[0] == oid]: del st.mem[kk]
            elif k == 'ASSIGN':
                self.assign(st, i)
            elif k == 'SET_RETURN_VALUE':
                v = self.ev(i.rhs, st)
                if isinstance(v, ArrRef): v = Ptr(v.oid, v.path)
                st.mem['ret'] = v
            elif k == 'ASSERT':
                c = self.bool(self.ev(i.guard, st))
                self.ob(st, 'assert', c, i.comment or 'assertion')
            elif k == 'ASSUME':
                raise Unsupported('ASSUME in program')
            elif k == 'FUNCTION_CALL':
                f = self.ev(i.fn, st)
                if isinstance(f, Ptr):
                    self.ob(st, 'mem', FALSE, 'call through NULL function pointer'); raise PathEnd()
                if not isinstance(f, Fn): raise Unsupported('call of %r' % (f,))
                args = []
                for a in i.args:
                    v = self.ev(a, st)
                    if isinstance(v, ArrRef): v = Ptr(v.oid, v.path)
                    args.append(v)
                outs = []
                keep = st.mem.pop('ret', None)
                rs = self.call(st, f.name, args, i)
                self.cur = i
                for s, r in rs:
                    try:
                        if keep is not None: s.mem['ret'] = keep
                        if i.lhs is not None:
                            self.write(s, self.lval(i.lhs, s), self.coerce(r, i.lhs[1], s))
                        outs.append((loc + 1, s))
                    except PathEnd:
                        pass
                if len(outs) == 1 and (loc + 1) not in F_.heads and loc + 1 <= hi:
                    loc += 1; st = outs[0][1]; continue
                return outs
            elif k == 'END_FUNCTION':
                return [(None, st)]
            else:
                raise Unsupported('instruction %s' % k)
            loc += 1
            if loc in F_.heads or loc > hi: return [(loc, st)]

    def coerce(self, v, t, st):
        t = self.resolve(t)
        if t[0] == 'int' and not isinstance(v, (Poly, Ptr, Fn)) and v is not None and z3.is_bool(v): return boolint(v)
        if t[0] == 'bool' and isinstance(v, Poly): return self.bool(v)
        return v

    def assign(self, st, i):
        lt = self.resolve(i.lhs[1])
        if lt[0] == 'struct':
            d = self.lval(i.lhs, st)
            if i.rhs[0] in ('struct',):
                for (n, ft), x in zip(self.prog.structs[lt[1]], i.rhs[2]):
                    if self.resolve(ft)[0] in ('struct', 'arr'): raise Unsupported('nested struct literal')
                    self.write(st, (d[0], d[1] + (n,), None, self.resolve(ft)), self.ev(x, st))
                return
            s = self.lval(i.rhs, st)
            for p, ft in list(self.leaves(lt)):
                v = st.mem[(s[0], s[1] + p)]
                self.write(st, (d[0], d[1] + p, None, ft), v)
            return
        if lt[0] == 'arr':
            d = self.lval(i.lhs, st)
            if i.rhs[0] == 'array':
                a = st.mem[(d[0], d[1])]
                for j, x in enumerate(i.rhs[2]): a = Store(a, P(j), self.ev(x, st))
                st.mem[(d[0], d[1])] = a
                if st.wlog is not None: st.wlog.add((d[0], d[1]))
                return
            if i.rhs[0] == 'op' and i.rhs[2] == 'array_of':
                v = self.ev(i.rhs[3][0], st)
                st.mem[(d[0], d[1])] = Const(v, 'F' if not isinstance(v, Poly) else 'I')
                if st.wlog is not None: st.wlog.add((d[0], d[1]))
                return
            raise Unsupported('array assignment')
        if i.rhs[0] == 'side' : raise Unsupported('side effect ' + str(i.rhs[2]))
        v = self.ev(i.rhs, st)
        if isinstance(v, ArrRef): v = Ptr(v.oid, v.path)
        v = self.coerce(v, i.lhs[1], st)
        self.write(st, self.lval(i.lhs, st), v)

    def feasible(self, st):
        if any(isF(c) for c in st.pc): return False
        if not self.checking and not getattr(self, 'dry_feas', False):
            return True
        return solve.feasible(st.allpc())

    def f32cell(self, key, st):
        t = self.subtype(st.objs[key[0]]['type'], key[1])
        return t == ('float', 32)

    def handle_loop(self, F_, h, sts):
        from . import loops
        return loops.handle(self, F_, h, sts)

class PathEnd(Exception): pass
class NoMerge(Exception): pass
class Timeout(Exception): pass
class StopHere(Exception):
    def __init__(self, st, cond): self.st = st; self.cond = cond
class Undef:
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Undef(%s)' % self.n
class ArrRef:
    def __init__(self, oid, path): self.oid = oid; self.path = path
    def __eq__(self, o): return isinstance(o, ArrRef) and (o.oid, o.path) == (self.oid, self.path)

_divcache = {}
_statcache = {}
_boolcache = {}
_boolof = {}
def boolint(c):
    if isT(c): return P(1)
    if isF(c): return P(0)
    k = c.get_id()
    if k not in _boolcache:
        hold(c)
        b = ranged_atom('b', 0, 1)
        add_fact(b, z3.If(c, b.z() == 1, b.z() == 0))
        (m, _), = b.t.items()
        _boolof[m[0]] = c
        _boolcache[k] = b
    return _boolcache[k]
def boolof(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1: return _boolof.get(m[0])
    return None

def tname(t): return t[1][:24] if t[0] == 'struct' else str(t)
def short(n): return n.split('::')[-1]
def desc_obj(n, path): return short(n) + ('.' + '.'.join(path) if path else '')

# ------------------------------------------------------------------ builtins
def bi_fabs(E, st, a):
    if E.fdom: return [(st, E.fdom.abs(a[0]))]
    return [(st, fabs_(a[0]))]
def bi_lrint(E, st, a):
    if E.fdom: return [(st, E.fdom.lrint(E, st, a[0]))]
    return [(st, lrint(a[0]))]
def bi_floor(E, st, a):
    if E.fdom: raise Unsupported('floor')
    return [(st, hold(FLOOR(a[0])))]
def bi_alloc(E, st, size, zero, name):
    outs = []
    if E.malloc_may_fail:
        s0 = st.fork()
        s0.tag = (s0.tag or ()) + (('fail',),)
        outs.append((s0, NULL))
    s1 = st.fork() if E.malloc_may_fail else st
    oid = E.new_obj(s1, '%s@%s' % (name, E.where()), 'heap', None, None, size, zero)
    outs.append((s1, Ptr(oid)))
    return outs
def bi_malloc(E, st, a): return bi_alloc(E, st, a[0], False, 'malloc')
def bi_calloc(E, st, a): return bi_alloc(E, st, pmul(a[0], a[1]), True, 'calloc')
def bi_free(E, st, a):
    p = a[0]
    if isinstance(p, Undef): E.ob(st, 'mem', FALSE, 'free of uninitialised pointer'); raise PathEnd()
    if p.oid == 0: return [(st, None)]
    o = st.objs.get(p.oid)
    ok = o is not None and E.obinfo[p.oid].kind == 'heap' and o['alive'] == 'live' and p.path == () and p.off == P(0)
    E.ob(st, 'mem', z3.BoolVal(ok), 'free of a live heap block')
    if not ok: raise PathEnd()
    o = dict(o); o['alive'] = 'freed'; st.objs[p.oid] = o
    return [(st, None)]

def region(E, st, p, et_hint=None):
    if isinstance(p, Undef) or not isinstance(p, Ptr) or p.oid == 0:
        E.ob(st, 'mem', FALSE, 'memory operation on NULL or uninitialised pointer'); raise PathEnd()
    o = st.objs.get(p.oid)
    if o is None or o['alive'] != 'live':
        E.ob(st, 'mem', FALSE, 'memory operation on dead object'); raise PathEnd()
    if o['type'] is None:
        if et_hint is None: raise Unsupported('untyped memory operation')
        E.settype(st, p.oid, et_hint); o = st.objs[p.oid]
    return E.subtype(o['type'], p.path)

def elems(E, nbytes, es):
    q = pdiv_exact(nbytes, P(es))
    if q is None and E.light: return ranged_atom('cnt', 0, 2**62)    # effects only
    if q is None: raise Unsupported('byte count not a multiple of the element size')
    return q

def range_ob(E, st, p, n, what):
    ln = E.rlen(st, p.oid, p.path)
    E.ob(st, 'mem', And(cmp('>=', n, P(0)), cmp('>=', p.off, P(0)), cmp('<=', padd(p.off, n), ln)),
         '%s stays within %s' % (what, desc_obj(E.obinfo[p.oid].name, p.path)))

def note_range_write(E, st, p, n):
    for m in E.monitors:
        f = getattr(m, 'range_write', None)
        if f: f(E, st, p, n)
    info = E.obinfo[p.oid]
    if info.kind == 'static': E.static_writes.append((E.fname(), E.where(), info.name))
    if info.kind == 'const' or st.objs[p.oid].get('ro'):
        E.ob(st, 'frame', cmp('==', n, P(0)), 'write to read-only memory %s' % info.name)

def sizet(E, st, n):
    return n

def bi_memset(E, st, a):
    p, c, n = a
    if isinstance(p, Ptr) and p.oid and st.objs.get(p.oid, {}).get('type', 1) is None:
        # untyped block: only whole-block zero fill
        if c.is_const() and c.const == 0 and p.off == P(0) and n == st.objs[p.oid]['size']:
            o = dict(st.objs[p.oid]); o['zero'] = True; st.objs[p.oid] = o
            return [(st, p)]
        raise Unsupported('memset of untyped memory')
    t = region(E, st, p)
    if t[0] == 'arr':
        et = E.resolve(t[1]); es = E.sizeof(et)
        k = elems(E, n, es)
        range_ob(E, st, p, k, 'memset')
        note_range_write(E, st, p, k)
        if not c.is_const(): raise Unsupported('memset value')
        b = c.const & 255
        raw = bytes([b]) * es
        if et[0] == 'float':
            x = struct.unpack('<d' if es == 8 else '<f', raw)[0]
            v = E.fdom.const(x, et[1]) if E.fdom else fconst(x)
        else:
            v = P(int.from_bytes(raw, 'little', signed=et[2]))
        st.mem[(p.oid, p.path)] = Fill(st.mem[(p.oid, p.path)], p.off, k, v)
        if st.wlog is not None: st.wlog.add((p.oid, p.path))
        return [(st, p)]
    if t[0] == 'struct':
        E.ob(st, 'mem', And(cmp('>=', n, P(0)), cmp('<=', n, P(E.sizeof(t)))), 'memset stays within object')
        if n.is_const() and c.is_const() and c.const == 0:
            for q, ft in list(E.leaves(t)):
                off, sz = E.leaf_off(t, q)
                if off + sz <= n.const:
                    if ft[0] == 'arr': 
                        st.mem[(p.oid, p.path + q)] = E.mkarr(ft[1], 'z', True)
                        if st.wlog is not None: st.wlog.add((p.oid, p.path + q))
                    else: E.write(st, (p.oid, p.path + q, None, ft), E.zero(ft))
                elif off < n.const: raise Unsupported('partial field memset')
            return [(st, p)]
    raise Unsupported('memset on %r' % (t,))

def leaf_off(self, t, path):
    off = 0
    for f in path:
        lay, _ = self.layout(self.resolve(t))
        for n, ft, o in lay:
            if n == f: off += o; t = ft; break
    return off, self.sizeof(t)
Engine.leaf_off = leaf_off

def bi_memcpy(E, st, a, move=False):
    d, s, n = a
    what = 'memmove' if move else 'memcpy'
    ts = None
    if isinstance(s, Ptr) and s.oid: 
        ts = region(E, st, s)
    else:
        region(E, st, s)
    td = region(E, st, d, et_hint=(ts[1] if ts[0] == 'arr' else ts))
    if ts[0] == 'arr' and td[0] == 'arr':
        e1, e2 = E.resolve(ts[1]), E.resolve(td[1])
        if e1 != e2: raise Unsupported('memcpy between different element types')
        es = E.sizeof(e1); k = elems(E, n, es)
        range_ob(E, st, s, k, what + ' source'); range_ob(E, st, d, k, what + ' destination')
        if not move and (s.oid, s.path) == (d.oid, d.path):
            E.ob(st, 'mem', Or(cmp('<=', padd(s.off, k), d.off), cmp('<=', padd(d.off, k), s.off)), 'memcpy ranges do not overlap')
        for m in E.read_monitors:
            f = getattr(m, 'range_read', None)
            if f: f(E, st, s, k)
        note_range_write(E, st, d, k)
        st.mem[(d.oid, d.path)] = Copy(st.mem[(d.oid, d.path)], d.off, k, st.mem[(s.oid, s.path)], s.off)
        if st.wlog is not None: st.wlog.add((d.oid, d.path))
        return [(st, d)]
    if ts[0] == 'struct' and td[0] == 'struct':
        if ts != td: raise Unsupported('memcpy between different structs')
        sz = E.sizeof(ts)
        E.ob(st, 'mem', And(cmp('>=', n, P(0)), cmp('<=', n, P(sz))), what + ' stays within object')
        if not n.is_const(): raise Unsupported('memcpy variable struct size')
        for q, ft in list(E.leaves(ts)):
            off, z = E.leaf_off(ts, q)
            if off + z <= n.const: 
                E.write(st, (d.oid, d.path + q, None, ft), st.mem[(s.oid, s.path + q)])
            elif off < n.const: raise Unsupported('partial field memcpy')
        return [(st, d)]
    raise Unsupported('memcpy %r %r' % (ts, td))

BUILTINS = {
 'fabs': bi_fabs, '__vf_cvtsd2si': bi_lrint, '__vf_cvtss2si': bi_lrint, 'lrint': bi_lrint, 'lrintf': bi_lrint, 'floor': bi_floor,
 'malloc': bi_malloc, 'calloc': bi_calloc, 'free': bi_free, 'memset': bi_memset, 'memcpy': bi_memcpy,
 'memmove': lambda E, st, a: bi_memcpy(E, st, a, True),
}
