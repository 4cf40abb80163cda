"""Proof units: contracts of the functions in /repo and the properties over them."""
from .run import *
from .run import UNITS, unit

ALL = None
def kinds_of(k): return None if k in ('', 'all', '-') else set(k.split(','))

def zero_counts(w, s):
    """src_process zeroes the two result fields before it calls the converter"""
    s.mem[(w.do, ('input_frames_used',))] = P(0); s.mem[(w.do, ('output_frames_gen',))] = P(0)

def last_ratio_set(w, s):
    """... and gives last_ratio a valid value"""
    lr = w.cell(s, w.so, 'last_ratio')
    s.assume(hold(val(lr) >= RV(Fraction(1, 256))))

def target(w, s, name):
    vt = w.cell(s, w.so, 'vt')
    f = s.mem[(vt.oid, (name,))]
    if not isinstance(f, Fn): raise Unsupported('vt.%s is not a function' % name)
    return w.prog.funcs[w.prog.alias.get(canon(f.name), f.name)]

def counts_ok(w, s):
    u, g = s.mem[(w.do, ('input_frames_used',))], s.mem[(w.do, ('output_frames_gen',))]
    return And(cmp('>=', u, P(0)), cmp('<=', u, w.fi), cmp('>=', g, P(0)), cmp('<=', g, w.fo))

@unit
def proc(c, conv, variant='full', kinds='', term=''):
    """contract of the process function of the zero order hold / linear converter:
    RI and a valid request  =>  RI, result 0, counts within range, no undefined operation,
    only out[0..n) and the handle written"""
    conv = int(conv); ks = kinds_of(kinds)
    w = World(conv, None, kinds=ks)
    s, r = w.generic_handle()
    s.mem[(w.so, ('mode',))] = P(0)
    E = c.use(w.E); E.want_termination = bool(term)
    d = w.request(s, variant == 'innull', variant == 'outnull')
    zero_counts(w, s); last_ratio_set(w, s)
    fn = target(w, s, 'vari_process')
    before = {k: v for k, v in s.mem.items()}
    name = canon(fn.name)
    if w.ch != P(1): X.FACTOR.append(w.ch)
    res = E.run_function(s, fn, [r, d])
    E.covered.add(name)
    c.feasible_end([x for x, _ in res], name, 'normal return reachable')
    for s2, rv in res:
        c.post(s2, name, 'returns SRC_ERR_NO_ERROR', cmp('==', rv, P(0)))
        for n, f in w.ri(s2): c.post(s2, name, 'invariant kept: ' + n, f)
        c.post(s2, name, 'last ratio set and in range', And(fin(w.cell(s2, w.so, 'last_ratio')), hold(val(w.cell(s2, w.so, 'last_ratio')) >= RV(Fraction(1, 256)))))
        c.post(s2, name, '0 <= input_frames_used <= input_frames, 0 <= output_frames_gen <= output_frames', counts_ok(w, s2))
        frame(c, w, name, before, s2)

def frame(c, w, name, before, s2):
    """cells no call may change: the request's inputs, the input buffer, the registration,
    the vt, constants"""
    okw = {(w.do, ('input_frames_used',)), (w.do, ('output_frames_gen',)), (w.oo, ())}
    for k, v in before.items():
        if k in okw or k not in s2.mem: continue
        info = w.E.obinfo[k[0]]
        if info.kind in ('local',): continue
        v2 = s2.mem[k]
        mutable = k[0] in w.owned and not w.immut(s2, k[0], k[1], v)
        if mutable: continue
        same = v2 is v or (type(v2) == type(v) and not isinstance(v, Arr) and (v2 == v if isinstance(v, (Poly, Ptr, Fn)) else (hasattr(v, 'eq') and v.eq(v2))))
        if not same and isinstance(v, (Undef,)): same = True
        c.fact(name, 'unchanged: %s' % X.desc_obj(info.name, k[1]), same)

from . import api
from . import life
from . import iso
from . import sinc
from . import stream
from . import sincval
from . import cb
from . import lemmas
