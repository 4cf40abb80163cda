"""Units for creation, reset, clone, deletion, one-shot (C08 C09 C10 C11, parts of C17)."""
from .run import *
from .run import unit
from .units import kinds_of, target
from .api import *
from .loops import is_taint

ENABLED = (1, 2, 3, 4)

def tainted(E, st, v, off):
    """may element `off` of array v still be a taint value"""
    while True:
        if isinstance(v, Base): return is_taint(v)
        if isinstance(v, Const): return False
        if isinstance(v, X.Store):
            if solve.check(st.allpc(), cmp('==', off, v.i), 1500) == 'proved': return False
            v = v.prev; continue
        if isinstance(v, (X.Fill, X.Copy)):
            inside = And(cmp('>=', off, v.lo), cmp('<', off, padd(v.lo, v.n)))
            if solve.check(st.allpc(), inside, 1500) == 'proved':
                if isinstance(v, X.Fill): return False
                off = padd(psub(off, v.lo), v.slo); v = v.src; continue
            v = v.prev; continue
        if isinstance(v, X.IteArr): return tainted(E, st, v.a, off) or tainted(E, st, v.b, off)
        if hasattr(v, 'prev'):
            v = v.prev; continue
        return False

def live_cells(c, w, st, cells, name):
    """obligation: the process functions never read the cells in `cells` before writing them"""
    if not cells: return
    E = w.E; s = st.fork()
    for k in cells:
        t = E.subtype(s.objs[k[0]]['type'], k[1])
        if isinstance(s.mem[k], Arr):
            et = E.resolve(t[1]); s.mem[k] = Base('taint_' + k[1][-1], s.mem[k].kind, et)
        elif t[0] == 'int': s.mem[k] = atom('taint_' + k[1][-1])
        else: s.mem[k] = hold(z3.Const(fresh_name('taint_' + k[1][-1]), F))
    names = {k: X.desc_obj(E.obinfo[k[0]].name, k[1]) for k in cells}
    hit = {}
    def rm(E_, st_, oid, path, off):
        k = (oid, path)
        if k in cells and k not in hit:
            v = st_.mem[k]
            if isinstance(v, Arr):
                if off is None: return
                if tainted(E_, st_, v, off): hit[k] = E_.where()
            elif is_taint(v): hit[k] = E_.where()
    class RM:
        def __call__(self, *a): rm(*a)
        def range_read(self, E_, st_, p, n):
            k = (p.oid, p.path)
            if k in cells and k not in hit: hit[k] = E_.where()
    d = w.request(s)
    s.mem[(w.do, ('input_frames_used',))] = P(0); s.mem[(w.do, ('output_frames_gen',))] = P(0)
    s.mem[(w.so, ('mode',))] = P(0)
    lr = s.mem[(w.so, ('last_ratio',))]
    s.mem[(w.so, ('last_ratio',))] = E.fresh(('float', 64), 'lr')
    s.assume(VALID(s.mem[(w.so, ('last_ratio',))]))
    m = RM(); E.read_monitors.append(m)
    ck, li = E.checking, E.light
    E.checking = False; E.light = True
    try:
        fs = {target(w, s, n).name: target(w, s, n) for n in ('vari_process', 'const_process')}
        for f in fs.values(): E.run_function(s.fork(), f, [Ptr(w.so), d])
    finally:
        E.read_monitors.remove(m); E.checking = ck; E.light = li
    for k in cells: c.fact(name, 'scratch field %s is never read before it is written%s' % (names[k], '' if k not in hit else ' (read at %s)' % hit[k]), k not in hit)

# fields the API functions of samplerate.c read
OBSERVED = ('error', 'mode', 'channels', 'saved_data', 'saved_frames', 'last_ratio', 'last_position')

def cmp_handles(c, w, st, name, pairs, reloc, what, live_state):
    """pairs: (key in A, valA, key in B, valB, fieldname); all equal, except scratch fields"""
    scratch = []
    for k, a, b in pairs:
        strict = k[0] == w.so and k[1] and k[1][-1] in OBSERVED
        if isinstance(a, Ptr) and a.oid in reloc: a = Ptr(reloc[a.oid], a.path, a.off)
        if same_value(a, b): c.fact(name, '%s: %s' % (what, X.desc_obj(w.E.obinfo[k[0]].name, k[1])), True); continue
        if isinstance(a, Arr) and isinstance(b, Arr):
            i = X.ranged_atom('i', 0, 2**40); s = st.fork(); s.assume(cmp('<', i, w.E.rlen(st, k[0], k[1])))
            if solve.check(s.allpc(), eqf(a.sel(i), b.sel(i)), 8000) == 'proved':
                c.fact(name, '%s: every element of %s' % (what, X.desc_obj(w.E.obinfo[k[0]].name, k[1])), True); continue
            if k[0] in w.bufs.values():
                # sample storage: everything up to the length the converter uses must agree
                bl = st.mem.get((w.po, ('b_len',)))
                if isinstance(bl, Poly): s.assume(cmp('<', i, bl))
                c.post(s, name, '%s: every sample of %s' % (what, X.desc_obj(w.E.obinfo[k[0]].name, k[1])), eqf(a.sel(i), b.sel(i))); continue
        elif isinstance(a, (Ptr, Fn, Undef)) or isinstance(b, (Ptr, Fn, Undef)):
            c.post(st, name, '%s: %s' % (what, X.desc_obj(w.E.obinfo[k[0]].name, k[1])), eqf(a, b)); continue
        elif solve.check(st.allpc(), eqf(a, b), 8000) == 'proved':
            c.fact(name, '%s: %s' % (what, X.desc_obj(w.E.obinfo[k[0]].name, k[1])), True); continue
        if strict: c.post(st, name, '%s: %s' % (what, X.desc_obj(w.E.obinfo[k[0]].name, k[1])), eqf(a, b)); continue
        scratch.append(k)
    live_cells(c, w, live_state, scratch, name)
    return scratch

def failed_alloc(s): return bool(s.tag and ('fail',) in s.tag)

@unit
def create(c, kinds='', fname='src_new'):
    """src_new / src_callback_new for every converter number, channel count, allocation
    failure pattern, with and without an error pointer (C10 C11)"""
    ks = kinds_of(kinds)
    for errnull in (False, True):
        for cbnull in ((False,) if fname == 'src_new' else (False, True)):
            w = Abs(ks); E = c.use(w.E); E.scale = []; E.join = 10**9; E.merge_threshold = 10**9
            conv = X.ranged_atom('conv', -2**31, 2**31 - 1); ch = X.ranged_atom('channels', -2**31, 2**31 - 1)
            s = St(); eo = E.new_obj(s, 'error', 'caller', ('int', 32, True), P(1)); s.mem[(eo, ())] = X.ranged_atom('err0', -2**31, 2**31 - 1)
            before = dict(s.mem)
            ep = NULL if errnull else Ptr(eo)
            cb = NULL if cbnull else Fn('__cb')
            uo = E.new_obj(s, 'userdata', 'caller', ('arr', ('int', 8, True), None), P(1)); s.mem[(uo, ())] = Base('user', 'I', ('int', 8, True))
            E.covered.add(fname)
            args = [conv, ch, ep] if fname == 'src_new' else [cb, conv, ch, ep, Ptr(uo)]
            E.malloc_may_fail = True
            res = E.run_function(s, w.fn(fname), args)
            okconv = Or(*[cmp('==', conv, P(k)) for k in ENABLED])
            okch = And(cmp('>=', ch, P(1)), Implies(cmp('<=', conv, P(2)), cmp('<=', ch, P(128))))
            nok = 0
            for s2, rv in res:
                if not solve.feasible(s2.allpc()): continue
                live = [o for o in s2.objs if E.obinfo[o].kind == 'heap' and s2.objs[o]['alive'] == 'live']
                err = s2.mem[(eo, ())]
                if isinstance(rv, Ptr) and rv.oid == 0:
                    c.fact(fname, 'failure releases every block', not live)
                    if cbnull:
                        if not errnull: c.post(s2, fname, 'NULL callback: SRC_ERR_BAD_CALLBACK', cmp('==', err, P(ERR['BADCB'])))
                        c.fact(fname, 'NULL callback: nothing allocated', not [o for o in s2.objs if E.obinfo[o].kind == 'heap'])
                        continue
                    bad = Or(Not(okconv), Not(okch))
                    if not failed_alloc(s2): c.post(s2, fname, 'fails without allocation failure only for bad arguments', bad)
                    if not errnull:
                        c.post(s2, fname, 'error code is malloc failed, bad converter or bad channel count', Or(*[cmp('==', err, P(ERR[x])) for x in ('MALLOC', 'CONV', 'CHANS')]))
                        if not failed_alloc(s2): c.post(s2, fname, 'malloc failed only after an allocation failure', cmp('!=', err, P(ERR['MALLOC'])))
                        c.post(s2, fname, 'bad converter only for disabled converters', Implies(cmp('==', err, P(ERR['CONV'])), Not(okconv)))
                        c.post(s2, fname, 'bad channel count only for bad channel counts', Implies(cmp('==', err, P(ERR['CHANS'])), Or(Not(okch), cmp('<', ch, P(1)))))
                else:
                    nok += 1
                    c.fact(fname, 'NULL callback is rejected', not cbnull)
                    c.fact(fname, 'success only when every allocation succeeded', not failed_alloc(s2))
                    c.post(s2, fname, 'succeeds only for an enabled converter and a valid channel count', And(okconv, okch))
                    if not errnull: c.post(s2, fname, 'stored error is zero', cmp('==', err, P(0)))
                    m = s2.mem; o = rv.oid
                    c.fact(fname, 'handle is a live heap block', o in live and rv.path == () and rv.off == P(0))
                    w.need(s2, o, 'channels', 'error', 'mode', 'vt', 'private_data', 'last_ratio', 'last_position', 'saved_frames', 'saved_data')
                    c.post(s2, fname, 'handle holds the channel count', cmp('==', m[(o, ('channels',))], ch))
                    c.post(s2, fname, 'no error recorded', cmp('==', m[(o, ('error',))], P(0)))
                    c.post(s2, fname, 'mode is the one asked for', cmp('==', m[(o, ('mode',))], P(PROCESS if fname == 'src_new' else CALLBACK)))
                    c.post(s2, fname, 'no pending input', cmp('==', m[(o, ('saved_frames',))], P(0)))
                    c.post(s2, fname, 'ratio unset, position 0', And(feq(m[(o, ('last_ratio',))], fconst(0.0)), feq(m[(o, ('last_position',))], fconst(0.0))))
                    vt = m[(o, ('vt',))]
                    c.fact(fname, 'all converter functions present', isinstance(vt, Ptr) and vt.oid and all(isinstance(m.get((vt.oid, p)), Fn) for p, _ in E.leaves(s2.objs[vt.oid]['type'])))
                    if fname != 'src_new':
                        c.fact(fname, 'callback and its data registered', m[(o, ('callback_func',))] == Fn('__cb') and m[(o, ('user_callback_data',))] == Ptr(uo))
                    # every block is owned by the handle: deleting it releases all
                    for s3, r3 in E.run_function(s2, w.fn('src_delete'), [rv]):
                        c.fact('src_delete', 'deleting a new handle releases every block', not [o for o in s3.objs if E.obinfo[o].kind == 'heap' and s3.objs[o]['alive'] == 'live'])
                        c.fact('src_delete', 'returns NULL', isinstance(r3, Ptr) and r3.oid == 0)
                if errnull: c.fact(fname, 'error pointer NULL: nothing stored', same_value(err, before[(eo, ())]))
            c.fact(fname, 'some arguments succeed', nok > 0 or cbnull)

@unit
def lifecycle(c, conv, chv, kinds='', parts='reset,clone,delete'):
    """src_reset, src_clone, src_delete on an arbitrary handle (any state satisfying RI)"""
    ks = kinds_of(kinds); parts = parts.split(',')
    w = world(conv, chv, ks); E = c.use(w.E); E.addr_scale = {}
    s, r = w.generic_handle()
    m = s.mem; so = w.so
    m[(so, ('mode',))] = X.ranged_atom('mode', 0, 1)
    m[(so, ('error',))] = X.ranged_atom('err', 0, 23)
    uo = E.new_obj(s, 'userdata', 'caller', ('arr', ('int', 8, True), None), P(1)); m[(uo, ())] = Base('user', 'I', ('int', 8, True))
    io = E.new_obj(s, 'pending', 'caller', ('arr', ('float', 32), None), X.ranged_atom('pn', 0, 2**45)); m[(io, ())] = Base('pending', 'F', ('float', 32)); s.objs[io]['ro'] = True
    m[(so, ('callback_func',))] = Fn('__cb'); m[(so, ('user_callback_data',))] = Ptr(uo)
    m[(so, ('saved_data',))] = Ptr(io, (), X.ranged_atom('sp', 0, 2**45)); m[(so, ('saved_frames',))] = X.ranged_atom('sf', 0, 2**45)
    before = dict(m)
    other = {k: v for k, v in before.items() if k[0] not in w.owned}
    if 'reset' in parts:
        fname = 'src_reset'; E.covered.add(fname)
        for s2, rv in E.run_function(s, w.fn(fname), [NULL]): c.post(s2, fname, 'NULL handle: SRC_ERR_BAD_STATE', cmp('==', rv, P(ERR['STATE'])))
        for s2, rv in E.run_function(s, w.fn(fname), [r]):
            c.post(s2, fname, 'returns 0', cmp('==', rv, P(0)))
            unchanged(c, w, other, s2, fname)
            reg = {(so, ('callback_func',)), (so, ('user_callback_data',)), (so, ('mode',))}
            for k in reg: c.post(s2, fname, 'registration kept: %s' % k[1], eqf(before[k], s2.mem[k]))
            pairs = [(k, w.fresh_mem[k], s2.mem[k]) for k in w.fresh_mem if k[0] in w.owned and k not in reg and not (k[1] and k[1][-1].startswith('$pad'))]
            cmp_handles(c, w, s2, fname, pairs, {}, 'same as in a new handle', s2)
    if 'clone' in parts:
        fname = 'src_clone'; E.covered.add(fname); E.malloc_may_fail = True
        for errnull in (False, True):
            s1 = s.fork(); eo = E.new_obj(s1, 'error', 'caller', ('int', 32, True), P(1)); s1.mem[(eo, ())] = X.ranged_atom('err0', -2**31, 2**31 - 1)
            for s2, rv in E.run_function(s1, w.fn(fname), [NULL, NULL if errnull else Ptr(eo)]):
                c.fact(fname, 'NULL handle: returns NULL', isinstance(rv, Ptr) and rv.oid == 0)
                if not errnull: c.post(s2, fname, 'NULL handle: SRC_ERR_BAD_STATE stored', cmp('==', s2.mem[(eo, ())], P(ERR['STATE'])))
            nok = 0
            for s2, rv in E.run_function(s1, w.fn(fname), [r, NULL if errnull else Ptr(eo)]):
                if not solve.feasible(s2.allpc()): continue
                unchanged(c, w, before, s2, fname)
                live = [o for o in s2.objs if E.obinfo[o].kind == 'heap' and s2.objs[o]['alive'] == 'live' and o not in w.owned]
                c.fact(fname, 'original keeps its memory', all(s2.objs[o]['alive'] == 'live' for o in w.owned))
                if rv.oid == 0:
                    c.fact(fname, 'fails only when an allocation failed', failed_alloc(s2)); c.fact(fname, 'failure releases every new block', not live)
                    if not errnull: c.post(s2, fname, 'failure stores SRC_ERR_MALLOC_FAILED', cmp('==', s2.mem[(eo, ())], P(ERR['MALLOC'])))
                    continue
                nok += 1
                c.fact(fname, 'success only when every allocation succeeded', not failed_alloc(s2))
                if not errnull: c.post(s2, fname, 'success stores 0', cmp('==', s2.mem[(eo, ())], P(0)))
                # correspondence of blocks
                reloc = {so: rv.oid}; ok = rv.oid in live
                def walk(a, b):
                    for p, ft in E.leaves(s2.objs[a]['type']) if s2.objs[a]['type'][0] == 'struct' else []:
                        va, vb = s2.mem.get((a, p)), s2.mem.get((b, p))
                        if isinstance(va, Ptr) and va.oid in w.owned and va.oid not in reloc and isinstance(vb, Ptr):
                            reloc[va.oid] = vb.oid
                            if vb.oid in live and s2.objs[vb.oid]['type'] is not None: walk(va.oid, vb.oid)
                if ok and s2.objs[rv.oid]['type'] is not None: walk(so, rv.oid)
                distinct = len(set(reloc.values())) == len(reloc) and all(b in live for b in reloc.values()) and set(reloc) == set(w.owned)
                c.fact(fname, 'clone has its own copy of every block, shared with nobody', ok and distinct)
                c.fact(fname, 'no other block is left allocated', set(live) == set(reloc.values()))
                if not (ok and distinct): continue
                pairs = []; good = True
                for a, b in reloc.items():
                    ta = s2.objs[a]; tb = s2.objs[b]
                    c.post(s2, fname, 'block of the clone is as large: %s' % E.obinfo[a].name.split('@')[0], cmp('>=', tb['n'], ta['n']) if tb['type'] == ta['type'] else FALSE)
                    if tb['type'] != ta['type']: good = False; continue
                    for k in [k for k in before if k[0] == a and not (k[1] and k[1][-1].startswith('$pad'))]:
                        pairs.append((k, before[k], s2.mem[(b, k[1])]))
                if good:
                    cells = cmp_handles(c, w, s2, fname, pairs, reloc, 'clone has the value of the original', s2)
                # deletion of one leaves the other
                for x, y, nm in ((rv, set(w.owned), 'original'), (r, set(reloc.values()), 'clone')):
                    for s3, _ in E.run_function(s2, w.fn('src_delete'), [x]):
                        c.fact('src_delete', 'deleting the other one leaves the %s untouched' % nm, all(s3.objs[o]['alive'] == 'live' for o in y) and all(s3.objs[o]['alive'] == 'freed' for o in ((set(w.owned) | set(reloc.values())) - y)))
            c.fact(fname, 'cloning can succeed', nok > 0)
    if 'delete' in parts:
        fname = 'src_delete'; E.covered.add(fname); E.malloc_may_fail = False
        for s2, rv in E.run_function(s, w.fn(fname), [NULL]): c.fact(fname, 'NULL handle: returns NULL', isinstance(rv, Ptr) and rv.oid == 0)
        for s2, rv in E.run_function(s, w.fn(fname), [r]):
            c.fact(fname, 'returns NULL', isinstance(rv, Ptr) and rv.oid == 0)
            c.fact(fname, 'every block of the handle is released', all(s2.objs[o]['alive'] == 'freed' for o in w.owned))
            unchanged(c, w, other, s2, fname)

@unit
def simple(c, kinds=''):
    """src_simple over the contracts of src_new, src_process, src_delete"""
    w = Abs(kinds_of(kinds)); E = c.use(w.E); fname = 'src_simple'; E.covered.add(fname)
    def k_new(E, st, a):
        s0 = st.fork(); outs = []
        e = X.ranged_atom('enew', 1, 23); st = st.fork()
        st.tag = (st.tag or ()) + (('new', 'ok'),); s0.tag = (s0.tag or ()) + (('new', 'fail'),)
        w.newargs = (a[0], a[1])
        for x, v in ((s0, e), (st, P(0))):
            if isinstance(a[2], Ptr) and a[2].oid: E.write(x, E.deref(x, a[2], ('int', 32, True)), v)
        h = w.handle(st, PROCESS)
        w.enew = e
        return [(s0, NULL), (st, h)]
    def k_proc(E, st, a):
        st = st.fork()
        E.ob(st, 'pre', z3.BoolVal(isinstance(a[0], Ptr) and a[0].oid != 0 and a[0] == Ptr(w.so) and st.objs[a[0].oid]['alive'] == 'live'), 'src_process called with the new handle')
        E.ob(st, 'pre', z3.BoolVal(a[1] == Ptr(w.do)), 'src_process called with the request')
        E.ob(st, 'pre', cmp('==', st.mem[(w.do, ('end_of_input',))], P(1)), 'end of input is announced')
        rv = X.ranged_atom('pret', 0, 23); w.pret = rv
        for n in ('input_frames_used', 'output_frames_gen'): st.mem[(w.do, (n,))] = X.ranged_atom(n, -2**63, 2**63 - 1)
        st.tag = (st.tag or ()) + (('process',),)
        return [(st, rv)]
    def k_del(E, st, a):
        st = st.fork()
        if isinstance(a[0], Ptr) and a[0].oid == 0: return [(st, NULL)]
        ok = isinstance(a[0], Ptr) and E.obinfo[a[0].oid].kind == 'heap' and st.objs[a[0].oid]['alive'] == 'live'
        E.ob(st, 'pre', z3.BoolVal(bool(ok)), 'src_delete called with a live handle')
        if ok:
            o = dict(st.objs[a[0].oid]); o['alive'] = 'freed'; st.objs[a[0].oid] = o
        st.tag = (st.tag or ()) + (('delete',),)
        return [(st, NULL)]
    E.contracts.update(src_new=k_new, psrc_set_converter=k_new, src_process=k_proc, src_delete=k_del)
    conv = X.ranged_atom('conv', -2**31, 2**31 - 1); ch = X.ranged_atom('channels', -2**31, 2**31 - 1)
    E.join = 10**9; E.merge_threshold = 10**9
    s = St()
    for s2, rv in E.run_function(s, w.fn(fname), [NULL, conv, ch]):
        if s2.tag and ('new', 'fail') in s2.tag: c.post(s2, fname, 'NULL request: an error is returned', cmp('!=', rv, P(0))); continue
        c.post(s2, fname, 'NULL request: an error is returned', cmp('!=', rv, P(0)))
        c.fact(fname, 'NULL request: nothing left allocated', all(E.obinfo[o].kind != 'heap' or s2.objs[o]['alive'] != 'live' or E.obinfo[o].name == 'private' for o in s2.objs))
    s = St(); d = w.request(s, False, False); before = dict(s.mem)
    n = 0
    for s2, rv in E.run_function(s, w.fn(fname), [d, conv, ch]):
        tag = s2.tag or ()
        if ('new', 'fail') in tag:
            c.post(s2, fname, 'creation failure: its error code is returned', cmp('==', rv, w.enew)); c.fact(fname, 'creation failure: nothing else is called', ('process',) not in tag and ('delete',) not in tag)
        else:
            n += 1
            c.fact(fname, 'creates, processes once, deletes once', tag == (('new', 'ok'), ('process',), ('delete',)))
            c.post(s2, fname, 'result of the conversion is returned', cmp('==', rv, w.pret))
        c.fact(fname, 'handle released', all(s2.objs[o]['alive'] != 'live' for o in s2.objs if E.obinfo[o].kind == 'heap' and E.obinfo[o].name == 'state'))
        c.post(s2, fname, 'created for the given converter and channel count', And(cmp('==', w.newargs[0], conv), cmp('==', w.newargs[1], ch)))
        unchanged(c, w, before, s2, fname, {(w.do, (x,)) for x in ('end_of_input', 'input_frames_used', 'output_frames_gen')})
    c.fact(fname, 'conversion reachable', n > 0)
