"""Frame of every library function at object granularity (C17): nothing is written that is
neither owned by the handle nor passed in by the caller, and no external function with
hidden state is called."""
from .run import *
from .run import unit
from .units import kinds_of, target

PURE = set('''fabs fabsf floor floorf ceil ceilf lrint lrintf llrint rint rintf nearbyint round trunc sqrt sqrtf sin cos tan exp log log10 pow
fmin fmax fminf fmaxf fmod copysign isnan isinf isfinite __isnan __isinf __finite __fpclassify __signbit ldexp frexp abs labs
__vf_cvtsd2si __vf_cvtss2si strlen strcmp strncmp memcmp strchr'''.split())
MEMORY = set('malloc calloc realloc free memset memcpy memmove __builtin_memcpy __builtin_memset __builtin_memmove'.split())
ASSERTS = set('__assert_fail abort __builtin_unreachable __CPROVER_assert'.split())
HIDDEN = set('''rand srand random srandom drand48 strtok setlocale localeconv signal raise setenv putenv getenv fesetround feraiseexcept feclearexcept
fopen fclose fread fwrite printf fprintf puts putchar fputs fputc sprintf time clock exit atexit longjmp setjmp strerror open close read write'''.split())

def exprs(e):
    if isinstance(e, tuple):
        yield e
        for x in e[2:]:
            if isinstance(x, (tuple, list)): yield from exprs(x)
    elif isinstance(e, list):
        for x in e: yield from exprs(x)

def root(e):
    """symbol an lvalue lives in (None when it is reached through a pointer)"""
    while e[0] in ('member', 'index', 'cast'): e = e[2]
    return e[2] if e[0] == 'sym' else None

@unit
def statics(c, kinds=''):
    """syntactic part: over every instruction of every function of the library"""
    prog = program(); n = 0
    skip = lambda name: name.startswith('__CPROVER') or name.startswith('_start')
    ext = set()
    for name, f in prog.funcs.items():
        if not f.body or skip(name): continue
        cn = canon(name)
        if f.file and not f.file.endswith('.c') and not f.file.endswith('.i') and not f.file.endswith('.h'): continue
        c.covered.add(cn)
        bad = []; unk = []
        for i in f.instrs:
            for l in ([i.lhs] if i.kind in ('ASSIGN', 'FUNCTION_CALL') and i.lhs is not None else []):
                r = root(l)
                if r in prog.statics: bad.append('%s:%s writes static %s' % (i.file, i.line, r))
            if i.kind == 'FUNCTION_CALL' and i.fn[0] == 'sym':
                g = i.fn[2]; gf = prog.funcs.get(g)
                if (gf is None or not gf.body) and not (prog.alias.get(canon(g)) and prog.funcs[prog.alias[canon(g)]].body):
                    ext.add(g)
                    if g in HIDDEN: bad.append('%s:%s calls %s' % (i.file, i.line, g))
                    elif g not in PURE | MEMORY | ASSERTS: unk.append(g)
                if g in MEMORY:
                    # memory functions never get the address of a static object as target
                    if i.args:
                        for e in exprs(i.args[0]):
                            if e[0] == 'addr' and root(e[2]) in prog.statics: bad.append('%s:%s passes static %s to %s' % (i.file, i.line, root(e[2]), g))
        c.fact(cn, 'writes no static object and calls no function with hidden state%s' % ('' if not bad else ': ' + '; '.join(bad[:3])), not bad)
        if unk: raise Unsupported('external function %s has no contract' % ', '.join(sorted(set(unk))))
        n += 1
    c.fact('library', 'library functions found', n > 20)
    c.notes.append('external functions called: ' + ', '.join(sorted(ext)))

@unit
def effects(c, conv, chv, kinds=''):
    """every object written by the conversion functions, from an arbitrary handle state and
    request: the handle, its private block and buffers, the result counts, the output buffer"""
    w = world(conv, chv, kinds_of(kinds)); E = c.use(w.E)
    s, r = w.generic_handle()
    s.mem[(w.so, ('mode',))] = P(0)
    before = set(s.objs)
    d = w.request(s)
    hits = {}; const = {}; count = [0]
    OKD = {('input_frames_used',), ('output_frames_gen',)}
    def note(E_, oid, path):
        info = E_.obinfo[oid]; count[0] += 1
        if oid in w.owned and (oid, path) in w.fixed: const.setdefault('%s writes %s' % (E_.fname(), X.desc_obj(info.name, path)), E_.where())
        if info.kind == 'local' or oid in w.owned or oid == w.oo: return
        if oid == w.do and path in OKD: return
        hits.setdefault('%s writes %s' % (E_.fname(), X.desc_obj(info.name, path)), E_.where())
    class M:
        def __call__(self, E_, st, oid, path, off, v): note(E_, oid, path)
        def range_write(self, E_, st, p, n): note(E_, p.oid, p.path)
    m = M(); E.monitors.append(m); E.checking = False; E.light = True
    for f in {target(w, s, n).name: target(w, s, n) for n in ('vari_process', 'const_process')}.values():
        name = canon(f.name); E.covered.add(name); hits.clear(); const.clear(); count[0] = 0
        E.run_function(s.fork(), f, [r, d])
        c.fact(name, 'writes only the handle, the output buffer and the two result counts%s' % ('' if not hits else ': ' + '; '.join('%s (%s)' % x for x in list(hits.items())[:3])), not hits)
        c.fact(name, 'configuration fields of the handle are never written%s' % ('' if not const else ': ' + '; '.join('%s (%s)' % x for x in list(const.items())[:3])), not const)
        c.fact(name, 'writes observed', count[0] > 0)
    E.monitors.remove(m)
    c.fact(name, 'no static object written', not E.static_writes)
