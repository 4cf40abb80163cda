"""Which proof units decide which property."""
TRUSTED = [
 'goto-cc / goto-instrument 6.11 (C front end: the verified text is the goto program of /repo/src/*.c, regenerated on every run)',
 'gv engine in /verif/gv (symbolic executor, VC generation, loop rule)',
 'z3 4.x python binding in python3-vt, cvc5 1.1.2 as second back end',
 'C double/float operators are IEEE-754 round to nearest even (no excess precision, no fused operations); the lemma instances of gv/terms.py follow the Coq lemmas of lemmas/fp.v (checked by coqc over Flocq in unit lemmas; matching instance to lemma is by reading)',
 'stub/{imm,emm}intrin.h: _mm_cvtsd_si32/_mm_cvtss_si32 round to nearest even int32',
 'contracts of memcpy, memmove, memset, malloc, calloc, free, fabs, lrint, lrintf, floor',
]
COMMON_ASSUMPTIONS = [
 'contents of the sinc coefficient tables are arbitrary floats (table values with more than 400 entries are not read)',
 'x86-64 LP64: int 32, long 64, pointers 64 bit; caller buffers are at most 2^45 samples',
 'callers keep the documented API contract (valid handles, buffers as long as announced)',
]
PROPS = {}
def prop(id, units, level='proof', **kw): PROPS[id] = dict(units=units, level=level, **kw)

P_ALL = 'mem,arith,fpconv,assert,inv'
SINC = [(c, k) for c in (1, 2) for k in ('1', '2', '4', '6', 'm')]
FAST = [(2, k) for k in ('1', '2', '4', '6', 'm')]
SIMPLE = [(3, 's'), (4, 's')]
CONTRACT_CONV = 'vt->process obeys its contract (result 0, counts within the request, handle invariant kept): proved by unit proc for the zero-order-hold and linear converters and by units sproc, calc and prepare for the sinc converters'

def stream(kinds, convs=(3, 4), variants=('full', 'innull', 'outnull')): return [('stream', c, f, v, kinds) for v in variants for c in convs for f in ('vari_process', 'const_process') if v == 'full' or f == 'vari_process']
prop('C01', [('proc', c, v, P_ALL) for c in (3, 4) for v in ('full', 'innull', 'outnull')])
KS = ('1', '2', '4', '6', 'm')
def sproc(conv, kinds, variants=('full', 'innull', 'outnull'), ks=KS, term=''): return [('sproc', conv, k, v, kinds, term) for v in variants for k in sorted(ks, reverse=True)]
def svalue(conv, kinds, variants=('full', 'innull', 'outnull'), ks=KS): return [('svalue', conv, k, v, kinds) for v in variants for k in sorted(ks, reverse=True)]
def calcv(conv): return [('calc', conv, k, 'value') for k in sorted(KS, reverse=True)]
def prepv(conv): return [('prepare', conv, k, v, 'value') for k in KS for v in ('full', 'innull')]
def prep(conv, kinds): return [('prepare', conv, k, v, kinds) for k in KS for v in ('full', 'innull')]
def calcf(conv, kinds): return [('calc', conv, k, kinds) for k in sorted(KS, reverse=True)]
SINC_ABS = 'calc_output_* and prepare_data are used by the sinc process functions through their contracts, which units calc and prepare prove from the code'
prop('C02', sproc(2, P_ALL + ',pre', ('full',)) + [('calc', 2, k, P_ALL) for k in reversed(KS)] + sproc(2, P_ALL + ',pre', ('innull', 'outnull')) + [('prepare', 2, k, v, P_ALL) for k in KS for v in ('full', 'innull')],
     thorough_units=sproc(1, P_ALL + ',pre') + [('calc', 1, k, P_ALL) for k in KS] + [('prepare', 1, k, v, P_ALL) for k in KS for v in ('full', 'innull')], cap=700)
prop('C03', svalue(2, 'order', ('full',)) + calcf(2, 'mem,inv,frame') + prep(2, 'frame') + sproc(2, 'inv,frame', ('full',)) + [('proc', c, v, 'mem,inv,frame') for c in (3, 4) for v in ('full', 'innull', 'outnull')] + [('process',)] + stream('order'), assumptions=[CONTRACT_CONV])
prop('C04', [('process',), ('simple',)], assumptions=[CONTRACT_CONV])
prop('C05', [('ratios',), ('process',), ('simple',), ('cbread', 'pending')], assumptions=[CONTRACT_CONV])
prop('C06', [('f2i', 16), ('f2i', 32)])
prop('C07', [('i2f', 16), ('i2f', 32), ('roundtrip',)])
prop('C08', [('lifecycle', c, k, '-', 'clone') for c, k in FAST + SIMPLE] , thorough_units=[('lifecycle', 1, k, '-', 'clone') for k in ('1', '2', '4', '6', 'm')])
prop('C09', [('lifecycle', c, k, '-', 'reset') for c, k in FAST + SIMPLE] + [('create',), ('create', '-', 'src_callback_new')], thorough_units=[('lifecycle', 1, k, '-', 'reset') for k in ('1', '2', '4', '6', 'm')])
prop('C10', [('create',), ('create', '-', 'src_callback_new'), ('simple',)] + [('lifecycle', c, k, '-', 'clone,delete') for c, k in FAST + SIMPLE])
prop('C11', [('create',), ('create', '-', 'src_callback_new')])
prop('C12', [('names',)])
prop('C13', [('cbread', 'pending'), ('cbread', 'null'), ('cbread', 'nodata'), ('cbread', 'overlap')], assumptions=[CONTRACT_CONV, 'the callback stays within its own memory and supplies at most 2^45 samples per call'])
prop('C14', stream('order,pos,value'))
prop('C15', svalue(2, 'value,chan') + stream('value,chan') + calcv(2) + prepv(2), assumptions=[SINC_ABS], thorough_units=svalue(1, 'value,chan') + calcv(1) + prepv(1), cap=700)
prop('C16', svalue(2, 'value,pos') + calcv(2) + prepv(2), assumptions=[SINC_ABS], thorough_units=svalue(1, 'value,pos') + calcv(1) + prepv(1), cap=700)
prop('C17', [('statics',)] + [('effects', c, k) for c, k in FAST + SIMPLE] + [('process',), ('ratios',), ('names',), ('lifecycle', 2, '1', '-', 'reset,clone,delete'), ('lifecycle', 3, 's', '-', 'reset,clone,delete')], thorough_units=[('effects', 1, k) for k in ('1', '2', '4', '6', 'm')])
prop('C18', prep(2, 'frame') + [('proc', c, v, 'inv', 'term') for c in (3, 4) for v in ('full', 'innull', 'outnull')] + sproc(2, 'inv', ('full',), term='term') + svalue(2, 'prog', ('full',)) + stream('prog', variants=('full',)) + [('calc', 2, k, 'inv', 'term') for k in KS] + [('cbread', 'pending', 'inv', 'term'), ('cbread', 'null', 'inv', 'term')], cap=700)
prop('C19', prep(2, 'inv,assert') + sproc(2, 'inv,assert', ('full',)) + [('proc', c, v, 'inv,assert') for c in (3, 4) for v in ('full', 'innull', 'outnull')] + [('process',), ('ratios',)], assumptions=[CONTRACT_CONV])
prop('C20', svalue(2, 'ratio') + prep(2, 'frame') + stream('ratio') + [('process',), ('ratios',)], assumptions=[SINC_ABS, CONTRACT_CONV], thorough_units=svalue(1, 'ratio'), cap=700)
prop('C21', svalue(2, 'pos') + prep(2, 'frame') + stream('pos'), assumptions=[SINC_ABS], thorough_units=svalue(1, 'pos'), cap=700)

# the floating-point lemmas the other units use are themselves checked
for _i in ('C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19', 'C20', 'C21'): PROPS[_i]['units'] = [('lemmas',)] + PROPS[_i]['units']
