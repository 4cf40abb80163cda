"""Front end: compile the real sources of /repo with goto-cc and load the
resulting goto program (functions, types, static initialisers) as compact ASTs.

Nothing is rewritten by hand: what is verified is the goto program goto-cc makes
of /repo's current working tree.  The only substitution is stub/{imm,emm}intrin.h,
which maps the two SSE2 conversion intrinsics to extern functions (trusted
contract: IEEE round-to-nearest-even to int32)."""
import json, os, subprocess, tempfile, shutil, struct, re

REPO = os.environ.get('GV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class FrontError(Exception):
    pass

def sources():
    d = os.path.join(REPO, 'src')
    return sorted(f for f in os.listdir(d) if f.endswith('.c'))

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise FrontError('%s failed:\n%s' % (' '.join(cmd[:4]), (p.stderr or p.stdout).decode(errors='replace')[-3000:]))
    return p.stdout

def ty(t):
    """irep type -> tuple"""
    if t is None:
        return ('void',)
    i = t.get('id'); ns = t.get('namedSub', {}); sub = t.get('sub', [])
    w = int(ns['width']['id']) if 'width' in ns else None
    if i == 'signedbv': return ('int', w, True)
    if i == 'unsignedbv': return ('int', w, False)
    if i in ('bool',): return ('bool',)
    if i in ('c_bool',): return ('int', w, False)
    if i == 'floatbv': return ('float', w)
    if i == 'pointer': return ('ptr', ty(sub[0]))
    if i == 'struct_tag': return ('struct', ns['identifier']['id'])
    if i == 'union_tag': return ('union', ns['identifier']['id'])
    if i == 'c_enum_tag': return ('enum', ns['identifier']['id'])
    if i == 'c_enum': return ty(sub[0])
    if i == 'array':
        sz = ns.get('size')
        n = None
        if sz is not None and sz.get('id') == 'constant':
            n = int(sz['namedSub']['value']['id'], 16)
        return ('arr', ty(sub[0]), n)
    if i == 'code':
        ps = ns.get('parameters', {}).get('sub', [])
        return ('code', ty(ns.get('return_type')), tuple(ty(p.get('namedSub', {}).get('type')) for p in ps))
    if i in ('empty', '', 'constructor'): return ('void',)
    return ('other', i)

def ex(x):
    """irep expression -> tuple (op, type, ...)"""
    i = x['id']; ns = x.get('namedSub', {}); sub = x.get('sub', [])
    t = ty(ns.get('type')) if 'type' in ns else ('void',)
    if i == 'symbol': return ('sym', t, ns['identifier']['id'])
    if i == 'constant':
        v = ns['value']['id']
        return ('const', t, v)
    if i == 'member': return ('member', t, ex(sub[0]), ns['component_name']['id'])
    if i == 'string_constant': return ('str', t, ns['value']['id'])
    if i == 'typecast': return ('cast', t, ex(sub[0]))
    if i == 'address_of': return ('addr', t, ex(sub[0]))
    if i == 'dereference': return ('deref', t, ex(sub[0]))
    if i == 'index': return ('index', t, ex(sub[0]), ex(sub[1]))
    if i == 'nil': return ('nil', t)
    if i == 'side_effect': return ('side', t, ns.get('statement', {}).get('id'), [ex(s) for s in sub])
    if i in ('struct', 'array'): return (i, t, [ex(s) for s in sub])
    return ('op', t, i, [ex(s) for s in sub])

class Instr:
    __slots__ = ('i', 'kind', 'guard', 'target', 'lhs', 'rhs', 'fn', 'args', 'line', 'file', 'comment')
    def __repr__(self):
        return '%s@%s:%s' % (self.kind, self.file, self.line)

class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.instrs = []; self.file = None
        self.heads = {}

def canon(name):
    n = re.sub(r'\$link\d+$', '', name)
    m = re.match(r'__CPROVER_file_local_[A-Za-z0-9_]*?_[ch]_(.*)$', n)
    return m.group(1) if m else n

class Program:
    pass

_TAB = re.compile(r'\{((?:\s*[-+]?[0-9.][-+0-9.eExX]*[fFlL]?\s*,|\s*\n?# \d+ "[^"\n]*"[^\n]*\n){400,}[^{}]*)\}')

def strip_tables(txt):
    """Replace the values of literal float tables with more than 400 entries (the
    sinc coefficients) by zeros; dimensions, types and all code stay.  The verifier
    treats the contents of these tables as arbitrary, so nothing is lost."""
    return _TAB.sub(lambda m: '{0' + '\n' * m.group(1).count('\n') + '}', txt)

def load(defines=(), keep=None):
    tmp = keep or tempfile.mkdtemp(prefix='gvfront')
    try:
        out = os.path.join(tmp, 'all.gb')
        cmd = ['goto-cc', '--export-file-local-symbols']
        pp = ['gcc', '-E', '-I', os.path.join(VERIF, 'stub'),
               '-I', os.path.join(REPO, 'src'), '-I', os.path.join(REPO, 'include'),
               '-DHAVE_CONFIG_H',] + ['-D' + d for d in defines]
        procs = []
        objs = []
        for s in sources():
            o = os.path.join(tmp, s + '.gb'); objs.append(o)
            i = os.path.join(tmp, s[:-2] + '.i')
            txt = _run(pp + [os.path.join(REPO, 'src', s)], cwd=tmp).decode(errors='replace')
            open(i, 'w').write(strip_tables(txt))
            procs.append((s, subprocess.Popen(cmd + ['-c', i, '-o', o], cwd=tmp,
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, p in procs:
            o, _ = p.communicate()
            if p.returncode: raise FrontError('goto-cc %s: %s' % (s, o.decode(errors='replace')[-2000:]))
        _run(['goto-cc', '--export-file-local-symbols'] + objs + ['-o', out], cwd=tmp)
        p1 = subprocess.Popen(['goto-instrument', '--show-goto-functions', '--json-ui', out], cwd=tmp,
                              stdout=open(os.path.join(tmp, 'f.json'), 'wb'), stderr=subprocess.DEVNULL)
        p2 = subprocess.Popen(['goto-instrument', '--show-symbol-table', '--json-ui', out], cwd=tmp,
                              stdout=open(os.path.join(tmp, 's.json'), 'wb'), stderr=subprocess.DEVNULL)
        if p1.wait() or p2.wait(): raise FrontError('goto-instrument failed')
        fj = json.load(open(os.path.join(tmp, 'f.json')))
        sj = json.load(open(os.path.join(tmp, 's.json')))
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)
    P = Program()
    st = [e for e in sj if 'symbolTable' in e][0]['symbolTable']
    P.structs = {}; P.enums = {}; P.symtype = {}; P.statics = {}
    for name, s in st.items():
        t = s.get('type', {})
        if name.startswith('tag-'):
            if t.get('id') == 'struct':
                P.structs[name] = [(c['namedSub']['name']['id'], ty(c['namedSub']['type'])) for c in
                                   t.get('namedSub', {}).get('components', {}).get('sub', [])]
            elif t.get('id') == 'c_enum':
                P.enums[name] = ty(t['sub'][0])
            continue
        if t.get('id') != 'code' and not s.get('isType'):
            P.symtype[name] = ty(t)
            if s.get('isStaticLifetime') and not name.startswith('__CPROVER'):
                v = s.get('value')
                P.statics[name] = v if v and v.get('id') not in (None, 'nil', '') else None
    del sj
    fs = [e for e in fj if 'functions' in e][0]['functions']
    P.funcs = {}; P.alias = {}
    for f in fs:
        F = Func(f['name']); F.params = f.get('parameterIdentifiers', [])
        F.body = f.get('isBodyAvailable', False)
        for n, i in enumerate(f.get('instructions', [])):
            I = Instr(); I.i = i['locationNumber']; I.kind = i['instructionId']
            I.guard = ex(i['guard']) if 'guard' in i else None
            I.target = i.get('targets', [None])[0] if i.get('targets') else None
            if i.get('targets') and len(i['targets']) > 1: raise FrontError('multi-target goto')
            sl = i.get('sourceLocation', {})
            I.line = sl.get('line'); I.file = os.path.basename(sl.get('file', '') or '')
            I.comment = i.get('instruction', '').split('//')[-1].strip() if I.kind == 'ASSERT' else ''
            I.lhs = I.rhs = I.fn = I.args = None
            c = i.get('code')
            if c is not None:
                sub = c.get('sub', [])
                if I.kind == 'ASSIGN': I.lhs = ex(sub[0]); I.rhs = ex(sub[1])
                elif I.kind == 'SET_RETURN_VALUE': I.rhs = ex(sub[0])
                elif I.kind in ('DECL', 'DEAD'): I.lhs = ex(sub[0])
                elif I.kind == 'FUNCTION_CALL':
                    I.lhs = ex(sub[0]) if sub[0].get('id') not in ('nil', '') else None
                    I.fn = ex(sub[1]); I.args = [ex(a) for a in sub[2].get('sub', [])]
                elif I.kind == 'OTHER':
                    pass
            F.instrs.append(I)
            if I.file and not F.file: F.file = I.file
        # relative indices
        base = {I.i: k for k, I in enumerate(F.instrs)}
        for I in F.instrs:
            if I.target is not None: I.target = base[I.target]
        for k, I in enumerate(F.instrs):
            if I.kind == 'GOTO' and I.target <= k:
                F.heads[I.target] = max(F.heads.get(I.target, 0), k)
        P.funcs[F.name] = F
        P.alias.setdefault(canon(F.name), F.name)
    return P

def initval(v):
    return ex(v)
