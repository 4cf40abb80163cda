#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]
Decides one property of /repo's current working tree.
 1. proof: the units listed in gv/plan.py are regenerated from /repo's sources and every
    obligation is decided (deciding step).
 2. bounded cross-check: the real code (ASan+UBSan) is run against an executable
    specification (harness/h.c) on generated histories; it supplies failing inputs for
    failed obligations and stands in (labelled bounded) for functions the verifier
    could not read.
exit 0 held / 1 VIOLATION."""
import sys, os, json, time, subprocess, tempfile, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from gv.plan import PROPS, TRUSTED, COMMON_ASSUMPTIONS

T0 = time.time()
def left(cap): return max(1.0, cap - (time.time() - T0))

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    prop = PROPS[pid]
    known = load_known(pid)
    tmp = tempfile.mkdtemp(prefix='vcheck_%s_' % pid)
    rc = 2
    try: rc = run(pid, prop, tier, seed, known, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def load_known(pid):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.append(l)
    return out

NP = max(2, os.cpu_count() or 4)
CONC_SHARE = 3        # concrete processes running besides the proof

def run(pid, prop, tier, seed, known, tmp):
    quick = tier == 'quick'
    units = prop['units'] + ([] if quick else prop.get('thorough_units', []))
    cap = prop.get('cap', 420) if quick else 3600
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED='0')
    # ---- harness
    h = os.path.join(tmp, 'h'); hb = None; harness_err = None
    b = subprocess.run([os.path.join(HERE, 'harness', 'build.sh'), h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if b.returncode: harness_err = b.stdout.decode(errors='replace')[-1500:]
    # ---- proof processes
    jobs = []
    pend = [(i, u) for i, u in enumerate(units)]
    running = []
    def start():
        while pend and len(running) < NP - (1 if quick else 0):
            i, u = pend.pop(0)
            out = os.path.join(tmp, 'u%d.json' % i); lg = open(os.path.join(tmp, 'u%d.log' % i), 'wb')
            p = subprocess.Popen(['python3-vt', '-u', '-m', 'gv.run', out] + [str(x) for x in u], cwd=HERE, env=env, stdout=lg, stderr=subprocess.STDOUT, start_new_session=True)
            running.append((i, u, p, out, time.time()))
    start()
    # ---- concrete search
    csecs = (prop.get('csecs', 20) if quick else 600) if prop.get('concrete', True) and not harness_err else 0
    conc = Concrete(h, pid, seed, tmp)
    if csecs: conc.start(CONC_SHARE, csecs)
    results = {}
    while running or pend:
        for r in list(running):
            i, u, p, out, t = r
            rc = p.poll()
            if rc is None and time.time() - T0 > cap:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); rc = 'timeout'
            if rc is None: continue
            running.remove(r)
            if os.path.exists(out):
                try: results[i] = json.load(open(out)); continue
                except ValueError: pass
            results[i] = dict(unit=u[0], args=list(map(str, u[1:])), error='timeout' if rc == 'timeout' else 'process ended (%s)' % rc,
                              obligations=[], raw=0, raw_ok=0, covered=[], contracts=[], notes=[], assumed=[], loops=[], solver=dict(queries=0, time=0, by={}), wall=round(time.time() - t, 1))
        start()
        if conc.failed(): pass
        time.sleep(0.1)
        if time.time() - T0 > cap and pend:
            for i, u in pend:
                results[i] = dict(unit=u[0], args=list(map(str, u[1:])), error='timeout (not started)', obligations=[], raw=0, raw_ok=0, covered=[], contracts=[], notes=[], assumed=[], loops=[], solver=dict(queries=0, time=0, by={}), wall=0)
            pend.clear()
    conc.wait()
    res = [results[i] for i in sorted(results)]
    failed = []; unknown = []; errors = []
    for r in res:
        if r['error']: errors.append((r, r['error']))
        for o in r['obligations']:
            if o['status'] == 'failed': failed.append((r, o))
            elif o['status'] == 'unknown': unknown.append((r, o))
    extra = 0
    if (failed or unknown or errors) and not conc.fail and not harness_err and prop.get('concrete', True):
        # look harder for a failing input
        extra = (100 if failed else 60) if quick else 600
        extra = min(extra, max(10, 800 - (time.time() - T0))) if quick else extra
        conc.start(NP, extra, phase=1); conc.wait()
    viol = []
    if conc.fail:
        path = write_replay(pid, conc, failed, res)
        viol.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif failed:
        path = write_replay(pid, None, failed, res)
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    undecided = [(r, dict(kind='unit', fn=r['unit'], where=' '.join(r['args']), desc=e)) for r, e in errors] + unknown
    evidence(pid, prop, tier, seed, res, conc, viol, undecided, failed, harness_err, csecs, extra)
    nob = sum(len(r['obligations']) for r in res); nok = sum(sum(o['status'] == 'proved' for o in r['obligations']) for r in res)
    print('%s: %d obligations, %d discharged, %d undecided; bounded cross-check: %d histories; %.0fs' % (pid, nob, nok, len(undecided), conc.cases, time.time() - T0))
    for r, o in failed[:20]: print('  failed obligation: %s %s %s: %s' % (o['kind'], o['fn'], o['where'], o['desc']))
    for r, o in undecided[:20]: print('  undecided (bounded stand-in used): %s %s %s: %s' % (o['kind'], o['fn'], o['where'], o['desc']))
    if harness_err: print('  harness did not build: ' + harness_err[-300:])
    for l in known: print('KNOWN-FINDING: property=%s %s' % (pid, l.split(' ', 2)[2]))
    for v in viol: print(v)
    if viol: return 1
    if harness_err and undecided and not nok: return 2
    return 0

class Concrete:
    def __init__(self, h, pid, seed, tmp):
        self.h = h; self.pid = pid; self.seed = seed; self.tmp = tmp; self.ps = []; self.cases = 0; self.fail = None; self.secs = 0; self.runs = 0
    def start(self, n, secs, phase=0):
        self.secs = secs
        for k in range(n):
            o = open(os.path.join(self.tmp, 'c%d_%d' % (phase, k)), 'w+b')
            cmd = [self.h, self.pid, 'search', str(self.seed + 1000 * phase), str(int(secs)), str(k), str(n)]
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
            p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, cwd=self.tmp, env=env, start_new_session=True)
            self.ps.append((p, o, cmd, time.time() + secs + 60))
            self.runs += 1
    def failed(self): return False
    def wait(self):
        for p, o, cmd, dl in self.ps:
            try: p.wait(timeout=max(1, dl - time.time()))
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
                o.seek(0); t = o.read().decode(errors='replace')
                self.note(t, 'timeout', cmd); o.close(); continue
            o.seek(0); t = o.read().decode(errors='replace'); o.close()
            self.note(t, p.returncode, cmd)
        self.ps = []
    def note(self, t, rc, cmd):
        n = None
        for l in t.split('\n'):
            if l.startswith('OK cases'): n = int(l.split()[2])
        if n is not None: self.cases += n
        if rc == 0: return
        if rc == 'timeout':
            # a history that does not end: reported by the harness' own watchdog; a silent
            # hang of the process is reported only for the termination property
            return
        if rc in (-9, -15): return     # killed from outside
        if not self.fail: self.fail = dict(output=t[-6000:], cmd=cmd, rc=rc)

def write_replay(pid, conc, failed, res):
    d = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + '.txt')
    with open(path, 'w') as f:
        f.write('property %s\n' % pid)
        if conc:
            case = [l for l in conc.fail['output'].split('\n') if l.startswith('CASE')]
            f.write('failing history found on the real code (exit %s)\n' % conc.fail['rc'])
            if case:
                w = case[-1].split()
                f.write('replay: harness/build.sh /tmp/h && /tmp/h %s case %s %s\n' % (pid, w[3], w[1]))
            f.write('command: %s\n%s\n' % (' '.join(conc.fail['cmd']), conc.fail['output']))
        for r, o in failed:
            f.write('failed obligation: unit %s %s | %s | %s | %s | %s | verifier: %s\n' % (r['unit'], ' '.join(r['args']), o['kind'], o['fn'], o['where'], o['desc'], o['status']))
        for r in res:
            f.write('verifier run %s %s: %d obligations, error=%s, solver %s\n' % (r['unit'], ' '.join(r['args']), len(r['obligations']), r['error'], json.dumps(r['solver'])))
    return path

def evidence(pid, prop, tier, seed, res, conc, viol, undecided, failed, harness_err, csecs, extra):
    nob = sum(len(r['obligations']) for r in res); nok = sum(sum(o['status'] == 'proved' for o in r['obligations']) for r in res)
    kinds = {}
    for r in res:
        for o in r['obligations']:
            k = kinds.setdefault(o['kind'], [0, 0]); k[0] += 1; k[1] += o['status'] == 'proved'
    back = {}
    for r in res:
        for k, v in r['solver']['by'].items(): back[k] = back.get(k, 0) + v
    cov = dict(
        obligations=nob, discharged=nok,
        checker_cmd='python3-vt -m gv.run OUT.json <unit> <args>  for units: ' + '; '.join(' '.join(map(str, [r['unit']] + r['args'])) for r in res),
        trusted_base=TRUSTED,
        obligation_kinds={k: dict(generated=v[0], discharged=v[1]) for k, v in kinds.items()},
        generated_on_paths=sum(r['raw'] for r in res),
        functions_under_contract=sorted({f for r in res for f in r['covered']}),
        callee_contracts_used=sorted({f for r in res for f in r['contracts']}),
        loops_with_inferred_invariants=[dict(function=l['function'], line=l['line'], invariants=len(l['invariants'])) for r in res for l in r['loops']][:60],
        solver_queries=sum(r['solver']['queries'] for r in res), solver_time_s=round(sum(r['solver']['time'] for r in res), 1),
        discharged_by_back_end=back,
        units=[dict(unit=' '.join(map(str, [r['unit']] + r['args'])), obligations=len(r['obligations']), discharged=sum(o['status'] == 'proved' for o in r['obligations']), error=r['error'], wall_s=r['wall']) for r in res],
        undecided=['%s %s %s: %s' % (o['kind'], o['fn'], o['where'], o['desc']) for r, o in undecided],
        bounded_cross_check=dict(note='bounded, not counted as proved', histories=conc.cases, processes=conc.runs, seconds_each=csecs, extended_search_s=extra, harness_error=harness_err),
    )
    if prop['level'] != 'proof' or prop.get('explanation'): cov['explanation'] = prop.get('explanation', '')
    if prop['level'] == 'other': cov['explanation'] = prop.get('explanation', '')
    if prop['level'] == 'exploration':
        cov.update(evaluations=conc.cases, distinct_nontrivial=conc.cases, rule='generated call histories', samples=[])
    ev = dict(property=pid, tier=tier, seed=seed, level=prop['level'], coverage=cov,
              assumptions=COMMON_ASSUMPTIONS + prop.get('assumptions', []) + sorted({a for r in res for a in r['assumed']}),
              wall_s=round(time.time() - T0, 1), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', pid + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1); os.replace(p + '.tmp', p)

if __name__ == '__main__': main()
