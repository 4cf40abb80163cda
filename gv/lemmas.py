"""The IEEE-754 lemmas behind the instances of gv/terms.py, proved by coqc over Flocq (lemmas/fp.v)."""
import os, re, shutil, subprocess, tempfile
from .run import unit
from .terms import FP_LEMMAS
from .world import *

FPV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', 'fp.v')
# axioms of Coq's real numbers
STD = ('ClassicalDedekindReals.sig_forall_dec', 'ClassicalDedekindReals.sig_not_dec', 'FunctionalExtensionality.functional_extensionality_dep', 'Classical_Prop.classic')

@unit
def lemmas(c):
    names = sorted({n for _, ns in FP_LEMMAS.values() for n in ns})
    d = tempfile.mkdtemp(prefix='vlem_')
    try:
        f = os.path.join(d, 'fp.v')
        src = open(FPV).read()
        if re.search(r'\b(Axiom|Parameter|Admitted|admit|Conjecture)\b', src): raise Unsupported('lemma file contains unproved statements')
        open(f, 'w').write(src + '\nDefinition every_lemma := (%s).\nPrint Assumptions every_lemma.\n' % ', '.join('@' + n for n in names))
        try: p = subprocess.run(['coqc', '-q', f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
        except (OSError, subprocess.TimeoutExpired) as e: raise Unsupported('coqc: %s' % e)
        o = p.stdout.decode(errors='replace')
        if p.returncode: raise Unsupported('coqc: %s' % o[-300:])
        ax = set(re.findall(r'^([A-Za-z_][\w.]*) :', o, re.M)) | set(re.findall(r'^([A-Za-z_][\w.]*)$', o, re.M))
        ax -= {'Axioms'}
        if ax - set(STD): raise Unsupported('unexpected axioms: %s' % sorted(ax - set(STD)))
        for k, (txt, ns) in sorted(FP_LEMMAS.items()):
            c.post_obs.append(dict(kind='lemma', fn='lemmas/fp.v', where=', '.join(ns), desc='%s: %s' % (k, txt), status='proved', trivial=False))
        c.notes.append('%d Coq lemmas over Flocq checked by coqc' % len(names))
    finally: shutil.rmtree(d, ignore_errors=True)
