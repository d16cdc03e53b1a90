"""What stays unverified, for the evidence files."""
BASE = [
    'pyvc: the verification-condition generator itself (/verif/pyvc), including its models of the Python 2.7 builtins',
    'models of struct, cStringIO, str/unicode, dict/list/set, datetime/calendar, zlib, inspect; compared with the running Jython by jy/conformance.py on every check',
    'z3 (and cvc5 on unknown) as the deciding solver',
    'the Jython parser (the verified text is the AST of the files in /repo, dumped on every run; nothing is dropped)',
]
PROVED_ELSEWHERE = {}     # callee contract -> property/lemma that discharges it; filled by contracts/lib.py
TRUSTED = {}
def base(funcs): return list(BASE)
def classify(used):
    from contracts import lib
    return [dict(callee=u, discharged_by=lib.CALLEE.get(u, 'assumed')) for u in used]
def assumptions(used, undecided):
    from contracts import lib
    a = ['doubles are reals with a bounded rounding error per operation (no subnormal effects); nan and infinities are exact',
         'integers are mathematical, as in Python; strings are arbitrary sequences of known length',
         'adapter registration at import is not modelled (pyamf.adapters.register_adapters does nothing in the proof world)',
         'formatting of error messages does not raise', 'a generator of the code is run to its end where it is created (its consumer does not change what it reads)']
    a += ['Django is modelled by /verif/stubs/django (its HTTP response classes and settings), and urllib2, urlparse, gzip and uuid by the files of the same names in /verif/stubs; '
          'the real ones run in the contract evaluations; /verif/stubs/vtypes.py holds the example classes of the lemmas']
    a += ['assumed callee contract: %s (%s)' % (u, lib.CALLEE.get(u, 'assumed')) for u in used if str(lib.CALLEE.get(u, 'assumed')).startswith('assumed')]
    a += ['not decided by proof on this run: %s' % u['lemma'] for u in undecided]
    return a
