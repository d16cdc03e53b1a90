"""second back end for the queries z3 gives up on"""
import subprocess, tempfile, os, z3
def check(solver, extra, timeout_s):
    s = z3.Solver()
    for a in solver.assertions(): s.add(a)
    for e in extra: s.add(e)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write(txt); f.close()
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % (timeout_s * 1000), f.name], capture_output=True, text=True,
                               timeout=timeout_s + 5).stdout
        except Exception:
            return z3.unknown
        l = o.strip().split('\n')[0] if o.strip() else ''
        return z3.unsat if l == 'unsat' else z3.unknown
    finally:
        os.unlink(f.name)
