# Run by Jython: evaluates the contracts of one property on the real code.
# usage: harness.py PROP SEED BUDGET OUT [known.json [cases.json]]
import sys, os, json, time, random, ast, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import hlib

def run_case(c, case):
    """None, or the text of the broken contract"""
    try:
        c.fn(case)
        return None
    except hlib.Skip:
        return None
    except (KeyboardInterrupt,):
        raise
    except hlib.Broken as e:
        return str(e)
    except BaseException as e:
        tb = traceback.format_exc()
        return 'unexpected %s: %s' % (e.__class__.__name__, tb[-1500:])
    except:
        return 'unexpected error: %s' % traceback.format_exc()[-1500:]

def clip(s, n=400):
    s = s if isinstance(s, str) else repr(s)
    return s if len(s) <= n else s[:n] + '...'

def main():
    prop, seed, budget, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    known = json.load(open(sys.argv[5])) if len(sys.argv) > 5 and 'known' in sys.argv[5] else []
    cases = json.load(open(sys.argv[6])) if len(sys.argv) > 6 else []
    if len(sys.argv) > 5 and 'cases' in sys.argv[5]: cases = json.load(open(sys.argv[5]))
    res = {'contracts': [], 'known': [], 'cases': []}
    mod = __import__('contracts.' + prop.lower(), {}, {}, ['x'])
    cs = [c for c in hlib.REG if c.prop == prop]
    byname = dict((c.name, c) for c in cs)
    kset = set((k['contract'], k['case']) for k in known)
    for k in known:
        c = byname.get(k['contract'])
        err = run_case(c, ast.literal_eval(k['case'])) if c else None
        res['known'].append({'what': k['what'], 'error': clip(err, 800) if err else None})
    for k in cases:
        c = byname.get(k['contract'])
        if c is None: continue
        try: case = ast.literal_eval(k['case'])
        except Exception: continue
        err = run_case(c, case)
        res['cases'].append({'contract': k['contract'], 'case': k['case'], 'error': clip(err, 1500) if err else None,
                             'doc': c.doc, 'known': (k['contract'], repr(case)) in kset})
    if budget > 0:
        t0 = time.time()
        n = len(cs)
        for i, c in enumerate(cs):
            left = budget - (time.time() - t0)
            share = max(0.3, left * c.weight / sum(x.weight for x in cs[i:]))
            r = {'name': c.name, 'doc': c.doc, 'evals': 0, 'distinct': 0, 'samples': [], 'fails': []}
            seen = set()
            rnd = random.Random('%s:%s:%d' % (prop, c.name, seed))
            tc = time.time()
            def one(case, fixed):
                rp = repr(case)
                if rp in seen: return
                seen.add(rp)
                r['evals'] += 1
                err = run_case(c, case)
                if len(r['samples']) < 3 or (not fixed and len(r['samples']) < 5): r['samples'].append('%s %s' % (c.name, clip(rp, 160)))
                if err is not None and (c.name, rp) not in kset:
                    r['fails'].append({'case': rp, 'error': clip(err, 1500)})
            for case in c.corner:
                one(case, True)
                if len(r['fails']) >= 2: break
            if not r['fails'] and c.gen is not None:
                k = 0
                while k < c.limit and time.time() - tc < share:
                    k += 1
                    one(c.gen(rnd), False)
                    if r['fails']: break
            if r['fails'] and c.shrink:
                f = r['fails'][0]
                f['case'], f['error'] = shrink(c, f)
            r['distinct'] = len(seen)
            res['contracts'].append(r)
    try:
        import conformance
        res['conformance'] = conformance.run(seed)
    except Exception:
        res['conformance'] = {'error': traceback.format_exc()[-500:]}
    f = open(out + '.tmp', 'wb'); json.dump(clean(res), f); f.close()
    os.rename(out + '.tmp', out)

def clean(x):
    if isinstance(x, dict): return dict((clean(k), clean(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)): return [clean(i) for i in x]
    if isinstance(x, str): return x.decode('latin-1')
    return x

def shrink(c, f):
    best = ast.literal_eval(f['case']); err = f['error']
    t0 = time.time()
    improved = True
    while improved and time.time() - t0 < 4:
        improved = False
        for cand in hlib.smaller(best):
            e = run_case(c, cand)
            if e is not None and e[:25] == err[:25]:
                best, err = cand, e; improved = True; break
            if time.time() - t0 > 4: break
    return repr(best), clip(err, 1500)

try:
    main()
except:
    traceback.print_exc()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(3)
os._exit(0)
