"""Decides one property: discharges its lemmas on the current source of /repo and runs its contracts on the real code."""
import sys, os, json, time, shutil, tempfile, subprocess, traceback, hashlib, importlib, multiprocessing, ast
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()

def env(scratch):
    e = dict(os.environ)
    e.update(LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', JYTHONPATH='%s:/opt/pyamf-deps' % scratch)
    e.setdefault('HOME', '/root')
    return e

JY = ['java', '-Xss512m', '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar', '-Dpython.home=/usr/share/jython',
      '-Dpython.executable=/usr/share/jython/bin/jython', '-Dpython.cachedir.skip=true', 'org.python.util.jython', '-B']

def scratch_copy():
    d = tempfile.mkdtemp(prefix='verif-pyamf-')
    shutil.copytree(os.path.join(REPO, 'pyamf'), os.path.join(d, 'pyamf'),
                    ignore=shutil.ignore_patterns('*.class', '*.pyc', 'tests', '__pycache__'))
    v = os.path.join(d, 'pyamf', '_version.py')
    if not os.path.exists(v):
        with open(v, 'w') as f: f.write('from pyamf.versions import Version\n\nversion = Version(*(0, 8, 0))\n')
    return d

def start_harness(scratch, prop, seed, budget, mode, extra=()):
    out = os.path.join(scratch, 'h-%s.json' % mode)
    cmd = JY + [os.path.join(VERIF, 'jy', 'harness.py'), prop, str(seed), str(budget), out] + list(extra)
    log = open(out + '.log', 'wb')
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env(scratch), cwd=scratch)
    return p, out

def finish_harness(p, out, limit):
    try: p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
    try: return json.load(open(out))
    except Exception:
        try: tail = open(out + '.log', 'rb').read()[-3000:].decode('utf-8', 'replace')
        except Exception: tail = ''
        return {'error': 'the contract run ended with %s: %s' % (p.returncode, tail)}

def dump_asts(scratch):
    out = os.path.join(scratch, 'ast.json')
    files = []
    for r, ds, fs in os.walk(os.path.join(scratch, 'pyamf')):
        for f in fs:
            if f.endswith('.py'): files.append(os.path.relpath(os.path.join(r, f), scratch))
    stubs = os.path.join(scratch, 'stubs')
    if not os.path.exists(stubs): shutil.copytree(os.path.join(VERIF, 'stubs'), stubs)
    for r, ds, fs in os.walk(stubs): files += [os.path.relpath(os.path.join(r, f), scratch) for f in fs if f.endswith('.py')]
    cmd = JY + [os.path.join(VERIF, 'jy', 'dump_ast.py'), scratch, out] + sorted(files)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(scratch), timeout=200)
    d = json.load(open(out))
    return dict((k[6:] if k.startswith('stubs/') else k, v) for k, v in d.items())

_W = {}
def run_lemma(i):
    lem = _W['lemmas'][i]
    try:
        lem.run(_W['world'])
    except Exception as e:
        lem.out.append('engine error: %s' % traceback.format_exc()[-1500:])
    return dict(name=lem.name, status=lem.status, paths=lem.paths, secs=round(getattr(lem, 'secs', 0), 2), solver_s=round(lem.solver_s, 2),
                queries=lem.queries, cvc5=lem.cvc5_calls, obls=[(o.name, o.ok, o.backend) for o in lem.obls], failures=lem.failures,
                out=lem.out[:5], functions=sorted(lem.functions), contracts=sorted(lem.used_contracts), doc=(lem.doc or '').strip(),
                models=lem.models[:4], bounded=lem.bounded, covers=sorted(lem.covered), missing=sorted(set(lem.cover) - lem.covered))

def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    quick = tier != 'thorough'
    budget = 22 if quick else 240
    scratch = scratch_copy()
    if '--replay' in sys.argv:
        rf = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        print(json.dumps(rf, indent=1)[:6000])
        if rf.get('case') is None: return 1
        json.dump([rf], open(os.path.join(scratch, 'cases.json'), 'w'))
        p, out = start_harness(scratch, prop, seed, 0, 'replay', [os.path.join(scratch, 'cases.json')])
        r = finish_harness(p, out, 300)
        print(json.dumps(r.get('cases', r), indent=1))
        shutil.rmtree(scratch, ignore_errors=True)
        return 1 if any(c.get('error') for c in r.get('cases', [])) else 0
    try:
        return decide(prop, seed, tier, quick, budget, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(prop, seed, tier, quick, budget, scratch):
    known = json.load(open(os.path.join(VERIF, 'known-findings.json')))
    kf = [k for k in known['findings'] if k['property'] == prop]
    kfile = os.path.join(scratch, 'known.json')
    json.dump(kf, open(kfile, 'w'))
    h, hout = start_harness(scratch, prop, seed, budget, 'main', [kfile])
    results = []; engine_error = None
    try:
        asts = dump_asts(scratch)
        from pyvc import core, world as W
        world = W.World(asts)
        lemmas = []
        if os.path.exists(os.path.join(VERIF, 'contracts', prop.lower() + '.py')):
            lemmas = importlib.import_module('contracts.' + prop.lower()).lemmas(world, tier)
        if os.environ.get('VERIF_LEMMA'): lemmas = [l for l in lemmas if os.environ['VERIF_LEMMA'] in l.name]
        for l in lemmas:
            l.models = []
            if not quick: l.budget_s *= 4; l.timeout_ms *= 3
        _W.update(lemmas=lemmas, world=world)
        with multiprocessing.get_context('fork').Pool(min(7, max(1, len(lemmas)))) as pool:
            rs = [pool.apply_async(run_lemma, (i,)) for i in range(len(lemmas))]
            deadline = time.time() + (260 if quick else 1500)
            for l, r in zip(lemmas, rs):
                try: results.append(r.get(max(1, deadline - time.time())))
                except multiprocessing.TimeoutError:
                    results.append(dict(name=l.name, status='out-of-reach', paths=0, secs=0, solver_s=0, queries=0, cvc5=0, obls=[], failures=[],
                                        out=['time limit'], functions=[], contracts=[], doc='', models=[], bounded=l.bounded, covers=[], missing=[]))
            pool.terminate()
        if world.load_errors: engine_error = 'modules not loaded by the verifier: %s' % world.load_errors
    except Exception:
        engine_error = traceback.format_exc()[-3000:]
    hr = finish_harness(h, hout, budget + (120 if quick else 400))
    refuted = [r for r in results if r['status'] == 'refuted']
    violations = []
    lines = []
    def add_case_failures(res):
        for c in res.get('contracts', []):
            for f in c.get('fails', []):
                violations.append(dict(property=prop, kind='contract', contract=c['name'], case=f['case'], error=f['error'], obligation=c.get('doc')))
        for c in res.get('cases', []):
            if c.get('error') and not c.get('known'):
                violations.append(dict(property=prop, kind='contract', contract=c['contract'], case=c['case'], error=c['error'], obligation=c.get('doc')))
    add_case_failures(hr)
    for k in hr.get('known', []):
        if k.get('error'): lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if hr.get('error') and not violations:
        # the contracts could not be run at all (for instance the package does not import): retry once
        p, out = start_harness(scratch, prop, seed, budget, 'retry', [kfile])
        hr2 = finish_harness(p, out, budget + 200)
        if not hr2.get('error'): hr = hr2; add_case_failures(hr)
        else:
            violations.append(dict(property=prop, kind='harness', contract='the package can be imported and its contracts evaluated', case='import pyamf', error=hr2['error'], obligation=''))
    if refuted and not violations:
        # replay the verifier's counterexamples, then search deeper, on the real code
        cases = []
        for r in refuted:
            for m in r['models']: cases.append(m)
        cf = os.path.join(scratch, 'cases.json')
        json.dump(cases, open(cf, 'w'))
        p, out = start_harness(scratch, prop, seed + 7919, budget if quick else budget, 'deep', [kfile, cf])
        deep = finish_harness(p, out, budget + 200)
        add_case_failures(deep)
        if not violations:
            r = refuted[0]
            violations.append(dict(property=prop, kind='obligation', contract=r['name'], case=None, error=r['failures'][0][1],
                                   obligation='%s / %s' % (r['name'], r['failures'][0][0]), doc=r['doc'], all=[(x['name'], x['failures']) for x in refuted]))
    # evidence
    obl = sum(len(r['obls']) for r in results)
    dis = sum(1 for r in results for o in r['obls'] if o[1])
    backends = {}
    for r in results:
        for o in r['obls']:
            if o[1]: backends[o[2]] = backends.get(o[2], 0) + 1
    funcs = sorted(set(f for r in results for f in r['functions']))
    undecided = [dict(lemma=r['name'], why=r['out'] or r['status']) for r in results if r['status'] not in ('proved', 'refuted')]
    from pyvc import trust
    used = sorted(set(c for r in results for c in r['contracts']))
    evs = hr.get('contracts', [])
    proved = [r['name'] for r in results if r['status'] == 'proved' and not r['bounded']]
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if obl else 'other', wall_s=0.0, violations=len(violations),
              coverage=dict(
                  obligations=obl, discharged=dis, checker_cmd='python3-vt /verif/tools/check.py %s' % prop,
                  trusted_base=trust.base(funcs),
                  explanation='verification conditions generated by pyvc from the AST of /repo and discharged by z3 (cvc5 on unknown); '
                              'contracts of the same property evaluated on the real code under Jython as the bounded stand-in',
                  lemmas=[dict(name=r['name'], status=r['status'], obligations=len(r['obls']), paths=r['paths'], secs=r['secs'], solver_s=r['solver_s'],
                               queries=r['queries'], bounded=r['bounded'] or False, what=' '.join(r['doc'].split())[:300]) for r in results],
                  lemmas_proved=len(proved), functions_under_contract=funcs, backends=backends,
                  solver_seconds=round(sum(r['solver_s'] for r in results), 2), cvc5_calls=sum(r['cvc5'] for r in results),
                  assumed_callee_contracts=trust.classify(used), undecided=undecided, engine_error=engine_error,
                  bounded_contracts=[dict(name=c['name'], evaluations=c['evals'], distinct=c['distinct'], what=c['doc']) for c in evs],
                  evaluations=sum(c['evals'] for c in evs), distinct_nontrivial=sum(c['distinct'] for c in evs),
                  rule='distinct input descriptions per contract (repr); generated from VERIF_SEED plus fixed corner cases',
                  samples=[s for c in evs for s in c['samples'][:2]][:24],
                  conformance=hr.get('conformance')),
              assumptions=trust.assumptions(used, undecided))
    if not evs and hr.get('error'): ev['coverage']['harness_error'] = hr['error']
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d lemmas (%d proved), %d/%d obligations discharged, %d contract evaluations, %.1f s' % (
        prop, len(results), sum(1 for r in results if r['status'] == 'proved'), dis, obl, ev['coverage']['evaluations'], ev['wall_s']))
    for u in undecided: print('undecided: %s: %s' % (u['lemma'], str(u['why'])[:300]))
    for r in results:
        if r['missing']: print('cover missing: %s: %s' % (r['name'], r['missing']))
    if engine_error: print('engine: ' + engine_error.strip().split('\n')[-1][:300])
    for l in lines: print(l)
    if not violations: return 0
    rd = os.path.join(VERIF, 'replay'); os.makedirs(rd, exist_ok=True)
    for v in violations[:3]:
        fn = os.path.join(rd, '%s-%s.json' % (prop, hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]))
        json.dump(v, open(fn, 'w'), indent=1)
        print('%s: %s' % (v['contract'], str(v['error'])[:700]))
        if v['case'] is not None: print('input: %s' % str(v['case'])[:500])
        print('VIOLATION property=%s replay=%s%s' % (prop, fn, ' no-failing-input-found' if v['case'] is None else ''))
    return 1

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
