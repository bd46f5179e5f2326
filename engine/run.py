"""check driver: python run.py PROP quick|thorough"""
import sys, os, json, subprocess, time, importlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'trunk'))
WORKER = os.path.join(HERE, 'worker.py')

def known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]

def call(args, timeout, log):
    with open(log, 'wb') as f:
        p = subprocess.Popen([sys.executable, WORKER] + args, stdout=f, stderr=subprocess.STDOUT, cwd=os.path.dirname(log), start_new_session=True)
        try:
            p.wait(timeout)
            return p.returncode
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait()
            return 'timeout'

def one(prop, h, tier, seed, budget, tmp):
    d = os.path.join(tmp, h); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'sym.json'); log = os.path.join(d, 'sym.log')
    t0 = time.time()
    rc = call(['sym', prop, h, tier, str(seed), out, str(budget)], budget + 60, log)
    res = dict(name=h, error=None)
    if rc != 0 or not os.path.exists(out):
        res['error'] = 'worker ended with %s: %s' % (rc, open(log).read()[-1500:])
        if not os.path.exists(out):
            res.update(cands=[], witnesses=[])
            return res
    res.update(json.load(open(out)))
    # concrete runs on the real code: witnesses and candidate violations
    spec, tags = [], []
    for i, w in enumerate(res['witnesses']): spec.append(dict(env=w['env'], choices=w['choices'])); tags.append(('w', i))
    for i, c in enumerate(res['cands']):
        for e in (c.get('envs') or [c['env']]):
            if e is not None: spec.append(dict(env=e, choices=c['choices'])); tags.append(('c', i))
    res['conc'] = []
    if spec:
        inp, co, clog = (os.path.join(d, x) for x in ('in.json', 'conc.json', 'conc.log'))
        json.dump(spec, open(inp, 'w'))
        rc = call(['conc', prop, h, tier, inp, co], 240, clog)
        if rc != 0 or not os.path.exists(co):
            res['error'] = 'replay ended with %s: %s' % (rc, open(clog).read()[-1500:])
            return res
        for t, s, r in zip(tags, spec, json.load(open(co))): res['conc'].append((t, s, r))
    return res

def close(a, b):
    if a is None or b is None: return True
    if a != a and b != b: return True
    return abs(a - b) <= 1e-6 + 1e-5 * max(abs(a), abs(b))

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    only = sys.argv[3:] 
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.environ['VERIF_TIER'] = tier
    from engine import harness as H
    importlib.import_module('props.' + prop)
    hs = [h for h in H.HARNESSES[prop] if tier == 'thorough' or h['tier'] == 'quick']
    if only: hs = [h for h in H.HARNESSES[prop] if h['name'] in only]
    budget_all = 780 if tier == 'quick' else 3300
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    rounds = max(1, -(-len(hs) // jobs))
    hs.sort(key=lambda h: -h['weight'])
    try:
        with ThreadPoolExecutor(jobs) as pool:
            futs = [(h, pool.submit(one, prop, h['name'], tier, seed, (h['timeout'] or (240 if tier == 'quick' else 1200)) , tmp)) for h in hs]
            results = [(h, f.result()) for h, f in futs]
    finally:
        pass
    kf = known(prop)
    viol, knowns, inconc, mism = [], {}, [], []
    validated = reached_zero = 0
    tot = dict(paths=0, infeasible=0, branches=0, claims=0, claims_unsat=0, claims_const=0)
    q = dict(queries=0, sat=0, unsat=0, unknown=0, time=0.0, cvc5=0, normalised_to_constant=0)
    funcs, assum, samples = set(), {}, []
    for h, r in results:
        if r.get('error'):
            inconc.append('%s: %s' % (h['name'], r['error'])); 
            if 'paths' not in r: continue
        for k in tot: tot[k] += r.get(k, 0)
        for k in q: q[k] += r['stats'].get(k, 0)
        funcs |= set(r['funcs'])
        for k, v in r['assumptions'].items(): assum[k] = assum.get(k, 0) + v
        for s in r['inconclusive']: inconc.append('%s: %s' % (h['name'], s))
        if r['reached'] + r.get('expected_exc', 0) == 0: inconc.append('%s: vacuous (no path reached the claims)' % h['name'])
        reproduced = set()
        failed = set()
        for (t, s, c) in r.get('conc', []):
            bad = c['status'] in ('fail', 'exc')
            if t[0] == 'w':
                w = r['witnesses'][t[1]]
                if bad:
                    viol.append((h['name'], 'witness', s, c))
                elif c['status'] == 'ok':
                    m = [(a, b) for a, b in zip(w['obs'], c['obs']) if not close(a[1], b[1])]
                    if m or len(w['obs']) != len(c['obs']): mism.append('%s: symbolic and concrete runs differ: %s at %s' % (h['name'], m[:3], s))
                    else:
                        validated += 1
                        if len(samples) < 12: samples.append('%s %s' % (h['name'], json.dumps(dict((k, round(v, 6)) for k, v in list(s['env'].items())[:8]))))
            else:
                if bad and t[1] not in reproduced:
                    reproduced.add(t[1])
                    viol.append((h['name'], r['cands'][t[1]]['claim'], s, c))
        for i, c in enumerate(r['cands']):
            if i not in reproduced and not c.get('soft'):
                # a candidate the real code does not confirm
                inconc.append('%s: counterexample to "%s" not reproduced by the real code (env %s; path %s; concrete %s)' % (h['name'], c['claim'], str(c['env'])[:300], c.get('path', '')[:200],
                    [x[2]['status'] + str(x[2]['fails'][:1]) for x in r['conc'] if x[0] == ['c', i] or x[0] == ('c', i)][:3]))
    out_v = []
    for hn, claim, s, c in viol:
        k = match(kf, hn, claim, s, c)
        if k is not None: knowns.update(k)
        else: out_v.append((hn, claim, s, c))
    inconc += mism
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(states=tot['paths'], transitions=tot['branches'], traces_validated_against_impl=validated, samples=samples or ['-'],
            exhaustive=(not inconc), harnesses=[dict(name=h['name'], bounds=' '.join(h['bounds'].split())[:600], paths=r.get('paths', 0), infeasible=r.get('infeasible', 0), claims=r.get('claims', 0),
                discharged=r.get('claims_unsat', 0), seconds=round(r.get('time', 0), 1)) for h, r in results],
            functions_encoded=sorted(f for f in funcs if not f.startswith('Core/Data') or prop[0] == 'C'), claims=tot['claims'], claims_discharged=tot['claims_unsat'], claims_constant=tot['claims_const'],
            queries=q['queries'], queries_unsat=q['unsat'], queries_sat=q['sat'], queries_unknown=q['unknown'], queries_closed_by_normalisation=q['normalised_to_constant'],
            cvc5_calls=q['cvc5'], solver_seconds=round(q['time'], 1), domain_assumptions=assum, inconclusive=inconc[:20], known_findings=sorted(knowns)),
        wall_s=round(wall, 2))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in knowns.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: harnesses=%d paths=%d claims=%d discharged=%d queries=%d validated=%d wall=%.1fs' % (prop, tier, len(hs), tot['paths'], tot['claims'], tot['claims_unsat'], q['queries'], validated, wall))
    if os.environ.get('VERIF_DEBUG'):
        for h, r in results: print('   %-40s paths %-4s claims %-5s unsat %-5s time %.1f' % (h['name'], r.get('paths'), r.get('claims'), r.get('claims_unsat'), r.get('time', 0)))
    if os.environ.get('VERIF_KEEP') is None: shutil.rmtree(tmp, ignore_errors=True)
    if out_v:
        rp = os.path.join(ROOT, 'evidence', prop + '.replay.json')
        json.dump([dict(harness=hn, claim=cl, env=s['env'], choices=s['choices'], observed=c['fails']) for hn, cl, s, c in out_v[:10]], open(rp, 'w'), indent=1)
        for hn, cl, s, c in out_v[:6]:
            print('  violated: %s / %s  input=%s choices=%s -> %s' % (hn, cl[:200], json.dumps(s['env'])[:400], s['choices'], c['fails'][:3]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if inconc:
        # not a violation: what could not be decided is reported and excluded from the claim.
        # The check fails outright only when nothing could be decided (or under VERIF_STRICT).
        for s in inconc[:20]: print('  INCONCLUSIVE ' + s)
        if os.environ.get('VERIF_STRICT') or tot['claims_unsat'] == 0: return 2
    return 0

def match(kf, hn, claim, s, c):
    """entries covering every failed claim of this run, or None"""
    out = {}
    for f in c['fails']:
        hit = None
        for k in kf:
            hs = k['harness'] if isinstance(k['harness'], list) else [k['harness']]
            if hn not in hs or not any(f.startswith(p) for p in k['fails']): continue
            if any(s['choices'].get(a) not in (b if isinstance(b, list) else [b]) for a, b in (k.get('choices') or {}).items()): continue
            hit = k; break
        if hit is None: return None
        out[hit['id']] = hit
    return out or None

if __name__ == '__main__':
    sys.exit(main())
