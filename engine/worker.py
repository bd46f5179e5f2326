"""Runs one harness: python worker.py sym|conc PROP HARNESS TIER SEED [in.json] out.json"""
import sys, os, json, time, importlib, traceback, math, warnings
warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'trunk'))
sys.setrecursionlimit(20000)

def quiet():
    sys.stdout = open(os.devnull, 'w')

def load(prop, name):
    from engine import harness
    import SUAVE
    importlib.import_module('props.' + prop)
    for h in harness.HARNESSES[prop]:
        if h['name'] == name: return h
    raise KeyError(name)

def run_conc(h, env, choices, tier):
    """returns (status, fails, obs): status ok|fail|assume|exc"""
    from engine import harness as H
    c = H.Conc(env, choices, tier)
    import numpy as np
    cwd = os.getcwd()
    try:
        with np.errstate(all='ignore'):
            h['fn'](c)
    except H.AssumeFail as e:
        return 'assume', [str(e)], []
    except h['expect_exc'] as e:
        return 'ok', [], c.obs
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        loc = [('%s:%d' % (f.filename, f.lineno)) for f in tb if '/SUAVE/' in f.filename][-1:]
        return 'exc', ['raises %s: %s %s' % (type(e).__name__, str(e)[:200], loc)], c.obs
    return ('fail' if c.fails else 'ok'), c.fails, c.obs

def main_conc(prop, name, tier, inp, out):
    h = load(prop, name)
    spec = json.load(open(inp))
    quiet()
    res = []
    for s in spec:
        st, fails, obs = run_conc(h, s['env'], s['choices'], tier)
        res.append(dict(status=st, fails=fails[:60], obs=obs))
    json.dump(res, open(out, 'w'))

class Claim(object): pass

def main_sym(prop, name, tier, seed, out, budget):
    from engine import terms as T, nf, solve, explore, shim, harness as H
    t0 = time.time()
    h = load(prop, name)
    quiet()
    shim.install()
    q = h['q'] * (3 if tier == 'thorough' else 1)
    deadline = t0 + budget
    ex = explore.Explorer(seed=seed, max_paths=h['max_paths'] * (4 if tier == 'thorough' else 1), deadline=deadline, div_fork=(h['div'] == 'fork'),
                          branch_timeout=3.0 if tier == 'quick' else 8.0)
    R = dict(name=name, paths=0, infeasible=0, branches=0, claims=0, claims_unsat=0, claims_const=0, cands=[], witnesses=[], inconclusive=[], exceptions=0,
             assumptions={}, reached=0, expected_exc=0)
    import SUAVE
    srcdir = os.path.dirname(os.path.abspath(SUAVE.__file__))
    # record executed SUAVE functions on the first path
    funcs = set()
    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(srcdir): funcs.add(f[len(srcdir) + 1:] + ':' + frame.f_code.co_name)
    more = True; tdump = 0
    while more:
        if R['paths'] >= ex.max_paths: R['inconclusive'].append('path limit %d' % ex.max_paths); break
        if time.time() > deadline: R['inconclusive'].append('time limit'); break
        ex.begin(); T.set_ctx(ex)
        ctx = H.Sym(ex, tier); ctx.choices = {}
        status = 'ok'; err = None
        if R['paths'] < 3: sys.setprofile(prof)
        try:
            h['fn'](ctx)
        except T.Infeasible:
            status = 'infeasible'
        except T.Unsupported as e:
            status = 'unsupported'; err = 'unsupported: %s @ %s' % (e, where())
        except explore.PathLimit as e:
            status = 'limit'; err = 'limit %s' % e
        except h['expect_exc'] as e:
            status = 'expected'
        except RecursionError as e:
            status = 'unsupported'; err = 'recursion'
        except Exception as e:
            status = 'exc'; err = '%s: %s @ %s' % (type(e).__name__, str(e)[:300], where())
            if os.environ.get('VERIF_DEBUG'): err += '\n' + traceback.format_exc()
        finally:
            sys.setprofile(None)
        T.set_ctx(None)
        R['paths'] += 1
        if status == 'infeasible': R['infeasible'] += 1
        elif status in ('unsupported', 'limit'):
            R['inconclusive'].append(err)
            w = model(ex, solve)
            if w: R['cands'].append(dict(env=w, choices=ctx.choices, claim='(unexplored: %s)' % err, soft=True))
            if status == 'limit': break
        elif status in ('exc',):
            w = model(ex, solve)
            if w == 'unsat': R['infeasible'] += 1
            else:
                R['exceptions'] += 1
                if w is None:
                    R['inconclusive'].append('exception on a path with no witness: ' + err)
                else:
                    envs = [w]
                    for _ in range(3):
                        x = ex.search(30)
                        if x: envs.append(x)
                    R['cands'].append(dict(env=w, envs=envs, choices=ctx.choices, claim='exception ' + err))
        else:
            w = model(ex, solve)
            if w == 'unsat':
                R['infeasible'] += 1
            else:
                if status == 'ok': R['reached'] += 1
                else: R['expected_exc'] += 1
                if w:
                    R['witnesses'].append(dict(env=w, choices=ctx.choices, obs=evalobs(ctx, w, T)))
                    if time.time() - tdump > 5 or len(R['witnesses']) == 1:
                        dump(R, ex, solve, funcs, t0, out, ['stopped before the end']); tdump = time.time()
                if status == 'ok': discharge(R, ex, ctx, q, deadline, T, solve, nf, tier)
        for k, v in ex.assumed.items(): R['assumptions'][k] = R['assumptions'].get(k, 0) + v
        ex.assumed = {}
        if len(R['cands']) >= 25: R['inconclusive'].append('stopped after 25 candidate violations'); break
        more = ex.next_path()
    shim.uninstall()
    dump(R, ex, solve, funcs, t0, out, [])

def dump(R, ex, solve, funcs, t0, out, extra):
    D = dict(R)
    D['branches'] = ex.branches
    D['undecided_branches'] = ex.undecided
    D['stats'] = solve.STATS
    D['funcs'] = sorted(funcs)
    D['time'] = time.time() - t0
    D['inconclusive'] = R['inconclusive'][:10] + extra
    D['witnesses'] = R['witnesses'][:40]
    json.dump(D, open(out + '.tmp', 'w'), default=float)
    os.rename(out + '.tmp', out)

def where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    l = ['%s:%d' % (f.filename.split('/SUAVE/')[-1], f.lineno) for f in tb if '/SUAVE/' in f.filename or '/props/' in f.filename]
    return ' <- '.join(l[-3:][::-1])

def model(ex, solve):
    if ex.wit is not None and ex._holds(ex.wit): return ex.wit
    w = ex.search(60)
    if w is not None: return w
    r = solve.check(ex.pc, list(ex.vars), 6.0)
    if r.status == 'unsat': return 'unsat'
    if r.env and ex._holds(r.env): return r.env
    w = ex.search(400)
    if w is not None: return w
    return r.env

def evalobs(ctx, w, T):
    out = []
    memo = {}
    for n, x in ctx.obs:
        if isinstance(x, T.S):
            try: out.append((n, T.feval(x, w, memo)))
            except T.EvalError: out.append((n, None))
        else:
            try: out.append((n, float(x)))
            except Exception: out.append((n, None))
    return out

def discharge(R, ex, ctx, q, deadline, T, solve, nf, tier):
    from fractions import Fraction
    seen = set(); q0 = q
    for (name, kind, a, b, rtol, atol) in ctx.claims:
        R['claims'] += 1
        if os.environ.get('VERIF_DEBUG'): sys.stderr.write('%.1f claim %s %s\n' % (time.time(), name, ctx.choices)); sys.stderr.flush()
        # build the negation
        try:
            if kind == 'true':
                c = a
                if hasattr(c, 'dtype') and getattr(c, 'ndim', 0):
                    from engine.harness import _tob
                    c = _tob(c)
                if not isinstance(c, (T.B, T.S)):
                    if bool(c): R['claims_const'] += 1; R['claims_unsat'] += 1; continue
                    neg = T.B('k', (True,))
                else: neg = ~T.B_of(c)
                negm = None
            else:
                if not isinstance(a, T.S) and not isinstance(b, T.S):
                    x, y = float(a), float(b)
                    tol = atol + rtol * max(abs(x), abs(y))
                    ok = {'eq': abs(x - y) <= tol, 'le': x <= y + tol, 'lt': x < y + tol}[kind]
                    if ok: R['claims_const'] += 1; R['claims_unsat'] += 1; continue
                    neg, negm = T.B('k', (True,)), None
                elif bad(a) or bad(b):
                    neg, negm = T.B('k', (True,)), None
                else:
                    a, b = T.const(a), T.const(b)
                    m = T.snap(atol) + T.snap(rtol) * 1
                    if kind == 'eq':
                        x = a == b
                        if x is True: R['claims_const'] += 1; R['claims_unsat'] += 1; continue
                        neg = ~T.B_of(x)
                        def negm(mul, a=a, b=b):
                            t = T.snap(atol * mul); r = T.snap(rtol * mul)
                            # |a-b| > t + r*|b|
                            d = a - b
                            return (((d > t + r * b) & (d > t - r * b)) | ((-d > t + r * b) & (-d > t - r * b)))
                    else:
                        x = (a <= b) if kind == 'le' else (a < b)
                        if x is True: R['claims_const'] += 1; R['claims_unsat'] += 1; continue
                        neg = ~T.B_of(x)
                        def negm(mul, a=a, b=b):
                            t = T.snap(atol * mul); r = T.snap(rtol * mul)
                            d = a - b
                            return (d > t + r * b) & (d > t - r * b)
        except T.Unsupported as e:
            R['inconclusive'].append('claim %s: %s' % (name, e)); continue
        key = None
        if neg.op in ('lt', 'le', 'eq'): key = (neg.op, neg.args[0].id, neg.args[1].id)
        elif neg.op == 'not' and neg.args[0].op == 'eq': key = ('ne', neg.args[0].args[0].id, neg.args[0].args[1].id)
        if key in seen: R['claims_unsat'] += 1; continue
        if key: seen.add(key)
        if time.time() > deadline: R['inconclusive'].append('time limit before claim ' + name); return
        # relevant path condition
        names = list(ex.vars)
        # a claim that already fails at a witness of this path needs no search: the instance goes straight to replay
        early = falsified(ex, neg, negm, T)
        if early is not None:
            R['cands'].append(dict(env=early, envs=[early], choices=ctx.choices, claim=name, path=pathstr(ex), status='sat'))
            if len(R['cands']) >= 25: return
            continue
        q = max(1.0, min(q0, (deadline - time.time()) / 4))
        # first the negation alone: many identities need no path condition
        tc0 = time.time()
        r = solve.check([neg], names, min(q, 3.0)) if kind == 'eq' else None
        if r is None or r.status != 'unsat':
            r = solve.check(ex.pc + [neg], names, q, cvc5=True)
            if r.status == 'unknown':
                r2 = solve.check(ex.pc + [neg], names, q, normal=False, cvc5=True)
                if r2.status != 'unknown': r = r2
        if r.status == 'unsat':
            R['claims_unsat'] += 1; continue
        # try tolerance: exact identity may fail only by rounding of constants
        envs = []
        if negm is not None:
            try: nm = negm(1.0)
            except T.Unsupported: nm = None
            if nm is not None and nm is not True:
                if nm is False or (isinstance(nm, T.B) and nm.op == 'k' and not nm.args[0]):
                    R['claims_unsat'] += 1; continue
                r2 = solve.check(ex.pc + [nm], names, q, cvc5=True)
                if r2.status == 'unsat':
                    R['claims_unsat'] += 1; R['claims_tol'] = R.get('claims_tol', 0) + 1; continue
                if r2.status == 'unknown' and r.status == 'sat':
                    r = solve.Result('unknown', r.env)
                if r2.env: envs.append(r2.env)
                for mul in (1e4, 1e5, 1e2):
                    if time.time() - tc0 > 5 * q: break
                    try: nm2 = negm(mul)
                    except T.Unsupported: break
                    r3 = solve.check(ex.pc + [nm2], names, min(q, 4.0))
                    if r3.env: envs.append(r3.env)
                    if r3.status == 'sat': break
                target = nm
            else: target = neg
        else: target = neg
        if r.env: envs.append(r.env)
        # float search inside the path for a replayable instance
        found = []
        for mul in (1e5, 1e2, 2.0):
            if negm is None:
                tg = neg
            else:
                try: tg = T.B_of(negm(mul))
                except T.Unsupported: break
            for e in list(envs):
                if holds(ex, e, tg, T): found.append(e)
            if not found:
                for _ in range(400 if mul > 1e4 else 150):
                    w = dict((k, ex.sample1(*bb)) for k, bb in ex.vars.items())
                    if envs and ex.rng.random() < 0.5:
                        base = ex.rng.choice(envs)
                        for k in w:
                            if ex.rng.random() < 0.6: w[k] = base.get(k, w[k])
                    if holds(ex, w, tg, T): found.append(w); break
            if found: break
        if r.status == 'unknown' and not found:
            R['inconclusive'].append('claim %s: solver unknown (path: %s)' % (name, pathstr(ex)))
            for e in envs[:2]: R['cands'].append(dict(env=e, envs=[e], choices=ctx.choices, claim=name, soft=True))
            continue
        R['cands'].append(dict(env=(found or envs or [None])[0], envs=(found + envs)[:5], choices=ctx.choices, claim=name, path=pathstr(ex), status=r.status))
        if len(R['cands']) >= 25: return

def falsified(ex, neg, negm, T):
    if ex.wit is None or not ex._holds(ex.wit): return None
    try: tgs = [neg] if negm is None else [T.B_of(negm(1e2)), T.B_of(negm(3.0))]
    except T.Unsupported: return None
    ws = [ex.wit]
    for _ in range(3):
        w = dict((k, ex.sample1(*bb)) for k, bb in ex.vars.items())
        ws.append(w)
    for tg in tgs:
        for w in ws:
            if holds(ex, w, tg, T): return w
    return None

def bad(x):
    import math
    from engine import terms as T
    return (not isinstance(x, T.S)) and not math.isfinite(float(x))

def holds(ex, env, extra, T):
    return env is not None and ex._holds(env, [extra])

def pathstr(ex):
    return ' & '.join(('' if v else 'not ') + '(' + s + ')' for s, v in ex.trail)[:400]

if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'sym': main_sym(a[2], a[3], a[4], int(a[5]), a[6], float(a[7]))
    else: main_conc(a[2], a[3], a[4], a[5], a[6])
