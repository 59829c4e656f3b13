#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property of /repo's current source.

Proof: the contracts in props/<pid>.py are attached to the functions of the current source, obligations are
generated and every one goes to the solvers.  Runtime: oracle/<pid>.py evaluates the same property on the running
code; it cross-checks the proof, finds inputs for failed obligations and stands in (bounded) where the proof
cannot be rebuilt.  Exit 0: holds.  Exit 1 and a VIOLATION line: broken."""
import argparse, hashlib, importlib, json, os, signal, subprocess, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
if 'PYTHONHASHSEED' not in os.environ:          # the same obligations in the same order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
EV = os.path.join(HERE, 'evidence')
T0 = time.time()
LIMIT = 840


def left(): return LIMIT - (time.time() - T0)


def oracle(pid, seed, budget, tag):
    out = os.path.join(EV, 'tmp_%s_%s.json' % (pid, tag))
    if os.path.exists(out): os.unlink(out)
    p = subprocess.Popen([PY, os.path.join(HERE, 'oracle', 'run.py'), pid, '--seed', str(seed), '--budget', str(budget), '--out', out],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=HERE, start_new_session=True)
    return p, out, time.time() + 4 * budget + 200


def collect(p, out, timeout):
    """-> (result or None, error text)"""
    try:
        _, err = p.communicate(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate()
        return None, 'the runtime check did not end in time'
    try:
        r = json.load(open(out))
        os.unlink(out)
        return r, None
    except Exception:
        return None, err.decode('utf-8', 'replace')[-1500:]


def replay_file(pid, d):
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    s = json.dumps(d, ensure_ascii=True, indent=1)
    p = os.path.join(EV, 'replay', '%s-%s.json' % (pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
    open(p, 'w').write(s)
    return p


def prove(pid, timeouts, found, hunt):
    """-> dict(groups, failed, undecided, vacuous, trusted, ...)"""
    import z3
    from pyvc import run, solve
    from pyvc.exec import Oblig
    mod = importlib.import_module('props.' + pid.lower())
    ctx = mod.build()
    t0 = time.time()
    groups, problems = run.generate(ctx)
    gen = time.time() - t0
    R = dict(functions=[], failed=[], undecided=[], vacuous=[], obligations=0, discharged=0, backends={}, solver_s=0.0, generation_s=round(gen, 1), slowest_s=0.0)
    badstruct = {n for n, m in problems if m.startswith('note: ')}
    for n, m in problems: R['undecided'].append('%s: %s' % (n, m))
    keep = os.path.join('/tmp', 'pyvc_%s_%d' % (pid, os.getpid()))
    items = [(o, nl) for name, ob, eng, nl in groups for o in ob]
    where = [name for name, ob, eng, nl in groups for o in ob]
    end = T0 + 420
    res = solve.discharge(items, ctx, timeout=4, keep=keep, deadline=end, giveup=12)
    again = lambda: [i for i, r in enumerate(res) if r[1] != 'unsat' and not r[1].startswith('not attempted') and where[i] not in badstruct]
    for tm, w in timeouts:
        # longer attempts are for proofs that are slow, not for code that is known to be wrong
        todo = again()
        if not todo or len(todo) > 12 or time.time() > end - tm or found(): break
        hunt()
        solve.retry(res, todo, tm, w, end, found)
    if again(): hunt()
    at = 0
    for name, ob, eng, nl in groups:
        mine = res[at:at + len(ob)]
        at += len(ob)
        bad = [r for r in mine if r[1] != 'unsat']
        R['functions'].append(dict(function=name, obligations=len(mine), discharged=len(mine) - len(bad)))
        R['obligations'] += len(mine); R['discharged'] += len(mine) - len(bad)
        for o, st, be, secs, p in mine:
            if st == 'unsat': R['backends'][be] = R['backends'].get(be, 0) + 1
            R['solver_s'] += secs
            R['slowest_s'] = max(R['slowest_s'], secs)
        for o, st, be, secs, p in bad:
            if st.startswith('not attempted'):
                R['undecided'].append('%s line %s: %s (%s)' % (name, o.line, o.label, st))
                continue
            d = dict(function=name, line=o.line, obligation=o.label, verdict=st, smt=(open(p).read()[:4000] if p and os.path.exists(p) else None))
            (R['undecided'] if name in badstruct else R['failed']).append('%s line %s: %s (%s; annotations do not match the code)' % (name, o.line, o.label, st) if name in badstruct else d)
    # vacuity: the hypotheses at the entry and on some path to a return must not be contradictory
    vs, own = [], []
    for gi, (name, ob, eng, nl) in enumerate(groups):
        if eng is None or R['functions'][gi]['obligations'] != R['functions'][gi]['discharged']: continue
        step = max(1, (len(eng.vac) - 1) // 11)          # the entry and some of the returns, spread over all paths
        for k, (_, hy) in enumerate(eng.vac[:1] + eng.vac[1::step][:12]):
            vs.append(Oblig('reachability', hy, z3.BoolVal(False), name, 0)); own.append(gi)
    got = solve.discharge(vs, ctx, timeout=2, fallback=False, keep=keep, deadline=T0 + 500)
    for gi, (name, ob, eng, nl) in enumerate(groups):
        r = [x for x, g in zip(got, own) if g == gi]
        if not r: continue
        if r[0][1] == 'unsat' or len(r) > 1 and all(x[1] == 'unsat' for x in r[1:]): R['vacuous'].append(name)
        R['functions'][gi]['paths_not_refuted'] = sum(1 for x in r[1:] if x[1] != 'unsat')
    import shutil
    shutil.rmtree(os.path.join('/tmp', 'pyvc_%s_%d' % (pid, os.getpid())), ignore_errors=True)
    R['assumed'] = sorted('%s (%s)' % (k, 'proved under ' + c.assumed if isinstance(c.assumed, str) else 'assumed') for k, c in ctx.contracts.items() if c.assumed)
    R['assumed'] += ['lemma ' + l.name for l in ctx.lemmas if l.assumed]
    R['notes'] = list(getattr(mod, 'NOTES', []))
    R['bounded'] = list(getattr(mod, 'BOUNDED', []))
    return R


TRUST = ['pyvc: the translation of the Python subset to obligations (the property is also evaluated on CPython on generated inputs each run)',
         'the axioms for sequences, dictionaries, sorting and string methods in pyvc/theory.py and pyvc/expr.py', 'z3 5.3, z3 4.8, cvc5 1.1 (any one accepts)']
ASSUME = ['integers are mathematical, floating-point numbers are treated as real numbers', 'the input text holds no unpaired surrogates',
          'termination and resource use are not proved', 'user-supplied callables are pure functions of their arguments']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EV, exist_ok=True)
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = {c['property']: c['level'] for c in man['checks']}.get(pid, 'proof')
    budget = 10 if tier == 'quick' else 150
    runs = [oracle(pid, seed + 1000 * i, budget, 'a%d' % i) for i in range(2 if tier == 'quick' else 4)]
    R = dict(functions=[], failed=[], undecided=[], vacuous=[], obligations=0, discharged=0, backends={}, solver_s=0.0, generation_s=0, slowest_s=0, assumed=[], notes=[], bounded=[])
    rs, errs = [], []
    def gather():
        """wait for the runtime part, until one input fails"""
        while runs:
            for x in runs[:]:
                if x[0].poll() is None and left() > 15 and time.time() < x[2]: continue
                runs.remove(x)
                r, e = collect(*x[:2], 1)
                if r: rs.append(r)
                else: errs.append(e)
            if any(r.get('fail') is not None for r in rs): break
            if runs: time.sleep(.2)
        stop(runs)
    def stop(some):
        for x in some[:]:
            p, out, _ = x
            runs.remove(x)
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.communicate()
            if os.path.exists(out): os.unlink(out)
    def found():
        for x in runs[:]:
            if x[0].poll() is not None:
                runs.remove(x)
                r, e = collect(*x[:2], 5)
                if r: rs.append(r)
                else: errs.append(e)
        return any(r.get('fail') is not None for r in rs)
    def hunt(k=[0]):
        # an obligation is not discharged: look harder for an input that shows it
        if k[0]: return
        k[0] = 1
        b = int(min(90, left() / 4))
        runs.extend(oracle(pid, seed + 77 + i, b, 'b%d' % i) for i in range(4))
    if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
        try:
            R = prove(pid, [(20, 8), (60, 4)] if tier == 'quick' else [(30, 8), (120, 4)], found, hunt)
        except Exception:
            R['undecided'].append('verifier: ' + traceback.format_exc()[-1500:])
    if not R['failed']: stop([x for x in runs if '_b' in os.path.basename(x[1])])
    gather()
    fail = next((r for r in rs if r.get('fail') is not None), None)
    viol, line = 0, None
    if fail is not None:
        viol = 1
        p = replay_file(pid, dict(property=pid, case=fail['fail'], message=fail['message'], failed_obligations=[{k: v for k, v in f.items() if k != 'smt'} for f in R['failed']][:20],
                                  replay='cd %s && %s oracle/run.py --replay <this file>' % (HERE, PY)))
        print('%s: %s' % (pid, fail['message'][:2000]))
        for f in R['failed'][:5]: print('  failed obligation: %s line %s: %s' % (f['function'], f['line'], f['obligation']))
        line = 'VIOLATION property=%s replay=%s' % (pid, p)
    elif R['failed']:
        viol = 1
        p = replay_file(pid, dict(property=pid, case=None, failed_obligations=R['failed'][:20], undecided=R['undecided'],
                                  searched=sum(r['n'] for r in rs), note='the solvers do not accept these obligations; no failing input was found'))
        for f in R['failed'][:8]: print('%s: obligation not discharged: %s line %s: %s (%s)' % (pid, f['function'], f['line'], f['obligation'], f['verdict']))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p)
    if not rs and line is None:
        print('%s: the runtime check gave no result: %s' % (pid, errs[:1]))
        if R['undecided'] or not R['functions']: sys.exit(2)
    n, nt = sum(r['n'] for r in rs), sum(r['nt'] for r in rs)
    cov = dict(obligations=R['obligations'], discharged=R['discharged'], checker_cmd='python3-vt check.py %s --tier %s' % (pid, tier),
               trusted_base=TRUST + ['contract of ' + x for x in R['assumed']],
               functions_under_contract=R['functions'], backends=R['backends'], solver_seconds=round(R['solver_s'], 1), slowest_obligation_s=round(R['slowest_s'], 1),
               generation_s=R['generation_s'], undecided=R['undecided'], vacuous=R['vacuous'], bounded=R['bounded'],
               evaluations=n, distinct_nontrivial=nt,
               rule='runtime contract evaluation on CPython (bounded, %d s per process): generated and coverage-guided mutated inputs, sizes mostly below 40 characters; non-trivial: within the domain and not a degenerate (empty) input' % budget,
               samples=[s for r in rs for s in r['samples']][:3], lines_of_soynlp_reached=max([r.get('lines', 0) for r in rs] or [0]),
               explanation='obligations accepted by the solvers on the current source, plus the labelled bounded runtime part')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + R['notes'], wall_s=round(time.time() - T0, 1), violations=viol)
    if R['undecided'] and not viol: print('%s: the proof could not be rebuilt for part of the code (bounded check only): %s' % (pid, '; '.join(R['undecided'])[:800]))
    with open(os.path.join(EV, pid + '.json'), 'w') as f: json.dump(ev, f, ensure_ascii=True, indent=1)
    kf = os.path.join(HERE, 'known_findings.txt')
    for l in open(kf, encoding='utf-8') if os.path.exists(kf) else []:
        if l.startswith('known: property=%s ' % pid): print('KNOWN-FINDING: ' + l[7:].strip())
    if line:
        print(line)
        sys.exit(1)
    print('%s: holds; %d of %d obligations discharged in %d functions and lemmas, %d runtime evaluations, %.0f s' % (pid, R['discharged'], R['obligations'], len(R['functions']), n, time.time() - T0))


if __name__ == '__main__': main()
