"""Discharging obligations: SMT-LIB files, solved by z3 and, as a second opinion, cvc5."""
import ctypes, os, subprocess, tempfile, time, shutil, hashlib, multiprocessing
import z3
from . import theory as th
from .expr import library_axioms

Z3 = shutil.which('z3-new') or 'z3'
CVC5 = shutil.which('cvc5')
Z3OLD = shutil.which('z3')
LIBC = ctypes.CDLL(None)


def closure(fs, ctx, nolemma=None, func=None):
    """axioms needed by the formulas"""
    out, done = [], set()
    lib_done = set()
    work = list(fs)
    while True:
        names, sorts = th.symbols(work + out)
        new = []
        for n, sf in ctx.specfns.items():
            if sf.hidden and nolemma is None: continue
            if ('sf', n) not in done and ('sf_' + n) in names:
                done.add(('sf', n)); new += sf.axioms(ctx)
        for l in ctx.lemmas:
            if l.name == nolemma: break       # a lemma may use earlier ones only
            if l.export is not True and (nolemma or func) not in (l.export or ()): continue
            if ('l', l.name) in done: continue
            ax = l.axiom(ctx)
            ln, _ = th.symbols(ax[:1])
            key = {x for x in ln if x.startswith('sf_') or x.startswith('fn_')}
            key0 = {x[3:] for x in key}
            have = names
            if l.trig and (l.pull or not any('sf_' in x for x in l.trignames())) and l.trignames() <= names: key = set()
            if (key and key <= {x.replace('sf0_', 'sf_') for x in have}) or not key:
                done.add(('l', l.name)); new += ax
        for i, (trig, axs) in enumerate(ctx.rawaxioms):
            if ('r', i) not in done and trig & names:
                done.add(('r', i)); new += axs(ctx) if callable(axs) else axs
        if not new: break
        out += new
    # the library and the sequence theory
    for _ in range(3):
        names, _s = th.symbols(work + out)
        lib = [a for a in library_axioms(names) if a.sexpr() not in lib_done]
        if not lib: break
        for a in lib: lib_done.add(a.sexpr())
        out += lib
    return out + th.theory_axioms(work + out)


def smt2(o, ctx, nolemma=None):
    fs = list(o.hyps) + [z3.Not(o.goal)]
    ax = closure(fs, ctx, nolemma, o.func)
    s = z3.Solver()
    for f in ax: s.add(f)
    for f in fs: s.add(f)
    # (Solver.to_smt2 misprints shared multi-patterns in z3 5.3; sexpr does not)
    t = s.sexpr() + "\n(check-sat)\n"
    return t


def die_with_parent(): LIBC.prctl(1, 9)


def run1(path, cmd, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 5, preexec_fn=die_with_parent)
        out = p.stdout.strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    first = out.split('\n')[0].strip() if out else ''
    return first if first in ('sat', 'unsat', 'unknown', 'timeout') else 'error ' + out[:200], time.time() - t0


def reordered(path, k=0):
    s, forms, d, at = open(path).read(), [], 0, 0
    for i, ch in enumerate(s):
        if ch == '(':
            if d == 0: at = i
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0: forms.append(s[at:i + 1])
    rest = [f for f in forms if not f.startswith('(assert') and not f.startswith('(check-sat')]
    alt = path[:-5] + '.r%d.smt2' % k
    with open(alt, 'w') as f: f.write('\n'.join(rest + [f for f in forms if f.startswith('(assert')][::-1] + ['(check-sat)\n']))
    return alt


def configs():
    z = [Z3, '-T:%d', 'auto_config=false', 'smt.mbqi=false', 'smt.solve_eqs=false', 'smt.elim_unconstrained=false']
    first = ('z3', z + ['smt.random_seed=1', '%f'])
    cfgs = [('z3 (default)', [Z3, '-T:%d', 'smt.mbqi=false', '%f'])]
    if CVC5: cfgs.append(('cvc5', [CVC5, '--tlimit=%d000', '%f']))
    cfgs.append(('z3 (arith 2)', z + ['smt.random_seed=7', 'smt.arith.solver=2', '%f']))
    if Z3OLD and Z3OLD != Z3: cfgs.append(('z3 4.8', [Z3OLD, '-T:%d', 'auto_config=false', 'smt.mbqi=false', 'smt.random_seed=3', '%f']))
    cfgs.append(('z3', z + ['smt.random_seed=11', 'smt.case_split=3', '%f']))
    return first, cfgs


def solve_file(path, timeout, fallback=True, deadline=None):
    """a short attempt, then other configurations"""
    first, cfgs = configs()
    plan = [first + (min(2, timeout),)] + [c + (timeout,) for c in cfgs]
    r, tot = None, 0.0
    for nm, cmd, tm in plan if fallback else plan[:1]:
        if deadline is not None and r is not None:
            tm = min(tm, int(deadline - time.time()))
            if tm < 1: break
        r2, t2 = run1(path, fill(cmd, tm, path), tm)
        tot += t2
        if r2 == 'unsat': return 'unsat', nm, tot
        if r is None or r2 == 'sat': r = r2
    return r, 'z3', tot


def fill(cmd, tm, path): return [a % tm if '%d' in a else path if a == '%f' else a for a in cmd]


def _attempt(t):
    """one obligation with one configuration and a long limit; the hypotheses also in another order"""
    i, k, path, nm, cmd, alt, tm, deadline = t
    if os.path.exists(path + '.unsat'): return i, k, None, nm, 0.0
    tm = min(tm, int(deadline - time.time()))
    if tm < 1: return i, k, None, nm, 0.0
    if alt: path = reordered(path, k)
    r, secs = run1(path, fill(cmd, tm, path), tm)
    if r == 'unsat': open(t[2] + '.unsat', 'w').close()
    return i, k, r, nm, secs


def retry(res, todo, timeout, workers, deadline, stop=None):
    """res: results of discharge; todo: indices.  Every configuration is tried on every obligation, in parallel."""
    first, cfgs = configs()
    tasks, k = [], 0
    for nm, cmd in [first] + cfgs:
        for alt in (False, True):
            k += 1
            for i in todo:
                if res[i][4]: tasks.append((i, k, res[i][4], nm + (', reordered' if alt else ''), cmd, alt, timeout, deadline))
    if not tasks: return
    left = {i for i in todo if res[i][4]}
    with multiprocessing.get_context('fork').Pool(min(workers, len(tasks))) as pool:
        it = pool.imap_unordered(_attempt, tasks)
        for _ in tasks:
            while True:
                try: i, k, r, nm, secs = it.next(timeout=1)
                except multiprocessing.TimeoutError:
                    if stop and stop(): pool.terminate(); return
                    continue
                break
            o, st, be, tot, p = res[i]
            if r == 'unsat': res[i] = (o, 'unsat', nm, tot + secs, p); left.discard(i)
            elif st != 'unsat': res[i] = (o, 'sat' if r == 'sat' else st, be, tot + secs, p)
            if not left: pool.terminate(); return


G = {}


def _one(i):
    """one obligation, in a forked process: write the SMT file, run the solvers"""
    o, nl = G['items'][i]
    if G['deadline'] and time.time() > G['deadline']: return i, 'not attempted (out of time)', '', 0.0, None
    t = smt2(o, G['ctx'], nl)
    p = os.path.join(G['dir'], '%s.smt2' % hashlib.sha1(t.encode()).hexdigest()[:16])
    if os.path.exists(p + '.unsat'): return i, 'unsat', 'same as another obligation', 0.0, p
    with open(p, 'w') as f: f.write(t)
    fb = G['fallback'] and G['bad'].value < G['giveup']
    st, be, tm = solve_file(p, G['timeout'], fb, G['deadline'])
    if st == 'unsat': open(p + '.unsat', 'w').close()
    elif G['fallback']: G['bad'].value += 1
    return i, st, be, tm, p


def discharge(obligs, ctx, timeout=10, workers=8, keep=None, fallback=True, nolemma=None, deadline=None, giveup=1000000):
    """-> list of (oblig, status, backend, seconds, path).  An obligation may be given as (oblig, nolemma).
    After `giveup` obligations are not accepted the rest get one short attempt each."""
    items = [o if isinstance(o, tuple) else (o, nolemma) for o in obligs]
    d = keep or tempfile.mkdtemp(prefix='pyvc_')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        if f.endswith('.unsat'): os.unlink(os.path.join(d, f))
    res = [(o, 'unsat', 'simplifier', 0.0, None) for o, _ in items]
    todo = [i for i, (o, _) in enumerate(items) if not o.trivial]
    mp = multiprocessing.get_context('fork')
    G.update(items=items, ctx=ctx, dir=d, timeout=timeout, fallback=fallback, deadline=deadline, bad=mp.Value('i', 0), giveup=giveup)
    if todo:
        with mp.Pool(min(workers, len(todo))) as pool:
            for i, st, be, tm, p in pool.imap_unordered(_one, todo):
                res[i] = (items[i][0], st, be, tm, p)
    G.clear()
    if keep is None:
        shutil.rmtree(d, ignore_errors=True)
    return res
