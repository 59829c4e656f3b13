"""Generate and discharge the obligations of one property."""
import importlib, sys, time, os
import z3
from . import loader, solve
from .spec import Engine, Lemma, Context
from .exec import Unsupported, Oblig


def generate(ctx, only=None):
    """-> (groups, problems); a group is (function, obligations, engine, nolemma)"""
    groups, problems = [], []
    for l in ctx.lemmas:
        if l.assumed or (only and l.name != only): continue
        try:
            groups.append(('lemma ' + l.name, l.obligations(ctx), None, l.name))
        except Unsupported as e:
            problems.append(('lemma ' + l.name, str(e)))
    for key in ctx.verify_keys:
        con = ctx.contracts[key]
        if only and key != only and not key.endswith(only): continue
        ctx.nolemma = None
        e = Engine(ctx)
        try:
            ob = e.verify(con)
            groups.append((con.name, ob, e, None))
            for u in e.unmatched: problems.append((con.name, 'note: ' + u))
        except (Unsupported, loader.NoConst, RecursionError, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, NotImplementedError) as x:
            if os.environ.get('PYVC_DEBUG'): raise
            problems.append((con.name, '%s: %s' % (type(x).__name__, x)))
    return groups, problems


def main():
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tmo = int(os.environ.get('PYVC_T', '10'))
    ctx = importlib.import_module('props.' + pid.lower()).build()
    t0 = time.time()
    groups, problems = generate(ctx, only)
    print('generated in %.1fs' % (time.time() - t0))
    for p in problems: print('PROBLEM', p)
    keep = '/tmp/vc_' + pid
    for name, ob, e, nl in groups:
        t0 = time.time()
        res = solve.discharge(ob, ctx, timeout=tmo, keep=keep, nolemma=nl, fallback=bool(os.environ.get('PYVC_FB')))
        bad = [r for r in res if r[1] != 'unsat']
        slow = max((r[3] for r in res), default=0)
        print('%-60s %d/%d  %.1fs (slowest %.1f)' % (name, len(res) - len(bad), len(res), time.time() - t0, slow))
        if os.environ.get('PYVC_V'):
            for o, s, b, t, p in res:
                if s == 'unsat' and t > 4: print('    slow %.1f %s line %s %s %s' % (t, b, o.line, o.label[:120], p))
        for o, s, b, t, p in bad: print('   ', s, '%.1f' % t, 'line', o.line, o.label, p)
        if e:
            # vacuity
            vs = []
            for lab, hy in e.vac:
                o = Oblig('vacuity', hy, z3.BoolVal(False), name, 0)
                vs.append(o)
            r = solve.discharge(vs[:1] + vs[1::max(1, (len(vs) - 1) // 11)][:12], ctx, timeout=2, keep=keep, fallback=False)
            alive = sum(1 for x in r[1:] if x[1] != 'unsat')
            if r[0][1] == 'unsat' or (len(r) > 1 and not alive): print('    VACUOUS', [x[1] for x in r])
            elif os.environ.get('PYVC_V'): print('    paths alive', alive, 'of', len(r) - 1)


if __name__ == '__main__':
    main()
