"""run.py PID --seed N --budget S --out FILE | run.py --replay FILE"""
import argparse, importlib, io, json, os, sys, tempfile, shutil, resource
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from oracle import core
sys.path.insert(0, core.REPO)
import warnings
warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=5)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    props = {}
    for l in open(os.path.join(here, 'properties.jsonl'), encoding='utf-8'):
        d = json.loads(l); props[d['id']] = d
    if a.replay:
        r = json.load(open(a.replay, encoding='utf-8'))
        pid, case = r['property'], r['case']
    else: pid = a.pid
    scratch = tempfile.mkdtemp(prefix='oracle_')
    os.environ['ORACLE_TMP'] = scratch
    real = sys.stdout
    try:
        sys.stdout = io.StringIO()
        mod = importlib.import_module('oracle.' + pid.lower())
        if a.replay:
            m = core.run_case(mod, case)
            sys.stdout = real
            print('VIOLATED: ' + m if m else 'holds')
            sys.exit(1 if m else 0)
        lits = core.Lits(props[pid]['anchors']['files'])
        r = core.campaign(mod, a.seed, a.budget, lits)
        if r['fail'] is not None:
            r['original'] = r['fail']
            r['fail'], r['message'] = core.shrink(mod, r['fail'])
        sys.stdout = real
        s = json.dumps(r, ensure_ascii=True)
        if a.out: open(a.out, 'w').write(s)
        else: print(s[:3000])
    finally:
        sys.stdout = real
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__': main()
