from .core import *
from soynlp.utils import DoublespaceLineCorpus


def parts(line): return [s.strip() for s in line.split('  ') if s.strip()]


def check(case):
    p = os.path.join(os.environ['ORACLE_TMP'], 'corpus.txt')
    with open(p, 'w', encoding='utf-8', newline='') as f: f.write(case['text'])
    with open(p, encoding='utf-8') as f: lines = list(f)[case['skip']:]
    nd, ns = case['num_doc'], case['num_sent']
    kw = dict(num_doc=nd, num_sent=ns, iter_sent=case['iter_sent'], skip_header=case['skip'])
    mk = lambda: DoublespaceLineCorpus(p, **kw)
    ctx = '%r over the file %r' % (kw, case['text'])
    full = [s for l in lines for s in parts(l)] if case['iter_sent'] else [l.strip() for l in lines]
    a = mk(); first = list(a)
    n = len(a); again = list(a); n2 = len(a)
    b = mk(); m = len(b); later = list(b); m2 = len(b)
    if first != again: return '%s: yields %r before and %r after its length is asked' % (ctx, first, again)
    if first != later: return '%s: yields %r, and %r when the length is asked first' % (ctx, first, later)
    if not (n == n2 == m == m2 == len(first)): return '%s: lengths %r, but yields %r' % (ctx, (n, n2, m, m2), first)
    if full[:len(first)] != first: return '%s: yields %r, not the first of %r' % (ctx, first, full)
    if nd > 0 and not case['iter_sent'] and len(first) > nd: return '%s: yields %d documents' % (ctx, len(first))
    if ns > 0 and case['iter_sent'] and len(first) > ns: return '%s: yields %d sentences' % (ctx, len(first))
    if nd > 0 and case['iter_sent'] and len(first) > sum(len(parts(l)) for l in lines[:nd]): return '%s: yields sentences beyond document %d' % (ctx, nd)
    exp = None
    if case['iter_sent']:
        e = full if nd <= 0 else [s for l in lines[:nd] for s in parts(l)]
        exp = e[:ns] if ns > 0 else e
    elif ns <= 0: exp = full[:nd] if nd > 0 else full
    if exp is not None and first != exp: return '%s: yields %r, not %r' % (ctx, first, exp)


def gen(rng, lits):
    seps = ['\n', '\n', '\n', '\n\n', ' \n', '\r\n', '  \n', '\n  ', '\r']
    def line():
        return ''.join(rng.choice(['가', '나 다', 'ab', '  ', '  ', '   ', ' ', '\t', '    ']) if rng.random() < .85 else text(rng, lits, n=3) for _ in range(rng.randint(0, 6)))
    t = ''.join(line() + rng.choice(seps) for _ in range(rng.choice([0, 1, 2, 3, 5, 8])))
    if rng.random() < .4: t += line()
    k = lambda: rng.choice([-1, -1, 0, 1, 2, 3, 4, 6, 50])
    return {'text': t, 'num_doc': k(), 'num_sent': k(), 'iter_sent': rng.random() < .5, 'skip': rng.choice([0, 0, 0, 1, 2, 5])}


def valid(c):
    return type(c['iter_sent']) is bool and c['skip'] <= 20
def trivial(c): return not c['text'].strip()
