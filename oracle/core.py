"""Runtime side of the checks: contracts evaluated on the running code (CPython), with generated inputs.

Runs under /opt/venv/bin/python, imports soynlp from /repo.  Used (1) to cross-check the proofs against
the interpreter, (2) to find a failing input for an obligation that is not discharged, (3) as the labelled,
bounded stand-in for functions outside the verifier's reach.
"""
import ast, copy, hashlib, importlib, itertools, json, os, random, resource, signal, sys, time, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Skip(Exception):
    pass


class Slow(Exception):
    pass


def priv(o, name):
    """a non-public name: absent after a refactoring means nothing to check there"""
    try:
        return getattr(o, name)
    except AttributeError:
        raise Skip(name)


class Lits:
    """characters, words and numbers written in the current source: values a change may single out"""
    def __init__(self, files):
        self.words, self.nums, self.chars = set(), set(), set()
        for f in files:
            try: t = ast.parse(open(os.path.join(REPO, f), encoding='utf-8').read())
            except Exception: continue
            docs = {id(n.value) for n in ast.walk(t) if isinstance(n, ast.Expr)}
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    if isinstance(n.value, str) and len(n.value) <= 40:
                        if 0 < len(n.value) <= 8: self.words.add(n.value)
                        self.chars |= set(n.value)
                    elif type(n.value) is int and 0 < n.value <= 3000: self.nums.add(n.value)
        self.words, self.nums, self.chars = sorted(self.words), sorted(self.nums), sorted(c for c in self.chars if not 0xd800 <= ord(c) < 0xe000)


SYL = '가각간나눈다달도라러르를만먹바밥벗사스아았어었으은을이입자지쿠쿡크키파퍼푸하했해힣긿좋'
JAMO = 'ㄱㄲㄳㅎㅋㅠㅏㅣㅜㅘㄴㄹㅂㅆ'
MISC = 'abzAZsé0459.,?!\'"()[]{}`-+_~:;/%#@*&=<>|^$\\ÀÿΩあ中😀ᄀ각ㅤㆍ'
WS = ' \t\n\u3000\xa0\x0b\x0c\r\x1c\u2003'


def pick(rng, w):
    """weighted choice"""
    return rng.choices([x for x, _ in w], [p for _, p in w])[0]


def char(rng, lits=None):
    k = rng.random()
    if lits and lits.chars and k < .15: return rng.choice(lits.chars)
    if k < .5: return rng.choice(SYL)
    if k < .6: return chr(rng.randint(44032, 55203))
    if k < .75: return rng.choice(JAMO)
    if k < .8: return chr(rng.randint(12593, 12643))
    if k < .95: return rng.choice(MISC)
    while 1:
        c = rng.choice([rng.randint(1, 255), rng.randint(256, 0xffff), rng.randint(0x10000, 0x1ffff)])
        if not 0xd800 <= c < 0xe000: return chr(c)


def size(rng, lits=None, big=12):
    if lits and lits.nums and rng.random() < .04:
        n = rng.choice(lits.nums) + rng.choice([-1, 0, 1, 2])
        if 0 <= n <= 400: return n
    return int(rng.expovariate(1 / (big / 3.0))) if rng.random() < .9 else rng.randint(0, big * 4)


def text(rng, lits=None, ab=None, n=None, spaces=.15, ws=' '):
    """a string, often over a tiny alphabet so that repetitions, ties and overlaps are common"""
    n = size(rng, lits) if n is None else n
    ab = ab or [char(rng, lits) for _ in range(rng.choice([1, 2, 2, 3, 5, 20]))]
    out = []
    while len(out) < n:
        if rng.random() < spaces: out.append(rng.choice(ws) if rng.random() < .8 else rng.choice(WS))
        elif lits and lits.words and rng.random() < .05: out.append(rng.choice(lits.words))
        else:
            c = rng.choice(ab)
            out.append(c)
            if rng.random() < .1: out += [c] * rng.randint(1, 4)
    return ''.join(out)


def nospace(s): return ''.join(s.split())


def word(rng, lits=None, ab=None, n=None):
    w = nospace(text(rng, lits, ab, n, spaces=0))
    return w or rng.choice('가나a')


def subs(s, lo=1, hi=99):
    return [s[i:j] for i in range(len(s)) for j in range(i + lo, min(len(s), i + hi) + 1)]


def score(rng):
    return rng.choice([0, 0, 0.5, 0.5, 1, 1.0, 0.25, 0.75, 2, -0.5, -1, 0.125, round(rng.random(), 2)])


def sentence(rng, lits=None, k=None, ab=None):
    return text(rng, lits, ab, k, spaces=.25)


# -- shrinking and mutation of JSON cases -------------------------------------------------------

def smaller(c):
    if isinstance(c, str):
        n = len(c)
        for k in (n // 2, n // 4, 1):
            if k:
                for i in range(0, n, k): yield c[:i] + c[i + k:]
    elif isinstance(c, list):
        n = len(c)
        for k in (n // 2, 1) if bag(c) else ():
            if k:
                for i in range(0, n, k): yield c[:i] + c[i + k:]
        for i, x in enumerate(c):
            for y in smaller(x): yield c[:i] + [y] + c[i + 1:]
    elif isinstance(c, dict):
        for k, x in c.items():
            for y in smaller(x): yield {**c, k: y}
    elif isinstance(c, bool): pass
    elif isinstance(c, int) and c > 0:
        yield c // 2
        yield c - 1


def bag(c):
    """a list of like things (which may be cut), not a record"""
    t = {type(x) for x in c}
    if len(t) > 1: return False
    return True


def mutate(c, rng, lits):
    if isinstance(c, bool): return rng.random() < .5
    if isinstance(c, str):
        if rng.random() < .15 and len(c) > 1:
            i = rng.randrange(len(c)); j = rng.randrange(i, len(c)) + 1
            return c[:i] + c[i:j] * rng.choice([0, 2, 3, 8]) + c[j:]
        i = rng.randrange(len(c) + 1)
        x = rng.choice(c) if c and rng.random() < .5 else char(rng, lits)
        k = rng.random()
        if k < .4: return c[:i] + x + c[i:]
        if k < .7: return c[:i] + c[i + 1:]
        return c[:i] + x + c[i + 1:]
    if isinstance(c, int): return max(0, c + rng.choice([-1, 1, 2, -2])) if rng.random() < .7 else rng.choice(lits.nums or [c])
    if isinstance(c, float): return score(rng) * 1.0
    if isinstance(c, list):
        if not c: return c
        k = rng.random() if bag(c) else 1
        i = rng.randrange(len(c))
        if k < .15: return c[:i] + c[i + 1:]
        if k < .3: return c[:i] + [copy.deepcopy(c[i])] + c[i:]
        if k < .35: 
            j = rng.randrange(len(c)); c = list(c); c[i], c[j] = c[j], c[i]
            return c
        return c[:i] + [mutate(c[i], rng, lits)] + c[i + 1:]
    if isinstance(c, dict) and c:
        k = rng.choice(list(c))
        return {**c, k: mutate(c[k], rng, lits)}
    return c


class Cover:
    """line coverage of /repo/soynlp through sys.monitoring: new lines make a case worth mutating"""
    def __init__(self):
        self.new = 0
        self.total = 0
        m = sys.monitoring
        self.tool = 4
        m.use_tool_id(self.tool, 'verif')
        root = os.path.join(REPO, 'soynlp') + os.sep

        def line(code, n):
            if code.co_filename.startswith(root): self.new += 1; self.total += 1
            return m.DISABLE

        def branch(code, off, dst):
            if code.co_filename.startswith(root):
                k = (code, off, dst)
                if k not in self.seen: self.seen.add(k); self.new += 1
            else: return m.DISABLE
        self.seen = set()
        m.register_callback(self.tool, m.events.LINE, line)
        m.set_events(self.tool, m.events.LINE)


def alarm(*a): raise Slow()


def run_case(mod, case, limit=20):
    """None, or the message of the violated contract"""
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        v = getattr(mod, 'valid', None)
        try:
            if v and not v(case): return None
        except Exception: return None
        return mod.check(case)
    except Skip: return None
    except Slow: return 'no result within %d s' % limit
    except MemoryError: return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/soynlp/' in f.filename]
        if not where: return 'gives a result of an unexpected form (%s: %s, oracle line %s)' % (type(e).__name__, e, tb[-1].lineno)
        return 'raises %s: %s (%s, line %s)' % (type(e).__name__, e, where[-1].name, where[-1].lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def safe(f, *a):
    try: return f(*a)
    except Exception: return False


def shrink(mod, case, budget=15):
    t = time.time()
    msg = run_case(mod, case)
    moved = True
    while moved and time.time() - t < budget:
        moved = False
        for c in smaller(case):
            if time.time() - t > budget: break
            try: m = run_case(mod, c, 5)
            except Exception: continue
            if m and not (m.startswith('no result') and not msg.startswith('no result')):
                case, msg, moved = c, m, True
                break
    return case, msg


def campaign(mod, seed, budget, lits, maxn=10 ** 9):
    rng = random.Random(seed)
    cov = Cover()
    pool, seen, samples = [], set(), []
    n = nt = 0
    t0 = time.time()

    def one(case, fixed=False):
        nonlocal n, nt
        n += 1
        b = cov.new
        m = run_case(mod, case)
        h = hashlib.md5(json.dumps(case, sort_keys=True).encode('utf-8', 'surrogatepass')).digest()[:8]
        if h not in seen:
            seen.add(h)
            good = not hasattr(mod, 'valid') or safe(mod.valid, case)
            if good and (not hasattr(mod, 'trivial') or not safe(mod.trivial, case)): nt += 1
            if good and len(samples) < 3 and rng.random() < .3: samples.append(case)
        if cov.new > b and not fixed: pool.append(case)
        return m

    for case in (mod.fixed(lits) if hasattr(mod, 'fixed') else []):
        m = one(case, True)
        if m: return dict(fail=case, message=m, n=n, nt=nt, samples=samples, lines=cov.total)
        if time.time() - t0 > budget * 3: break
    t0 = time.time()
    while time.time() - t0 < budget and n < maxn:
        if pool and rng.random() < .35:
            case = rng.choice(pool)
            for _ in range(rng.randint(1, 4)): case = mutate(case, rng, lits)
        else: case = mod.gen(rng, lits)
        m = one(case)
        if m: return dict(fail=case, message=m, n=n, nt=nt, samples=samples, lines=cov.total)
    if not samples and pool: samples = pool[:2]
    return dict(fail=None, n=n, nt=nt, samples=samples, lines=cov.total)
