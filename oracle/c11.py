from .core import *
from soynlp.postagger._dictionary import Dictionary
TAGS = ['Noun', 'Verb', 'Josa', 'X']


def look(d, model, words):
    for w in words:
        e = {t for t, ws in model.items() if w in ws}
        g = d.get_pos(w)
        if len(g) != len(set(g)) or set(g) != e: return 'get_pos(%r) = %r, not %r' % (w, g, sorted(e))
        for t in TAGS + ['none']:
            if bool(d.word_is_tag(w, t)) != (t in e): return 'word_is_tag(%r, %r) = %r' % (w, t, d.word_is_tag(w, t))
    m = max([len(w) for ws in model.values() for w in ws] or [0])
    if d.max_length < m: return 'max_length %d below the longest word (%d)' % (d.max_length, m)
    if {t: set(ws) for t, ws in d.pos_dict.items()} != model: return 'dictionary is %r, not %r' % (d.pos_dict, model)


def check(case):
    model = {t: set(ws) for t, ws in case['init']}
    d = Dictionary({t: (list if case['lists'] else set)(ws) for t, ws in case['init']})
    words = sorted({w for _, ws in case['init'] for w in ws} | {w for o in case['ops'] for w in o[2]} | {'zz'})
    shared = {}
    log = []
    n = 0
    m = look(d, model, words)
    if m: return 'after construction from %r: %s' % (case['init'], m)
    for op, tag, ws, flag in case['ops']:
        log.append((op, tag, ws, flag))
        key = tuple(ws)
        if op == 'add' or op == 'remove':
            # words as one string, or as a set object that may be passed several times
            arg = ' '.join(ws) if flag & 2 else shared.setdefault(key, set(ws))
            before = set(arg) if not isinstance(arg, str) else None
            ok = tag in model or (op == 'add' and bool(flag & 1))
            try:
                if op == 'add': d.add_words(tag, arg, force=bool(flag & 1))
                else: d.remove_words(tag, arg)
                raised = False
            except ValueError: raised = True
            if raised == ok: return 'history %r on %r: the last operation %s' % (log, case['init'], 'fails' if raised else 'does not fail')
            if ok:
                if op == 'add': model.setdefault(tag, set()).update(ws)
                else: model[tag] -= set(ws)
        elif op == 'drop':
            try:
                d.remove_words(tag); raised = False
            except ValueError: raised = True
            if raised == (tag in model): return 'history %r on %r: removing tag %r' % (log, case['init'], tag)
            model.pop(tag, None)
        elif op == 'reload':
            p = os.path.join(os.environ['ORACLE_TMP'], 'd%d.json' % (n % 3)); n += 1
            mx = d.max_length
            d.save(p)
            x = Dictionary(p)
            if x.max_length != mx or {t: set(w) for t, w in x.pos_dict.items()} != model: return 'history %r on %r: saved and loaded %r, max_length %r' % (log, case['init'], x.pos_dict, x.max_length)
            if flag & 1: d = x
            else: d.load(p)
        m = look(d, model, words)
        if m: return 'history %r on %r: %s' % (log, case['init'], m)


def gen(rng, lits):
    ws = [word(rng, lits, n=rng.randint(1, 6)) for _ in range(5)]
    init = [[t, rng.sample(ws, rng.randint(0, 3))] for t in rng.sample(TAGS, rng.randint(1, 3))]
    init[0][1] = init[0][1] or ws[:1]
    pool = [rng.sample(ws, rng.randint(1, 3)) for _ in range(3)]
    ops = []
    for _ in range(rng.randint(0, 10)):
        op = rng.choices(['add', 'remove', 'drop', 'reload'], [5, 4, 1, 1])[0]
        ops.append([op, rng.choice(TAGS), rng.choice(pool) if rng.random() < .7 else [word(rng, lits)], rng.randint(0, 3)])
    return {'init': init, 'ops': ops, 'lists': rng.random() < .3}


def valid(c):
    return (c['init'] and any(ws for _, ws in c['init']) and len({t for t, _ in c['init']}) == len(c['init']) and all(w and w.split() == [w] for _, ws in c['init'] for w in ws)
            and all(o[0] in ('add', 'remove', 'drop', 'reload') and o[2] and all(w and w.split() == [w] for w in o[2]) for o in c['ops']))
def trivial(c): return not c['ops']
