from .common import *

D = 'soynlp.hangle._distance:'
CT = 'dict[tup[str,str],real]'


def dist(c, T, scripts=True):
    """D(s1, s2, cost, i, j): least cost of turning the first i elements of s1 into the first j of s2."""
    c.fn('SUB', [('c1', 'str'), ('c2', 'str'), ('cost', CT)], 'real', 'ite(c1 == c2, 0, ite((c1, c2) in cost, cost[c1, c2], 1))')
    c.fn('D', [('s1', T), ('s2', T), ('cost', CT), ('i', 'int'), ('j', 'int')], 'real',
         'ite(i <= 0, j, ite(j <= 0, i, min(D(s1, s2, cost, i - 1, j) + 1, D(s1, s2, cost, i, j - 1) + 1, D(s1, s2, cost, i - 1, j - 1) + SUB(s1[i - 1], s2[j - 1], cost))))')
    c.lemma('swap', [('s1', T), ('s2', T), ('cost', CT), ('tr', CT), ('i', 'int'), ('j', 'int')],
            ['forall(lambda a, b: iff((a, b) in tr, (b, a) in cost), a="str", b="str", trig=((a, b) in tr))',
             'forall(lambda a, b: implies((b, a) in cost, tr[a, b] == cost[b, a]), a="str", b="str")',
             '0 <= i <= len(s2)', '0 <= j <= len(s1)'],
            ['D(s2, s1, tr, i, j) == D(s1, s2, cost, j, i)'], measure='i + j',
            trig=['(D(s2, s1, tr, i, j), D(s1, s2, cost, j, i))'])

    if not scripts: return
    # D is the least cost over all edit scripts (0 deletes, 1 inserts, any other number substitutes; applied from left to right)
    L = 'list[int]'
    c.lemma('edges', [('s1', T), ('s2', T), ('cost', CT), ('i', 'int'), ('j', 'int')], [],
            ['implies(i <= 0, D(s1, s2, cost, i, j) == j)', 'implies(i > 0 and j <= 0, D(s1, s2, cost, i, j) == i)'], trig=['D(s1, s2, cost, i, j)'])
    c.fn('DI', [('ops', L), ('n', 'int')], 'int', 'ite(n <= 0, 0, DI(ops, n - 1) + ite(ops[n - 1] == 1, 0, 1))')
    c.fn('DJ', [('ops', L), ('n', 'int')], 'int', 'ite(n <= 0, 0, DJ(ops, n - 1) + ite(ops[n - 1] == 0, 0, 1))')
    c.fn('COST', [('s1', T), ('s2', T), ('cost', CT), ('ops', L), ('n', 'int')], 'real',
         'ite(n <= 0, 0, COST(s1, s2, cost, ops, n - 1) + ite(ops[n - 1] == 0 or ops[n - 1] == 1, 1, SUB(s1[DI(ops, n) - 1], s2[DJ(ops, n) - 1], cost)))')
    c.lemma('script positions', [('ops', L), ('n', 'int')], [], ['DI(ops, n) >= 0', 'DJ(ops, n) >= 0'], measure='n', trig=['DI(ops, n)', 'DJ(ops, n)'])
    c.lemma('no script is cheaper', [('s1', T), ('s2', T), ('cost', CT), ('ops', L), ('n', 'int')],
            ['0 <= n <= len(ops)', 'DI(ops, n) <= len(s1)', 'DJ(ops, n) <= len(s2)'],
            ['D(s1, s2, cost, DI(ops, n), DJ(ops, n)) <= COST(s1, s2, cost, ops, n)'], measure='n', trig=['COST(s1, s2, cost, ops, n)'], export=False)
    c.lemma('a longer script', [('ops', L), ('x', 'int'), ('n', 'int')], ['0 <= n <= len(ops)'],
            ['DI(ops + [x], n) == DI(ops, n)', 'DJ(ops + [x], n) == DJ(ops, n)'], measure='n', trig=['DI(ops + [x], n)', 'DJ(ops + [x], n)'])
    c.lemma('cost of a longer script', [('s1', T), ('s2', T), ('cost', CT), ('ops', L), ('x', 'int'), ('n', 'int')], ['0 <= n <= len(ops)'],
            ['COST(s1, s2, cost, ops + [x], n) == COST(s1, s2, cost, ops, n)'], measure='n', trig=['COST(s1, s2, cost, ops + [x], n)'])
    c.fn('BEST', [('s1', T), ('s2', T), ('cost', CT), ('i', 'int'), ('j', 'int')], L,
         'ite(i <= 0, ite(j <= 0, [], BEST(s1, s2, cost, 0, j - 1) + [1]), ite(j <= 0, BEST(s1, s2, cost, i - 1, 0) + [0],'
         'ite(D(s1, s2, cost, i, j) == D(s1, s2, cost, i - 1, j) + 1, BEST(s1, s2, cost, i - 1, j) + [0],'
         'ite(D(s1, s2, cost, i, j) == D(s1, s2, cost, i, j - 1) + 1, BEST(s1, s2, cost, i, j - 1) + [1], BEST(s1, s2, cost, i - 1, j - 1) + [2]))))')
    b = 'BEST(s1, s2, cost, i, j)'
    c.lemma('a script attains it', [('s1', T), ('s2', T), ('cost', CT), ('i', 'int'), ('j', 'int')],
            ['0 <= i <= len(s1)', '0 <= j <= len(s2)'],
            ['DI({b}, len({b})) == i', 'DJ({b}, len({b})) == j', 'COST(s1, s2, cost, {b}, len({b})) == D(s1, s2, cost, i, j)'], measure='i + j', export=False)
    c.lemmas[-1].ensures = [x.replace('{b}', b) for x in c.lemmas[-1].ensures]


def build(T='str'):
    c = context()
    dist(c, T)
    c.add(Contract(D + 'levenshtein', [('s1', T), ('s2', T), ('cost', CT)], returns='real',
                   ensures=['result == D(s1, s2, cost, len(s1), len(s2))']))
    c.loops[D + 'levenshtein'] = [
        Loop(['len(previous_row) == len(s2) + 1', 'forall(lambda k: implies(0 <= k <= len(s2), previous_row[k] == D(s1, s2, cost, _i, k)))'],
             types={'previous_row': 'list[real]'}),
        Loop(['len(current_row) == _i + 1', 'forall(lambda k: implies(0 <= k <= _i, current_row[k] == D(s1, s2, cost, i + 1, k)))'],
             types={'current_row': 'list[real]'})]
    return c
