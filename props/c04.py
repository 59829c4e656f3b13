from .common import *
from . import c03

D = c03.D


def build():
    c = context()
    c.add(Contract(H + 'decompose', [('c', 'str')], returns='opt[tup[str,str,str]]', pure=True, assumed='C01',
                   requires=['len(c) == 1'],
                   ensures=['iff(result is None, not (44032 <= ord(c) <= 55203 or 12593 <= ord(c) <= 12643))']))
    c03.dist(c, 'list[str]', False)
    CT = c03.CT
    # levenshtein over sequences of jamo (the same body as under C03, at another element type)
    c.add(Contract(D + 'levenshtein', [('s1', 'list[str]'), ('s2', 'list[str]'), ('cost', CT)], returns='real',
                   ensures=['result == D(s1, s2, cost, len(s1), len(s2))']))
    c.loops.update(c03.build('list[str]').loops)
    c.fn('JC', [('c1', 'str'), ('c2', 'str')], 'real',
         'ite(c1 == c2, 0, ite(decompose(c1) is None or decompose(c2) is None, 1, D(list(decompose(c1)), list(decompose(c2)), {}, 3, 3) / 3))')
    c.fn('JD', [('s1', 'str'), ('s2', 'str'), ('i', 'int'), ('j', 'int')], 'real',
         'ite(i <= 0, j, ite(j <= 0, i, min(JD(s1, s2, i - 1, j) + 1, JD(s1, s2, i, j - 1) + 1, JD(s1, s2, i - 1, j - 1) + JC(s1[i - 1], s2[j - 1]))))')
    LL = [('s1', 'list[str]'), ('s2', 'list[str]'), ('i', 'int'), ('j', 'int')]
    c.lemma('jamo distance in range', LL, ['0 <= i', '0 <= j'],
            ['0 <= D(s1, s2, {}, i, j)', 'D(s1, s2, {}, i, j) <= max(i, j)'], measure='i + j', trig=['D(s1, s2, {}, i, j)'])
    CC = [('c1', 'str'), ('c2', 'str')]
    c.lemma('character cost is symmetric', CC, [], ['JC(c1, c2) == JC(c2, c1)'], trig=['JC(c1, c2)'])
    c.lemma('character cost in range', CC, [], ['0 <= JC(c1, c2)', 'JC(c1, c2) <= 1'], trig=['JC(c1, c2)'])
    SS = [('s1', 'str'), ('s2', 'str'), ('i', 'int'), ('j', 'int')]
    c.lemma('symmetric', SS, ['0 <= i <= len(s2)', '0 <= j <= len(s1)'], ['JD(s2, s1, i, j) == JD(s1, s2, j, i)'], measure='i + j',
            trig=['(JD(s2, s1, i, j), JD(s1, s2, j, i))'])
    c.lemma('edges', SS, [], ['implies(i <= 0, JD(s1, s2, i, j) == j)', 'implies(i > 0 and j <= 0, JD(s1, s2, i, j) == i)'], trig=['JD(s1, s2, i, j)'])
    c.lemma('in range', SS, ['0 <= i', '0 <= j'], ['0 <= JD(s1, s2, i, j)', 'JD(s1, s2, i, j) <= max(i, j)'], measure='i + j', trig=['JD(s1, s2, i, j)'])
    c.lemma('zero for equal strings', [('s', 'str'), ('i', 'int')], ['0 <= i'], ['JD(s, s, i, i) == 0'], measure='i', trig=['JD(s, s, i, i)'])
    c.add(Contract(D + 'jamo_levenshtein', [('s1', 'str'), ('s2', 'str')], returns='real', ensures=[
        'result == JD(s1, s2, len(s1), len(s2))',
        'result == JD(s2, s1, len(s2), len(s1))', '0 <= result <= max(len(s1), len(s2))', 'implies(s1 == s2, result == 0)']))
    c.loops[D + 'jamo_levenshtein'] = [
        Loop(['len(previous_row) == len(s2) + 1', 'forall(lambda k: implies(0 <= k <= len(s2), previous_row[k] == JD(s1, s2, _i, k)))'],
             types={'previous_row': 'list[real]'}),
        Loop(['len(current_row) == _i + 1', 'forall(lambda k: implies(0 <= k <= _i, current_row[k] == JD(s1, s2, i + 1, k)))'],
             types={'current_row': 'list[real]'})]
    return c
