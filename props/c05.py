from .common import *

T = 'soynlp.tokenizer._tokenizer:LTokenizer'


def build():
    c = context()
    c.cls(T, {'_scores': 'dict[str,real]', '_ds': 'real'})
    P = 'tup[str,str]'
    c.fn('SC', [('scores', 'dict[str,real]'), ('ds', 'real'), ('w', 'str')], 'real', 'ite(w in scores, scores[w], ds)')
    # the lossless non-empty parts of the first n pairs
    c.fn('FLAT', [('ps', 'list[tup[str,str]]'), ('n', 'int')], 'list[str]',
         'ite(n <= 0, [], FLAT(ps, n - 1) + ite(len(ps[n - 1][0]) > 0, [ps[n - 1][0]], []) + ite(len(ps[n - 1][1]) > 0, [ps[n - 1][1]], []))')
    tk = 'sentence.split()[k]'
    # what is required of the split (l, r) of token t
    c.fn('OK', [('scores', 'dict[str,real]'), ('ds', 'real'), ('tol', 'real'), ('t', 'str'), ('l', 'str'), ('r', 'str')], 'bool',
         'l + r == t and implies(len(t) <= 2, r == "") and implies(len(t) > 2, len(l) >= 2'
         ' and implies(tol <= 0, forall(lambda e: implies(2 <= e <= len(t), SC(scores, ds, t[:e]) <= SC(scores, ds, l) and implies(SC(scores, ds, t[:e]) == SC(scores, ds, l), e <= len(l)))))'
         ' and implies(tol > 0, forall(lambda e: implies(2 <= e <= len(t), SC(scores, ds, t[:e]) - SC(scores, ds, l) <= tol))'
         ' and forall(lambda e: implies(len(l) < e <= len(t), exists(lambda m: 2 <= m <= len(t) and SC(scores, ds, t[:m]) - SC(scores, ds, t[:e]) > tol)))))')
    ok = 'OK(self._scores, self._ds, tolerance, sentence.split()[k], '
    c.add(Contract(T + '.tokenize.<locals>.token_to_lr', [('token', 'str'), ('tolerance', 'real')], captures=[('self', 'obj ' + T)],
                   returns='tup[str,str]', paths=True, ensures=[
        'result[0] + result[1] == token', 'implies(len(token) <= 2, result[1] == "")', 'implies(len(token) > 2, len(result[0]) >= 2)',
        'implies(len(token) > 2 and tolerance <= 0, forall(lambda e: implies(2 <= e <= len(token), SC(self._scores, self._ds, token[:e]) <= SC(self._scores, self._ds, result[0]))))',
        'implies(len(token) > 2 and tolerance <= 0, forall(lambda e: implies(2 <= e <= len(token) and SC(self._scores, self._ds, token[:e]) == SC(self._scores, self._ds, result[0]), e <= len(result[0]))))',
        'implies(len(token) > 2 and tolerance > 0, forall(lambda e: implies(2 <= e <= len(token), SC(self._scores, self._ds, token[:e]) - SC(self._scores, self._ds, result[0]) <= tolerance)))',
        'implies(len(token) > 2 and tolerance > 0, forall(lambda e: implies(len(result[0]) < e <= len(token), exists(lambda m: 2 <= m <= len(token) and SC(self._scores, self._ds, token[:m]) - SC(self._scores, self._ds, token[:e]) > tolerance))))',
        'OK(self._scores, self._ds, tolerance, token, result[0], result[1])']))
    c.add(Contract(T + '.tokenize', [('self', 'obj ' + T), ('sentence', 'str'), ('tolerance', 'real'), ('flatten', 'bool'), ('remove_r', 'bool')], split=['flatten', 'remove_r'], ensures=[
        'implies(not flatten and not remove_r, len(result) == len(sentence.split()) and forall(lambda k: implies(0 <= k < len(result), %s result[k][0], result[k][1]))))' % ok,
        'implies(remove_r, len(result) == len(sentence.split()) and forall(lambda k: implies(0 <= k < len(result), %s result[k], %s[len(result[k]):]))))' % (ok, tk),
        # flattened: the parts of the pairs, in order, empty ones dropped
        'implies(flatten and not remove_r, exists(lambda ps: len(ps) == len(sentence.split()) and result == FLAT(ps, len(ps)) and forall(lambda k: implies(0 <= k < len(ps), %s ps[k][0], ps[k][1]))), ps="list[tup[str,str]]"))' % ok,
    ]))
    c.comps[T + '.tokenize'] = (3, {2: [Loop(['_out == FLAT(tokens, _i)'], types={'_out': 'list[str]'}), Loop(cut=False)]})
    return c
