"""Noun postprocessing steps and compound parsing."""
from .maxscore import *
from pyvc.exec import CObj, CPy, CList
from pyvc.expr import STRSEQ
from pyvc.theory import STR

P = 'soynlp.noun._noun_postprocessing:'
V = 'soynlp.noun._noun_ver2:LRNounExtractor_v2'
T = 'soynlp.tokenizer._tokenizer:MaxScoreTokenizer'
SC = 'tup[int,real]'
N = 'dict[str,%s]' % SC
NOTES = ['the log file is written to but never read; check_dirs changes no value',
         'the sets of particles and of noun suffixes read at import are arbitrary sets']
TOK = 'tup[str,int,int,real,int]'
w_ = lambda b: 'forall(lambda w: %s, w="str")' % b
only = lambda new, old, rem: [w_('iff(w in %s, w in %s and w not in %s)' % (new, old, rem)), w_('implies(w in %s, %s[w] == %s[w])' % (new, new, old)), w_('implies(w in %s, w in %s)' % (rem, old))]


def build():
    c = context()
    c.openhook = lambda ex, a, mode, st, node: ex.alloc(st, CObj('file', {'out': ex.alloc(st, CList(STR, STRSEQ.empty)), 'lines': None, 'pos': 0}))
    c.externs['soynlp.utils.utils:check_dirs'] = lambda ex, a, kw, st, node: None
    c.ghosts.update(JOSA='set[str]', SUFFIX='set[str]')
    c.modvars.update({P + 'josaset': 'JOSA', P + 'suffixset': 'SUFFIX'})
    c.add(Contract(P + 'write_log', [('path', 'str'), ('header', 'str'), ('words', 'set[str]')]))
    c.loops[P + 'write_log'] = [Loop([])]
    step = lambda extra: [w_('iff(w in result[1], %s)' % extra)] if extra else []
    R = 'tup[%s,set[str]]' % N
    args = [('nouns', N), ('features', 'set[str]'), ('logpath', 'opt[str]'), ('logheader', 'opt[str]')]
    split = 'exists(lambda e: 2 <= e and e < len({0}) - 1 and {0}[:e] in nouns and {0}[e:] in features)'
    c.add(Contract(P + 'detaching_features', args, returns=R, ensures=only('result[0]', 'nouns', 'result[1]') + step('w in nouns and ' + split.format('w'))))
    c.loops[P + 'detaching_features'] = [
        Loop([w_('iff(w in removals, w in nouns and _idx(w) < _i and %s)' % split.format('w'))], types={'removals': 'set[str]'}),
        Loop([w_('iff(w in removals, w in nouns and _idx(w, "n") < _i_n and %s)' % split.format('w')), 'forall(lambda e: implies(2 <= e and e < _at and e < len(word) - 1, not (word[:e] in nouns and word[e:] in features)))'])]
    c.loops[P + 'detaching_features'][0].name = 'n'
    c.add(Contract(P + 'ignore_features', args, returns=R, ensures=only('result[0]', 'nouns', 'result[1]') + step('w in nouns and w in features')))
    c.loops[P + 'ignore_features'] = [Loop([w_('iff(w in removals, w in nouns and _idx(w) < _i and w in features)')], types={'removals': 'set[str]'})]
    nj = 'w in nouns and exists(lambda i: 2 <= i and i < len(w) and w[i:] in JOSA and w[i:] not in SUFFIX and w[:i] in nouns and nouns[w][0] < nouns[w[:i]][0])'
    c.cls('soynlp.utils.utils:LRGraph', {'_lr_origin': 'dict[str,dict[str,int]]'})
    c.add(Contract(P + 'check_N_is_NJ', [('nouns', N), ('lrgraph', 'obj soynlp.utils.utils:LRGraph'), ('min_num_of_josa', 'int'), ('logpath', 'opt[str]'), ('logheader', 'opt[str]')], returns=R,
                   ensures=only('result[0]', 'nouns', 'result[1]') + [w_('implies(w in result[1], %s)' % nj)]))
    c.loops[P + 'check_N_is_NJ'] = [Loop([w_('implies(w in removals, %s)' % nj)], types={'removals': 'set[str]'}), Loop([w_('implies(w in removals, %s)' % nj)])]
    # -- the extractor: the steps in any order
    obj = ('self', 'obj ' + V)
    maxscore(c, False)
    c.cls(V, {'_pos_features': 'set[str]', '_common_features': 'set[str]', 'lrgraph': 'obj soynlp.utils.utils:LRGraph', 'logpath': 'opt[str]', 'verbose': 'bool', 'postprocessing': 'list[str]', '_compound_decomposer': 'obj ' + T})
    sub = lambda a, b: [w_('implies(w in %s, w in %s and %s[w] == %s[w])' % (a, b, a, b))]
    o = lambda s: s.replace('nouns', 'old(nouns)').replace('features', 'self._pos_features')
    F = '(w in self._pos_features or w in self._common_features)'
    has = lambda m, n='len(self.postprocessing)': 'exists(lambda j: 0 <= j < %s and self.postprocessing[j] == "%s")' % (n, m)
    why = lambda n: w_('implies(w in old(nouns) and w not in %s, %s)' % (n, ' or '.join(['%s and %s' % (has('detaching_features'), o(split.format('w'))), '%s and %s' % (has('ignore_features'), F), '%s and %s' % (has('ignore_NJ'), o(nj))])))
    c.add(Contract(V + '._post_processing', [obj, ('nouns', N), ('prediction_scores', N), ('compounds', N)], returns=N, ensures=sub('result', 'nouns') + [
        why('result'), w_('implies(w in result and %s, not %s)' % (has('ignore_features'), F))]))
    c.loops[V + '._post_processing'] = [Loop(sub('nouns', 'old(nouns)') + [why('nouns'), w_('implies(w in nouns and %s, not %s)' % (has('ignore_features', '_i'), F))], types={'nouns': N})]
    # -- compounds
    parts = lambda r, n: '{0} is not None and len(some({0})) == {1} and forall(lambda i: implies(0 <= i < {1}, some({0})[i] == tokens[i][0]))'.format(r, n)
    last = '(len(tokens) >= 3 and tokens[len(tokens) - 1][0] in self._pos_features)'
    allpos = lambda n: 'forall(lambda i: implies(0 <= i < %s, tokens[i][3] > 0))' % n
    c.add(Contract(V + '._parse_compound', [obj, ('tokens', 'list[%s]' % TOK)], requires=['len(tokens) > 0'], returns='opt[list[str]]', paths=True, ensures=[
        'iff(result is None, not %s or not %s and tokens[len(tokens) - 1][3] <= 0)' % (allpos('len(tokens) - 1'), last),
        'implies(result is not None and %s, %s)' % (last, parts('result', '(len(tokens) - 1)')),
        'implies(result is not None and not %s, %s)' % (last, parts('result', 'len(tokens)'))]))
    c.fn('CAT', [('r', RECS), ('n', 'int')], 'str', 'ite(n <= 0, "", CAT(r, n - 1) + r[n - 1][0])')
    c.lemma('cat', [('r', RECS), ('t', 'str'), ('k', 'int')], ['TILES(r, len(t))', '0 <= k <= len(r)', all_('r', '0 <= r[i][1] and r[i][1] < r[i][2] and r[i][2] <= len(t) and r[i][0] == t[r[i][1]:r[i][2]]')],
            ['CAT(r, k) == t[:(r[k - 1][2] if k > 0 else 0)]'], measure='k', hints=['implies(k > 0, CAT(r, k - 1) == t[:r[k - 1][1]])'], trig=['TILES(r, len(t)), CAT(r, k)'])
    c.lemma('joincat', [('p', 'list[str]'), ('r', RECS), ('k', 'int')], ['0 <= k <= len(p)', 'len(p) <= len(r)', 'forall(lambda i: implies(0 <= i < len(p), p[i] == r[i][0]))'], ['joinl(p, k) == CAT(r, k)'], measure='k', hints=['implies(k > 0, joinl(p, k - 1) == CAT(r, k - 1))'], trig=['joinl(p, k), CAT(r, k)'])
    got = ('PIECES(self._compound_decomposer._scores, self._compound_decomposer._ds, self._compound_decomposer._max_length, word, r) and len(result) > 0'
           ' and (len(result) == len(r) or len(r) >= 3 and len(result) == len(r) - 1 and r[len(result)][0] in self._pos_features)'
           ' and forall(lambda i: implies(0 <= i < len(result), result[i] == r[i][0] and r[i][3] > 0)) and joinl(result, len(result)) == CAT(r, len(result)) and CAT(r, len(result)) == word[:r[len(result) - 1][2]]')
    c.add(Contract(V + '.decompose_compound', [obj, ('word', 'str')], requires=['len(word) > 0', 'len(word.split()) == 1', 'word.split()[0] == word', 'self._compound_decomposer._max_length >= 2'], paths=True, ensures=[
        'result == (word,) or exists(lambda r: %s, r="%s")' % (got, RECS)]))
    c.loops[V + '._parse_compound'] = [Loop([allpos('_i')])]
    return c
