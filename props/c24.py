from .common import *
from pyvc.exec import FunV
from pyvc.spec import FUN
from pyvc.theory import STR, LIST

B = 'soynlp.word._phrase:Bigram'
BG = 'tup[str,str]'


def build():
    c = context()
    tok = c.fn('TOK', [('s', 'str')], 'list[str]')           # an arbitrary tokenizer
    fun = lambda ex, st: FunV(FUN([STR], LIST(STR)), tok.f)
    freq = lambda ex, st: 'frequency'
    c.cls(B, {'min_frequency': 'int', 'verbose': 'bool', 'score': freq, 'filtering_checkpoint': 'int', 'tokenizer': fun,
              '_counter': 'dict[%s,int]' % BG, '_unigram': 'dict[str,int]'})
    # occurrences of (x, y) among the first n adjacent pairs; in the first n sentences
    c.fn('PC', [('ws', 'list[str]'), ('n', 'int'), ('x', 'str'), ('y', 'str')], 'int', 'ite(n <= 0, 0, PC(ws, n - 1, x, y) + ite(ws[n - 1] == x and ws[n] == y, 1, 0))')
    c.fn('BC', [('ss', 'list[str]'), ('n', 'int'), ('x', 'str'), ('y', 'str')], 'int', 'ite(n <= 0, 0, BC(ss, n - 1, x, y) + PC(TOK(ss[n - 1]), len(TOK(ss[n - 1])) - 1, x, y))')
    bc = 'BC(sentences, %s, x, y)'
    q = lambda body: 'forall(lambda x, y: %s, x="str", y="str")' % body
    cnt = lambda n: q('iff((x, y) in self._counter, {0} > 0) and implies((x, y) in self._counter, self._counter[x, y] == {0}) and {0} >= 0'.format(n))
    c.add(Contract(B + '.train', [('self', 'obj ' + B), ('sentences', 'list[str]')], requires=['self.filtering_checkpoint <= 0', 'not self.verbose or len(sentences) > 0'],
                   modifies=['self._counter', 'self._unigram', 'new self._counter', 'new self._unigram'], ensures=[
        q('iff((x, y) in self._counter, {0} > 0 and {0} >= self.min_frequency)'.format(bc % 'len(sentences)')),
        q('implies((x, y) in self._counter, self._counter[x, y] == {0})'.format(bc % 'len(sentences)'))]))
    c.loops[B + '.train'] = [
        Loop([cnt(bc % '_i')], types={}, name='sents'),
        Loop([cnt('(%s + PC(words, _i, x, y))' % (bc % '_i_sents'))]),
        Loop([]), Loop([], cut=False)]
    c.add(Contract(B + '._extract_by_frequency', [('self', 'obj ' + B), ('topk', 'int'), ('threshold', 'real')], returns=None, paths=True, ensures=[
        q('iff((x, y) in result, (x, y) in self._counter and self._counter[x, y] >= threshold)'),
        q('implies((x, y) in result, result[x, y][0] == self._counter[x, y] and result[x, y][1] == self._counter[x, y])')]))
    c.contracts[B + '._extract_by_frequency'].inline = True
    c.add(Contract(B + '.extract', [('self', 'obj ' + B), ('topk', 'int'), ('threshold', 'real')], paths=True, ensures=list(c.contracts[B + '._extract_by_frequency'].ensures)))
    return c
