from .common import *
from pyvc import loader
import re

E = H + 'ConvolutionHangleEncoder'


def enc(ex, st):
    cls = loader.resolve(E)
    return ex.construct(cls, [], {}, st, None)


def build():
    c = context()
    c.specconsts['OTHER'] = re.compile('[^ㄱ-ㅎㅏ-ㅣ가-힣 0-9]')
    c.specconsts['WS'] = re.compile(r'\s+')
    c.specconsts['IDX'] = CHO + JUNG + JONG + '0123456789 '
    # the character one index tuple stands for
    c.fn('DEC', [('t', 'list[int]')], 'int',
         'ite(len(t) == 1, ord(IDX[t[0]]), 44032 + 588 * t[0] + 28 * (t[1] - 19) + (t[2] - 40))')
    c.fn('WF', [('t', 'list[int]')], 'bool',
         '(len(t) == 1 and 0 <= t[0] <= 78) or (len(t) == 3 and 0 <= t[0] < 19 and 19 <= t[1] < 40 and 40 <= t[2] < 68)')
    c.add(Contract(E + '._normalize', [('self', enc), ('sent', 'str')], returns='str', pure=False, ensures=[
        'result == WS.sub(" ", OTHER.sub(" ", sent)).strip()',
        'forall(lambda i: implies(0 <= i < len(result), result[i] == " " or "0" <= result[i] <= "9" or 44032 <= ord(result[i]) <= 55203 or 12593 <= ord(result[i]) <= 12622 or 12623 <= ord(result[i]) <= 12643))'.replace('"0" <= result[i] <= "9"', '48 <= ord(result[i]) <= 57'),
    ]))
    c.add(Contract(E + '.sent_to_onehot', [('self', enc), ('sent', 'str')], returns='list[list[int]]', pure=True, ensures=[
        'len(result) == len(WS.sub(" ", OTHER.sub(" ", sent)).strip())',
        'forall(lambda k: implies(0 <= k < len(result), WF(result[k])))',
        'forall(lambda k: implies(0 <= k < len(result), DEC(result[k]) == ord(WS.sub(" ", OTHER.sub(" ", sent)).strip()[k])))',
        'forall(lambda k, j: implies(0 <= k < len(result) and 0 <= j < len(result[k]), 0 <= result[k][j] < self.dim))',
    ]))
    c.loops[E + '.sent_to_onehot'] = [Loop([
        'len(onehot) == _i',
        'forall(lambda k: implies(0 <= k < _i, WF(onehot[k]) and DEC(onehot[k]) == ord(chars[k])))',
        'forall(lambda k, j: implies(0 <= k < _i and 0 <= j < len(onehot[k]), 0 <= onehot[k][j] < self.dim))',
    ], types={'onehot': 'list[list[int]]'})]
    c.add(Contract(E + '.onehot_to_sent', [('self', enc), ('encoded_sent', 'list[list[int]]')], returns='str',
                   requires=['forall(lambda k: implies(0 <= k < len(encoded_sent), WF(encoded_sent[k])))'],
                   ensures=['len(result) == len(encoded_sent)',
                            'forall(lambda k: implies(0 <= k < len(result), ord(result[k]) == DEC(encoded_sent[k])))']))
    c.loops[E + '.onehot_to_sent'] = [Loop([
        'len(chars) == _i', 'len(joinl(chars, _i)) == _i',
        'forall(lambda k: implies(0 <= k < _i, ord(joinl(chars, _i)[k]) == DEC(encoded_sent[k])))',
    ], types={'chars': 'list[str]'})]
    c.add(Contract(E + '.encode', [('self', enc), ('sent', 'str')], ensures=[
        'result.rows == len(WS.sub(" ", OTHER.sub(" ", sent)).strip())', 'result.cols == self.dim',
        'forall(lambda a, b: implies(0 <= a < result.rows and 0 <= b < result.cols, result[a, b] == ite(b in self.sent_to_onehot(sent)[a], 1, 0)))',
    ]))
    c.loops[E + '.encode'] = [
        Loop(['forall(lambda a, b: implies(0 <= a < len(onehot) and 0 <= b < self.dim, x[a, b] == ite(a < _i and b in onehot[a], 1, 0)))']),
        Loop(['forall(lambda a, b: implies(0 <= a < len(onehot) and 0 <= b < self.dim, x[a, b] == ite((a < i and b in onehot[a]) or (a == i and occ(xi, b, _i) > 0), 1, 0)))'])]
    c.lemma('round trip', [('s', 'str'), ('codes_', 'list[list[int]]'), ('r', 'str')],
            ['len(codes_) == len(s)', 'len(r) == len(codes_)',
             'forall(lambda k: implies(0 <= k < len(s), DEC(codes_[k]) == ord(s[k])))',
             'forall(lambda k: implies(0 <= k < len(r), ord(r[k]) == DEC(codes_[k])))'], ['r == s'], export=False)
    return c
