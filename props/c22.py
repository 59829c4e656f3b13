"""The length of a corpus and what iterating over it yields."""
from .common import *
from pyvc.exec import CObj, Unsupported

D_ = 'soynlp.utils.utils:DoublespaceLineCorpus'
NOTES = ['reading: DISK is the list of lines that iterating over the opened text file yields; opening an existing file does not fail',
         'str.split with a separator is an uninterpreted function of the text: the parts are whatever it returns']


def build():
    c = context()

    def hook(ex, a, mode, st, node):
        g = st.envs[ex.gfid]
        g['FILE'] = a[0]
        g['ENC'] = ex.openkw.get('encoding', a[3] if len(a) > 3 else 'platform')
        if 'w' in mode or 'a' in mode: raise Unsupported('writing', node)
        return ex.alloc(st, CObj('file', {'lines': g['DISK'], 'pos': 0}))
    c.openhook = hook
    c.ghosts.update(FILE='str', ENC='str', DISK='list[str]', FOUND='bool')
    c.externs['os.path.exists'] = lambda ex, a, kw, st, node: st.envs[ex.gfid]['FOUND']
    # the stripped non-blank ones of the first n parts; those of the first k documents
    c.fn('PS', [('ps', 'list[str]'), ('n', 'int')], 'list[str]', '[] if n <= 0 else PS(ps, n - 1) + ([ps[n - 1].strip()] if ps[n - 1].strip() != "" else [])')
    c.fn('P', [('d', 'str')], 'list[str]', 'PS(d.split("  "), len(d.split("  ")))')
    c.fn('Y', [('D', 'list[str]'), ('k', 'int')], 'list[str]', '[] if k <= 0 else Y(D, k - 1) + P(D[k - 1])')
    c.lemma('prefix', [('D', 'list[str]'), ('j', 'int'), ('k', 'int')], ['0 <= j and j <= k'],
            ['len(Y(D, j)) <= len(Y(D, k))', 'forall(lambda t: implies(0 <= t < len(Y(D, j)), Y(D, k)[t] == Y(D, j)[t]))'], measure='k', trig=['Y(D, j), Y(D, k)'])
    c.lemma('next', [('D', 'list[str]'), ('j', 'int'), ('k', 'int')], ['0 <= j and j < k'], ['len(Y(D, j)) + len(P(D[j])) <= len(Y(D, k))', 'Y(D, j + 1) == Y(D, j) + P(D[j])'], trig=['Y(D, j), Y(D, k)'], hints=['Y(D, j + 1) == Y(D, j) + P(D[j])', 'len(Y(D, j + 1)) <= len(Y(D, k))'])
    c.lemma('psprefix', [('D', 'list[str]'), ('j', 'int'), ('k', 'int')], ['0 <= j and j <= k'],
            ['len(PS(D, j)) <= len(PS(D, k))', 'forall(lambda t: implies(0 <= t < len(PS(D, j)), PS(D, k)[t] == PS(D, j)[t]))'], measure='k', trig=['PS(D, j), PS(D, k)'])
    d = 'DISK[self.skip_header:]'
    st = 'self.num_doc == 0 and self.num_sent == 0 or 1 <= self.num_doc and self.num_doc <= len({0}) and 0 <= self.num_sent and self.num_sent <= len(Y({0}, self.num_doc)) and (self.num_sent > 0 or len(Y({0}, self.num_doc)) == 0)'.format(d)
    c.cls(D_, {'corpus_fname': 'str', 'num_doc': 'int', 'num_sent': 'int', 'iter_sent': 'bool', 'skip_header': 'int'}, ['self.skip_header >= 0', st])
    self = ('self', 'obj ' + D_)
    K = '(min(num_doc, len({0})) if num_doc > 0 else len({0}))'.format(d)
    opened = ['FILE == self.corpus_fname', 'ENC == "utf-8"']
    c.add(Contract(D_ + '._check_length', [self, ('num_doc', 'int'), ('num_sent', 'int')], returns='tup[int,int]', noinv=True, requires=['self.skip_header >= 0'], paths=True, ensures=opened + [
        'implies(num_sent <= 0, result[0] == %s and result[1] == len(Y(%s, %s)))' % (K, d, K),
        'implies(num_sent > 0, result[1] == min(num_sent, len(Y(%s, %s))))' % (d, K),
        'implies(num_sent > 0 and len(Y({0}, {1})) <= num_sent, result[0] == {1})'.format(d, K),
        'implies(num_sent > 0 and len(Y({0}, {1})) > num_sent, 1 <= result[0] and result[0] <= {1} and len(Y({0}, result[0])) > num_sent and len(Y({0}, result[0] - 1)) <= num_sent)'.format(d, K)]))
    c.loops[D_ + '._check_length'] = [
        Loop(['f.pos == _i']),
        Loop(['num_sent_ == len(Y(%s, _i))' % d, 'doc_idx == _i - 1', 'implies(num_doc > 0, _i <= num_doc)', 'implies(num_sent > 0, num_sent_ <= num_sent)'])]
    c.comps[D_ + '._check_length'] = (1, {0: [Loop(['len(_out) == len(PS(sents, _i))'], types={'_out': 'list[str]'})]})
    # what iterating yields
    Q = '(self.num_doc if self.num_doc > 0 else len(%s))' % d
    sentences = 'Y({0}, {1})[:self.num_sent] if self.num_sent > 0 else Y({0}, {1})'.format(d, Q)
    c.fn('DOCS', [('D', 'list[str]'), ('k', 'int')], 'list[str]', '[] if k <= 0 else DOCS(D, k - 1) + [D[k - 1].strip()]')
    c.lemma('docs', [('D', 'list[str]'), ('k', 'int')], ['0 <= k'], ['len(DOCS(D, k)) == k'], measure='k', trig=['DOCS(D, k)'])
    view = '((%s) if self.iter_sent else DOCS(%s, %s))' % (sentences, d, Q)
    c.add(Contract(D_ + '.__iter__', [self], returns='list[str]', paths=True, ensures=opened + ['result == ' + view]))
    lim = '(self.num_sent if self.num_sent > 0 else len(_yield) + 1)'
    full = 'len(_yield) == self.num_sent and _yield == Y({0}, {1})[:self.num_sent]'
    c.loops[D_ + '.__iter__'] = [
        Loop(['f.pos == _i']),
        Loop(['implies(not self.iter_sent, _yield == DOCS(%s, _i))' % d, 'implies(not self.iter_sent and self.num_doc > 0, stop == (_i >= self.num_doc) and _i <= self.num_doc)',
              'implies(not self.iter_sent and self.num_doc <= 0, not stop)', 'implies(self.iter_sent and self.num_doc > 0, _i <= self.num_doc)',
              'implies(self.iter_sent, num_sent == len(_yield))', 'implies(self.iter_sent and self.num_sent > 0, num_sent <= self.num_sent)',
              'implies(self.iter_sent and not stop, _yield == Y(%s, _i))' % d, 'implies(self.iter_sent and stop, self.num_sent > 0 and %s)' % full.format(d, '_i')], name='docs'),
        Loop(['_yield == Y(%s, _i_docs) + PS(doc.split("  "), _i)' % d, 'num_sent == len(_yield)', 'implies(self.num_sent > 0, num_sent <= self.num_sent)', 'not stop'])]
    # asking for the length does not change what iterating yields
    old = lambda s: s.replace('self.', 'old(self.').replace('old(self.num_doc', 'old(self.num_doc)').replace('old(self.num_sent', 'old(self.num_sent)').replace('old(self.iter_sent', 'self.iter_sent').replace('old(self.skip_header', 'self.skip_header')
    c.add(Contract(D_ + '.__len__', [self], returns='int', paths=True, modifies=['self.num_doc', 'self.num_sent'], ensures=['result == len(%s)' % old(view), '%s == %s' % (view, old(view))]))
    c.add(Contract(D_ + '.__init__', [self, ('corpus_fname', 'str'), ('num_doc', 'int'), ('num_sent', 'int'), ('iter_sent', 'bool'), ('skip_header', 'int')], requires=['skip_header >= 0'],
                   raises={'ValueError': 'not FOUND'}, ensures=[
        'self.corpus_fname == corpus_fname and self.iter_sent == iter_sent and self.skip_header == skip_header',
        'implies(not iter_sent and num_doc > 0, len(%s) <= num_doc)' % view,
        'implies(iter_sent and num_sent > 0, len(%s) <= num_sent)' % view,
        'implies(iter_sent and num_doc > 0, len({0}) <= len(Y({1}, min(num_doc, len({1})))))'.format(view, d),
        # every limit is used up
        'implies(iter_sent, len({0}) == (lambda n: min(n, num_sent) if num_sent > 0 else n)(len(Y({1}, {2}))))'.format(view, d, K),
        'implies(not iter_sent and num_sent <= 0, len(%s) == %s)' % (view, K)]))
    return c
