"""The vectorizer: vocabulary, encodings and their inverses, the document-term matrix, saving and loading."""
from .common import *
from .matrix import *
from .c20 import textfile, one
from pyvc.exec import FunV
from pyvc.spec import FUN
from pyvc.theory import STR, LIST

M = 'soynlp.vectorizer._vectorizer:BaseVectorizer'
NOTES = ['the tokenizer is an arbitrary pure function from a document to a list of terms', 'no progress messages',
         'scipy.sparse.csr_matrix((data, (rows, cols)), shape) is the matrix of that shape whose entry (i, j) is the sum of the data at (i, j)',
         'a text file opened for reading under the name it was written with yields the lines written (one write is one line: proved)']
BOUNDED = [M + '.to_file: the number of entries in the third line of the header (runtime check only)']


def build():
    c = context()
    textfile(c)
    LS, LI, VOC = 'list[str]', 'list[int]', 'dict[str,int]'
    tok = c.fn('TOK', [('s', 'str')], LS)
    fun = lambda ex, st: FunV(FUN([STR], LIST(STR)), tok.f)
    self = ('self', 'obj ' + M)
    c.cls(M, {'tokenizer': fun, 'min_tf': 'int', 'max_tf': 'int', 'min_df': 'real', 'max_df': 'real', 'lowercase': 'bool', 'verbose': 'bool', '_check_points': 'int',
              'vocabulary_': VOC, 'idx2vocab': LS, 'n_vocabs': 'int'}, [])
    w_ = lambda b: 'forall(lambda w: %s, w="str")' % b
    i_ = lambda b: 'forall(lambda i: %s)' % b
    # the vocabulary is a bijection onto 0..n-1 and the list inverts it
    BIJ = ['len(self.idx2vocab) == self.n_vocabs', 'len(self.vocabulary_) == self.n_vocabs', i_('implies(0 <= i < len(self.idx2vocab), self.idx2vocab[i] in self.vocabulary_ and self.vocabulary_[self.idx2vocab[i]] == i)'),
           w_('implies(w in self.vocabulary_, 0 <= self.vocabulary_[w] and self.vocabulary_[w] < len(self.idx2vocab) and self.idx2vocab[self.vocabulary_[w]] == w)')]
    quiet = ['not self.verbose']
    cnt = lambda d, w='w': 'occ(TOK({0}), {1}, len(TOK({0})))'.format(d, w)
    c.fn('TF', [('ds', LS), ('n', 'int'), ('w', 'str')], 'int', 'ite(n <= 0, 0, TF(ds, n - 1, w) + %s)' % cnt('ds[n - 1]'))
    c.fn('DF', [('ds', LS), ('n', 'int'), ('w', 'str')], 'int', 'ite(n <= 0, 0, DF(ds, n - 1, w) + ite(%s > 0, 1, 0))' % cnt('ds[n - 1]'))
    ranks(c)
    # -- construction
    c.add(Contract(M + '.__init__', [self, ('tokenizer', fun), ('min_tf', 'int'), ('max_tf', 'int'), ('min_df', 'real'), ('max_df', 'real'), ('stopwords', 'opt[set[str]]'), ('lowercase', 'bool'), ('verbose', 'bool')],
                   requires=['0 <= min_df and min_df < 1 and 0 < max_df and max_df <= 1'], ensures=BIJ + ['self.n_vocabs == 0', 'self.min_tf == min_tf and self.max_tf == max_tf and self.min_df == min_df and self.max_df == max_df']))
    # -- fit
    T, D = 'TF(docs, len(docs), w)', 'DF(docs, len(docs), w)'
    inb = '({0} > 0 and self.min_tf <= {0} and {0} <= self.max_tf and int(len(docs) * self.min_df) <= {1} and {1} <= int(len(docs) * self.max_df))'.format(T, D)
    FIT = BIJ + [w_('iff(w in self.vocabulary_, %s)' % inb),
                 'forall(lambda i, j: implies(0 <= i < j < len(self.idx2vocab), TF(docs, len(docs), self.idx2vocab[i]) >= TF(docs, len(docs), self.idx2vocab[j])))']
    FIELDS = ['self.vocabulary_', 'self.idx2vocab', 'self.n_vocabs', 'new self.vocabulary_', 'new self.idx2vocab']
    rep = ['0 <= self.min_df and self.min_df < 1 and 0 < self.max_df and self.max_df <= 1']
    c.add(Contract(M + '.fit', [self, ('docs', LS)], requires=quiet + rep + ['len(docs) > 0'], modifies=FIELDS, returns='=self', chain=True, paths=True, ensures=FIT))
    tab = lambda n: [w_('iff(w in tf, TF(docs, {0}, w) > 0) and implies(w in tf, tf[w] == TF(docs, {0}, w)) and TF(docs, {0}, w) >= 0'.format(n)),
                     w_('iff(w in df, TF(docs, {0}, w) > 0) and implies(w in df, df[w] == DF(docs, {0}, w)) and DF(docs, {0}, w) >= 0 and implies(TF(docs, {0}, w) == 0, DF(docs, {0}, w) == 0)'.format(n))]
    part = lambda p, q: w_('iff(w in tf, TF(docs, {0}, w) > 0 or {1}) and implies(w in tf, tf[w] == TF(docs, {0}, w) + ite({1}, {2}, 0))'.format('_i_d', q, cnt('doc')))
    partd = lambda q: w_('iff(w in df, TF(docs, {0}, w) > 0 or {1}) and implies(w in df, df[w] == DF(docs, {0}, w) + ite({1}, 1, 0))'.format('_i_d', q))
    seen = '({0} > 0 and _idx(w) < _i)'.format(cnt('doc'))
    c.loops[M + '.fit'] = [Loop(tab('_i'), types={'df': VOC, 'tf': VOC}, name='d'), Loop([part(0, seen), partd(seen)])]
    # -- encodings
    c.fn('KEEP', [('ws', LS), ('n', 'int'), ('v', VOC)], LS, 'ite(n <= 0, [], ite(ws[n - 1] in v, KEEP(ws, n - 1, v) + [ws[n - 1]], KEEP(ws, n - 1, v)))')
    c.fn('INR', [('q', LI), ('n', 'int'), ('m', 'int')], LI, 'ite(n <= 0, [], ite(0 <= q[n - 1] and q[n - 1] < m, INR(q, n - 1, m) + [q[n - 1]], INR(q, n - 1, m)))')
    enc = lambda q, n: ['len({0}) == len(KEEP(TOK(doc), {1}, self.vocabulary_))'.format(q, n), i_('implies(0 <= i < len({0}), KEEP(TOK(doc), {1}, self.vocabulary_)[i] in self.vocabulary_ and {0}[i] == self.vocabulary_[KEEP(TOK(doc), {1}, self.vocabulary_)[i]])'.format(q, n))]
    c.add(Contract(M + '.encode_a_doc_to_list', [self, ('doc', 'str')], requires=BIJ, returns=LI, ensures=enc('result', 'len(TOK(doc))')))
    c.comps[M + '.encode_a_doc_to_list'] = (1, {0: [Loop(enc('_out', '_i'), types={'_out': LI})]})
    dec = lambda q, n: ['len({0}) == len(INR(doc, {1}, self.n_vocabs))'.format(q, n), i_('implies(0 <= i < len({0}), 0 <= INR(doc, {1}, self.n_vocabs)[i] and INR(doc, {1}, self.n_vocabs)[i] < self.n_vocabs and {0}[i] == self.idx2vocab[INR(doc, {1}, self.n_vocabs)[i]])'.format(q, n))]
    c.add(Contract(M + '.decode_from_list', [self, ('doc', LI)], requires=BIJ, returns=LS, ensures=dec('result', 'len(doc)')))
    c.comps[M + '.decode_from_list'] = (1, {0: [Loop(dec('_out', '_i'), types={'_out': LS})]})
    c.lemma('inrange', [('q', LI), ('n', 'int'), ('m', 'int')], ['n <= len(q)', i_('implies(0 <= i < len(q), 0 <= q[i] and q[i] < m)')], ['len(INR(q, n, m)) == ite(n < 0, 0, n)', i_('implies(0 <= i < n, INR(q, n, m)[i] == q[i])')], measure='n')
    both = [('self', 'obj ' + M)]
    # encoding, then decoding: the in-vocabulary terms in order
    bij = [x.replace('self.idx2vocab', 'I').replace('self.vocabulary_', 'V').replace('self.n_vocabs', 'N') for x in BIJ]
    sub = lambda q, e, d: [x.replace('self.idx2vocab', 'I').replace('self.vocabulary_', 'V').replace('self.n_vocabs', 'N') for x in (enc(e, 'len(TOK(doc))') + [y.replace('doc', 'E') for y in dec(d, 'len(doc)')])]
    c.lemma('list-roundtrip', [('V', VOC), ('I', LS), ('N', 'int'), ('doc', 'str'), ('E', LI), ('D', LS)], bij + sub(0, 'E', 'D'), ['len(D) == len(KEEP(TOK(doc), len(TOK(doc)), V))', i_('implies(0 <= i < len(D), D[i] == KEEP(TOK(doc), len(TOK(doc)), V)[i])')], export=False, hints=[i_('implies(0 <= i < len(E), 0 <= E[i] and E[i] < N)'), 'len(INR(E, len(E), N)) == len(E)'])
    BOW, WOB = 'dict[int,int]', 'dict[str,int]'
    bow = lambda b, v='self.vocabulary_': [w_('implies(w in {1}, iff({1}[w] in {0}, {2} > 0) and implies({1}[w] in {0}, {0}[{1}[w]] == {2}))'.format(b, v, cnt('doc'))), i_('implies(i in {0}, 0 <= i < self.n_vocabs)'.format(b))]
    wob = lambda r, b: [w_('iff(w in {0}, w in self.vocabulary_ and self.vocabulary_[w] in {1}) and implies(w in {0}, {0}[w] == {1}[self.vocabulary_[w]])'.format(r, b))]
    c.add(Contract(M + '.encode_a_doc_to_bow', [self, ('doc', 'str')], requires=BIJ, returns=BOW, ensures=bow('result')))
    c.add(Contract(M + '.decode_from_bow', [self, ('bow', BOW)], requires=BIJ, returns=WOB, ensures=wob('result', 'bow')))
    rb = lambda l: [x.replace('self.vocabulary_', 'V').replace('self.n_vocabs', 'N') for x in l]
    c.lemma('bow-roundtrip', [('V', VOC), ('I', LS), ('N', 'int'), ('doc', 'str'), ('E', BOW), ('D', WOB)], bij + rb(bow('E')) + rb(wob('D', 'E')), [w_('iff(w in D, w in V and %s > 0) and implies(w in D, D[w] == %s)' % (cnt('doc'), cnt('doc')))], export=False)
    # -- matrix
    triples(c, 'int')
    cell = lambda i, v: w_('implies(w in self.vocabulary_ and 0 <= i < {0}, CELL(data, rows, cols, len(data), i, self.vocabulary_[w]) == {1})'.format(i, v))
    occd = cnt('docs[i]')
    MAT = ['result[3] == len(docs) and result[4] == self.n_vocabs',
           'forall(lambda i, w: implies(0 <= i < len(docs) and w in self.vocabulary_, CELL(result[0], result[1], result[2], len(result[0]), i, self.vocabulary_[w]) == %s), w="str")' % occd]
    c.add(Contract(M + '.transform', [self, ('docs', LS)], requires=BIJ + quiet + ['len(docs) > 0'], returns=CSRI, ensures=MAT))
    lens = ['len(rows) == len(data) and len(cols) == len(data)', 'INSIDE(rows, len(docs)) and INSIDE(cols, self.n_vocabs)']
    Ty = {'data': LI, 'rows': LI, 'cols': LI}
    cells = lambda v: 'forall(lambda i, w: implies(w in self.vocabulary_, CELL(data, rows, cols, len(data), i, self.vocabulary_[w]) == %s), w="str")' % v
    c.loops[M + '.transform'] = [Loop(lens + [cells('ite(0 <= i and i < _i, %s, 0)' % occd)], types=Ty, name='d'),
        Loop(lens + [cells('ite(0 <= i and i < _i_d, %s, ite(i == _i_d and %s > 0 and _idx(self.vocabulary_[w]) < _i, %s, 0))' % (occd, cnt('doc'), cnt('doc')))], types=Ty)]
    c.add(Contract(M + '.fit_transform', [self, ('docs', LS)], requires=quiet + rep + ['len(docs) > 0'], modifies=FIELDS, returns=CSRI, ensures=FIT + MAT))
    # -- the vocabulary as text: line i is the term of index i
    c.fn('NW', [('s', 'str')], 'bool', 'forall(lambda j: implies(0 <= j < len(s), not isws(s[j])))')
    c.fn('LINE', [('w', 'str')], 'str', 'w + "\\n"')
    ok = '{0} != "" and NW({0})'
    c.lemma('line', [('w', 'str')], [ok.format('w')], ['LINE(w).strip() == w'], trig=['LINE(w)'])
    c.lemma('line_one', [('w', 'str')], [ok.format('w')], [one('LINE(w)')], trig=['LINE(w)'])
    name = 'FILE == fname + ite(len(fname) >= 6 and fname[-6:] == ".vocab", "", ".vocab") and ENC == "utf-8"'
    lines = lambda l, n: ['len(DISK) == ' + n, i_('implies(0 <= i < %s, DISK[i] == LINE(%s[i]))' % (n, l))]
    terms = lambda l: i_('implies(0 <= i < len(%s), %s)' % (l, ok.format(l + '[i]')))
    c.ghosts.update(VOCS='list[str]')
    c.add(Contract(M + '.save', [self, ('fname', 'str')], requires=BIJ + [terms('self.idx2vocab')], ensures=[name] + lines('self.idx2vocab', 'len(self.idx2vocab)') + [i_('implies(0 <= i < len(DISK), %s)' % one('DISK[i]'))]))
    c.loops[M + '.save'] = [Loop(lines('self.idx2vocab', '_i'))]
    c.add(Contract(M + '.load', [self, ('fname', 'str')], requires=[terms('VOCS'), 'forall(lambda i, j: implies(0 <= i < j < len(VOCS), VOCS[i] != VOCS[j]))'] + lines('VOCS', 'len(VOCS)'), modifies=FIELDS,
                   ensures=[name] + BIJ + ['self.n_vocabs == len(VOCS)', i_('implies(0 <= i < len(VOCS), self.idx2vocab[i] == VOCS[i] and self.vocabulary_[VOCS[i]] == i)')]))
    c.add(Contract(M + '.vocabs', [self], requires=BIJ, returns=LS, chain=True, ensures=['len(result) == self.n_vocabs', i_('implies(0 <= i < len(result), self.vocabulary_[result[i]] == i)'), i_('implies(0 <= i < len(result), result[i] == self.idx2vocab[i])')]))
    QD = [('q', LS), ('V', VOC), ('k', 'int')]
    inc = ['0 <= k < len(q)', 'forall(lambda i, j: implies(0 <= i < j < len(q), V[q[i]] < V[q[j]]))', 'forall(lambda i: implies(0 <= i < len(q), 0 <= V[q[i]] and V[q[i]] < len(q)))']
    c.fn('ABOVED', QD, 'bool', 'V[q[k]] >= k')
    c.fn('BELOWD', QD, 'bool', 'V[q[len(q) - 1 - k]] <= len(q) - 1 - k')
    c.lemma('aboved', QD, inc, ['ABOVED(q, V, k)'], measure='k', hints=['implies(k > 0, ABOVED(q, V, k - 1))', 'implies(k > 0, V[q[k - 1]] < V[q[k]])'], trig=['ABOVED(q, V, k)'])
    c.lemma('belowd', QD, inc, ['BELOWD(q, V, k)'], measure='k', hints=['implies(k > 0, BELOWD(q, V, k - 1))', 'implies(k > 0, V[q[len(q) - 1 - k]] < V[q[len(q) - k]])'], trig=['BELOWD(q, V, k)'])
    c.lemma('ranksd', QD, inc, ['V[q[k]] == k'], trig=['V[q[k]]'], pull=True, hints=['ABOVED(q, V, k)', 'BELOWD(q, V, len(q) - 1 - k)'])
    # -- the matrix as text: after three lines of header, one line for each document and term that occurs in it
    c.fn('LINE3', [('i', 'int'), ('j', 'int'), ('n', 'int')], 'str', 'str(i) + " " + str(j) + " " + str(n) + "\\n"', fold=True)
    at = lambda d: cnt(d, 'self.idx2vocab[j]')
    here = lambda m, k: 'exists(lambda k: 3 <= k < len(DISK) and DISK[k] == LINE3({0} + 1, j + 1, {1}))'.format(m, k)
    # s is the line of a document before n and a term that occurs in it
    SL = [('s', 'str'), ('ds', LS), ('n', 'int'), ('I', LS)]
    oc = 'occ(TOK(ds[i]), I[j], len(TOK(ds[i])))'
    body = '0 <= i and i < n and 0 <= j and j < len(I) and %s > 0 and s == LINE3(i + 1, j + 1, %s)' % (oc, oc)
    c.fn('ISLINE', SL, 'bool', 'exists(lambda i, j: %s)' % body, hidden=True)
    c.lemma('isline', SL + [('i', 'int'), ('j', 'int')], [body], ['ISLINE(s, ds, n, I)'], trig=['(ISLINE(s, ds, n, I), %s)' % oc])
    c.lemma('isline-later', SL + [('m', 'int')], ['n <= m', 'ISLINE(s, ds, n, I)'], ['ISLINE(s, ds, m, I)'], trig=['(ISLINE(s, ds, n, I), ISLINE(s, ds, m, I))'])
    inv = lambda n, extra='': ['forall(lambda k: implies(3 <= k < len(DISK), ISLINE(DISK[k], docs, {0}{1}, self.idx2vocab)))'.format(n, extra),
                               'forall(lambda i, j: implies(0 <= i and i < {0} and 0 <= j and j < self.n_vocabs and {1} > 0, {2}))'.format(n, at('docs[i]'), here('i', at('docs[i]')))]
    head = ['len(DISK) >= 3 and DISK[0] == "%%MatrixMarket matrix coordinate integer general\\n" and DISK[1] == "%\\n"']
    c.add(Contract(M + '.to_file', [self, ('docs', LS), ('file_path', 'str'), ('encoding', 'str')], requires=BIJ + quiet + ['len(docs) > 0'], ensures=head + inv('len(docs)') + ['ENC == encoding']))
    j_ = lambda b: 'forall(lambda j: implies(0 <= j and j < self.n_vocabs, %s))' % b
    c.comps[M + '.to_file'] = (2, {1: [Loop([j_('occ(_out, j, len(_out)) == occ(words, self.idx2vocab[j], _i)'), i_('implies(0 <= i < len(_out), 0 <= _out[i] and _out[i] < self.n_vocabs)')], types={'_out': LI})]})
    c.loops[M + '.to_file'] = [Loop(['n_elements >= 0'], types={'n_elements': 'int'}), Loop(head + inv('_i'), name='d'),
        Loop(head + inv('_i_d', ' + 1') + [j_('implies({0} > 0 and _idx(j) < _i, {1})'.format(at('doc'), here('_i_d', at('doc'))))])]
    c.add(Contract(M + '.__len__', [self], requires=BIJ, returns='int', ensures=['result == len(self.idx2vocab)']))
    return c
