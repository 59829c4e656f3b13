From d638d38b85fdc45fe75d4a80592c3a24ac5af0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 01/27] fix: levenshtein keeps the substitution costs when the
 shorter string comes first

---
 soynlp/hangle/_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/hangle/_distance.py b/soynlp/hangle/_distance.py
index b0d354a..1bfb0cd 100644
--- a/soynlp/hangle/_distance.py
+++ b/soynlp/hangle/_distance.py
@@ -7,7 +7,7 @@ from ._hangle import decompose
 def levenshtein(s1, s2, cost={}):
     # based on Wikipedia/Levenshtein_distance#Python
     if len(s1) < len(s2):
-        return levenshtein(s2, s1)
+        return levenshtein(s2, s1, {(c2, c1): v for (c1, c2), v in cost.items()})
 
     if len(s2) == 0:
         return len(s1)
-- 
2.43.0


From e3e97f9173a9580b525728a7629c6be30671d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 02/27] fix: MaxScoreTokenizer reports the dictionary score of
 short and in-between tokens

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e194591..25d0e87 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -139,7 +139,7 @@ class MaxScoreTokenizer:
         
         length = len(token)
         if length <= 2:
-            return [(token, 0, length, self._ds, length)]
+            return [(token, 0, length, self._scores.get(token, self._ds), length)]
 
         if range_l == 0:
             range_l = min(self._max_length, length)
@@ -208,7 +208,7 @@ class MaxScoreTokenizer:
             b = base[2]
             e = result[i+1][1]
             subtoken = token[b:e]
-            adds.append((subtoken, b, e, self._ds, e - b))
+            adds.append((subtoken, b, e, self._scores.get(subtoken, self._ds), e - b))
         
         return adds
 
-- 
2.43.0


From 894a37c9006db070576991e215c76d261c8d703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 03/27] fix: NounMatchTokenizer compounds carry no empty record
 and their own score

---
 soynlp/tokenizer/_noun_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_noun_tokenizer.py b/soynlp/tokenizer/_noun_tokenizer.py
index 25d42c3..1c00edb 100644
--- a/soynlp/tokenizer/_noun_tokenizer.py
+++ b/soynlp/tokenizer/_noun_tokenizer.py
@@ -79,8 +79,9 @@ class NounMatchTokenizer:
                 if e == b_:
                     e, score = e_, max(score, score_)
                 else:
-                    words_.append((eojeol[b:e], b, e, score, e-b))
-                    b, e = b_, e_
+                    if e > b:
+                        words_.append((eojeol[b:e], b, e, score, e-b))
+                    b, e, score = b_, e_, score_
             if e > b:
                 words_.append((eojeol[b:e], b, e, score, e-b))
             return words_
-- 
2.43.0


From 00c032e316860a048c74a26ba564875f5cb77140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 04/27] fix: MaxLRScoreTokenizer does not repeat the R part of
 the last word or crash on a bare R

---
 soynlp/tokenizer/_tokenizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 25d0e87..2dee685 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -416,7 +416,7 @@ class MaxLRScoreTokenizer:
         adds = []
         if words and words[0][2] > 0:
             adds += self._add_first_subword(t, words)
-        if words and words[-1][3] < n:
+        if words and words[-1][4] < n:
             adds += self._add_last_subword(t, words, n)
         adds += self._add_inter_subwords(t, words)
         post = [w for w in words] + adds
@@ -434,7 +434,7 @@ class MaxLRScoreTokenizer:
         return adds
 
     def _add_last_subword(self, t, words, n):
-        b = words[-1][3]
+        b = words[-1][4]
         subword = t[b:]
         return self._base_tokenizing_subword(subword, b)
 
@@ -451,7 +451,7 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer.scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.Dr[w]])
             else:
                 words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
         return words_
\ No newline at end of file
-- 
2.43.0


From 2a0d26a94eafdca7158830c617dcab807f17287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 05/27] fix: MaxLRScoreTokenizer offsets of subwords without a
 known L part

---
 soynlp/tokenizer/_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 2dee685..d6bfe00 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -451,7 +451,8 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.Dr[w]])
+                words_.append(['', w, b+b_, b+b_, b+b_+n, 0, n, n, 0, self.Dr[w]])
             else:
-                words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
+                words_.append([w, '', b+b_, b+b_+n, b+b_+n, n, 0, n, 0, 0])
+            b_ += n
         return words_
\ No newline at end of file
-- 
2.43.0


From 61cfc38d37627eb1e70d90e17d2a53944f5be954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 06/27] fix: emoticon_normalize does not drop syllables next to
 an unrelated jamo

---
 soynlp/normalizer/_normalizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 770cee5..81b2d93 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -77,11 +77,15 @@ def emoticon_normalize(sent, num_repeats=2):
             if (jong == sent[i+1]):
                 sent_.append(compose(cho, jung, ' '))
                 sent_.append(jong)
+            else:
+                sent_.append(c)
         elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
             cho, jung, jong = decompose(c)
-            if (cho == sent[i-1]):
+            if (cho == sent[i-1]) and (jong == ' '):
                 sent_.append(cho)
                 sent_.append(jung)
+            else:
+                sent_.append(c)
         else:
             sent_.append(c)
     return repeat_normalize(''.join(sent_), num_repeats)
-- 
2.43.0


From 1fa3653afd65a0c48b6f58555e754d473d5ddb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 07/27] fix: UnknowLRPostprocessor keeps an eojeol that has no
 known word

---
 soynlp/postagger/_tagger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 17dde72..8f5e839 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -58,6 +58,8 @@ class BasePostprocessor:
 class UnknowLRPostprocessor(BasePostprocessor):
     def postprocess(self, token, words):
         n = len(token)
+        if not words:
+            return [LR(token, None, '', None, 0, n, n)]
         adds = []
         if words and words[0].b > 0:
             adds.append(self._add_first_subword(token, words))
-- 
2.43.0


From 25190a94eb7ee50012013d5bcf09331f86de8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 08/27] fix: Lemmatizer.candidates calls a method that does not
 exist

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 8397c2e..3379f41 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -33,7 +33,7 @@ class Lemmatizer:
         for i in range(1, len(word) + 1):
             l = word[:i]
             r = word[i:]
-            candidates.update(self.lemma_candidate(l, r, self._predefined))
+            candidates.update(lemma_candidate(l, r, self._predefined))
         return candidates
 
 def debug_message(message, l, r):
-- 
2.43.0


From 65b70b9804047d34baf93a5ab57eeb4a7b87cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 09/27] fix: LRGraph.add_lr_pair and add_eojeol accept unseen L
 and R parts

---
 soynlp/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e02775f..d010abd 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -383,9 +383,11 @@ class LRGraph:
         )
 
     def add_lr_pair(self, l, r, count=1):
-        self._lr[l][r] += count
+        rdict = self._lr.setdefault(l, {})
+        rdict[r] = rdict.get(r, 0) + count
         if r:
-            self._rl[r][l] += count
+            ldict = self._rl.setdefault(r, {})
+            ldict[l] = ldict.get(l, 0) + count
 
     def add_eojeol(self, eojeol, count=1):
         for i in range(1, len(eojeol) + 1):
-- 
2.43.0


From ede32d3ed6753a529c99315ff5efd1dfab95b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 10/27] fix: LRGraph built from sentences counts occurrences,
 not prefix lengths

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index d010abd..cfa5acb 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -347,7 +347,7 @@ class LRGraph:
                     l, r = word[:e], word[e:]
                     if len(r) > self.r_max_length:
                         continue
-                    lrgraph[l][r] += e
+                    lrgraph[l][r] += 1
         lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         return lrgraph
 
-- 
2.43.0


From d6e4821a45aecf5bda55bfef4bcaa24cecc2e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 11/27] fix: LRGraph.reset_lrgraph and load work for an empty
 original graph

---
 soynlp/utils/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index cfa5acb..6a727ca 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -358,6 +358,8 @@ class LRGraph:
             except:
                 raise ValueError('lrgraph type should be dict of dict, not {}'.format(
                     type(lrgraph)))
+        if not lrgraph:
+            return {}, {}
         nested_dict_type = type(list(lrgraph.values())[0])
         if nested_dict_type == defaultdict:
             lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
@@ -374,7 +376,7 @@ class LRGraph:
         return lrgraph, rlgraph
 
     def reset_lrgraph(self):
-        if not self._lr_origin:
+        if self._lr_origin is None:
             return None
 
         self._lr, self._rl = self._check_lrgraph(
-- 
2.43.0


From b094b585045b7282e5436f91b9d326ea4798242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 12/27] fix: LRGraph copies the rows of the given graph instead
 of sharing them

---
 soynlp/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 6a727ca..d28700d 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -361,9 +361,9 @@ class LRGraph:
         if not lrgraph:
             return {}, {}
         nested_dict_type = type(list(lrgraph.values())[0])
-        if nested_dict_type == defaultdict:
+        if nested_dict_type in (dict, defaultdict):
             lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
-        elif not (nested_dict_type == dict):
+        else:
             raise ValueError('nested value type should be dict, not {}'.format(
                 nested_dict_type))
         rlgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From 75a7983e3814c355e0838bbc527f6b65b0a8cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 13/27] fix: EojeolCounter.to_lrgraph honours
 ignore_one_syllable

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index d28700d..a9d2a38 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -281,7 +281,7 @@ class EojeolCounter:
         return self._counter.items()
 
     def to_lrgraph(self, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
-        return self._to_lrgraph(self._counter, l_max_length, r_max_length)
+        return self._to_lrgraph(self._counter, l_max_length, r_max_length, ignore_one_syllable)
 
     def _to_lrgraph(self, counter, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
         _lrgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From 451cff9fbe988755508bac708b4815b58d4f82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 14/27] fix: DoublespaceLineCorpus of an empty file has length
 0

---
 soynlp/utils/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index a9d2a38..7833c35 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -131,6 +131,7 @@ class DoublespaceLineCorpus:
             return 0, 0
 
         # check length
+        doc_idx = -1
         for doc_idx, doc in enumerate(f):
             if (num_doc > 0) and (doc_idx >= num_doc):
                 return doc_idx, num_sent_
-- 
2.43.0


From 4a92dcc79b2bafe3f59acb15829be733756e3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 15/27] fix: DoublespaceLineCorpus sentence iteration stops
 after num_doc documents

---
 soynlp/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 7833c35..02a5a86 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -173,6 +173,8 @@ class DoublespaceLineCorpus:
                 continue
 
             # yield sents
+            if (self.num_doc > 0) and (doc_idx >= self.num_doc):
+                break
             for sent in doc.split('  '):
                 if (self.num_sent > 0) and (num_sent >= self.num_sent):
                     stop = True
-- 
2.43.0


From ba999dc21b42ab176360b5d26d9e89d11da5984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 16/27] fix: BaseVectorizer term frequency counts every
 occurrence of a term

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 4e04d54..daa4631 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -43,7 +43,7 @@ class BaseVectorizer:
             counter = Counter((token for token in self.tokenizer(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
-                tf[term] = tf.get(term, 0) + 1
+                tf[term] = tf.get(term, 0) + freq
 
         if self.verbose:
             print('\rscanning was done{}'.format(' '*40), flush=True)
-- 
2.43.0


From 9b37a82bf5b58e50aba5e3f785d6df9389506264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 17/27] fix: word-context matrix always has shape (n_vocabs,
 n_vocabs)

---
 soynlp/vectorizer/_word_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index f959516..22df154 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -113,7 +113,8 @@ def _encode_as_matrix(word2contexts, vocab2idx, verbose):
             rows.append(word_idx)
             cols.append(context_idx)
             data.append(cooccurrence)
-    x = csr_matrix((data, (rows, cols)))
+    n_vocabs = len(vocab2idx)
+    x = csr_matrix((data, (rows, cols)), shape=(n_vocabs, n_vocabs))
 
     if verbose:
         print('  - (word, context) matrix was constructed. shape = {}{}'.format(
-- 
2.43.0


From 6f321b880380b80ef1391e3bdf57e43245a6a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 18/27] fix: compound nouns carry (frequency, score) like the
 other nouns

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 92a228c..1d0edb0 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -516,7 +516,7 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] checked compounds. discovered {} compounds'.format(
                 len(compounds_scores)))
 
-        compounds = {noun:(score, compounds_counts.get(noun,0))
+        compounds = {noun:(compounds_counts.get(noun,0), score)
              for noun, score in compounds_scores.items()}
 
         self._compounds_components = compounds_components
-- 
2.43.0


From 13e4e6c6510508b3636c9151c028b98796526601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 19/27] fix: LRNounExtractor_v2 accepts a single postprocessing
 name

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 1d0edb0..83ad671 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -45,7 +45,7 @@ class LRNounExtractor_v2:
                 'ignore_features',
                 'ignore_NJ'
             ]
-        elif isinstance(postprocessing) == str:
+        elif isinstance(postprocessing, str):
             postprocessing = [postprocessing]
 
         self.postprocessing = postprocessing
-- 
2.43.0


From 1fb7dbc2f61c7f31ac059bca92ef03ae840d8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 20/27] fix: soynlp.utils star import names a symbol that does
 not exist

---
 soynlp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 6a98c89..8645764 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -11,7 +11,7 @@ from .math import svd
 
 __all__ = [
     # utils
-    'get_available_memory', 'get_process_memory', 'check_dirs'
+    'get_available_memory', 'get_process_memory', 'check_dirs',
     'sort_by_alphabet', 'most_similar', 'DoublespaceLineCorpus',
     'EojeolCounter', 'LRGraph',
     # math
-- 
2.43.0


From 0a91ba2ffdc72890315b46a09ac11ce18601ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 21/27] fix: LREvaluator orders the selected words by position,
 not by right part

---
 soynlp/postagger/_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index d84a9f6..df3ef29 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -76,7 +76,7 @@ class LREvaluator(BaseEvaluator):
     def select_best(self, candidates):
         scored_candidates = [(c, self.evaluate(c)) for c in candidates]
         best = self._remove_overlapped(scored_candidates)
-        return sorted(best, key=lambda x:x[2])
+        return sorted(best, key=lambda x:x.b)
     
     def evaluate(self, candidate):
         is_noun_phrase = candidate.l_tag == 'Noun'
@@ -120,4 +120,4 @@ class LREvaluator(BaseEvaluator):
             for idx in reversed(removals):
                 del sorted_[idx]
                 
-        return sorted(best, key=lambda x:x[2])
\ No newline at end of file
+        return sorted(best, key=lambda x:x.b)
\ No newline at end of file
-- 
2.43.0


From cc5287e4ecc4c723d95b6cc05dab64a9059c4c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 22/27] fix: Dictionary keeps its own copy of added words

---
 soynlp/postagger/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 19e81e5..4a7af04 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -68,8 +68,8 @@ class Dictionary:
 
     def _type_check(self, words):
         if isinstance(words, str):
-            words = set(words.split())
-        return words
+            words = words.split()
+        return set(words)
 
     def load(self, filename):
         if sys.version_info.major == 2:
-- 
2.43.0


From ad0bb36afbd183b8138fc3c55f67c2c71e9ffe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 23/27] fix: conjugate fails on endings whose first character
 is a lone jamo letter

---
 soynlp/lemmatizer/_conjugation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index e021f53..601f931 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -63,7 +63,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
              (r_first[0] == 'ㅇ' and r_first[1] in positive_moum) ):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
-        if (l_last[1] in neuter_moum) and (r_first[1] in positive_moum):
+        if (l_last[1] in neuter_moum) and (r_first[0] != ' ' and r_first[1] in positive_moum):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
 
@@ -73,7 +73,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     #    r_first = [r_first[2], ' ', ' ']
     #    ending = r_first[2] + ending[1:]
 
-    r_first_ = compose(r_first[0], r_first[1], ' ') if r_first[1] != ' ' else ending[0]
+    r_first_ = compose(r_first[0], r_first[1], ' ') if r_first[0] != ' ' and r_first[1] != ' ' else ending[0]
 
     candidates = set()
 
@@ -180,7 +180,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
             print('오 활용: {}'.format(surface))
 
     # ㅡ 탈락 불규칙 활용: 끄 + 어 -> 꺼 / 트 + 었다 -> 텄다
-    if ((l_last[1] == 'ㅡ') and (l_last[2] == ' ') and (r_first[0] == 'ㅇ')):
+    if ((l_last[1] == 'ㅡ') and (l_last[2] == ' ') and (r_first[0] == 'ㅇ') and (r_first[1] != ' ')):
         if l_last[0] == 'ㅇ' and len(stem) > 1:
             surface = stem[:-1] + ending
         elif l_last[0] != 'ㄹ':
-- 
2.43.0


From 3f9a16d3cc6cc36ba276bebb649b9a2f37f67dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 24/27] fix: smooth contexts whose given probability is zero

---
 soynlp/word/_pmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 5529404..98a688b 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -8,7 +8,7 @@ from soynlp.vectorizer import sent_to_word_contexts_matrix
 
 def _as_diag(px, alpha):
     px_diag = diags(px.tolist()[0])
-    px_diag.data[0] = np.asarray([0 if v == 0 else 1 / (v + alpha) for v in px_diag.data[0]])
+    px_diag.data[0] = np.asarray([0 if v + alpha == 0 else 1 / (v + alpha) for v in px_diag.data[0]])
     return px_diag
 
 def _logarithm_and_ppmi(exp_pmi, min_exp_pmi):
-- 
2.43.0


From 2e4630af82d6f33196c1b19bb1c17931f040cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 25/27] fix: pmi_memory_friendly failed its own assertion for
 every matrix

---
 soynlp/word/_pmi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 98a688b..f7be8b2 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -121,12 +121,12 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     assert 0 < beta <= 1
 
     # convert x to probability matrix & marginal probability 
-    px = (X.sum(axis=1) / X.sum()).reshape(-1)
+    px = np.asarray((X.sum(axis=1) / X.sum()).reshape(-1))
     if py is None:
-        py = (X.sum(axis=0) / X.sum()).reshape(-1)
+        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
     pxy = X / X.sum()
 
-    assert py.shape[0] == pxy.shape[1]
+    assert py.shape[1] == pxy.shape[1]
 
     if beta < 1:
         py = py ** beta
-- 
2.43.0


From bbfb946abe6a2b3e2132c5ea84ee26cefef233ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 26/27] fix: pmi_memory_friendly keeps values equal to the
 minimum and smooths contexts of probability zero

---
 soynlp/word/_pmi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index f7be8b2..c87bc77 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -139,7 +139,7 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     
     # pmi_alpha (x,y) = p(x,y) / ( p(x) x (p(y) + alpha) )
     px_diag.data[0] = np.asarray([0 if v == 0 else 1/v for v in px_diag.data[0]])
-    py_diag.data[0] = np.asarray([0 if v == 0 else 1/(v + alpha) for v in py_diag.data[0]])
+    py_diag.data[0] = np.asarray([0 if v + alpha == 0 else 1/(v + alpha) for v in py_diag.data[0]])
     
     exp_pmi = px_diag.dot(pxy).dot(py_diag)
     
@@ -147,7 +147,7 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     min_exp_pmi = 1 if min_pmi == 0 else np.exp(min_pmi)
 
     # because exp_pmi is sparse matrix and type of exp_pmi.data is numpy.ndarray
-    indices = np.where(exp_pmi.data > min_exp_pmi)[0]
+    indices = np.where(exp_pmi.data >= min_exp_pmi)[0]
 
     pmi_dok = dok_matrix(exp_pmi.shape)
 
-- 
2.43.0


From 63cb109d2e7ecc1a4f5557f5199e1f4eb15294b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:30 +0000
Subject: [PATCH 27/27] fix: extracting nouns verbosely from a corpus without
 eojeols divided by zero

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 83ad671..3eb947f 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -630,5 +630,5 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] flushing was done. mem={} Gb{}'.format(
                 '%.3f' % get_process_memory(), ' '*20), flush=True)
             coverage = '%.2f' % (100 * self._num_of_covered_eojeols
-                / self._num_of_eojeols)
+                / max(1, self._num_of_eojeols))
             print('[Noun Extractor] {} % eojeols are covered'.format(coverage), flush=True)
\ No newline at end of file
-- 
2.43.0

