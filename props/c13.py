"""Conjugation: every form is the stem and the ending with at most the seam between them changed."""
from .common import *

C = 'soynlp.lemmatizer._conjugation:'
NOTES = []
SYL = '44032 <= ord({0}) <= 55203'.format
HANG = '(44032 <= ord({0}) <= 55203 or 12593 <= ord({0}) <= 12643)'.format


def build():
    c = context()
    hangle(c)
    c.contracts[H + 'decompose'].ensures.pop()      # (composing again gives the character: not needed here)
    syl = SYL('c')
    c.add(Contract(H + 'compose', [('chosung', 'char'), ('jungsung', 'char'), ('jongsung', 'char')], returns='char', pure=True, assumed='C01',
                   requires=['chosung in CHO', 'jungsung in JUNG', 'jongsung in JONG'], ensures=['len(result) == 1', SYL('result'), 'decompose(result) == (chosung, jungsung, jongsung)']))
    S = [('stem', 'str'), ('ending', 'str')]
    # the form keeps the stem but its last two syllables, the ending but its first character, and has the right length
    c.fn('FORM', S + [('f', 'str')], 'bool', 'len(stem) + len(ending) - 1 <= len(f) <= len(stem) + len(ending) and f[:(len(stem) - 2 if len(stem) > 2 else 0)] == stem[:(len(stem) - 2 if len(stem) > 2 else 0)] and f[len(f) - len(ending) + 1:] == ending[1:]')
    X = [('a', 'char'), ('b', 'char')]
    pre = ['len(stem) > 0', 'len(ending) > 0']
    def form(name, f, extra=[], more=[]):
        c.lemma(name, S + extra, pre + more, ['FORM(stem, ending, %s)' % f], trig=['FORM(stem, ending, %s)' % f])
    c.add(Contract(C + 'conjugate', S + [('enforce_moum_harmoney', 'bool'), ('debug', 'bool')], returns='set[str]', after={
        'candidates': ('set[str]', ['forall(lambda f: implies(f in candidates, FORM(old(stem), old(ending), f)), f="str")']),
        'ending': ('str', ['len(ending) == len(old(ending))', 'ending[1:] == old(ending)[1:]', 'decompose(ending[0]) is not None', 'r_first[0] == some(decompose(ending[0]))[0] and r_first[1] == some(decompose(ending[0]))[1] and r_first[2] == some(decompose(ending[0]))[2]', '(%s) == (%s)' % (SYL('ending[0]'), SYL('old(ending)[0]'))])}, split=['enforce_moum_harmoney'],
        requires=['len(stem) > 0', 'forall(lambda i: implies(0 <= i < len(stem), %s))' % SYL('stem[i]'), 'len(ending) > 0', HANG('ending[0]'), 'not debug'],
        ensures=['forall(lambda f: implies(f in result, FORM(old(stem), old(ending), f)), f="str")', 'implies(%s, exists(lambda f: f in result, f="str"))' % SYL('old(ending)[0]')]))
    return c
