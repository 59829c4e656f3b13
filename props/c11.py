"""The tag dictionary.  Every method is proved to change the map from tags to word sets exactly as stated, so the
statement about histories follows by induction over the calls."""
from .common import *
from pyvc.exec import CObj, CPy, Sym
from pyvc.theory import STR
import z3

D = 'soynlp.postagger._dictionary:Dictionary'
PD = 'dict[str,set[str]]'
NOTES = ['json.load(json.dump(x)) == x for records of integers and lists of strings; open() gives access to the named file only',
         'the words of a string argument are those of str.split (axiomatised)']


BOUNDED = ['construction from a dictionary of lists (instead of sets) of words is evaluated on CPython only']


def files(c, rec):
    """one file: DISK is what it holds, FILE the name it was last opened under"""
    def hook(ex, a, mode, st, node):
        st.envs[ex.gfid]['FILE'] = a[0]
        return ex.alloc(st, CObj('file', {'lines': None, 'pos': 0}))
    c.openhook = hook
    c.ghosts['FILE'] = 'str'
    c.ghosts['DISK'] = lambda ex, st: ex.alloc(st, CObj('record', {k: ex.make(ty(t), st, k) for k, t in rec.items()}))
    c.jsonload = lambda ex, st: st.envs[ex.gfid]['DISK']


def build():
    c = context()
    files(c, {'max_length': 'int', 'pos_dict': 'dict[str,list[str]]'})
    c.cls(D, {'pos_dict': PD, 'max_length': 'int'}, ['forall(lambda t, w: implies(t in self.pos_dict and w in self.pos_dict[t], len(w) <= self.max_length), t="str", w="str")'])
    tw = lambda b: 'forall(lambda t, w: %s, t="str", w="str")' % b
    # w is one of the given words
    isw = '(False if isnone(words) else w in (words.split() if isinstance(words, str) else words))'
    some = 'exists(lambda t, w: t in pos_dict and w in pos_dict[t], t="str", w="str")'
    self = ('self', 'obj ' + D)
    ndisk = tw('implies(t in DISK["pos_dict"] and w in DISK["pos_dict"][t], len(w) <= DISK["max_length"])')
    same = lambda a, b: [tw('iff(t in {0}, t in {1})'.format(a, b)), tw('implies(t in {0}, iff(w in {0}[t], w in {1}[t]))'.format(a, b))]
    c.add(Contract(D + '.__init__', [self, ('pos_dict', PD)], modifies=['pos_dict'],
                   requires=[some],
                   ensures=same('self.pos_dict', 'old(pos_dict)')))
    c.add(Contract(D + '._check_max_length', [self, ('pos_dict', PD)], requires=[some], returns='int', noinv=True, ensures=[tw('implies(t in pos_dict and w in pos_dict[t], len(w) <= result)')]))
    c.comps[D + '._check_max_length'] = (1, {0: [
        Loop([tw('implies(t in pos_dict and _idx(t) < _i and w in pos_dict[t], exists(lambda p: 0 <= p and p < len(_out) and _out[p] == len(w)))')], name='t'),
        Loop([tw('implies(t in pos_dict and _idx(t, "t") < _i_t and w in pos_dict[t], exists(lambda p: 0 <= p and p < len(_out) and _out[p] == len(w)))'),
              'forall(lambda w: implies(w in words and _idx(w) < _i, exists(lambda p: 0 <= p and p < len(_out) and _out[p] == len(w))), w="str")'])]})
    c.loops[D + '.__init__'] = [Loop(same('pos_dict', 'old(pos_dict)'))]
    c.add(Contract(D + '.get_pos', [self, ('word', 'str')], ensures=[
        'forall(lambda t: iff(t in result, t in self.pos_dict and word in self.pos_dict[t]), t="str")',
        'forall(lambda i, j: implies(0 <= i and i < j and j < len(result), result[i] != result[j]))']))
    c.loops[D + '.get_pos'] = [Loop([
        'forall(lambda t: iff(t in tags, t in self.pos_dict and word in self.pos_dict[t] and _idx(t) < _i), t="str")',
        'forall(lambda i: implies(0 <= i and i < len(tags), tags[i] in self.pos_dict and _idx(tags[i]) < _i))',
        'forall(lambda i, j: implies(0 <= i and i < j and j < len(tags), _idx(tags[i]) < _idx(tags[j])))'], types={'tags': 'list[str]'})]
    c.add(Contract(D + '.word_is_tag', [self, ('word', 'str'), ('tag', 'str')], ensures=['iff(result, tag in self.pos_dict and word in self.pos_dict[tag])']))
    alts = {'words': ['str', 'set[str]', 'list[str]']}
    c.add(Contract(D + '.add_words', [self, ('tag', 'str'), ('words', 'str'), ('force', 'bool')], alts=alts,
                   requires=['exists(lambda w: %s, w="str")' % isw],
                   raises={'ValueError': 'not force and tag not in self.pos_dict'}, ensures_exc=['unchanged(self.pos_dict, self.max_length)'], modifies=['self.pos_dict', 'self.max_length'],
                   ensures=[tw('iff(t in self.pos_dict, t == tag or t in old(self.pos_dict))'),
                            tw('implies(t in self.pos_dict, iff(w in self.pos_dict[t], (t in old(self.pos_dict) and w in old(self.pos_dict)[t]) or (t == tag and %s)))' % isw)]))
    c.add(Contract(D + '.remove_words', [self, ('tag', 'str'), ('words', 'str')], alts={'words': ['none', 'str', 'set[str]', 'list[str]']},
                   raises={'ValueError': 'tag not in self.pos_dict'}, ensures_exc=['unchanged(self.pos_dict, self.max_length)'], modifies=['self.pos_dict'],
                   ensures=[tw('iff(t in self.pos_dict, t in old(self.pos_dict) and not (words is None and t == tag))'),
                            tw('implies(t in self.pos_dict, iff(w in self.pos_dict[t], w in old(self.pos_dict)[t] and not (t == tag and %s)))' % isw)]))
    c.add(Contract(D + '.save', [self, ('filename', 'str')], ensures=['FILE == filename', 'DISK["max_length"] == self.max_length'] + same('DISK["pos_dict"]', 'self.pos_dict') + [ndisk]))
    c.add(Contract(D + '.load', [self, ('filename', 'str')], requires=[ndisk], modifies=['self.max_length', 'new self.pos_dict'],
                   ensures=['FILE == filename', 'DISK["max_length"] == self.max_length'] + same('self.pos_dict', 'DISK["pos_dict"]')))
    return c
