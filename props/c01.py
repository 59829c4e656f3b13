from .common import *


def build():
    c = context()
    ch = [('c', 'char')]
    syl, jaum, moum = '44032 <= ord(c) <= 55203', '12593 <= ord(c) <= 12622', '12623 <= ord(c) <= 12643'
    hang = '(%s or %s or %s)' % (syl, jaum, moum)
    c.add(Contract(H + 'decompose', ch, ensures=[
        'implies(not %s, result is None)' % hang,
        'implies(%s, result == (c, " ", " "))' % jaum,
        'implies(%s, result == (" ", c, " "))' % moum,
        'implies(%s, result is not None)' % syl,
        'implies(%s, result[0] == CHO[(ord(c) - 44032) // 588])' % syl,
        'implies(%s, result[1] == JUNG[(ord(c) - 44032) %% 588 // 28])' % syl,
        'implies(%s, result[2] == JONG[(ord(c) - 44032) %% 28])' % syl,
        'implies(%s, 12593 <= ord(result[0]) <= 12622 and 12623 <= ord(result[1]) <= 12643 and (result[2] == " " or 12593 <= ord(result[2]) <= 12622))' % syl,
        'implies(%s, compose(result[0], result[1], result[2]) == c)' % syl,
    ]))
    c.add(Contract(H + 'compose', [('cho', 'char'), ('jung', 'char'), ('jong', 'char')],
                   requires=['cho in CHO', 'jung in JUNG', 'jong in JONG'],
                   ensures=['len(result) == 1', '44032 <= ord(result) <= 55203', 'decompose(result) == (cho, jung, jong)', COMPOSED]))
    for f, e in (('character_is_korean', hang), ('character_is_complete_korean', syl), ('character_is_jaum', jaum),
                 ('character_is_moum', moum), ('character_is_number', '48 <= ord(c) <= 57'),
                 ('character_is_english', '(97 <= ord(c) <= 122 or 65 <= ord(c) <= 90)'),
                 ('character_is_punctuation', 'c in "!\\"\',.?`"')):
        c.add(Contract(H + f, ch, ensures=['iff(result, %s)' % e]))
    c.add(Contract(H + 'to_base', ch, ensures=['result == ord(c)']))
    for k in list(c.contracts.values()): k.inline = True
    return c
