from .core import *
from .c13 import syl, hang, comp, CHO, JUNG, JONG
from soynlp.lemmatizer import Lemmatizer, conjugate
STEMS = '깨닫 구르 더럽 이 붓 벗 푸 주 오 끄 모으 하 파랗 그렇 시퍼렇 좋아지 먹 가 곱 돕 아름답 흐르 푸르 싣 짓 부 트 크 쓰 들 알 놀 있 없 좋 낫 굽 사랑하 똥푸 보 치르'.split()
ENDS = '아 어 아서 었다 았다 다 고 니까 ㄴ다 ㄹ까 ㅂ니다 ㅆ다 은 을 은데 러 라 려고 아라니깐 었었다 으면 면 ㅁ 음 습니다 였다 네 요'.split()


def check(case):
    st, en, w = set(case['stems']), set(case['endings']), case['word']
    lem = Lemmatizer(set(st), set(en))
    ctx = 'stems %r, endings %r: lemmatize(%r' % (sorted(st), sorted(en), w)
    r = lem.lemmatize(w)
    r2 = lem.lemmatize(w, check_only_stem=True)
    for only, res in ((False, r), (True, r2)):
        for s, e in res:
            if s not in st or not e or (not only and e not in en): return '%s%s) returns %r' % (ctx, ', check_only_stem=True' if only else '', (s, e))
            if w not in conjugate(s, e): return '%s) returns %r, which conjugates to %r' % (ctx, (s, e), conjugate(s, e))
    for i in range(1, len(w)):
        s, e = w[:i], w[i:]
        if s in st and JONG[(ord(e[0]) - 44032) % 28] != 'ㅎ' and w in conjugate(s, e):
            if e in en and (s, e) not in r: return '%s) = %r lacks %r' % (ctx, r, (s, e))
            if (s, e) not in r2: return '%s, check_only_stem=True) = %r lacks %r' % (ctx, r2, (s, e))
    if not {p for p in r2 if p[1] in en} >= set(r): return '%s): %r, only stems %r' % (ctx, r, r2)
    lem.candidates(w)


def gen(rng, lits):
    syls = [c for c in lits.chars if syl(c)] + list('르푸답벗러하해그렇이우오으다')
    g = lambda: rng.choice(syls) if rng.random() < .5 else chr(rng.randint(44032, 55203))
    stems = [rng.choice(STEMS) if rng.random() < .6 else ''.join(g() for _ in range(rng.randint(1, 3))) for _ in range(3)]
    ends = [rng.choice(ENDS) if rng.random() < .6 else ''.join(g() for _ in range(rng.randint(1, 3))) for _ in range(3)]
    k = rng.random()
    if k < .7:
        try: w = rng.choice(sorted(conjugate(rng.choice(stems), rng.choice(ends))) or ['가'])
        except Exception: w = stems[0] + '다'
    elif k < .85: w = rng.choice(stems) + rng.choice(ends)
    else: w = ''.join(g() for _ in range(rng.randint(1, 5)))
    w = ''.join(c for c in w if syl(c)) or '가'
    if rng.random() < .3:
        i = rng.randint(1, len(w)); stems.append(w[:i])
        if w[i:]: ends.append(w[i:])
    return {'stems': stems, 'endings': ends, 'word': w}


def fixed(lits):
    for s in STEMS:
        yield {'stems': [s], 'endings': ENDS, 'word': s}
        for e in ENDS:
            try: ws = sorted(conjugate(s, e))
            except Exception: ws = []
            for w in ws:
                if w and all(map(syl, w)): yield {'stems': STEMS, 'endings': ENDS, 'word': w}
    for a in range(44032, 55204, 13): yield {'stems': [chr(a)], 'endings': ['다', '어', '면'], 'word': chr(a) + rng_tail[a % 4]}


rng_tail = ['', '다', '어', '면']
def valid(c): return c['word'] and all(map(syl, c['word'])) and all(c['stems']) and all(map(syl, ''.join(c['stems']))) and all(c['endings']) and all(hang(e[0]) for e in c['endings'])
