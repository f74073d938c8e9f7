"""the emoji presentation grammar (UTS #51, in the form libunicode documents in emoji_presentation_scanner.rl) as a deterministic
automaton over emoji segmentation categories, built by derivatives of regular expressions"""
import functools

CATS = {'Emoji': 0, 'EmojiTextPresentation': 1, 'EmojiEmojiPresentation': 2, 'EmojiModifierBase': 3, 'EmojiModifier': 4, 'EmojiVSBase': 5, 'RegionalIndicator': 6, 'KeyCapBase': 7,
        'CombiningEnclosingKeyCap': 8, 'CombiningEnclosingCircleBackslash': 9, 'ZWJ': 10, 'VS15': 11, 'VS16': 12, 'TagBase': 13, 'TagSequence': 14, 'TagTerm': 15}
LETTERS = list(range(-1, 16))
EMPTY, EPS = ('0',), ('1',)


def sym(*names): return ('s', frozenset(CATS[n] if isinstance(n, str) else n for n in names))


def seq(*rs):
    rs = list(rs); r = rs.pop()
    while rs:
        a = rs.pop()
        r = EMPTY if EMPTY in (a, r) else r if a == EPS else a if r == EPS else ('.', a, r)
    return r


def alt(*rs):
    s = set()
    for r in rs: s |= r[1] if r[0] == '|' else {r}
    s.discard(EMPTY)
    return EMPTY if not s else next(iter(s)) if len(s) == 1 else ('|', frozenset(s))


def star(r): return EPS if r in (EMPTY, EPS) else ('*', r)
def plus(r): return seq(r, star(r))


@functools.lru_cache(None)
def nullable(r):
    k = r[0]
    return k in '1*' or (k == '.' and nullable(r[1]) and nullable(r[2])) or (k == '|' and any(nullable(x) for x in r[1]))


@functools.lru_cache(None)
def deriv(r, c):
    k = r[0]
    if k in '01': return EMPTY
    if k == 's': return EPS if c in r[1] else EMPTY
    if k == '|': return alt(*[deriv(x, c) for x in r[1]])
    if k == '*': return seq(deriv(r[1], c), r)
    d = seq(deriv(r[1], c), r[2])
    return alt(d, deriv(r[2], c)) if nullable(r[1]) else d


any_emoji = sym('EmojiTextPresentation', 'EmojiEmojiPresentation', 'KeyCapBase', 'EmojiModifierBase', 'TagBase', 'Emoji')
presentation_sequence = seq(any_emoji, sym('VS16'))
modifier_sequence = seq(sym('EmojiModifierBase'), sym('EmojiModifier'))
zwj_element = alt(presentation_sequence, modifier_sequence, any_emoji)
EMOJI = alt(sym('EmojiEmojiPresentation', 'TagBase', 'EmojiModifierBase'), presentation_sequence, modifier_sequence, seq(sym('RegionalIndicator'), sym('RegionalIndicator')),
            seq(sym('TagBase'), plus(sym('TagSequence')), sym('TagTerm')), seq(sym('KeyCapBase'), sym('VS16'), sym('CombiningEnclosingKeyCap')),
            seq(zwj_element, plus(seq(sym('ZWJ'), zwj_element))), seq(any_emoji, sym('CombiningEnclosingCircleBackslash')))
TEXT = seq(any_emoji, sym('VS15'))
ANY = ('s', frozenset(LETTERS))


def automaton():
    """-> delta {(q, c): q'}, accept {q: None | False (text) | True (emoji)}, frozen (no longer match possible)"""
    start = (TEXT, EMOJI, ANY); ids = {start: 0}; work = [start]; delta = {}
    while work:
        s = work.pop()
        for c in LETTERS:
            t = tuple(deriv(r, c) for r in s)
            if t not in ids: ids[t] = len(ids); work.append(t)
            delta[ids[s], c] = ids[t]
    acc = {}
    for s, i in ids.items(): acc[i] = False if nullable(s[0]) else True if nullable(s[1]) else False if nullable(s[2]) else None
    n = len(ids); live = {q for q in range(n) if acc[q] is not None}
    # states from which an accepting state is reachable in one or more steps
    reach = set()
    while True:
        new = {q for q in range(n) if any(delta[q, c] in live | reach for c in LETTERS)}
        if new == reach: break
        reach = new
    return delta, acc, {q for q in range(n) if q not in reach}


def scan(cats, i, A=None):
    """longest match from i: (end, emoji?)"""
    delta, acc, frozen = A or automaton()
    q, end, em = 0, i, None
    for k in range(i, len(cats)):
        q = delta[q, cats[k]]
        if acc[q] is not None: end, em = k + 1, acc[q]
        if q in frozen: break
    return end, em
