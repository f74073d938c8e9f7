"""Independent reading of the Unicode Character Database 15.1 (text files under /usr/share/unicode)."""
import re, functools, bisect, array

DIR = '/usr/share/unicode/'
N = 0x110000


def lines(fn, miss=False):
    with open(DIR + fn, encoding='utf-8') as f:
        for l in f:
            if miss and l.startswith('# @missing:'): yield '@' + l[len('# @missing:'):].strip(); continue
            l = l.split('#', 1)[0].strip()
            if l: yield l


def rng(s):
    a, _, b = s.strip().partition('..')
    return int(a, 16), int(b or a, 16)


def ranges(fn):
    """(first, last, [fields])"""
    for l in lines(fn):
        f = [x.strip() for x in l.split(';')]
        if not re.match(r'[0-9A-F]{4,6}', f[0]): continue
        a, b = rng(f[0])
        yield a, b, f[1:]


def table(fn, default, col=0):
    t = [default] * N
    for a, b, f in ranges(fn): t[a:b + 1] = [f[col]] * (b - a + 1)
    return t


def fset(fn, name):
    s = bytearray(N)
    for a, b, f in ranges(fn):
        if f[0] == name: s[a:b + 1] = b'\1' * (b - a + 1)
    return s


C = functools.lru_cache(None)


@C
def aliases(prop):
    """short -> long and long -> long for one property of PropertyValueAliases"""
    d = {}
    for l in lines('PropertyValueAliases.txt'):
        f = [x.strip() for x in l.split(';')]
        if f[0] == prop:
            if prop == 'ccc': names, long = [f[1], f[2], f[3]], f[3]
            else: names, long = f[1:], f[2]
            for n in names: d[n] = long
    return d


@C
def gcb(): return table('auxiliary/GraphemeBreakProperty.txt', 'Other')


@C
def wb(): return table('auxiliary/WordBreakProperty.txt', 'Other')


@C
def script(): return table('Scripts.txt', 'Unknown')


@C
def age(): return table('DerivedAge.txt', None)


@C
def block(): return table('Blocks.txt', None)


@C
def emoji(name): return fset('emoji/emoji-data.txt', name)


@C
def core(name): return fset('DerivedCoreProperties.txt', name)


@C
def incb():
    t = ['None'] * N
    for a, b, f in ranges('DerivedCoreProperties.txt'):
        if f[0] == 'InCB': t[a:b + 1] = [f[1]] * (b - a + 1)
    return t


@C
def insc(): return table('IndicSyllabicCategory.txt', 'Other')


@C
def eaw_file():
    """values as listed in the data lines; None when not listed"""
    return table('EastAsianWidth.txt', None)


@C
def eaw():
    """with the defaults of the file header (@missing lines / UAX #11)"""
    t = ['N'] * N
    for a, b in ((0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xF900, 0xFAFF), (0x20000, 0x2FFFD), (0x30000, 0x3FFFD)): t[a:b + 1] = ['W'] * (b - a + 1)
    for i, v in enumerate(eaw_file()):
        if v is not None: t[i] = v
    return t


@C
def hst(): return table('HangulSyllableType.txt', 'NA')


class UD:
    __slots__ = ('name', 'gc', 'ccc', 'bidi', 'dtype', 'decomp', 'mirrored', 'upper', 'lower', 'title')


@C
def unicode_data():
    d = {}
    first = None
    for l in open(DIR + 'UnicodeData.txt'):
        f = l.rstrip('\n').split(';')
        cp = int(f[0], 16)
        u = UD(); u.name = f[1]; u.gc = f[2]; u.ccc = int(f[3]); u.bidi = f[4]; u.mirrored = f[9] == 'Y'
        m = re.match(r'(?:<(\w+)> )?(.*)', f[5])
        u.dtype = None; u.decomp = ()
        if f[5]:
            u.dtype = m.group(1) or 'canonical'; u.decomp = tuple(int(x, 16) for x in m.group(2).split())
        u.upper = int(f[12], 16) if f[12] else None
        u.lower = int(f[13], 16) if f[13] else None
        u.title = int(f[14], 16) if f[14] else None
        if f[1].endswith(', First>'): first = (cp, u); d[cp] = u
        elif f[1].endswith(', Last>'):
            for k in range(first[0], cp + 1): d[k] = first[1]
        else: d[cp] = u
    return d


@C
def gc():
    t = ['Cn'] * N
    for k, u in unicode_data().items(): t[k] = u.gc
    return t


@C
def ccc():
    t = bytearray(N)
    for k, u in unicode_data().items(): t[k] = u.ccc
    return t


SB, LB, VB, TB, LC, VC, TC = 0xAC00, 0x1100, 0x1161, 0x11A7, 19, 21, 28
NC = VC * TC
SC = LC * NC


@C
def full_decomp(compat):
    """full (recursive) decomposition of every code point that has one, Hangul excluded; UAX #15"""
    ud = unicode_data(); memo = {}

    def rec(c):
        if c in memo: return memo[c]
        if SB <= c < SB + SC:
            s = c - SB; r = (LB + s // NC, VB + s % NC // TC) + ((TB + s % TC,) if s % TC else ())
        else:
            u = ud.get(c)
            if u is None or not u.decomp or (u.dtype != 'canonical' and not compat): r = (c,)
            else: r = tuple(y for x in u.decomp for y in rec(x))
        memo[c] = r
        return r
    return {c: rec(c) for c, u in ud.items() if u.decomp and (compat or u.dtype == 'canonical')}


@C
def dnp(name):
    """value of a DerivedNormalizationProps property"""
    r = {}
    for a, b, f in ranges('DerivedNormalizationProps.txt'):
        if f[0] == name:
            for k in range(a, b + 1): r[k] = f[1] if len(f) > 1 else 'Y'
    return r


@C
def comp_ex(): return frozenset(dnp('Full_Composition_Exclusion'))


@C
def compositions():
    """primary composites: (a, b) -> c"""
    ex = comp_ex()
    return {u.decomp: c for c, u in unicode_data().items() if u.dtype == 'canonical' and len(u.decomp) == 2 and c not in ex}


def compose_pair(a, b):
    if LB <= a < LB + LC and VB <= b < VB + VC: return SB + ((a - LB) * VC + (b - VB)) * TC
    if SB <= a < SB + SC and (a - SB) % TC == 0 and TB < b < TB + TC: return a + (b - TB)
    return compositions().get((a, b))


def decompose(s, compat):
    t = full_decomp(compat); out = []
    for c in s:
        if SB <= c < SB + SC:
            x = c - SB; out += [LB + x // NC, VB + x % NC // TC] + ([TB + x % TC] if x % TC else [])
        else: out += t.get(c, (c,))
    return out


def canonical_order(s):
    s = list(s); cc = ccc()
    i = 0
    while i < len(s):
        if cc[s[i]] == 0: i += 1; continue
        j = i
        while j < len(s) and cc[s[j]] != 0: j += 1
        s[i:j] = sorted(s[i:j], key=lambda c: cc[c]); i = j
    return s


def compose(s):
    """UAX #15 / core spec D117"""
    cc = ccc(); out = []; starter = -1; last = 0
    for c in s:
        k = cc[c]
        if starter >= 0:
            # c is not blocked from the starter iff nothing lies between, or all in between have 0 < ccc < k
            adj = starter == len(out) - 1
            if adj or (cc[out[-1]] != 0 and cc[out[-1]] < k):
                p = compose_pair(out[starter], c)
                if p is not None: out[starter] = p; continue
        out.append(c)
        if k == 0: starter = len(out) - 1
    return out


def normalize(s, form):
    r = canonical_order(decompose(s, 'K' in form))
    return compose(r) if form in ('NFC', 'NFKC') else r


@C
def casefold():
    simple, full = {}, {}
    for l in lines('CaseFolding.txt'):
        f = [x.strip() for x in l.split(';')]
        c = int(f[0], 16); m = tuple(int(x, 16) for x in f[2].split())
        if f[1] in 'CS': simple[c] = m[0]
        if f[1] in 'CF': full[c] = m
    return simple, full


@C
def special_casing():
    """unconditional full mappings: (lower, title, upper)"""
    lo, ti, up = {}, {}, {}
    for l in lines('SpecialCasing.txt'):
        f = [x.strip() for x in l.split(';')]
        if len(f) > 5 and f[4]: continue
        c = int(f[0], 16)
        lo[c], ti[c], up[c] = (tuple(int(x, 16) for x in f[k].split()) for k in (1, 2, 3))
    return lo, ti, up


@C
def emoji_vs_bases():
    return frozenset(int(l.split()[0], 16) for l in lines('emoji/emoji-variation-sequences.txt'))


@C
def script_ext():
    t = {}
    for a, b, f in ranges('ScriptExtensions.txt'):
        for k in range(a, b + 1): t[k] = f[0].split()
    return t


@C
def mirror():
    return {int(l.split(';')[0], 16): int(l.split(';')[1], 16) for l in lines('BidiMirroring.txt')}
