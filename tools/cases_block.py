"""Block ciphers: B01..B04."""
from cases import GEN, INFO
N = "3way aes anubis aria blowfish camellia cast5 crax_s des idea khazad lea noekeon rc2 rc5 rc6 rectangle rijndael128 rijndael256 safer safer_sk saferpp seed serpent shacal2 simon32 simon64 simon128 skipjack sm4 speck32 speck64 speck128 tea threefish256 threefish512 threefish1024 trax_l trax_m twofish xtea gost_cbr gost_r34".split()
ID = {n: i for i, n in enumerate(N)}
# the standard key lengths, most common first
KEYS = dict(zip(N, [[12], [16, 24, 32], [16, 20, 24, 28, 32, 36, 40], [16, 24, 32], [16, 56, 8], [16, 24, 32], [16, 5, 10], [16], [8, 16, 24], [16], [16], [16, 24, 32], [16], [16, 8, 128], [16, 32, 255], [16, 24, 32, 255], [16, 10], [16, 24, 32], [32, 16, 24], [8, 16], [8, 16], [16, 32], [16], [16, 24, 32], [64, 16, 32], [8], [16, 12], [16, 24, 32], [10], [16], [8], [16, 12], [16, 24, 32], [16], [32], [64], [128], [32], [16], [16, 24, 32], [16], [32], [32]]))
MAXK = {n: max(k) for n, k in KEYS.items()}
MAXK.update(rectangle=16)
TW = dict(threefish256=16, threefish512=16, threefish1024=16, trax_l=16, trax_m=8)
OPT = {n: ['--gran', '64', '--symw', '8', '--le'] for n in ('threefish256', 'threefish512', 'threefish1024')}
# other valid round counts, reduced ones first
ROUNDS = {'aes': [4, 12], 'anubis': [5, 13], 'aria': [2, 4, 14], 'blowfish': [4, 18], 'crax_s': [3, 11], 'idea': [2, 9], 'khazad': [3, 7], 'lea': [4, 28], 'noekeon': [3, 17], 'rc5': [5, 16], 'rc6': [5, 21], 'rectangle': [7, 24],
 'rijndael128': [3, 11], 'rijndael256': [5, 15], 'safer': [3, 10], 'safer_sk': [3, 7], 'saferpp': [3, 9], 'seed': [4, 18], 'serpent': [8, 16], 'shacal2': [16, 48], 'simon32': [5, 33], 'simon64': [7, 45], 'simon128': [9, 70], 'sm4': [4, 28],
 'speck32': [5, 23], 'speck64': [7, 28], 'speck128': [9, 33], 'tea': [7, 40], 'threefish256': [8, 80], 'threefish512': [8, 80], 'threefish1024': [8, 88], 'trax_l': [3, 18], 'trax_m': [3, 15], 'twofish': [4, 18], 'xtea': [6, 66], 'gost_cbr': [16, 34], 'gost_r34': [16, 34]}
# every valid round count in a range: first, step, last
RANGE = {'aes': (1, 1, 20), 'anubis': (1, 1, 24), 'aria': (2, 2, 20), 'blowfish': (2, 2, 20), 'crax_s': (1, 1, 24), 'idea': (1, 1, 12), 'khazad': (1, 1, 8), 'lea': (4, 4, 48), 'noekeon': (1, 1, 33), 'rc5': (1, 1, 30), 'rc6': (1, 1, 30), 'rectangle': (1, 1, 25),
 'rijndael128': (1, 1, 20), 'rijndael256': (1, 1, 20), 'safer': (1, 1, 16), 'safer_sk': (1, 1, 16), 'saferpp': (1, 1, 14), 'seed': (1, 1, 32), 'serpent': (8, 8, 48), 'shacal2': (16, 16, 112), 'simon32': (4, 1, 40), 'simon64': (4, 1, 50), 'simon128': (2, 1, 80), 'sm4': (4, 4, 32),
 'speck32': (1, 1, 30), 'speck64': (1, 1, 34), 'speck128': (1, 1, 40), 'tea': (1, 1, 70), 'threefish256': (8, 8, 96), 'threefish512': (8, 8, 96), 'threefish1024': (8, 8, 96), 'trax_l': (1, 1, 20), 'trax_m': (1, 1, 20), 'twofish': (2, 2, 24), 'xtea': (2, 2, 80), 'gost_cbr': (16, 2, 40), 'gost_r34': (16, 2, 40)}
# ciphers without an upper limit on the rounds: some high counts too
HIGH = {n: (99, 130, 200, 257) for n in ('rc5', 'rc6', 'seed', 'simon32', 'simon64', 'simon128', 'speck32', 'speck64', 'speck128', 'tea', 'crax_s', 'trax_m')}
HIGH.update(aes=(48,), rijndael128=(48,), rijndael256=(48,), trax_l=(99, 130), xtea=(98, 130, 256), twofish=(98, 130), gost_cbr=(98, 130), gost_r34=(98, 130), aria=(98, 130), threefish256=(200, 264), threefish512=(200, 264), threefish1024=(200, 264), lea=(100, 132), shacal2=(), serpent=(96,), idea=())
def ranges(n, st):
    a, s, b = RANGE[n]
    for lo in range(a, b + 1, s * st): yield lo, s, (min(b, lo + s * (st - 1)) - lo) // s + 1
def lens(n, tier):
    m = MAXK[n]
    if tier == 'thorough' and m <= 64: return list(range(1, m + 1))
    s = set(KEYS[n]) | {1, m, max(1, m - 1), (m + 1) // 2 + 1, min(m, 5)}
    if tier == 'thorough': s |= {2, 3, 7, 31, 33, 64, 100}
    return sorted(x for x in s if 1 <= x <= m)
SLOW = {'speck32-de-r8', 'rectangle-k1', 'safer_sk-k1', 'speck128-k1', 'trax_l-k1', 'trax_l-k5', 'trax_m-k1', 'trax_m-k5'}
def b01(add0, tier):
    def add(n, *a): # what needs more than the quick budget runs in the thorough tier
        if tier != 'quick' or n not in SLOW: add0(n, *a)
    hard = {'3way', 'aria', 'idea', 'serpent'}
    for n in N:
        k = KEYS[n][0]; o = OPT.get(n, [])
        if n in hard:
            for d in (1, 2): add('%s-pair-%d' % (n, d), 'h_bgold', 'b_golden', dict(c=ID[n], k=k, dir=d, rt=1), o, 60, 3)
            if n == 'aria': add('aria-r2', 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, r=2, dir=3), o, 60, 5)
            if n == 'idea': add('idea-zerokey', 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, ck=1, dir=3), o, 60, 5)
            if n == 'serpent': add('serpent-r8', 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, r=8, dir=1), o, 40, 9)
            continue
        if n == 'speck32':
            add('speck32-ed', 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, dir=1), o, 60, 2)
            add('speck32-de-fixedkey', 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, dir=2, ck=3), o, 60, 2)
            add('speck32-de-r8', 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, dir=2, r=8), o, 60, 2)
            continue
        add(n, 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, dir=3), o, 120, 30 if n == 'des' else 8 if n == 'blowfish' else 2)
        if n in TW: add(n + '-tweak', 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, dir=3, t=TW[n]), o, 60, 2)
        for r in HIGH.get(n, ()): add('%s-r%d-high' % (n, r), 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, r=r, dir=3), o, 40, 2)
        if n in RANGE and n not in ('blowfish',):
            for lo, st, rn in ranges(n, 8):
                if n == 'noekeon' and lo > 9: continue
                add('%s-r%d..' % (n, lo), 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, rlo=lo, rst=st, rn=rn, dir=1), o, 40, 2)
        if n in ('des', 'blowfish'): continue
        for k2 in (lens(n, tier) if tier == 'thorough' else [x for x in lens(n, tier) if x in (KEYS[n][1:] + [1, 5])]):
            if k2 != k: add('%s-k%d' % (n, k2), 'h_block', 'b_roundtrip', dict(c=ID[n], k=k2, dir=3), o, 60, 1)
        for r in ROUNDS.get(n, []):
            add('%s-r%d' % (n, r), 'h_block', 'b_roundtrip', dict(c=ID[n], k=k, r=r, dir=3), o, 60, 1)
def b02(add, tier):
    for n in N:
        o = OPT.get(n, []) + ['--nocanon']
        for k in lens(n, tier):
            add('%s-k%d' % (n, k), 'h_bgold', 'b_golden', dict(c=ID[n], k=k, dir=3), o, 60, 2 if n in ('blowfish', 'serpent', 'aria', 'rc6', 'rc5') else 1)
        if MAXK[n] > 1 and not (tier == 'thorough' and MAXK[n] <= 64): # every key length, in groups
            st = 4 if n in ('serpent', 'aria') else 8
            for lo in range(1, MAXK[n] + 1, st): add('%s-k%d..' % (n, lo), 'h_bgold', 'b_golden', dict(c=ID[n], klo=lo, k=min(MAXK[n], lo + st - 1), r=4 if n == 'blowfish' else 0, dir=1), o, 60, 2)
        for r in ROUNDS.get(n, []): add('%s-r%d' % (n, r), 'h_bgold', 'b_golden', dict(c=ID[n], k=KEYS[n][0], r=r, dir=3), o, 60, 1)
        for r in ROUNDS.get(n, []): # other round counts together with other key lengths
            for k in {m for m in (1, MAXK[n] // 2, MAXK[n] - 1, MAXK[n]) if m} - {KEYS[n][0]}:
                if n != 'blowfish' or r == 4 and k == MAXK[n]: add('%s-k%d-r%d' % (n, k, r), 'h_bgold', 'b_golden', dict(c=ID[n], k=k, r=r, dir=1), o, 60, 1)
        if n in RANGE:
            for r in HIGH.get(n, ()): add('%s-r%d-high' % (n, r), 'h_bgold', 'b_golden', dict(c=ID[n], k=KEYS[n][0], r=r, dir=3), o, 60, 1)
            for lo, st, rn in ranges(n, 8 if n != 'blowfish' else 1):
                if n == 'blowfish' and tier == 'quick' and lo not in (2, 6): continue
                add('%s-r%d..' % (n, lo), 'h_bgold', 'b_golden', dict(c=ID[n], k=KEYS[n][0], rlo=lo, rst=st, rn=rn, dir=3), o, 60, 2)
        if n in TW:
            for t in (TW[n], 5): add('%s-tweak%d' % (n, t), 'h_bgold', 'b_golden', dict(c=ID[n], k=KEYS[n][0], t=t, dir=3), o, 60, 1)
def b03(add, tier):
    for n in N:
        o = OPT.get(n, []) + ['--nocanon']; k = KEYS[n][0]; m = MAXK[n]; lv = 1 if n.startswith('gost') else 0
        R = [0] + ROUNDS.get(n, [])
        combos = [(k, k, 0, 0), (m, 1, 0, 0), (1, m, 0, 0)] + [(m, kk, 0, 0) for kk in KEYS[n][1:2]]
        for r in R[1:]: combos += [(k, k, 0, r), (k, k, r, 0), (m, min(5, m), r, r)]
        if tier == 'thorough': combos += [(a, b, r1, r2) for a in KEYS[n][:2] for b in KEYS[n] for r1 in R for r2 in R]
        if n == 'blowfish': combos = [(16, 56, 0, 4), (56, 16, 4, 4), (5, 16, 6, 4), (16, 16, 4, 0)]
        for (a, b, r1, r2) in sorted(set(combos)):
            ck = 1 if n == 'blowfish' else 0
            add('%s-k%d-k%d-r%d-r%d' % (n, a, b, r1, r2), 'h_block', 'b_recreate', dict(c=ID[n], k1=a, k2=b, r1=r1, r2=r2, t=TW.get(n, 0), live=lv, ck=ck), o, 60, 5 if n in ('blowfish', 'aria', 'serpent', 'idea') else 1)
def b04(add, tier):
    for n in N:
        o = OPT.get(n, []) + ['--nocanon']
        add(n, 'h_block', 'b_alias', dict(c=ID[n], k=KEYS[n][0], t=TW.get(n, 0), r=4 if n == 'blowfish' else 0), o, 60, 1)
        for r in ROUNDS.get(n, []): add('%s-r%d' % (n, r), 'h_block', 'b_alias', dict(c=ID[n], k=KEYS[n][0], r=r), o, 60, 1)
        if n == 'blowfish': continue
        for r in HIGH.get(n, ()): add('%s-r%d-high' % (n, r), 'h_block', 'b_alias', dict(c=ID[n], k=KEYS[n][0], r=r), o, 60, 1)
        if n in RANGE or n == '3way':
            for lo, st, rn in ranges(n, 8) if n in RANGE else ((1, 1, 5), (6, 1, 6)): add('%s-r%d..' % (n, lo), 'h_block', 'b_alias', dict(c=ID[n], k=KEYS[n][0], rlo=lo, rst=st, rn=rn), o, 60, 1)
GEN.update(B01=b01, B02=b02, B03=b03, B04=b04)
