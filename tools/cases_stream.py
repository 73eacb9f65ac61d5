"""Streams and block modes: S01..S05."""
from cases import far, GEN, INFO, REFS
T = "chacha salsa20 rc4 keccak1600 keccak800 skein256 skein512 skein1024 cbc cfb ctr ecb ofb".split()
ID = {n: i for i, n in enumerate(T)}
MODES = T[8:]
# n: a length crossing several block borders; k, i: key and IV lengths used where they do not matter
BL = dict(chacha=64, salsa20=64, rc4=8, keccak1600=168, keccak800=68, skein256=32, skein512=64, skein1024=128, cbc=8, cfb=8, ctr=8, ecb=8, ofb=8)
KEY = dict(chacha=32, salsa20=32, rc4=5, keccak1600=16, keccak800=16, skein256=32, skein512=64, skein1024=128)
IV = dict(rc4=0, ecb=0)
MAXIV = dict(chacha=24, salsa20=24, rc4=0, keccak1600=48, keccak800=24, skein256=70, skein512=70, skein1024=140)
def opt(n):
    if n == 'keccak1600' or n.startswith('skein'): return ['--nocanon', '--gran', '64', '--symw', '8', '--le']
    if n == 'keccak800': return ['--nocanon', '--gran', '32', '--symw', '4', '--le']
    return ['--nocanon']
def base(n, bs=None):
    p = dict(t=ID[n], k=KEY.get(n, 16), i=IV.get(n, 8))
    if n in MODES: p['bs'] = bs or 8
    return p
def sizes(n, tier): return ([8, 16] if tier == 'quick' else [8, 16, 4, 12, 32]) if n in MODES else [None]
def big(add, tier, what):
    # large inputs. what: 0 pieces (S02), 1 reference (S04), 2 definition (S03), 3 round trip (S01)
    for n in T:
        if what == 1 and n in MODES or what == 2 and n not in MODES: continue
        for bs in ((4, 8, 12, 16, 20, 32, 64) if what == 2 else (8, 16)) if n in MODES else (None,):
            b = bs or BL[n]; sf = '-b%d' % bs if bs else ''; P = dict(base(n, bs), b=b, what=what); o = opt(n)
            if n == 'rc4': P.update(k=16, ck=1)
            if bs and P.get('i', 8) > bs: P['i'] = bs
            if n == 'ctr': P.update(i=b, ci=2 if b <= 16 else 3)
            fs = [0, 1] if n in ('cbc', 'ecb') else [0, 1, 2]
            al = lambda x: x - x % b if n in ('cbc', 'ecb') else x
            def one(nn, pre, f, ip, **x):
                nn = al(nn); pre = max(0, pre)
                if n == 'ctr' and nn > 300: x['ci'] = 3
                add('%s%s-%s%s-n%d%s' % (n, sf, ('enc', 'dec', 'prng')[f], '-ip' if ip else '', nn, '-w%d' % x['w'] if 'w' in x else ''), 'h_big', 'stream_big', dict(P, n=nn, pre=pre, f=f, ip=ip, **x), o, 120, nn / 500)
            for f in fs:
                if what == 3 and f == 2: continue
                for ip in (0, 1):
                    if ip and (f == 2 or what == 1): continue
                    if n == 'rc4': one(700, 690, f, ip)
                    else: one(10 * b + 5, 0, f, ip)
                    if ip == 0 or tier != 'quick': one(4096 + b + 1, 4096 - b, f, ip, **({'w': 9} if what in (0, 3) else {}))
                if what == 1 or tier != 'quick':
                    if f == 0: one(66000, 66000 - b, f, 0, ci=1, ck=1, **({'w': 9} if what in (0, 3) else {}))
def biglen(add):
    for n in T[3:8]:
        b = BL[n]; P = dict(t=ID[n], what=1, n=b + 3, k=KEY[n], i=8)
        for i in (99, 100, 101, 135, 168, 200, 255, 256, 257, 300, 1000): add('%s-iv%d' % (n, i), 'h_big', 'stream_big', dict(P, i=i), opt(n), 60, 3)
        for k in (255, 256, 257, 300, 1000) if n[0] == 's' else (): add('%s-k%d' % (n, k), 'h_big', 'stream_big', dict(P, k=k), opt(n), 60, 3)
        if n[0] == 'k':
            for k in (47, 48, 49) + ((65, 98, 99) if n == 'keccak1600' else ()):
                for f in (0, 1, 2): add('%s-k%d-f%d' % (n, k, f), 'h_big', 'stream_big', dict(P, k=k, f=f, n=60, i=30), opt(n), 60, 3)
def s01(add, tier):
    big(add, tier, 3)
    for n in T:
        for bs in sizes(n, tier):
            b = bs or BL[n]; sf = '-b%d' % bs if bs else ''
            p = base(n, bs); small = n in MODES
            if n in ('cbc', 'ecb'): p['n'] = 4 * b
            elif small: p['n'] = 2 * b + 3
            else: p['n'] = b + 3
            wide = p['n'] > 30 and n not in ('cbc', 'ecb')
            for ip in (0, 1): add('%s%s-%s' % (n, sf, 'inplace' if ip else 'sep'), 'h_stream', 'st_pair', dict(p, ip=ip, one=1 if wide else 0), opt(n), 60, 2)
DR = ('', '-prng', '-dec')
def s02(add, tier):
    big(add, tier, 0)
    for n in T:
        for kd, nm in ((2, 'enc'), (3, 'dec'), (4, 'prng')):
            if kd < 4 or n not in ('cbc', 'ecb'): far(add, '%s-far-%s' % (n, nm), kd, ID[n], opt(n), blk=8 if n in ('cbc', 'ecb') else 0, bs=8)
    for n in T[:8]:
        if n in ('chacha', 'salsa20') or n.startswith('skein'):
            for th in (0, 2):
                for dr in (0, 1, 2): add('%s-far%d%s' % (n, th, DR[dr]), 'h_poke', 'poke', dict(kd=1, i=ID[n], b=BL[n], th=th, dr=dr, sp=1), opt(n), 60, 2)
    for n in T:
        for bs in sizes(n, tier):
            b = bs or BL[n]; sf = '-b%d' % bs if bs else ''
            p = base(n, bs)
            p['n'] = 4 * b if n in ('cbc', 'ecb') else 2 * b + 3 if n in MODES else b + 3 if b > 16 else 20
            m = 2 if p['n'] <= 24 or n in ('cbc', 'ecb') else 1
            if n not in MODES and m == 1: p['n'] = 2 * b + 1
            for f, nm in enumerate(('enc', 'dec', 'prng')):
                if f == 2 and n in ('cbc', 'ecb'): continue
                for ip in ((0, 1) if f < 2 else (0,)): add('%s%s-%s%s' % (n, sf, nm, '-inplace' if ip else ''), 'h_stream', 'st_split', dict(p, f=f, ip=ip, m=m), opt(n), 60, 2)
            if n not in ('cbc', 'ecb'): add('%s%s-mixed' % (n, sf), 'h_stream', 'st_prng', dict(p, m=m, **({'n': b + 3} if n == 'skein1024' else {})), opt(n), 60, 2)
def s03(add, tier):
    big(add, tier, 2)
    for n in MODES:
        for bs in ((8, 16, 12, 20, 32) if tier == 'quick' else (1, 2, 4, 8, 12, 16, 20, 24, 32, 64)):
            nn = 3 * bs if n in ('cbc', 'ecb') else 3 * bs - 1
            for dec in (0, 1): add('%s-b%d-%s' % (n, bs, 'dec' if dec else 'enc'), 'h_stream', 'mode_spec', dict(t=ID[n], bs=bs, k=16, n=nn, dec=dec, i=-1), ['--nocanon'], 60, 2)
            if n == 'ctr':
                for pr in (0, 1): add('ctr-b%d-carry%s' % (bs, '-prng' if pr else ''), 'h_stream', 'ctr_carry', dict(bs=bs, prng=pr), ['--nocanon'], 60, 2)
        for k, r in ((1, 0), (64, 7), (16, 3)):
            for dec in (0, 1): add('%s-k%d-r%d-%s' % (n, k, r, 'dec' if dec else 'enc'), 'h_stream', 'mode_spec', dict(t=ID[n], bs=8, k=k, r=r, n=16, dec=dec, i=0 if n == 'ecb' else 5), ['--nocanon'], 60, 1)
def s04(add, tier):
    biglen(add)
    big(add, tier, 1)
    for n in T[:8]:
        b = BL[n]; o = opt(n); k = KEY[n]
        if n == 'rc4':
            for kk in (1, 2, 5, 16, 32, 255, 256): add('rc4-k%d' % kk, 'h_sgold', 'st_golden', dict(t=2, k=kk, i=0, n=12), o, 60, 1)
            add('rc4-long', 'h_sgold', 'st_golden', dict(t=2, k=16, i=0, n=300, ck=1), o, 60, 1)
            continue
        w = 24 if n[0] == 's' and n != 'salsa20' else 300
        for lo in range(0, MAXIV[n] + 1, w): add('%s-iv%d..' % (n, lo), 'h_sgold', 'st_golden', dict(t=ID[n], k=k, ilo=lo, i=-min(MAXIV[n], lo + w - 1), n=2 * b + 1 if b < 100 else b + 3), o, 60, 3)
        mk = {'chacha': 32, 'salsa20': 32, 'keccak1600': 99, 'keccak800': 49}.get(n, 2 * b + 3)
        for lo in range(1, mk + 1, w): add('%s-key%d..' % (n, lo), 'h_sgold', 'st_golden', dict(t=ID[n], klo=lo, k=-min(mk, lo + w - 1), i=8, n=9), o, 60, 3)
        for r in {'c': (8, 12, 7, 1), 's': (8, 16), 'k': (3, 12)}[n[0]]: add('%s-r%d' % (n, r), 'h_sgold', 'st_golden', dict(t=ID[n], k=k, i=8 if n[0] != 'c' else 12, r=r, n=b + 1), o, 60, 1)
        if n.startswith('skein'):
            for th in (0, 1, 2):
                for dr in (0, 1, 2): add('%s-far%d%s' % (n, th, DR[dr]), 'h_poke', 'poke', dict(kd=1, i=ID[n], b=b, th=th, dr=dr, plain=1), o, 60, 2)
        if n in ('chacha', 'salsa20'):
            for th in (0, 1, 2):
                for dr in (1, 2): add('%s-far%d%s' % (n, th, DR[dr]), 'h_poke', 'poke', dict(kd=1, i=ID[n], b=b, k=16, th=th, dr=dr, plain=1), o, 60, 2)
            for th in (0, 1, 2): add('%s-far%d' % (n, th), 'h_poke', 'poke', dict(kd=1, i=ID[n], b=b, k=16, th=th, plain=1), o, 60, 2)
            for i in (12, 16, 24): add('%s-iv%d-r8' % (n, i), 'h_sgold', 'st_golden', dict(t=ID[n], k=k, i=i, r=8, n=b + 1), o, 60, 1)
def s05(add, tier):
    for n in T:
        for bs in sizes(n, tier):
            b = bs or BL[n]; sf = '-b%d' % bs if bs else ''; o = opt(n)
            p = base(n, bs); i = p['i']; k = p['k']; nn = 2 * b
            if n in ('keccak1600', 'skein1024'):
                add('%s-pos' % n, 'h_stream', 'st_recreate', dict(p, k1=k, i1=i, n1=-20, n=9), o, 60, 3)
                for n1 in (b - 1, b, b + 1): add('%s-pos%d' % (n, n1), 'h_stream', 'st_recreate', dict(p, k1=k, i1=i, n1=n1, n=b + 2), o, 60, 3)
            else: add('%s%s-pos' % (n, sf), 'h_stream', 'st_recreate', dict(p, k1=k, i1=i, n1=-(b + 1 if b < 20 else b) if n not in ('cbc', 'ecb') else -2 * b, n=nn if b <= 64 else b + 2), o, 60, 3)
            mi = {'rc4': 0, 'ecb': 0}.get(n, b if n in MODES else MAXIV[n])
            for (k1, i1, r1, k2, i2, r2) in dict.fromkeys(((5, mi, 0, k, i, 0), (k, i, 0, 3, mi, 0), (k, mi, 0, k, 0, 0), (k, 0, 0, k, mi, 0), (k, i, 8, k, i, 16), (k, i, 16, k, mi, 8), (k, i, 0, k, i, 8), (k, i, 8, k, i, 0)) + (((99, i, 0, k, i, 0), (k, i, 0, 99, i, 0), (16, 170, 0, 17, 3, 0)) if n == 'keccak1600' else ((49, i, 0, k, i, 0), (k, i, 0, 49, i, 0), (16, 70, 0, 17, 3, 0)) if n == 'keccak800' else ((300, 5, 0, k, i, 0), (k, 5, 0, 257, 300, 0)) if n[0] == 's' and n != 'salsa20' else ())):
                add('%s%s-k%d-i%d-r%d-to-k%d-i%d-r%d' % (n, sf, k1, i1, r1, k2, i2, r2), 'h_stream', 'st_recreate', dict(p, k1=k1, i1=i1, r1=r1, k=k2, i=i2, r=r2, n1=3 if n not in ('cbc', 'ecb') else b, n=nn if b <= 64 else 9), o, 60, 1)
        if n in ('chacha', 'salsa20') or n.startswith('skein'):
            for th in (0, 1, 2): add('%s-far%d' % (n, th), 'h_poke', 'poke', dict(kd=1, i=ID[n], b=BL[n], th=th, re=1, plain=1), opt(n), 60, 2)
GEN.update(S01=s01, S02=s02, S03=s03, S04=s04, S05=s05)
REFS['h_big'] = REFS['h_sgold'] = ['goldenall']
