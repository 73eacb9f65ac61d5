"""X01..X05."""
from cases import GEN
import cases_block as B
HN = "blake256 blake2b blake2s blake512 keccak1600 keccak800 md5 sha1 sha2_256 sha2_512 sha3 skein1024 skein256 skein512 tiger whirlpool".split()
HOUT = dict(zip(HN, [32, 64, 32, 64, 99, 49, 16, 20, 32, 64, 64, 200, 70, 140, 24, 64]))
HSALT = dict(blake256=16, blake2b=16, blake2s=8, blake512=32, skein1024=140, skein256=40, skein512=70)
HBL = dict(zip(HN, [64, 128, 64, 128, 168, 68, 64, 64, 64, 128, 136, 128, 32, 64, 64, 64]))
W64 = ['--nocanon', '--gran', '64', '--symw', '8', '--le']
W32 = ['--nocanon', '--gran', '32', '--symw', '4', '--le']
TN = "chacha salsa20 rc4 keccak1600 keccak800 skein256 skein512 skein1024 cbc cfb ctr ecb ofb".split()
TK = dict(chacha=32, salsa20=32, rc4=256, keccak1600=99, keccak800=49, skein256=70, skein512=70, skein1024=140)
TI = dict(chacha=24, salsa20=24, rc4=0, keccak1600=200, keccak800=110, skein256=70, skein512=70, skein1024=140)
TB = dict(chacha=64, salsa20=64, rc4=8, keccak1600=168, keccak800=68, skein256=32, skein512=64, skein1024=128)
MN = "hmac omac xcbc keccak1600 keccak800 skein256 skein512 skein1024".split()
MT = dict(keccak1600=99, keccak800=49, skein256=32, skein512=64, skein1024=128)
def o_(n, pre=()):
    b = W64 if n in ('keccak1600', 'sha3', 'threefish256', 'threefish512', 'threefish1024') or n.startswith('skein') else W32 if n == 'keccak800' else ['--nocanon']
    return list(b) + list(pre)
def lives(add, tier, pre, f=0, small=False):
    """the life of every object; pre: executor options; f: allocation failures"""
    q = tier == 'quick'
    def A(n, e, p, o, t=100, c=1): add(n, 'h_x', e, dict(p, f=f) if f else p, o, t, c)
    for n in B.N:
        c = B.ID[n]; m = B.MAXK[n]; o = o_(n, pre); ck = 1 if n in ('blowfish',) else 0
        base = dict(c=c, k=B.KEYS[n][0], k2=min(m, 5), t=B.TW.get(n, 0))
        if n == 'blowfish': base.update(r=4, r2=6, ck=1)
        A(n + '-std', 'x_block', base, o)
        for r in B.ROUNDS.get(n, []):
            A('%s-r%d' % (n, r), 'x_block', dict(base, r=r), o); A('%s-r0-r%d' % (n, r), 'x_block', dict(base, r2=r), o)
        if small: continue
        st = 8 if m <= 64 else 16
        ks = range(1, m + 1, st)
        for lo in ks:
            if m > 130 and q and lo not in (1, 17, 113, 129, 241): continue
            p = dict(base, klo=lo, k=-min(m, lo + st - 1), k2=m if lo == 1 else 1, t=0)
            if n == 'blowfish': p.update(ck=lo)
            A('%s-key%d' % (n, lo), 'x_block', p, o, 100, 5)
        if n in B.TW: A(n + '-tweaks', 'x_block', dict(base, tlo=1, t=-B.TW[n]), o, 100, 5)
    for i, n in enumerate(HN):
        o = o_(n, pre); b = HBL[n]; mo = HOUT[n]
        base = dict(h=i, o=min(mo, 16), o2=min(mo, 20), n=b + 3, n2=b - 1)
        A(n + '-hash', 'x_hash', base, o)
        if n in HSALT: A(n + '-hash-salt', 'x_hash', dict(base, sl=HSALT[n], sl2=3), o)
        if small: continue
        hi = 2 * b + 2
        for lo in range(0, hi, 24): A('%s-hash-len%d' % (n, lo), 'x_hash', dict(base, nlo=lo, n=-min(hi, lo + 23), n2=0), o, 100, 3)
        for lo in range(1, mo + 1, 16): A('%s-hash-out%d' % (n, lo), 'x_hash', dict(base, olo=lo, o=-min(mo, lo + 15), n=5), o, 100, 2)
        if n in HSALT:
            for lo in range(0, HSALT[n] + 1, 16): A('%s-hash-salt%d' % (n, lo), 'x_hash', dict(base, sllo=lo, sl=-min(HSALT[n], lo + 15), n=5, sl2=HSALT[n]), o, 100, 2)
    for i, n in enumerate(TN):
        o = o_(n, pre)
        if i >= 8:
            for bs in (8, 16) + (() if small else (4, 24) if q else (4, 24, 32, 128)):
                mu = 1 if n in ('cfb', 'ofb', 'ctr') else bs
                base = dict(t=i, bs=bs, k=16, i=bs if n != 'ecb' else 0, i2=bs - 1 if n != 'ecb' else 0, n=3 * bs, n2=2 * bs, cut=bs)
                A('%s-b%d' % (n, bs), 'x_stream', base, o)
                A('%s-b%d-r' % (n, bs), 'x_stream', dict(base, r=3, r2=2, k2=64), o)
                if small: continue
                if q and bs == 24: continue
                if n != 'ecb': A('%s-b%d-iv' % (n, bs), 'x_stream', dict(base, i=-bs, n=bs, n2=bs), o)
                if mu == 1: A('%s-b%d-len' % (n, bs), 'x_stream', dict(base, n=-min(2 * bs + 2, 70), cut=3, n2=1), o)
            continue
        b = TB[n]; base = dict(t=i, k=min(16, TK[n]), k2=5, i=min(8, TI[n]), i2=0, n=b + 3, n2=b - 1, cut=3)
        if n == 'rc4': base['ck'] = 1
        A(n + '-stream', 'x_stream', base, o)
        if small: continue
        if n == 'rc4':
            for k in (1, 16, 255, 256): A('rc4-k%d' % k, 'x_stream', dict(base, k=k, n=20), o, 100, 5)
            continue
        hi = 2 * b + 2
        for lo in range(0, hi, 24):
            if q and n == 'skein1024' and lo not in (0, 120, 240): continue
            A('%s-stream-len%d' % (n, lo), 'x_stream', dict(base, nlo=lo, n=-min(hi, lo + 23)), o, 100, 3)
        for lo in range(1, TK[n] + 1, 16): A('%s-stream-key%d' % (n, lo), 'x_stream', dict(base, klo=lo, k=-min(TK[n], lo + 15), n=8), o, 100, 3)
        for lo in range(0, TI[n] + 1, 16): A('%s-stream-iv%d' % (n, lo), 'x_stream', dict(base, ilo=lo, i=-min(TI[n], lo + 15), n=8), o, 100, 3)
        if n in ('chacha', 'salsa20'): A(n + '-stream-r', 'x_stream', dict(base, r=4, r2=9), o)
    for i, n in enumerate(MN):
        o = o_(n, pre)
        if n == 'hmac':
            for hb, ho in ((16, 12), (64, 32)) + (() if small else ((128, 64), (8, 8))):
                base = dict(m=0, hb=hb, ho=ho, k=16, k2=hb + 1, tl=ho, tl2=ho, n=20)
                A('hmac-b%d' % hb, 'x_mac', base, o); A('hmac-b%d-long' % hb, 'x_mac', dict(base, k=hb + 5, k2=3, tl2=ho // 2), o)
                if small: continue
                A('hmac-b%d-key' % hb, 'x_mac', dict(base, klo=1, k=-min(hb + 3, 140), n=3), o, 100, 3)
                A('hmac-b%d-tag' % hb, 'x_mac', dict(base, tllo=1, tl=-ho, n=3), o, 100, 3)
                A('hmac-b%d-len' % hb, 'x_mac', dict(base, n=-(hb + 2)), o, 100, 3)
            continue
        if n in ('omac', 'xcbc'):
            for bs in (8, 16) + (() if small else (4, 24, 32) if q else (4, 24, 32, 64, 128) if n == 'omac' else (4, 24, 32, 64)):
                base = dict(m=i, bs=bs, k=16, k2=64, tl=bs, tl2=bs // 2, n=bs + 3)
                A('%s-b%d' % (n, bs), 'x_mac', base, o); A('%s-b%d-r' % (n, bs), 'x_mac', dict(base, r=3, r2=7), o)
                if small: continue
                A('%s-b%d-tag' % (n, bs), 'x_mac', dict(base, tllo=1, tl=-bs, n=2), o, 100, 2)
                A('%s-b%d-len' % (n, bs), 'x_mac', dict(base, n=-min(2 * bs + 2, 70)), o, 100, 2)
            continue
        t0 = {'keccak1600': 32, 'keccak800': 16}.get(n, MT[n]); b = TB[n]
        base = dict(m=i, k=16, k2=b + 1, tl=t0, tl2=8, n=b + 3, vf=0)
        A(n + '-mac', 'x_mac', base, o)
        if small: continue
        A(n + '-mac-verify', 'x_mac', dict(base, n=3, tl=8, vf=1), o)
        for lo in range(1, MT[n] + 1, 16): A('%s-mac-tag%d' % (n, lo), 'x_mac', dict(base, tllo=lo, tl=-min(MT[n], lo + 15), n=5), o, 100, 2)
        hi = 2 * b + 2
        for lo in range(1, hi, 24):
            if q and n == 'skein1024' and lo not in (1, 121, 241): continue
            A('%s-mac-key%d' % (n, lo), 'x_mac', dict(base, klo=lo, k=-min(hi, lo + 23), n=5, k2=1), o, 100, 2)
        for lo in range(0, hi, 24):
            if q and n == 'skein1024' and lo not in (0, 120, 240): continue
            A('%s-mac-len%d' % (n, lo), 'x_mac', dict(base, nlo=lo, n=-min(hi, lo + 23)), o, 100, 2)
    for a, n in ((0, 'eax'), (1, 'eax2')):
        o = o_(n, pre)
        for bs in (8, 16) + (() if small or a else (4,) if q else (4, 24, 32)):
            base = dict(a=a, bs=bs, k=16, k2=33, i=bs, i2=3, hn=5, n=bs + 3, tl=bs, tl2=3)
            A('%s-%d' % (n, bs), 'x_ae', base, o); A('%s-%d-move' % (n, bs), 'x_ae', dict(base, move=1, r=2, r2=1), o)
            if small or (q and bs != (16 if a else 8)): continue
            for v, hi in (('i', bs), ('hn', 2 * bs + 1), ('n', 2 * bs + 1)): A('%s-%d-%s' % (n, bs, v), 'x_ae', dict(base, **{v: -hi}), o, 100, 3)
            A('%s-%d-tl' % (n, bs), 'x_ae', dict(base, tllo=1, tl=-bs), o, 100, 3)
            A('%s-%d-k' % (n, bs), 'x_ae', dict(base, klo=2, k=-(96 if a else 64)), o, 100, 3)
    for mt in (8, 20, 64):
        A('pbkdf2-%d' % mt, 'x_kdf', dict(mt=mt, o=2 * mt + 1, it=3), o_('x', pre)); A('pbkdf2-%d-move' % mt, 'x_kdf', dict(mt=mt, o=2 * mt + 1, it=3, move=1), o_('x', pre))
        A('scrypt-%d' % mt, 'x_kdf', dict(mt=mt, scrypt=1, o=2 * mt + 1, N=4, r=1, pp=2), W32 + list(pre), 100, 2)
        if small: continue
        A('pbkdf2-%d-o' % mt, 'x_kdf', dict(mt=mt, olo=1, o=-(2 * mt + 2)), o_('x', pre)); A('pbkdf2-%d-s' % mt, 'x_kdf', dict(mt=mt, sn=-40, o=mt), o_('x', pre)); A('pbkdf2-%d-p' % mt, 'x_kdf', dict(mt=mt, pnlo=1, pn=-40, o=mt), o_('x', pre))
        for N, r, pp in ((1, 1, 1), (2, 3, 1), (4, 8, 1), (1, 2, 5)): A('scrypt-%d-N%d-r%d-p%d' % (mt, N, r, pp), 'x_kdf', dict(mt=mt, scrypt=1, o=9, N=N, r=r, pp=pp), W32 + list(pre), 100, 2)
def large(add, tier, pre):
    """long messages, keys, salts, IVs, passwords, headers: past 255 bytes and ten blocks"""
    q = tier == 'quick'
    def A(n, e, p, o, t=100, c=4): add(n, 'h_x', e, p, o, t, c)
    for i, n in enumerate(HN):
        o = o_(n, pre); b = HBL[n]; mo = HOUT[n]
        for nn in dict.fromkeys((max(300, 10 * b + 5), 512) + (() if q else (257, 1025))): A('%s-hash-n%d' % (n, nn), 'x_hash', dict(h=i, o=min(mo, 16), o2=min(mo, 20), n=nn, n2=300), o)
        if n.startswith('skein'): A('%s-hash-salt300' % n, 'x_hash', dict(h=i, o=300, o2=16, n=20, n2=3, sl=300, sl2=257), o)
    for i, n in enumerate(TN):
        o = o_(n, pre)
        if i >= 8:
            for bs in (8, 16):
                nn = 320 + (0 if n in ('cbc', 'ecb') else 3)
                A('%s-b%d-n%d' % (n, bs, nn), 'x_stream', dict(t=i, bs=bs, k=64, i=bs if n != 'ecb' else 0, i2=1 if n != 'ecb' else 0, n=nn, n2=nn + 16, cut=16 * bs), o)
            continue
        b = TB[n]; nn = max(300, 6 * b + 5)
        p = dict(t=i, k=min(16, TK[n]), k2=5, i=min(8, TI[n]), i2=0, n=nn, n2=256, cut=3 * b + 1)
        if n == 'rc4': p['ck'] = 1
        A('%s-stream-n%d' % (n, nn), 'x_stream', p, o)
        if n.startswith('skein'): A('%s-stream-key300' % n, 'x_stream', dict(p, k=300, k2=257, i=300, i2=256, n=20, n2=3, cut=3), o)
        if n.startswith('keccak'): A('%s-stream-iv300' % n, 'x_stream', dict(p, i=300, i2=257, n=20, n2=3, cut=3), o)
    for i, n in enumerate(MN):
        o = o_(n, pre)
        if n == 'hmac':
            for hb, ho in ((64, 32), (128, 64)): A('hmac-b%d-large' % hb, 'x_mac', dict(m=0, hb=hb, ho=ho, k=300, k2=513, tl=ho, tl2=ho, n=300), o)
        elif n in ('omac', 'xcbc'):
            for bs in (8, 16, 128): A('%s-b%d-large' % (n, bs), 'x_mac', dict(m=i, bs=bs, k=16, k2=64, tl=bs, tl2=bs // 2, n=300), o)
        else:
            t0 = {'keccak1600': 32, 'keccak800': 16}.get(n, MT[n])
            A('%s-mac-large' % n, 'x_mac', dict(m=i, k=300, k2=257, tl=t0, tl2=8, n=max(300, 3 * TB[n]), vf=0), o)
    for a, n in ((0, 'eax'), (1, 'eax2')):
        A('%s-large' % n, 'x_ae', dict(a=a, bs=16, k=64, k2=33, i=16, i2=3, hn=300, n=300, tl=16, tl2=3), o_(n, pre))
    for mt in (20, 64):
        A('pbkdf2-%d-out' % mt, 'x_kdf', dict(mt=mt, o=12 * mt + 1, it=2), o_('x', pre)); A('pbkdf2-%d-salt' % mt, 'x_kdf', dict(mt=mt, o=mt + 1, it=2, sn=300, pn=256), o_('x', pre)); A('pbkdf2-%d-pass' % mt, 'x_kdf', dict(mt=mt, o=mt + 1, it=2, sn=257, pn=256), o_('x', pre)); A('pbkdf2-%d-iter' % mt, 'x_kdf', dict(mt=mt, o=5, it=260), o_('x', pre))
        A('scrypt-%d-large' % mt, 'x_kdf', dict(mt=mt, scrypt=1, o=300, N=16, r=2, pp=3, sn=300), W32 + list(pre)); A('scrypt-%d-p' % mt, 'x_kdf', dict(mt=mt, scrypt=1, o=20, N=1, r=1, pp=9), W32 + list(pre))
def x01(add, tier):
    large(add, tier, ['--ub']); lives(add, tier, ['--ub'])
def x02(add, tier):
    large(add, tier, ['--wipe']); lives(add, tier, ['--wipe'], 0, tier == 'quick')
def x03(add, tier):
    lives(add, tier, [], 12, tier == 'quick')
    for c in ('gost_cbr', 'gost_r34'): add(c + '-desc', 'h_x', 'x_gost', dict(c=B.ID[c], f=3), ['--nocanon'], 30, 1)
KB, KH, KT, KM, KA = range(5)
def actor(kind, n):
    """parameters of an actor of h_two.c"""
    if kind == KB: return dict(kind=KB, id=B.ID[n], k=B.KEYS[n][0], k2=min(B.MAXK[n], 5), ck=1 if n == 'blowfish' else 0)
    if kind == KH: return dict(kind=KH, id=HN.index(n), n=HBL[n] + 5, o=min(HOUT[n], 16))
    if kind == KT: return dict(kind=KT, id=TN.index(n), k=16 if TN.index(n) >= 8 else min(16, TK[n]), k2=5, n=24 if TN.index(n) >= 8 else TB[n] + 5, ck=1 if n == 'rc4' else 0)
    if kind == KM: return dict(kind=KM, id=MN.index(n), k=16, k2=5, n=40, o=8)
    return dict(kind=KA, id=n == 'eax2', k=16, k2=9, n=20, o=8)
def x04(add, tier):
    lives(add, tier, ['--global'], 0, True)
    q = tier == 'quick'
    everyone = [(KB, n) for n in B.N] + [(KH, n) for n in HN] + [(KT, n) for n in TN] + [(KM, n) for n in MN] + [(KA, n) for n in ('eax', 'eax2')]
    slow = {'blowfish', 'idea', 'keccak800', 'keccak1600', 'sha3', 'skein1024', 'skein512', 'rc4', 'des', 'rc2', 'threefish1024'}
    for i, (kd, n) in enumerate(everyone):
        a = actor(kd, n)
        def two(nm, other, sched, share=0, c=2):
            p = dict(a, sched=sched, share=share)
            for x, y in other.items(): p[x + 'b'] = y
            o = o_(n)
            if len(o) == 1: o = o_(oth)
            add(nm, 'h_two', 'x_two', p, o + ['--global'], 200, c)
        nm = '%s-%s' % ('bhtma'[kd], n)
        oth = n
        two('two-%s-same' % nm, dict(a), -1 if not q or n not in slow else 0, 1, 5)
        oth = everyone[(i * 7 + 3) % len(everyone)][1]
        two('two-%s-with-%s' % (nm, oth), actor(*everyone[(i * 7 + 3) % len(everyone)]), i % 4)
        if not q:
            for s in range(4):
                oth = everyone[(i + 11 * s + 1) % len(everyone)][1]
                two('two-%s-x%d-%s' % (nm, s, oth), actor(*everyone[(i + 11 * s + 1) % len(everyone)]), s)
GEN.update(X01=x01, X02=x02, X03=x03, X04=x04)
def x05(add, tier):
    for e in 'block hash stream mac over'.split(): add('limits-' + e, 'h_desc', 'd_' + e, {}, ['--nocanon'], 120, 5)
    for bs in ((4, 8, 16, 32) if tier == 'quick' else (1, 2, 3, 4, 5, 8, 12, 16, 24, 32, 48, 64)):
        add('limits-modes-b%d' % bs, 'h_desc', 'd_modes', dict(bs=bs), ['--nocanon'], 60, 1)
        if bs in (8, 16): add('limits-macs-b%d' % bs, 'h_desc', 'd_macs', dict(bs=bs), ['--nocanon'], 60, 1)
        if bs in (8, 16): add('limits-ae-b%d' % bs, 'h_desc', 'd_aes', dict(bs=bs), ['--nocanon'], 60, 1)
GEN['X05'] = x05
