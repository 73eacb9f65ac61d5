"""MACs: M01..M03."""
from cases import far, GEN, INFO, REFS
M = 'hmac omac xcbc keccak1600 keccak800 skein256 skein512 skein1024'.split()
ID = {n: i for i, n in enumerate(M)}
BL = dict(skein256=32, skein512=64, skein1024=128)
TAG = dict(keccak1600=[32, 20, 64, 99, 1], keccak800=[20, 32, 49, 1], skein256=[32, 16, 1], skein512=[64, 20], skein1024=[128, 20])
RND = dict(keccak1600=[3, 12], keccak800=[3], skein256=[8, 80], skein512=[8, 80], skein1024=[8, 88])
def opt(n):
    if n == 'keccak1600' or n.startswith('skein'): return ['--nocanon', '--gran', '64', '--symw', '8', '--le']
    if n == 'keccak800': return ['--nocanon', '--gran', '32', '--symw', '4', '--le']
    return ['--nocanon']
def rate(n, t): return {'keccak1600': 200 - 2 * t, 'keccak800': 100 - 2 * t}.get(n) or BL[n]
def big(add, tier, what):
    # large inputs: what 1 against the definition or the reference (M01), 0 in pieces (M02)
    def one(n, b, P, o):
        s = ('-b%d' % (P.get('hb') or P['bs']) if n in M[:3] else '') + ('-o%d' % P['ho'] if 'ho' in P else '') + ('-k%d' % P['k'])
        for nn in (10 * b + 5, 10 * b) if b < 400 else (): add('%s%s-n%d' % (n, s, nn), 'h_big', 'mac_big', dict(P, n=nn), o, 90, 3)
        for nn in (255, 256, 257) if what else (257,): add('%s%s-n%d' % (n, s, nn), 'h_big', 'mac_big', dict(P, n=nn), o, 60, 2)
        nn = 4096 + b + 1; add('%s%s-n%d' % (n, s, nn), 'h_big', 'mac_big', dict(P, n=nn, pre=4096 - b), o, 90, 5)
        if n in M[3:]: add('%s%s-n66000' % (n, s), 'h_big', 'mac_big', dict(P, n=66000, pre=66000 - b, ck=1, w=9), o, 120, 20)
    for hb, ho in ((16, 12), (64, 32), (128, 64), (144, 28)):
        P = dict(m=0, hb=hb, ho=ho, b=hb, t=ho, what=what)
        one('hmac', hb, dict(P, k=16), opt('hmac'))
        if what:
            for k in (255, 256, 257, 300, 511, 512, 513, 1000, 4100): add('hmac-b%d-key%d' % (hb, k), 'h_big', 'mac_big', dict(P, k=k, n=20), opt('hmac'), 60, 2)
    for n in ('omac', 'xcbc'):
        for bs in (8, 16, 32): one(n, bs, dict(m=ID[n], bs=bs, b=bs, t=bs, k=16, what=what), opt(n))
    for n in M[3:]:
        t0 = TAG[n][0]; b = rate(n, t0); P = dict(m=ID[n], b=b, t=t0, what=what)
        one(n, b, dict(P, k=16), opt(n))
        if what:
            for k in (255, 256, 257, 300, 1000, 4100): add('%s-key%d' % (n, k), 'h_big', 'mac_big', dict(P, k=k, n=20), opt(n), 60, 2)
def m01(add, tier):
    big(add, tier, 1)
    q = tier == 'quick'
    # HMAC: key below, at, above the block; tag below, at the hash length; other rounds
    for hb, ho in ((16, 12), (64, 32), (8, 8), (128, 64), (3, 2), (64, 20), (32, 32)) + (() if q else ((128, 128), (144, 28), (136, 32))):
        for k in sorted({1, hb // 2, hb - 1, hb, hb + 1, 2 * hb + 1}):
            for t, r in dict.fromkeys(((ho, 0), (max(1, ho // 2), 0), (1, 0), (ho, 5))):
                if k not in (hb, hb + 1) and (t, r) != (ho, 0): continue
                add('hmac-b%d-o%d-k%d-t%d-r%d' % (hb, ho, k, t, r), 'h_mac', 'mac_spec', dict(m=0, hb=hb, ho=ho, k=k, t=t, r=r, n=-min(2 * hb + 1, 70)), opt('hmac'), 60, 1)
    for n in ('omac', 'xcbc'):
        for bs in (4, 8, 12, 16, 20, 24, 32, 64) + ((128,) if n == 'omac' else ()):
            nm = 3 * bs + 1 if bs <= 32 else bs + 2
            add('%s-b%d' % (n, bs), 'h_mac', 'mac_spec', dict(m=ID[n], bs=bs, k=16, t=bs, n=-nm), opt(n), 60, 3)
            for t, k, r in ((1, 16, 0), (bs // 2, 64, 3), (bs - 1, 1, 0)): add('%s-b%d-t%d-k%d-r%d' % (n, bs, t, k, r), 'h_mac', 'mac_spec', dict(m=ID[n], bs=bs, k=k, t=t, r=r, n=-(bs + 1)), opt(n), 60, 2)
    # every block size the API allows: field polynomial of OMAC, keys of XCBC
    for bs in range(1, 256):
        if bs not in (4, 8, 12, 16, 20, 24, 32, 64, 128): add('omac-b%d' % bs, 'h_mac', 'mac_spec', dict(m=1, bs=bs, k=16, t=bs, n=1), opt('omac'), 60, 1)
    for bs in (1, 2, 3, 5, 7, 33, 63, 65, 100, 127, 128, 129, 207, 255): add('xcbc-b%d' % bs, 'h_mac', 'mac_spec', dict(m=2, bs=bs, k=16, t=bs, n=1), opt('xcbc'), 60, 1)
    for n in M[3:]:
        o = opt(n); t0 = TAG[n][0]; b = rate(n, t0); st = 24
        hi = 2 * b + 2 if q else 3 * b + 2
        for lo in range(0, hi + 1, st): add('%s-len%d..' % (n, lo), 'h_mgold', 'mac_golden', dict(m=ID[n], k=16, nlo=lo, n=-min(hi, lo + st - 1), t=t0), o, 60, 2)
        for lo in range(1, 2 * b + 3, st): add('%s-key%d..' % (n, lo), 'h_mgold', 'mac_golden', dict(m=ID[n], klo=lo, k=-min(2 * b + 2, lo + st - 1), n=5, t=t0), o, 60, 2)
        for t in TAG[n][1:]: add('%s-tag%d' % (n, t), 'h_mgold', 'mac_golden', dict(m=ID[n], k=16, n=rate(n, t), t=t), o, 60, 1)
        for r in RND[n]: add('%s-r%d' % (n, r), 'h_mgold', 'mac_golden', dict(m=ID[n], k=17, n=b + 1, t=t0, r=r), o, 60, 1)
        if n in BL:
            for th in (0, 1, 3): add('%s-far%d' % (n, th), 'h_poke', 'poke', dict(kd=2, i=ID[n], b=BL[n], o=t0, th=th, plain=1), o, 60, 2)
def m02(add, tier):
    big(add, tier, 0)
    for n in M: far(add, n + '-far', 5, ID[n], opt(n), bs=8, hb=16, ho=12); far(add, n + '-farall', 14, ID[n], opt(n), bs=8, hb=16, ho=12)
    for hb, ho in ((16, 12), (64, 32)):
        for c, k in ((0, 16), (1, hb), (2, hb + 1)): add('hmac-b%d-cuts%d' % (hb, c), 'h_mac', 'mac_split', dict(m=0, hb=hb, ho=ho, k=k, t=ho, n=hb + 3 if c < 2 else 20, cuts=c), opt('hmac'), 60, 2)
        for k, t in ((16, ho), (hb + 1, ho // 2)): add('hmac-b%d-verify-t%d' % (hb, t), 'h_mac', 'mac_verify', dict(m=0, hb=hb, ho=ho, k=k, t=t, n=5), opt('hmac'), 60, 2)
    # long tags: every length from 1 to the longest, and tags as long as a block
    for hb, ho in ((128, 64), (128, 128)) if tier == 'quick' else ((128, 64), (128, 128), (136, 100)):
        for t in ((ho, ho - 1) if tier == 'quick' else range(1, ho + 1)): add('hmac-b%d-verify-t%d' % (hb, t), 'h_mac', 'mac_verify', dict(m=0, hb=hb, ho=ho, k=16, t=t, n=3), opt('hmac'), 60, 2)
    for bs in (64, 128): add('omac-b%d-verify' % bs, 'h_mac', 'mac_verify', dict(m=1, bs=bs, k=16, t=bs, n=5), opt('omac'), 60, 2)
    for n in ('omac', 'xcbc'):
        for bs in (4, 8, 16, 32):
            for c in (0, 1, 2): add('%s-b%d-cuts%d' % (n, bs, c), 'h_mac', 'mac_split', dict(m=ID[n], bs=bs, k=16, t=bs, n=[-(3 * bs), 3 * bs, min(2 * bs + 2, 24)][c] if bs < 32 else 2 * bs, cuts=min(c, 1) if bs == 32 else c), opt(n), 60, 3)
            add('%s-b%d-verify' % (n, bs), 'h_mac', 'mac_verify', dict(m=ID[n], bs=bs, k=16, t=bs, n=5), opt(n), 60, 2)
    for n in M[3:]:
        o = opt(n); t0 = TAG[n][0]; b = rate(n, t0)
        tt = min(t0, 8)
        add('%s-bytes' % n, 'h_mac', 'mac_split', dict(m=ID[n], k=16, t=t0, n=2 * b if b < 100 else b + 3, cuts=0), o, 60, 3)
        add('%s-full' % n, 'h_mac', 'mac_split', dict(m=ID[n], k=16, t=1, n=b, cuts=1), o, 60, 3)
        add('%s-cut1' % n, 'h_mac', 'mac_split', dict(m=ID[n], k=16, t=1, n=2 * b + 1 if b < 100 else b + 3, cuts=1), o, 60, 3)
        add('%s-key' % n, 'h_mac', 'mac_split', dict(m=ID[n], k=b, t=1, n=b + 1, cuts=1), o, 60, 3)
        add('%s-cut2' % n, 'h_mac', 'mac_split', dict(m=ID[n], k=b - 5, t=1, n=12, cuts=2), o, 60, 3)
        add('%s-verify' % n, 'h_mac', 'mac_verify', dict(m=ID[n], k=16, t=tt, n=5, ck=1), o, 60, 3)
        add('%s-verify-full' % n, 'h_mac', 'mac_verify', dict(m=ID[n], k=16, t=min(t0, 64) if tier == 'quick' else t0, n=b, ck=1), o, 60, 3)
def m03(add, tier):
    for hb, ho in ((16, 12), (64, 32)):
        for i, (k1, r1, t1, k, r, t) in enumerate(((16, 0, ho, 5, 0, ho), (5, 0, ho, hb, 0, ho), (hb + 1, 0, ho, 3, 0, ho), (3, 0, ho, hb + 7, 0, ho), (hb, 2, ho, hb, 5, ho), (hb, 0, ho, hb, 0, 5), (hb + 1, 3, 4, hb + 1, 0, ho), (300, 0, ho, 16, 0, ho), (16, 0, ho, 257, 0, ho))):
            add('hmac-b%d-%d' % (hb, i), 'h_mac', 'mac_recreate', dict(m=0, hb=hb, ho=ho, k1=k1, r1=r1, t1=t1, k=k, r=r, t=t, n1=-4, n=-3, twice=1), opt('hmac'), 60, 2)
    for n in ('omac', 'xcbc'):
        for bs in (4, 8, 16, 32):
            for i, (k1, r1, k, r) in enumerate(((16, 0, 16, 0), (5, 0, 33, 0), (64, 0, 1, 0), (16, 3, 16, 7), (16, 0, 16, 2))):
                add('%s-b%d-%d' % (n, bs, i), 'h_mac', 'mac_recreate', dict(m=ID[n], bs=bs, k1=k1, r1=r1, t1=bs, k=k, r=r, t=bs, n1=-(bs + 1) if i == 0 else bs + 1, n=bs + 1 if i == 0 else -(bs + 1), twice=1), opt(n), 60, 2)
    for n in M[3:]:
        o = opt(n); t0 = TAG[n][0]; b = rate(n, t0)
        add('%s-pos' % n, 'h_mac', 'mac_recreate', dict(m=ID[n], k1=16, t1=t0, k=16, t=t0, n1=-min(b + 1, 40 if b < 128 else 12), n=3, twice=1), o, 60, 3)
        for i, n1 in enumerate((b - 1, b, b + 1)): add('%s-pos%d' % (n, n1), 'h_mac', 'mac_recreate', dict(m=ID[n], k1=16, t1=t0, k=16, t=t0, n1=n1, n=b), o, 60, 3)
        for k1, k in ((5, b + 3), (b + 3, 5), (b, 16), (300, 16), (16, 300)): add('%s-k%d-to-%d' % (n, k1, k), 'h_mac', 'mac_recreate', dict(m=ID[n], k1=k1, t1=t0, k=k, t=t0, n1=4, n=5), o, 60, 1)
        for t in TAG[n][1:]:
            add('%s-t%d-to-%d' % (n, t, t0), 'h_mac', 'mac_recreate', dict(m=ID[n], k1=16, t1=t, k=16, t=t0, n1=4, n=b), o, 60, 1)
            add('%s-t%d-to-%d' % (n, t0, t), 'h_mac', 'mac_recreate', dict(m=ID[n], k1=16, t1=t0, k=16, t=t, n1=4, n=rate(n, t) + 1 if rate(n, t) < 150 else 5), o, 60, 1)
        for r in RND[n]:
            add('%s-r%d-r0' % (n, r), 'h_mac', 'mac_recreate', dict(m=ID[n], k1=16, t1=t0, k=16, t=t0, n1=4, n=5, r1=r), o, 60, 1)
            add('%s-r0-r%d' % (n, r), 'h_mac', 'mac_recreate', dict(m=ID[n], k1=16, t1=t0, k=16, t=t0, n1=4, n=5, r=r), o, 60, 1)
GEN.update(M01=m01, M02=m02, M03=m03)
REFS['h_big'] = REFS['h_mgold'] = ['goldenall']
