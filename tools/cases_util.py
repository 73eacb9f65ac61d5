"""U01..U04."""
from cases import far, GEN
O = ['--nocanon']
OU = ['--nocanon', '--ub']
def u01(add, tier):
    bss = sorted(set([1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 136, 144, 200, 253, 254, 255])) if tier == 'quick' else range(1, 256)
    for bs in bss: add('add-%d' % bs, 'h_util', 'pkcs7_add', dict(bs=bs, lo=0, hi=min(2 * bs + 2, 300) if tier == 'quick' else 3 * bs + 2), OU, 60, bs / 30)
    for lo, hi in ((1, 40), (41, 130), (131, 256), (257, 300), (511, 513), (1000, 1030)): add('rem-%d' % lo, 'h_util', 'pkcs7_rem', dict(lo=lo, hi=hi), OU, 60, 2)
    for n in (65535, 65536, 65537, 65790): add('rem-%d' % n, 'h_util', 'pkcs7_big', dict(n=n), OU, 60, 2)
    for bs in (1, 16, 255): 
        for n in (255, 256, 257, 1000, 65535, 65536): add('add-%d-n%d' % (bs, n), 'h_util', 'pkcs7_addbig', dict(n=n, bs=bs), OU, 60, 2)
    for bs in (1, 7, 16, 255):
        for e, l in ((16, 3), (31, 0), (31, 5), (32, 0), (32, 5), (32, -1), (32, -20), (33, 1), (40, 77)): add('far-%d-e%d%+d' % (bs, e, l), 'h_util', 'pkcs7_far', dict(bs=bs, e=e, l=l), OU, 60, 1)
    if tier != 'quick': add('rem-1000', 'h_util', 'pkcs7_rem', dict(lo=301, hi=1000), OU, 300, 5)
def u02(add, tier):
    for lo, hi in ((0, 8), (9, 16), (17, 24), (25, 32), (33, 40), (63, 65), (128, 129), (255, 258)): add('equals-%d' % lo, 'h_util', 'mem_equals', dict(lo=lo, hi=hi), OU, 100, 5)
    for n in (1, 2, 16, 33, 64, 300): add('differ-%d' % n, 'h_util', 'mem_equals1', dict(n=n), OU, 100, n / 30)
    for n in (1000, 4096, 4097, 65535, 65536, 65537): add('equals-big%d' % n, 'h_util', 'mem_equals_big', dict(n=n), OU, 100, 5)
    for n, p, q in ((600, 0, 256), (600, 1, 2), (600, 0, 4), (600, 3, 7), (600, 0, 8), (600, 100, 116), (600, 10, 42), (600, 0, 64), (600, 5, 133), (65600, 0, 65536), (600, 0, 599)): add('cancel%d-%d-%d' % (n, p, q), 'h_util', 'mem_equals_big', dict(n=n, m=1, p=p, q=q), OU, 60, 1)
    far(add, 'equals-far', 9, 0, OU)
    far(add, 'wipe-far', 10, 0, OU)
    add('same', 'h_util', 'mem_same', {}, OU, 60, 2)
    for lo, hi in ((0, 70), (71, 140), (250, 260), (510, 520), (1022, 1026)): add('wipe-%d' % lo, 'h_util', 'mem_wipe', dict(lo=lo, hi=hi), OU, 60, 1)
    add('wipe-70000', 'h_util', 'mem_wipe_big', dict(n=70000), OU, 60, 1)
    if tier != 'quick':
        for lo in range(41, 320, 20): add('equals-%d' % lo, 'h_util', 'mem_equals', dict(lo=lo, hi=lo + 19), OU, 300, 8)
        for n in range(2, 140): 
            if n not in (2, 16, 33, 64): add('differ-%d' % n, 'h_util', 'mem_equals1', dict(n=n), OU, 100, n / 30)
def u03(add, tier):
    for v in ('native', 'portable', 'le'):
        h = 'h_prim_' + v
        for w in (8, 16, 32, 64):
            if v != 'le':
                for g in (0, 1): add('%s-rot-var%d-%d' % (v, w, g), h, 'rot_var', dict(w=w, big=g), OU, 60, 1)
                if v == 'portable' or tier != 'quick' or 1: add('%s-rot-sym%d' % (v, w), h, 'rot_sym', dict(w=w), OU, 100, 3)
                add('%s-rot%d' % (v, w), h, 'rot%d' % w, {}, OU, 60, 1)
        add(v + '-loadstore', h, 'ls', {}, OU, 60, 2)
        for w in (16, 32, 64): add('%s-array%d' % (v, w), h, 'arr%d' % w, {}, OU, 100, 4)
def u04(add, tier):
    add('full', 'h_random', 'rnd', dict(hi=80, src=200), O, 60, 1)
    add('short', 'h_random', 'rnd', dict(short=1, hi=40, src=200), O, 60, 2)
    add('two', 'h_random', 'rnd', dict(short=1, calls=2, hi=12, src=200), O, 60, 4)
    add('three', 'h_random', 'rnd', dict(short=1, calls=3, hi=4, src=200), O, 60, 4)
    add('large', 'h_random', 'rnd', dict(lo=4095, hi=4097, src=5000), O, 60, 2)
    add('large2', 'h_random', 'rnd', dict(lo=255, hi=257, calls=2, src=600), O, 60, 2)
    add('err', 'h_random', 'rnd', dict(hi=12, short=1, err=1, calls=2, src=200), O, 60, 4)
    add('large-short', 'h_random', 'rnd', dict(lo=300, hi=300, short=1, src=600), O, 60, 4)
GEN.update(U01=u01, U02=u02, U03=u03, U04=u04)
