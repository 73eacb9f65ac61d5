"""Authenticated encryption: A01, A02."""
from cases import far, GEN, INFO, REFS
O = ['--nocanon']
def a01(add, tier):
    for bs in (8, 16):
        b = dict(a=0, bs=bs, k=16, t=bs); S = 'eax-b%d' % bs
        for n in (255, 256, 257, 300, 1000): add('%s-h%d' % (S, n), 'h_ae', 'ae_spec', dict(b, i=bs, h=n, n=3), O, 90, 2)
        for n in (5 * bs + 3, 10 * bs, 257, 300) + ((1000,) if bs == 16 else ()): add('%s-n%d' % (S, n), 'h_ae', 'ae_spec', dict(b, i=bs, h=3, n=n, nocarry=1), O, 90, 4)
        for n in (5 * bs + 3,): add('%s-carry%d' % (S, n), 'h_ae', 'ae_spec', dict(b, i=bs, h=3, n=n), O, 90, 4)
    b = dict(a=1, sk=32, mk=64, si=16, mt=16, k=33, t=16); S = 'eax2'
    for n in (255, 256, 257, 300, 1000): add('%s-h%d' % (S, n), 'h_ae', 'ae_spec', dict(b, i=16, h=n, n=3), O, 90, 2); add('%s-n%d' % (S, n), 'h_ae', 'ae_spec', dict(b, i=16, h=3, n=n), O, 90, 2)
    for bs in (8, 16, 4, 12, 20, 32) + (() if tier == 'quick' else (24, 64)):
        b = dict(a=0, bs=bs, k=16, t=bs); S = 'eax-b%d' % bs
        add(S + '-iv', 'h_ae', 'ae_spec', dict(b, i=-bs, h=3, n=bs + 1 if bs < 12 else 3), O, 60, 2)
        add(S + '-len', 'h_ae', 'ae_spec', dict(b, i=bs, h=3, n=-(3 * bs + 1) if bs < 8 else -(2 * bs + 1) if bs < 12 else -(bs + 1) if bs < 20 else bs + 1), O, 60, 3)
        add(S + '-hdr', 'h_ae', 'ae_spec', dict(b, i=bs - 1, h=-(2 * bs + 1) if bs < 20 else -(bs + 2), n=3), O, 60, 3)
        add(S + '-tag', 'h_ae', 'ae_spec', dict(b, i=bs, h=2, n=3, pre=1), O, 60, 2)
        for v in (1, 2): add(S + '-verify%d' % v, 'h_ae', 'ae_spec', dict(b, i=bs, h=2, n=3, pre=1 if bs <= 8 else 0, verify=v), O, 60, 3)
        for k, r in ((1, 0), (64, 5), (16, 3)): add(S + '-k%d-r%d' % (k, r), 'h_ae', 'ae_spec', dict(b, k=k, r=r, i=bs, h=2, n=bs + 1), O, 60, 1)
        add(S + '-t1', 'h_ae', 'ae_spec', dict(b, t=1, i=bs, h=2, n=3), O, 60, 1)
    for j, (sk, mk, si, mt) in enumerate(((32, 64, 16, 16), (8, 64, 24, 12), (32, 6, 0, 20), (16, 16, 8, 8))):
        b = dict(a=1, sk=sk, mk=mk, si=si, mt=mt, k=min(16, sk + mk), t=mt); S = 'eax2-%d' % j
        for mv in (0, 1):
            b['move'] = mv; s = S + ('-move' if mv else '')
            add(s + '-iv', 'h_ae', 'ae_spec', dict(b, i=-si if si else 0, h=3, n=5), O, 60, 2)
            add(s + '-len', 'h_ae', 'ae_spec', dict(b, i=si, h=3, n=-20), O, 60, 3)
            add(s + '-hdr', 'h_ae', 'ae_spec', dict(b, i=si, h=-20, n=3), O, 60, 3)
            for k in sorted({2, 3, sk, sk + 1, min(2 * sk + 1, sk + mk), sk + mk}): add(s + '-k%d' % k, 'h_ae', 'ae_spec', dict(b, k=k, i=si // 2, h=2, n=3), O, 60, 1)
            for t in sorted({1, 2, mt // 2, mt - 1}): add(s + '-t%d' % t, 'h_ae', 'ae_spec', dict(b, t=t, i=si // 2, h=2, n=3, pre=1), O, 60, 1)
            add(s + '-r7', 'h_ae', 'ae_spec', dict(b, r=7, i=si, h=2, n=3), O, 60, 1)
        for v in (1, 2): add(S + '-verify%d' % v, 'h_ae', 'ae_spec', dict(b, i=si, h=2, n=3, verify=v), O, 60, 3)
def a02(add, tier):
    for a in (0, 1):
        for kd, nm in ((6, 'header'), (7, 'enc'), (8, 'dec')): far(add, '%s-far-%s' % (('eax', 'eax2')[a], nm), kd, a, O, there=640 if kd == 6 else 40)
    for ip in (0, 1):
        for dec in (0, 1):
            sf = '-%s%s' % ('dec' if dec else 'enc', '-inplace' if ip else '')
            for bs in (8, 16): add('eax-b%d-pieces%s' % (bs, sf), 'h_ae', 'ae_pieces', dict(a=0, bs=bs, b=bs, k=16, t=bs, i=bs, ip=ip, dec=dec, h=10 * bs + 5, n=10 * bs + 3), O, 90, 5)
            add('eax2-pieces' + sf, 'h_ae', 'ae_pieces', dict(a=1, sk=32, mk=64, si=16, mt=16, b=16, k=33, t=16, i=16, ip=ip, dec=dec, h=300, n=290), O, 90, 5)
    for bs in (8, 16, 4) + (() if tier == 'quick' else (32,)):
        b = dict(a=0, bs=bs, k=16, t=bs, i=bs - 1); S = 'eax-b%d' % bs
        for ip in (0, 1):
            for dec in (0, 1):
                add(S + '-split-%s%s' % ('dec' if dec else 'enc', '-inplace' if ip else ''), 'h_ae', 'ae_split', dict(b, ip=ip, dec=dec, h=bs + 1 if bs <= 8 else 3, n=bs + 2 if bs <= 16 else 4), O, 60, 3)
                add(S + '-splith-%s%s' % ('dec' if dec else 'enc', '-inplace' if ip else ''), 'h_ae', 'ae_split', dict(b, ip=ip, dec=dec, h=bs + 2 if bs < 32 else 5, n=4), O, 60, 3)
        add(S + '-re', 'h_ae', 'ae_recreate', dict(b, k1=16, i1=bs, t1=bs, h1=3, n1=-(bs + 1), n=bs + 2 if bs < 32 else 5), O, 60, 3)
        add(S + '-reh', 'h_ae', 'ae_recreate', dict(b, k1=16, i1=bs, t1=bs, h1=-(bs + 1), n1=3, n=bs + 2 if bs < 32 else 5), O, 60, 3)
        for j, (k1, r1, i1, k, r, i) in enumerate(((5, 0, 0, 33, 0, bs), (64, 0, bs, 1, 0, 0), (16, 3, bs, 16, 7, bs), (16, 7, 2, 16, 0, bs))): add(S + '-re%d' % j, 'h_ae', 'ae_recreate', dict(b, k1=k1, r1=r1, i1=i1, t1=bs, k=k, r=r, i=i, h1=3, n1=bs, n=bs + 1), O, 60, 2)
    for j, (sk, mk, si, mt) in enumerate(((32, 64, 16, 16), (8, 64, 24, 12), (32, 6, 0, 20), (16, 16, 8, 8))):
        for mv in (0, 1):
            b = dict(a=1, sk=sk, mk=mk, si=si, mt=mt, k=min(16, sk + mk), t=mt, i=si, move=mv); S = 'eax2-%d%s' % (j, '-move' if mv else '')
            for ip in (0, 1):
                for dec in (0, 1): add(S + '-split-%s%s' % ('dec' if dec else 'enc', '-inplace' if ip else ''), 'h_ae', 'ae_split', dict(b, ip=ip, dec=dec, h=6, n=8), O, 60, 3)
            for q, (k1, r1, i1, t1, k, r, i, t) in enumerate(((16, 0, si, mt, 16, 0, si, mt), (sk + mk, 0, 0, mt, 2, 0, si, mt), (2, 0, si, mt, sk + mk, 0, 0, mt), (16, 3, si, mt, 16, 7, si, mt), (16, 0, si, mt, 16, 0, si, mt // 2), (16, 0, si, mt // 2, 16, 0, si, mt), (16, 0, si, 1, 16, 2, si, mt - 1), (16, 0, si, mt, 17, 0, si, 1))):
                add(S + '-re%d' % q, 'h_ae', 'ae_recreate', dict(b, k1=k1, r1=r1, i1=i1, t1=t1, k=k, r=r, i=i, t=t, h1=3, n1=-4, n=5), O, 60, 2)
GEN.update(A01=a01, A02=a02)
