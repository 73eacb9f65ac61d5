"""Key derivation: K01, K02."""
from cases import far, GEN, INFO, REFS
O = ['--nocanon']
OS = ['--nocanon', '--gran', '32', '--symw', '4', '--le']
def k01(add, tier):
    for mt in (1, 8, 20, 32, 64) + (() if tier == 'quick' else (16, 99, 128)):
        b = dict(mt=mt, it=2)
        add('t%d-out' % mt, 'h_kdf', 'pbkdf2_spec', dict(b, o=-(3 * mt + 1)), O, 60, 2)
        for it in (1, 2, 3, 5, 10): add('t%d-it%d' % (mt, it), 'h_kdf', 'pbkdf2_spec', dict(b, it=it, o=2 * mt + 1), O, 60, 2)
        add('t%d-pass' % mt, 'h_kdf', 'pbkdf2_spec', dict(b, p=-70, o=mt + 1), O, 60, 2)
        add('t%d-salt' % mt, 'h_kdf', 'pbkdf2_spec', dict(b, s=-70, o=mt + 1), O, 60, 2)
        for mr in (1, 7): add('t%d-r%d' % (mt, mr), 'h_kdf', 'pbkdf2_spec', dict(b, mr=mr, o=mt + 3), O, 60, 1)
        add('t%d-move' % mt, 'h_kdf', 'pbkdf2_spec', dict(b, it=3, o=2 * mt + 1, move=1), O, 60, 1)
        add('t%d-short' % mt, 'h_kdf', 'pbkdf2_spec', dict(b, p=1, s=0, o=1, it=4), O, 60, 1)
    far(add, 'far', 11, 0, O, o=16)
    add('t1-blocks', 'h_kdf', 'pbkdf2_spec', dict(mt=1, it=1, o=300), O, 60, 2)
    add('t1-blocks600', 'h_kdf', 'pbkdf2_spec', dict(mt=1, it=2, o=600), O, 60, 2)
    add('big1', 'h_kdf', 'pbkdf2_big', dict(mt=1, o=66000), O, 200, 40)
    add('big2', 'h_kdf', 'pbkdf2_big', dict(mt=2, o=2400), O, 100, 4)
    for n in (255, 256, 257, 300, 1000):
        for c in 'ps': add('long-%s%d' % (c, n), 'h_kdf', 'pbkdf2_spec', {'mt': 20, 'it': 2, 'o': 45, c: n}, O, 60, 2)
    for n in (256, 1000, 4096, 65535, 65536, 65537): add('it%d' % n, 'h_kdf', 'pbkdf2_spec', dict(mt=2 if n < 5000 else 1, it=n, o=3 if n < 5000 else 1, p=3, s=2), O, 120, 2 + n / 5000)
    add('it300', 'h_kdf', 'pbkdf2_spec', dict(mt=4, it=300, o=5), O, 60, 2)
def k02(add, tier):
    far(add, 'far', 12, 0, OS, o=16)
    for N in (2, 4, 8, 16, 32, 64):
        for r in (1, 2, 4):
            for p in (1, 2, 3):
                if N * r * p > (130 if tier == 'quick' else 768): continue
                add('N%d-r%d-p%d' % (N, r, p), 'h_kdf', 'scrypt_spec', dict(N=N, r=r, pp=p, o=40, mt=32), OS, 90, N * r * p / 10)
    for N, r, pp in ((16, 3, 1), (16, 5, 1), (8, 6, 2), (16, 7, 1), (16, 8, 1), (4, 9, 2), (128, 1, 1), (256, 1, 1), (1024, 1, 1), (2, 1, 20), (2, 33, 1), (4, 17, 2), (2, 2, 16), (1, 1, 33), (1, 36, 1), (2, 130, 1), (1, 257, 1), (1, 1, 257), (2, 2, 65)) + (() if tier == 'quick' else ((64, 8, 1), (256, 2, 1), (32, 3, 4))): add('N%d-r%d-p%d' % (N, r, pp), 'h_kdf', 'scrypt_spec', dict(N=N, r=r, pp=pp, o=40, mt=32), OS, 200, N * r * pp / 10)
    for mt in (20, 64, 128): add('t%d' % mt, 'h_kdf', 'scrypt_spec', dict(N=4, r=1, pp=2, o=mt + 9, mt=mt), OS, 60, 1)
    for n in ('p', 's'): add('len-' + n, 'h_kdf', 'scrypt_spec', {'N': 2, 'r': 1, 'pp': 1, 'o': 8, n: -70}, OS, 90, 3)
    for n in (255, 256, 257, 300, 1000):
        for c in 'ps': add('long-%s%d' % (c, n), 'h_kdf', 'scrypt_spec', {'N': 2, 'r': 1, 'pp': 2, 'o': 45, c: n}, OS, 60, 2)
    for n in (256, 257, 390): add('long-o%d' % n, 'h_kdf', 'scrypt_spec', dict(N=2, r=1, pp=1, o=n), OS, 60, 2)
    for N, r, pp in ((1, 513, 1), (2, 520, 1), (1, 1025, 1), (1, 1, 520), (1, 3, 345)): add('N%d-r%d-p%d' % (N, r, pp), 'h_kdfbig', 'scrypt_spec', dict(N=N, r=r, pp=pp, o=40, mt=32), OS, 200, 90)
    add('sizes', 'h_kdf', 'scrypt_sizes', {}, OS, 60, 3)
    add('len-o', 'h_kdf', 'scrypt_spec', dict(N=2, r=1, pp=1, o=-70), OS, 90, 3)
    for mr in (1, 7): add('mr%d' % mr, 'h_kdf', 'scrypt_spec', dict(N=4, r=2, pp=1, o=8, mr=mr), OS, 60, 1)
    add('N1-r3', 'h_kdf', 'scrypt_spec', dict(N=1, r=3, pp=2, o=8), OS, 60, 1)
GEN.update(K01=k01, K02=k02)
