"""Hash functions: H01..H03."""
from cases import far, GEN, INFO, REFS
N = "blake256 blake2b blake2s blake512 keccak1600 keccak800 md5 sha1 sha2_256 sha2_512 sha3 skein1024 skein256 skein512 tiger whirlpool".split()
ID = {n: i for i, n in enumerate(N)}
# output lengths (default first), block size, salt lengths, other rounds
OUT = dict(blake256=[32, 28, 20, 1], blake2b=[64, 48, 32, 1], blake2s=[32, 16, 1], blake512=[64, 48, 33], keccak1600=[32, 28, 48, 64, 99, 1], keccak800=[20, 32, 49, 1], md5=[16, 5], sha1=[20, 7], sha2_256=[32, 28, 20, 29], sha2_512=[64, 48, 32, 49], sha3=[32, 28, 48, 64, 1], skein1024=[128, 32, 1], skein256=[32, 16, 20], skein512=[64, 32, 28], tiger=[24, 20, 16], whirlpool=[64, 20])
BS = dict(blake256=64, blake2b=128, blake2s=64, blake512=128, md5=64, sha1=64, sha2_256=64, sha2_512=128, skein1024=128, skein256=32, skein512=64, tiger=64, whirlpool=64)
SALT = dict(blake256=[16, 5], blake2b=[16, 3], blake2s=[8, 3], blake512=[32, 9], skein1024=[128, 9, 150], skein256=[32, 9, 70], skein512=[64, 9, 100])
RND = dict(blake256=[3, 16], blake2b=[3, 14], blake2s=[3, 12], blake512=[3, 18], keccak1600=[3, 12], keccak800=[3, 11], md5=[], sha1=[], sha2_256=[], sha2_512=[], sha3=[3], skein1024=[8, 88], skein256=[8, 80], skein512=[8, 80], tiger=[4, 5], whirlpool=[3, 9])
def opt(n):
    if n in ('keccak1600', 'sha3') or n.startswith('skein'): return ['--nocanon', '--gran', '64', '--symw', '8', '--le']
    if n == 'keccak800': return ['--nocanon', '--gran', '32', '--symw', '4', '--le']
    return ['--nocanon']
def rate(n, o):
    return {'keccak1600': 200 - 2 * o, 'sha3': 200 - 2 * o, 'keccak800': 100 - 2 * o}.get(n) or BS[n]
def h01(add, tier):
    big(add, tier, 1)
    for n in N:
        o0 = OUT[n][0]; b = rate(n, o0); op = opt(n)
        hi = 2 * b + 2 if tier == 'quick' else 4 * b + 2
        step = 24
        for lo in range(0, hi + 1, step): add('%s-len%d' % (n, lo), 'h_hgold', 'hash_golden', dict(h=ID[n], lo=lo, hi=min(hi, lo + step - 1), o=o0), op, 60, 2)
        for o in OUT[n][1:]:
            b = rate(n, o)
            for lo, hi in ((0, 2), (b - 17, b + 2) if b > 20 else (b - 1, b + 2)): add('%s-out%d-len%d' % (n, o, lo), 'h_hgold', 'hash_golden', dict(h=ID[n], lo=lo, hi=hi, o=o), op, 60, 2)
        for s in SALT.get(n, []): add('%s-salt%d' % (n, s), 'h_hgold', 'hash_golden', dict(h=ID[n], lo=0, hi=2, o=o0, s=s), op, 60, 1)
        for r in RND[n]: add('%s-r%d' % (n, r), 'h_hgold', 'hash_golden', dict(h=ID[n], lo=3, hi=4, o=o0, r=r), op, 60, 1)
        if n.startswith('keccak'): add('%s-long' % n, 'h_hgold', 'hash_golden', dict(h=ID[n], lo=3, hi=3, o=o0, t=2 * b + 3, all=0), op, 60, 1)
        # an output of 512 MiB and more (only its first bytes are read): the length goes into the configuration block
        for o in (0x1FFFFFFF, 0x20000008, 0x7FFFFFFF) if n.startswith('skein') else (): add('%s-out%d' % (n, o), 'h_hgold', 'hash_golden', dict(h=ID[n], lo=3, hi=3, o=o, t=8, all=0), op, 60, 1)
        for th in (0, 1, 2, 3):
            if n in BS and (th < 3 or n in ('sha2_512', 'whirlpool', 'blake512', 'blake2b') or n.startswith('skein')):
                add('%s-far%d' % (n, th), 'h_poke', 'poke', dict(kd=0, i=ID[n], b=BS[n], o=o0, th=th, plain=1), op, 60, 2)
def big(add, tier, g):
    # large inputs: g 1 against the reference, 0 in pieces
    for n in N:
        o0 = OUT[n][0]; b = rate(n, o0); op = opt(n); P = dict(h=ID[n], o=o0, g=g)
        add(n + '-blocks', 'h_big', 'hash_big', dict(P, n=10 * b + 5), op, 90, 8)
        for k in ((255, 256, 257) if g else (257,)): add('%s-n%d' % (n, k), 'h_big', 'hash_big', dict(P, n=k, all=g), op, 60, 2)
        for k in ((4096, 4097) if g else (4097,)): add('%s-n%d' % (n, k), 'h_big', 'hash_big', dict(P, n=k, pre=k - 3 * b, all=g), op, 90, 4)
        if g:
            for k in (65535, 65536, 65537 + b) if tier != 'quick' else (65537 + b,): add('%s-n%d' % (n, k), 'h_big', 'hash_big', dict(P, n=k, pre=k - b - 5), op, 120, 20)
        else: add('%s-n66000' % n, 'h_big', 'hash_big', dict(P, n=66000, pre=66000 - b - 5, w=9), op, 120, 25)
        if n.startswith('keccak'):
            for t in (3 * b + 7, 300, 1000): add('%s-squeeze%d' % (n, t), 'h_big', 'hash_big', dict(P, n=5, t=t), op, 90, 4)
        for s in (255, 256, 257, 300, 1000) if n.startswith('skein') else (): add('%s-salt%d' % (n, s), 'h_big', 'hash_big', dict(P, n=5, s=s), op, 60, 2)
def h02(add, tier):
    big(add, tier, 0)
    for n in N:
        o0 = OUT[n][0]; b = rate(n, o0); op = opt(n)
        add(n + '-cut1', 'h_hash', 'hash_split', dict(h=ID[n], n=b + 3, o=o0, m=1), op, 60, 3)
        add(n + '-cut2', 'h_hash', 'hash_split', dict(h=ID[n], n=2 * b + 2, o=o0, m=2), op, 60, 6)
        add(n + '-bytes', 'h_hash', 'hash_split', dict(h=ID[n], n=2 * b + 1, o=o0, m=0, oc=1), op, 60, 3)
        add(n + '-full', 'h_hash', 'hash_split', dict(h=ID[n], n=2 * b, o=o0, m=1), op, 60, 3)
        for o in OUT[n][1:3]: add('%s-out%d' % (n, o), 'h_hash', 'hash_split', dict(h=ID[n], n=rate(n, o) + 1, o=o, m=0, oc=1), op, 60, 1)
        for s in SALT.get(n, [])[:2]: add('%s-salt%d' % (n, s), 'h_hash', 'hash_split', dict(h=ID[n], n=b + 1, o=o0, s=s, m=1), op, 60, 3)
        far(add, n + '-far', 0, ID[n], op, o=o0)
        far(add, n + '-farall', 13, ID[n], op, o=o0)
        if n.startswith('keccak'): far(add, n + '-farout', 1, ID[n], op, o=o0)
        if n.startswith('keccak'): add(n + '-long', 'h_hash', 'hash_long', dict(h=ID[n], n=3, o=o0, t=2 * b + 3), op, 60, 3)
def h03(add, tier):
    for n in N:
        o0 = OUT[n][0]; b = rate(n, o0); op = opt(n)
        add(n, 'h_hash', 'hash_recreate', dict(h=ID[n], n1=-b - 1, n=3, o1=o0, o=o0), op, 60, 3)
        add(n + '-len', 'h_hash', 'hash_recreate', dict(h=ID[n], n1=b, n=-b - 1, o1=o0, o=o0), op, 60, 3)
        for o in OUT[n][1:]:
            add('%s-o%d-o%d' % (n, o, o0), 'h_hash', 'hash_recreate', dict(h=ID[n], n1=b, n=b + 1, o1=o, o=o0), op, 60, 1)
            add('%s-o%d-o%d' % (n, o0, o), 'h_hash', 'hash_recreate', dict(h=ID[n], n1=b + 1, n=rate(n, o) - 1, o1=o0, o=o), op, 60, 1)
        S = SALT.get(n, [])
        for s in S:
            add('%s-s%d-s0' % (n, s), 'h_hash', 'hash_recreate', dict(h=ID[n], n1=b, n=3, o1=o0, o=o0, s1=s, s=0), op, 60, 1)
            add('%s-s0-s%d' % (n, s), 'h_hash', 'hash_recreate', dict(h=ID[n], n1=5, n=3, o1=o0, o=o0, s1=0, s=s), op, 60, 1)
        if len(S) > 1: add('%s-s%d-s%d' % (n, S[0], S[1]), 'h_hash', 'hash_recreate', dict(h=ID[n], n1=5, n=3, o1=o0, o=o0, s1=S[0], s=S[1]), op, 60, 1)
        for r in RND[n]:
            add('%s-r%d-r0' % (n, r), 'h_hash', 'hash_recreate', dict(h=ID[n], n1=5, n=3, o1=o0, o=o0, r1=r, r=0), op, 60, 1)
            add('%s-r0-r%d' % (n, r), 'h_hash', 'hash_recreate', dict(h=ID[n], n1=5, n=b + 3, o1=o0, o=o0, r1=0, r=r), op, 60, 1)
        if n in BS:
            for th in (0, 1): add('%s-far%d' % (n, th), 'h_poke', 'poke', dict(kd=0, i=ID[n], b=BS[n], o=o0, th=th, re=1, plain=1), op, 60, 2)
GEN.update(H01=h01, H02=h02, H03=h03)
REFS['h_poke'] = ['goldenall']
REFS['h_big'] = ['goldenall']
REFS['h_hgold'] = ['goldenall']
