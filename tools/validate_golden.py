#!/usr/bin/env python3
"""Run by hand (not by any check): compares ref/golden, the frozen reference, with
independent implementations (hashlib, the openssl command, Python code written here
from the specifications), so that the reference is not only a copy of the library."""
import ctypes as ct, glob, hashlib, hmac, os, random, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); G = V + '/ref/golden'
random.seed(7); R = lambda n: bytes(random.randrange(256) for _ in range(n))
t = tempfile.mkdtemp(); so = t + '/g.so'
subprocess.check_call(['gcc', '-w', '-O1', '-std=c99', '-D_DEFAULT_SOURCE', '-DKRIPTO_UNIX', '-shared', '-fPIC', '-I', G + '/include', '-I', G + '/lib'] + glob.glob(G + '/lib/**/*.c', recursive=True) + ['-o', so])
L = ct.CDLL(so); shutil.rmtree(t)
P, U, Z = ct.c_void_p, ct.c_uint, ct.c_size_t
def desc(n): return ct.c_void_p.in_dll(L, n).value
def fn(n, res, *a): f = getattr(L, n); f.restype = res; f.argtypes = a; return f
bl_create = fn('kripto_block_create', P, P, U, ct.c_char_p, U); bl_enc = fn('kripto_block_encrypt', None, P, ct.c_char_p, P); bl_dec = fn('kripto_block_decrypt', None, P, ct.c_char_p, P); bl_tweak = fn('kripto_block_tweak', None, P, ct.c_char_p, U); bl_free = fn('kripto_block_destroy', None, P)
h_all = fn('kripto_hash_all', ct.c_int, P, U, ct.c_char_p, U, ct.c_char_p, Z, P, Z)
m_all = fn('kripto_mac_all', ct.c_int, P, P if 0 else U, ct.c_char_p, U, ct.c_char_p, Z, P, U)
st_create = fn('kripto_stream_create', P, P, U, ct.c_char_p, U, ct.c_char_p, U); st_enc = fn('kripto_stream_encrypt', None, P, ct.c_char_p, P, Z); st_prng = fn('kripto_stream_prng', None, P, P, Z); st_free = fn('kripto_stream_destroy', None, P)
kp = fn('kripto_pbkdf2', ct.c_int, P, U, U, ct.c_char_p, U, ct.c_char_p, U, P, Z)
ks = fn('kripto_scrypt', ct.c_int, P, U, ct.c_uint64, ct.c_uint32, ct.c_uint32, ct.c_char_p, U, ct.c_char_p, U, P, Z)
def H(n, m, o, salt=b'', r=0): b = ct.create_string_buffer(o); assert h_all(desc('kripto_hash_' + n), r, salt, len(salt), m, len(m), b, o) == 0; return b.raw
def M(d, k, m, o, r=0): b = ct.create_string_buffer(o); assert m_all(d, r, k, len(k), m, len(m), b, o) == 0; return b.raw
def E(n, k, x, dec=0, r=0, tw=None):
    s = bl_create(desc('kripto_block_' + n), r, k, len(k)); assert s
    if tw is not None: bl_tweak(s, tw, len(tw))
    b = ct.create_string_buffer(len(x)); (bl_dec if dec else bl_enc)(s, x, b); bl_free(s); return b.raw
def S(d, k, iv, m, r=0): s = st_create(d, r, k, len(k), iv, len(iv)); assert s; b = ct.create_string_buffer(len(m)); st_enc(s, m, b, len(m)); st_free(s); return b.raw
def ossl(c, k, m, iv=None):
    a = ['openssl', 'enc', '-e', '-' + c, '-K', k.hex(), '-nopad', '-provider', 'legacy', '-provider', 'default'] + (['-iv', iv.hex()] if iv else [])
    return subprocess.run(a, input=m, capture_output=True, check=True).stdout
ok = bad = 0
def ck(what, a, b):
    global ok, bad
    if a == b: ok += 1
    else: bad += 1; print('DIFFERS', what, a.hex()[:64], b.hex()[:64])
lens = list(range(0, 300)) + [511, 512, 513, 1000, 4096]
# hashes against hashlib
for n in lens:
    m = R(n)
    ck('md5', H('md5', m, 16), hashlib.md5(m).digest()); ck('sha1', H('sha1', m, 20), hashlib.sha1(m).digest())
    for o, f in ((28, 'sha224'), (32, 'sha256')): ck(f, H('sha2_256', m, o), hashlib.new(f, m).digest())
    for o, f in ((48, 'sha384'), (64, 'sha512')):
        try: ck(f, H('sha2_512', m, o), hashlib.new(f, m).digest())
        except ValueError: pass
    for o in (28, 32, 48, 64): ck('sha3', H('sha3', m, o), hashlib.new('sha3_%d' % (o * 8), m).digest())
    for o in (1, 20, 31, 32): ck('blake2s', H('blake2s', m, o), hashlib.blake2s(m, digest_size=o).digest())
    for o in (1, 20, 48, 64): ck('blake2b', H('blake2b', m, o), hashlib.blake2b(m, digest_size=o).digest())
    sa = R(8); ck('blake2s salt', H('blake2s', m, 32, sa), hashlib.blake2s(m, salt=sa).digest()); sa = R(16); ck('blake2b salt', H('blake2b', m, 64, sa), hashlib.blake2b(m, salt=sa).digest())
for n in (0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 500):
    m = R(n)
    for p in (['whirlpool', 'whirlpool', 64],):
        ck(p[0], H(p[1], m, p[2]), subprocess.run(['openssl', 'dgst', '-' + p[0], '-binary', '-provider', 'legacy', '-provider', 'default'], input=m, capture_output=True, check=True).stdout)
# BLAKE (SHA-3 finalist), 14/16 rounds
SIG = [[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],[11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],[7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],[9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],[12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],[6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]]
PI = 0x243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89452821E638D01377BE5466CF34E90C6CC0AC29B7C97C50DD3F84D5B5B5470917_9216D5D98979FB1BD1310BA698DFB5AC2FFD72DBD01ADFB7B8E1AFED6A267E96BA7C9045F12C7F9924A19947B3916CF70801F2E2858EFC16636920D871574E69
PIb = PI.to_bytes(128, 'big')
def blake(m, o, salt=b''):
    w = 4 if o <= 32 else 8; bl = 16 * w; mask = (1 << 8 * w) - 1; rd = 14 if w == 4 else 16
    C = [int.from_bytes(PIb[i * w:(i + 1) * w], 'big') for i in range(16)]
    iv = {28: [0xC1059ED8,0x367CD507,0x3070DD17,0xF70E5939,0xFFC00B31,0x68581511,0x64F98FA7,0xBEFA4FA4], 32: [0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19],
      48: [0xCBBB9D5DC1059ED8,0x629A292A367CD507,0x9159015A3070DD17,0x152FECD8F70E5939,0x67332667FFC00B31,0x8EB44A8768581511,0xDB0C2E0D64F98FA7,0x47B5481DBEFA4FA4], 64: [0x6A09E667F3BCC908,0xBB67AE8584CAA73B,0x3C6EF372FE94F82B,0xA54FF53A5F1D36F1,0x510E527FADE682D1,0x9B05688C2B3E6C1F,0x1F83D9ABFB41BD6B,0x5BE0CD19137E2179]}[o]
    h = list(iv); s = [int.from_bytes(salt[i * w:(i + 1) * w] or b'\0', 'big') for i in range(4)]
    lb = 8 * len(m); p = m + b'\x80'; 
    while len(p) % bl != bl - 2 * w: p += b'\0'
    if o in (32, 64): 
        p = bytearray(p); p[-1] |= 1; p = bytes(p)
    p += lb.to_bytes(2 * w, 'big'); ror = lambda x, n: ((x >> n) | (x << (8 * w - n))) & mask
    rot = (16, 12, 8, 7) if w == 4 else (32, 25, 16, 11)
    for b in range(len(p) // bl):
        x = [int.from_bytes(p[b * bl + i * w:b * bl + (i + 1) * w], 'big') for i in range(16)]
        done = min(lb, (b + 1) * bl * 8); tt = 0 if done - b * bl * 8 <= 0 else done
        v = h + [s[i] ^ C[i] for i in range(4)] + [C[4] ^ tt & mask, C[5] ^ tt & mask, C[6] ^ tt >> 8 * w, C[7] ^ tt >> 8 * w]
        v[12] = (tt & mask) ^ C[4]; v[13] = (tt & mask) ^ C[5]; v[14] = (tt >> 8 * w) ^ C[6]; v[15] = (tt >> 8 * w) ^ C[7]
        for r in range(rd):
            g = SIG[r % 10]
            for i, (a, bb, c, d) in enumerate(((0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14))):
                v[a] = v[a] + v[bb] + (x[g[2*i]] ^ C[g[2*i+1]]) & mask; v[d] = ror(v[d] ^ v[a], rot[0]); v[c] = v[c] + v[d] & mask; v[bb] = ror(v[bb] ^ v[c], rot[1])
                v[a] = v[a] + v[bb] + (x[g[2*i+1]] ^ C[g[2*i]]) & mask; v[d] = ror(v[d] ^ v[a], rot[2]); v[c] = v[c] + v[d] & mask; v[bb] = ror(v[bb] ^ v[c], rot[3])
        h = [h[i] ^ s[i % 4] ^ v[i] ^ v[i + 8] for i in range(8)]
    return b''.join(y.to_bytes(w, 'big') for y in h)[:o]
assert blake(b'', 32).hex() == '716f6e863f744b9ac22c97ec7b76ea5f5908bc5b2f67c61510bfc4751384ea7a'
assert blake(b'', 64).hex().startswith('a8cfbbd73726062df0c6864dda65defe58ef0cc52a5625090fa17601e1eecd1b')
for n in list(range(0, 140)) + [240, 256, 300]:
    m = R(n)
    for o in (28, 32): ck('blake256', H('blake256', m, o), blake(m, o)); sa = R(16); ck('blake256 salt', H('blake256', m, o, sa), blake(m, o, sa))
    for o in (48, 64): ck('blake512', H('blake512', m, o), blake(m, o)); sa = R(32); ck('blake512 salt', H('blake512', m, o, sa), blake(m, o, sa))
# Threefish and Skein 1.3
M64 = (1 << 64) - 1
ROT = {4: [[14,16],[52,57],[23,40],[5,37],[25,33],[46,12],[58,22],[32,32]], 8: [[46,36,19,37],[33,27,14,42],[17,49,36,39],[44,9,54,56],[39,30,34,24],[13,50,10,17],[25,29,39,43],[8,35,56,22]],
  16: [[24,13,8,47,8,17,22,37],[38,19,10,55,49,18,23,52],[33,4,51,13,34,41,59,17],[5,20,48,41,47,28,16,25],[41,9,37,31,12,47,44,30],[16,34,56,51,4,53,42,41],[31,44,47,46,19,42,44,25],[9,48,35,52,23,31,37,20]]}
PERM = {4: [0,3,2,1], 8: [2,1,4,7,6,5,0,3], 16: [0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1]}
W = lambda b: [int.from_bytes(b[i:i + 8], 'little') for i in range(0, len(b), 8)]
def tf(k, tw, x):
    n = len(k) // 8; K = W(k); c = 0x1BD11BDAA9FC1A22
    for y in K: c ^= y
    K.append(c); T = W(tw); T.append(T[0] ^ T[1]); v = W(x); nr = 80 if n == 16 else 72
    def add(s):
        for i in range(n): v[i] = v[i] + K[(s + i) % (n + 1)] & M64
        v[n-3] = v[n-3] + T[s % 3] & M64; v[n-2] = v[n-2] + T[(s + 1) % 3] & M64; v[n-1] = v[n-1] + s & M64
    for d in range(nr):
        if d % 4 == 0: add(d // 4)
        for j in range(n // 2):
            a, b = v[2*j], v[2*j+1]; a = a + b & M64; r = ROT[n][d % 8][j]; b = ((b << r | b >> 64 - r) & M64) ^ a; v[2*j], v[2*j+1] = a, b
        v[:] = [v[PERM[n][i]] for i in range(n)]
    add(nr // 4); return b''.join(y.to_bytes(8, 'little') for y in v)
def ubi(g, m, ty, nb):
    pos = 0; first = 1; n = len(m); p = m + bytes(-n % nb) if n else bytes(nb)
    for i in range(0, len(p), nb):
        pos = min(n, i + nb); t = pos | ty << 120 | first << 126 | (1 << 127 if i + nb == len(p) else 0); first = 0
        e = tf(g, t.to_bytes(16, 'little'), p[i:i + nb]); g = bytes(a ^ b for a, b in zip(e, p[i:i + nb]))
    return g
def skein(nb, nbits, o, m=None, key=b'', nonce=b''):
    g = bytes(nb)
    if key: g = ubi(g, key, 0, nb)
    g = ubi(g, b'SHA3\1\0\0\0' + nbits.to_bytes(8, 'little') + bytes(16), 4, nb)
    if nonce: g = ubi(g, nonce, 20, nb)
    if m is not None: g = ubi(g, m, 48, nb)
    return b''.join(ubi(g, i.to_bytes(8, 'little'), 63, nb) for i in range(o // nb + 1))[:o]
assert skein(32, 256, 32, b'').hex() == 'c8877087da56e072870daa843f176e9453115929094c3a40c463a196c29bf7ba'
assert skein(64, 512, 64, b'').hex().startswith('bc5b4c50925519c290cc634277ae3d6257212395cba733bbad37a4af0fa06af4')
assert skein(128, 1024, 128, b'').hex().startswith('0fff9563bb3279289227ac77d319b6fff8d7e9f09da1247b72a0a265cd6d2a62')
for nb in (32, 64, 128):
    z = str(nb * 8)
    for i in range(4): k, x, tw = R(nb), R(nb), R(16); ck('threefish', E('threefish' + z, k, x, tw=tw), tf(k, tw, x)); ck('threefish dec', E('threefish' + z, k, tf(k, tw, x), 1, tw=tw), x)
    for n in (0, 1, nb - 1, nb, nb + 1, 2 * nb, 2 * nb + 1):
        for o in (1, nb, nb + 1, 2 * nb, 2 * nb + 3):
            m = R(n); ck('skein hash', H('skein' + z, m, o), skein(nb, 8 * o, o, m))
            k = R(1 + n); o <= nb and ck('skein mac', M(desc('kripto_mac_skein' + z), k, m, o), skein(nb, 8 * o, o, m, k))
            iv = R(o); ck('skein stream', S(desc('kripto_stream_skein' + z), k, iv, bytes(200)), skein(nb, M64, 200, None, k, iv))
# block ciphers against openssl (ecb)
for i in range(3):
  for c, n, kl, bs in (('aes-128-ecb','aes',16,16),('aes-192-ecb','aes',24,16),('aes-256-ecb','aes',32,16),('aria-128-ecb','aria',16,16),('aria-192-ecb','aria',24,16),('aria-256-ecb','aria',32,16),('camellia-128-ecb','camellia',16,16),('camellia-192-ecb','camellia',24,16),('camellia-256-ecb','camellia',32,16),('bf-ecb','blowfish',16,8),('cast5-ecb','cast5',16,8),('des-ecb','des',8,8),('des-ede','des',16,8),('des-ede3','des',24,8),('idea-ecb','idea',16,8),('seed-ecb','seed',16,16),('sm4-ecb','sm4',16,16),('rc2-ecb','rc2',16,8),('aes-128-ecb','rijndael128',16,16)):
    k, x = R(kl), R(bs)
    try: y = ossl(c, k, x)
    except subprocess.CalledProcessError: print('openssl has no', c); continue
    ck(c, E(n, k, x), y); ck(c + ' dec', E(n, k, y, 1), x)
# modes over AES
mode = {m: fn('kripto_stream_' + m, P, P) for m in ('ctr', 'cbc', 'cfb', 'ofb', 'ecb')}; aes = desc('kripto_block_aes')
for m in mode:
    for n in (16, 48, 33 if m in ('ctr', 'cfb', 'ofb') else 64):
        k, iv, x = R(16), R(16), R(n); ck(m, S(mode[m](aes), k, b'' if m == 'ecb' else iv, x), ossl('aes-128-' + m, k, x, None if m == 'ecb' else iv))
k, x = R(16), R(40); ck('ctr wrap', S(mode['ctr'](aes), k, b'\xff' * 16, x), ossl('aes-128-ctr', k, x, b'\xff' * 16))
for kl in (16,): k, x = R(16), R(300); ck('rc4', S(desc('kripto_stream_rc4'), k, b'', x), ossl('rc4', k, x))
k, x = R(32), R(300); iv = R(8); ck('chacha20', S(desc('kripto_stream_chacha'), k, iv, x), ossl('chacha20', k, x, bytes(8) + iv))
iv = R(12); ck('chacha20 ietf', S(desc('kripto_stream_chacha'), k, iv, x), ossl('chacha20', k, x, bytes(4) + iv))
# MACs and KDFs
hm = fn('kripto_mac_hmac', P, P); om = fn('kripto_mac_omac', P, P)
for n in (0, 1, 55, 64, 100, 128, 200):
    for kl in (1, 20, 63, 64, 65, 127, 128, 129, 200):
        k, m = R(kl), R(n)
        for h, o, f in (('md5',16,'md5'),('sha1',20,'sha1'),('sha2_256',32,'sha256'),('sha2_256',28,'sha224'),('sha2_512',64,'sha512'),('sha2_512',48,'sha384'),('blake2b',64,'blake2b'),('blake2s',32,'blake2s')):
            ck('hmac ' + f, M(hm(desc('kripto_hash_' + h)), k, m, o), hmac.new(k, m, f).digest())
    for c, b, kl in (('aes-128-cbc','aes',16),('camellia-256-cbc','camellia',32),('des-ede3-cbc','des',24)):
        k, m = R(kl), R(n); r = subprocess.run(['openssl', 'mac', '-cipher', c, '-macopt', 'hexkey:' + k.hex(), '-binary', '-in', '/dev/stdin', 'CMAC'], input=m, capture_output=True)
        if r.returncode == 0: ck('cmac ' + c, M(om(desc('kripto_block_' + b)), k, m, len(r.stdout)), r.stdout)
        else: print('no cmac', c, r.stderr[:80])
for it in (1, 2, 7):
    for o in (1, 19, 20, 33, 64, 100):
        p, s = R(10), R(9); b = ct.create_string_buffer(o); mac = hm(desc('kripto_hash_sha2_256'))
        assert kp(mac, 0, it, p, 10, s, 9, b, o) == 0; ck('pbkdf2', b.raw, hashlib.pbkdf2_hmac('sha256', p, s, it, o))
for n, r, p in ((2,1,1),(16,1,1),(16,8,2),(1024,3,1),(4,2,5)):
    pw, s = R(10), R(9); b = ct.create_string_buffer(70); assert ks(hm(desc('kripto_hash_sha2_256')), 0, n, r, p, pw, 10, s, 9, b, 70) == 0
    ck('scrypt', b.raw, hashlib.scrypt(pw, salt=s, n=n, r=r, p=p, dklen=70))
# RC5 (RFC 2040) and RC6, every key length, few and many rounds; CAST5 (RFC 2144, B.1)
MM = 0xffffffff; rl = lambda x, n: ((x << (n & 31)) | (x >> (-n & 31))) & MM
def rcs(key, t):
    c = max(1, (len(key) + 3) // 4); L_ = [int.from_bytes(key[4 * i:4 * i + 4], 'little') for i in range(c)]; S_ = [(0xB7E15163 + i * 0x9E3779B9) & MM for i in range(t)]; A = B = i = j = 0
    for _ in range(3 * max(t, c)): A = S_[i] = rl((S_[i] + A + B) & MM, 3); B = L_[j] = rl((L_[j] + A + B) & MM, A + B); i = (i + 1) % t; j = (j + 1) % c
    return S_
W4 = lambda x: [int.from_bytes(x[i:i + 4], 'little') for i in range(0, len(x), 4)]; B4 = lambda v: b''.join((x & MM).to_bytes(4, 'little') for x in v)
def rc5(key, r, x):
    K = rcs(key, 2 * r + 2); A, B = W4(x); A = (A + K[0]) & MM; B = (B + K[1]) & MM
    for i in range(1, r + 1): A = (rl(A ^ B, B) + K[2 * i]) & MM; B = (rl(B ^ A, A) + K[2 * i + 1]) & MM
    return B4((A, B))
def rc6(key, r, x):
    K = rcs(key, 2 * r + 4); A, B, C, D = W4(x); B = (B + K[0]) & MM; D = (D + K[1]) & MM
    for i in range(1, r + 1):
        t_ = rl(B * (2 * B + 1) & MM, 5); u = rl(D * (2 * D + 1) & MM, 5); A = (rl(A ^ t_, u) + K[2 * i]) & MM; C = (rl(C ^ u, t_) + K[2 * i + 1]) & MM; A, B, C, D = B, C, D, A
    return B4((A + K[2 * r + 2], B, C + K[2 * r + 3], D))
for kl in range(1, 256):
    for r in (1, 5, 12, 20):
        k = R(kl); ck('rc5 k%d r%d' % (kl, r), E('rc5', k, x[:8], r=r), rc5(k, r, x[:8])); ck('rc6 k%d r%d' % (kl, r), E('rc6', k, x[:16], r=r), rc6(k, r, x[:16]))
for kl, c in ((16, '238B4FE5847E44B2'), (10, 'EB6A711A2C02271B'), (5, '7AC816D16E9B302E')): ck('cast5 k%d' % kl, E('cast5', bytes.fromhex('0123456712345678234567893456789A')[:kl], bytes.fromhex('0123456789ABCDEF')), bytes.fromhex(c))
# Salsa20, XSalsa20, ChaCha, XChaCha: 16- and 32-byte keys, several rounds
rr = lambda x, n: ((x << n) | (x >> (32 - n))) & MM
def sqr(v, a, b, c, d): v[b] ^= rr(v[a] + v[d] & MM, 7); v[c] ^= rr(v[b] + v[a] & MM, 9); v[d] ^= rr(v[c] + v[b] & MM, 13); v[a] ^= rr(v[d] + v[c] & MM, 18)
def cqr(v, a, b, c, d):
    for x_, y_, z_, n_ in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)): v[x_] = v[x_] + v[y_] & MM; v[z_] = rr(v[z_] ^ v[x_], n_)
def perm(v, cha, r):
    for i in range(r // 2):
        for q in (((0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14)) if cha else ((0,4,8,12),(5,9,13,1),(10,14,2,6),(15,3,7,11),(0,1,2,3),(5,6,7,4),(10,11,8,9),(15,12,13,14))): (cqr if cha else sqr)(v, *q)
def init(k, n, cha):
    c = W4(b'expand 32-byte k' if len(k) == 32 else b'expand 16-byte k'); K = W4(k) if len(k) == 32 else W4(k) * 2
    return c + K + n if cha else [c[0]] + K[:4] + [c[1]] + n + [c[2]] + K[4:] + [c[3]]
def djb(k, iv, n, cha, r):
    if len(iv) == 24:
        v = init(k, W4(iv[:16]), cha); perm(v, cha, r); k = B4(v[0:4] + v[12:16]) if cha else B4([v[0], v[5], v[10], v[15]] + v[6:10]); iv = iv[16:]
    out = b''; i = 0
    while len(out) < n:
        ctr = [i & MM, i >> 32]; v = init(k, ctr + W4(iv) if cha else W4(iv) + ctr, cha); u = list(v); perm(v, cha, r); out += B4([a + b for a, b in zip(u, v)]); i += 1
    return out[:n]
for cha, n_ in ((0, 'salsa20'), (1, 'chacha')):
    for kl in (16, 32):
        for il in (8, 24) if kl == 32 else (8,): # XSalsa20 and XChaCha take 32-byte keys
            for r in (8, 12, 20):
                k, iv = R(kl), R(il); ck('%s k%d iv%d r%d' % (n_, kl, il, r), S(desc('kripto_stream_' + n_), k, iv, bytes(300), r), djb(k, iv, 300, cha, r))
print(ok, 'agree,', bad, 'differ'); sys.exit(bad != 0)
