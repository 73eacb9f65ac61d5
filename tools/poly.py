import re
rows={}
for l in open('/repo/lib/mac/omac.c'):
    m=re.match(r'\s*\{(0x..), (0x..), (0x..), (0x..), (0x..), (0x..)\}.*?/\* +(\d+) \*/',l)
    if m: 
        v=0
        for i in range(6): v=v<<8|int(m.group(i+1),16)
        rows[int(m.group(7))]=v
sq=[0]*65536
for i in range(65536):
    r=0
    for b in range(16):
        if i>>b&1: r|=1<<(2*b)
    sq[i]=r
def square(a):
    by=a.to_bytes((a.bit_length()+15)//16*2 or 2,'little'); out=bytearray()
    for i in range(0,len(by),2): out+=sq[by[i]|by[i+1]<<8].to_bytes(4,'little')
    return int.from_bytes(out,'little')
def terms(p): return [i for i in range(p.bit_length()) if p>>i&1]
def red(a,n,t):
    while a.bit_length()>n:
        h=a>>n; a&=(1<<n)-1
        for k in t: a^=h<<k
    return a
def gcd(a,b):
    while b:
        while a.bit_length()>=b.bit_length() and a: a^=b<<(a.bit_length()-b.bit_length())
        a,b=b,a
    return a
def primes(n): 
    r=[];p=2
    while n>1:
        if n%p==0: r.append(p)
        while n%p==0: n//=p
        p+=1
    return r
def irr(n,low):
    t=terms(low); f=1<<n|low; x=2; cps={n//q for q in primes(n)}
    for i in range(1,n+1):
        x=red(square(x),n,t)
        if i in cps and gcd(f,x^2)!=1: return False
    return x==2
from multiprocessing import Pool
def w(b): return b,irr(8*b,rows[b]),len(terms(rows[b]))+1
if __name__=='__main__':
    print(len(rows))
    bad=[r for r in Pool(6).imap_unordered(w,sorted(k for k in rows if k)) if not r[1] or r[2]!=5]
    print(sorted(bad)); print([(b,hex(v)) for b,v in rows.items() if v>>24 and b])
def small(n,low):
    t=terms(low); f=1<<n|low; x=2
    for i in range(1,9):
        x=red(square(x),n,t)
        if i in(5,6,7,8) and gcd(f,x^2)!=1: return True
    return False
def mini(b):
    n=8*b
    for a in range(3,60):
        for bb in range(2,a):
            for c in range(1,bb):
                low=1|1<<a|1<<bb|1<<c
                if (n<=8 or not small(n,low)) and irr(n,low): return b,low
if __name__=='__main__':
    ms={}
    for b,v in Pool(2).imap_unordered(mini,[33,207]+list(range(1,256))):
        ms[b]=v
        print(b,hex(v),hex(rows[b]),v==rows[b],flush=True)
    import json; json.dump(ms,open('/tmp/poly.json','w'))
    print([(b,hex(rows[b]),hex(ms[b])) for b in sorted(ms) if ms[b]!=rows[b]])
