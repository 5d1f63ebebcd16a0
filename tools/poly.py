#!/usr/bin/env python3
"""first irreducible pentanomial of every degree 8n, n = 1..255: the table in sim/model_cipher.cpp (takes some minutes)"""
from multiprocessing import Pool
def factors(n):
    r=[];p=2
    while p*p<=n:
        if n%p==0:
            r.append(p)
            while n%p==0:n//=p
        p+=1
    if n>1:r.append(n)
    return r
def gcd(a,b):
    while b:
        da=a.bit_length();db=b.bit_length()
        while da>=db:
            a^=b<<(da-db); da=a.bit_length()
        a,b=b,a
    return a
def irr(n,a,b,c):
    mask=(1<<n)-1; f=(1<<n)|(1<<a)|(1<<b)|(1<<c)|1
    def sq(x):
        y=int('0'.join(bin(x)[2:]),2)
        while y>>n:
            h=y>>n; y=(y&mask)^h^(h<<a)^(h<<b)^(h<<c)
        return y
    ps=factors(n); want={n//p for p in ps}
    x=2; prod=1
    if n<=20: small=0
    else: small=14
    for k in range(1,n+1):
        x=sq(x)
        if k<=small and k in (4,6,9,14) or (k in want):
            if gcd(f,x^2)!=1 : 
                return False
    return x==2
def find(nb):
    n=8*nb
    for a in range(3,n):
        for b in range(2,a):
            for c in range(1,b):
                if irr(n,a,b,c): return nb,(1<<a)|(1<<b)|(1<<c)|1
if __name__=='__main__':
    with Pool(8) as p:
        for nb, v in p.imap(find, range(1, 256)): print(nb, hex(v), flush=True)
