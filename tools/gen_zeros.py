import hashlib,sys
from concurrent.futures import ProcessPoolExecutor
lens=[(1<<29)-1,1<<29,(1<<29)+1,(1<<29)+5000,(1<<30)+70,(1<<31)+3,(1<<32)-1,(1<<32),(1<<32)+1,(1<<32)+200]
algs=['md5','sha1','sha224','sha256','sha384','sha512']
def f(a):
    alg=a; h=hashlib.new(alg); z=b'\0'*(1<<20); done=0; out=[]
    for L in lens:
        while L-done>=len(z): h.update(z); done+=len(z)
        g=h.copy(); g.update(b'\0'*(L-done)); out.append((alg,L,g.hexdigest()))
    return out
with ProcessPoolExecutor(6) as p:
    for r in p.map(f,algs):
        for x in r: print(*x)
