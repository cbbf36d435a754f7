"""Development-time generator of /verif/harness/residue.txt (committed)."""
import random
P=2**448-2**224-1; D=-39081%P
def trim(a):
    while a and a[-1]==0:a.pop()
    return a
def padd(a,b,s=1):
    n=max(len(a),len(b)); return trim([((a[i] if i<len(a) else 0)+s*(b[i] if i<len(b) else 0))%P for i in range(n)])
def pmul(a,b):
    if not a or not b:return []
    r=[0]*(len(a)+len(b)-1)
    for i,x in enumerate(a):
        for j,y in enumerate(b): r[i+j]=(r[i+j]+x*y)%P
    return trim(r)
def pmod(a,m):
    a=a[:]; inv=pow(m[-1],-1,P)
    while len(a)>=len(m):
        c=a[-1]*inv%P; s=len(a)-len(m)
        for i,x in enumerate(m): a[s+i]=(a[s+i]-c*x)%P
        a.pop(); trim(a)
    return a
def pdiv(a,m):
    a=a[:]; inv=pow(m[-1],-1,P); q=[0]*(len(a)-len(m)+1)
    while len(a)>=len(m):
        c=a[-1]*inv%P; s=len(a)-len(m); q[s]=c
        for i,x in enumerate(m): a[s+i]=(a[s+i]-c*x)%P
        trim(a)
    return q
def pgcd(a,b):
    while b: a,b=b,pmod(a,b)
    i=pow(a[-1],-1,P); return [x*i%P for x in a]
def ppow(b,e,m):
    r=[1]
    while e:
        if e&1:r=pmod(pmul(r,b),m)
        b=pmod(pmul(b,b),m); e>>=1
    return r
def roots(f):
    g=pgcd(f,padd(ppow([0,1],P,f),[0,1],-1))
    out=[];st=[g]
    while st:
        h=st.pop()
        if len(h)<=1: continue
        if len(h)==2: out.append(-h[0]*pow(h[1],-1,P)%P); continue
        while 1:
            a=random.randrange(P); t=pgcd(h,padd(ppow([a,1],(P-1)//2,h),[1],-1))
            if 1<len(t)<len(h): st+= [t,pdiv(h,t)];break
    return out
# Y=y^2, den=1-DY, num=1-Y, x^2 = -num/den
Y=[0,1];den=[1,-D%P];num=[1,P-1]
C=[(-v)%P for v in num]        # c = C/den
A=pmul(Y,den)                  # a = A/den
dd=padd(C,A); t=padd(A,C,-1); two=padd([2*v%P for v in den],dd,-1)
def sq(a):return pmul(a,a)
# E = t^2 d^2 - (2-d)^2*4 c a - t^2 (2-d)^2 + 39082*4*c*a*d^2 , all over den^4
E=pmul(sq(t),sq(dd))
E=padd(E,[4*v%P for v in pmul(sq(two),pmul(C,A))],-1)
E=padd(E,pmul(sq(t),sq(two)),-1)
E=padd(E,[39082*4*v%P for v in pmul(pmul(C,A),sq(dd))])
den4=sq(sq(den))
random.seed(1)
# For every limb position j: encodings of y that are NOT on the curve but whose curve-equation
# residue (as the library evaluates it after the isogeny) is k*2^(28j), i.e. non-zero in limb j only.
out=[]
for j in range(16):
    found=0
    for k in list(range(1,40))+[2**28-1-i for i in range(40)]:
        f=padd(E,[k*2**(28*j)%P*v%P for v in den4],-1)
        for r in roots(f):
            if pow(r,(P-1)//2,P)!=1: continue
            y=pow(r,(P+1)//4,P); w=(1-r)*(1-D*r)%P
            if pow(w,(P-1)//2,P)!=P-1: continue
            for yy in (y,P-y):
                out.append(f"{j} {k} {yy.to_bytes(57,'little').hex()}"); found+=1
        if found>=4:break
    print(j,found)
open("/verif/harness/residue.txt","w").write("\n".join(out)+"\n")
