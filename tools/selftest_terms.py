import sys,random
sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vlib import terms as T
import z3
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 0)
# random building, compare simplified evaluate against naive python semantics
def M(w): return (1<<w)-1
def s(v,w): return v-(1<<w) if v>>(w-1) else v
def rnd(depth,w,vs):
    """returns (term, pyfn)"""
    if depth==0 or random.random()<.1:
        if random.random()<.3:
            c=random.choice([0,1,M(w),random.getrandbits(w),1<<random.randrange(w),0xff&M(w)]); return T.const(c,w),(lambda e,c=c:c)
        n=random.choice('abc')+str(w); vs[n]=w
        return T.var(n,w),(lambda e,n=n:e[n])
    k=random.choice(['add','sub','mul','and','or','xor','not','shlc','lshrc','ashrc','shl','lshr','ashr','ite','udiv','urem','sdiv','srem','fd','fm','ext','zext','sext','cat','cmp','mulc','andm'])
    a,fa=rnd(depth-1,w,vs)
    if k=='not': return T.not_(a),lambda e:M(w)&~fa(e)
    if k in('shlc','lshrc','ashrc'):
        n=random.randrange(w+2)
        if k=='shlc': return T.shl_c(a,n),lambda e:(fa(e)<<n)&M(w)
        if k=='lshrc': return T.lshr_c(a,n),lambda e:fa(e)>>n
        return T.ashr_c(a,n),lambda e:(s(fa(e),w)>>min(n,w-1))&M(w)
    if k=='mulc':
        c=random.getrandbits(w); return T.mul(a,T.const(c,w)),lambda e:fa(e)*c&M(w)
    if k=='andm':
        c=random.choice([0xff00ff00,0xf0f0,0x7f,0x80000000,random.getrandbits(w)])&M(w); return T.and_(a,T.const(c,w)),lambda e:fa(e)&c
    if k=='ext':
        w2=random.choice([w+3,2*w,64]) ; w2=max(w2,w)
        b,fb=rnd(depth-1,w2,vs); lo=random.randrange(w2-w+1); return T.extract(b,lo+w-1,lo),lambda e:(fb(e)>>lo)&M(w)
    if k in('zext','sext') :
        w2=random.choice([x for x in (1,3,8,16,w) if x<=w]); b,fb=rnd(depth-1,w2,vs)
        if k=='zext': return T.zext(b,w),fb
        return T.sext(b,w),lambda e:s(fb(e),w2)&M(w)
    if k=='cat':
        if w<2: return a,fa
        n=random.randrange(1,w); b,fb=rnd(depth-1,n,vs);c,fc=rnd(depth-1,w-n,vs)
        return T.concat(b,c),lambda e:(fb(e)<<(w-n))|fc(e)
    if k=='cmp':
        w2=random.choice([1,8,16,32]);b,fb=rnd(depth-1,w2,vs);c,fc=rnd(depth-1,w2,vs)
        q=random.choice(['eq','ult','slt','ule','sle'])
        t=getattr(T,q)(b,c)
        g={'eq':lambda x,y:x==y,'ult':lambda x,y:x<y,'ule':lambda x,y:x<=y,'slt':lambda x,y:s(x,w2)<s(y,w2),'sle':lambda x,y:s(x,w2)<=s(y,w2)}[q]
        return T.zext(t,w),lambda e:int(g(fb(e),fc(e)))
    b,fb=rnd(depth-1,w,vs)
    if k=='ite':
        w2=8;c,fc=rnd(depth-1,w2,vs);d,fd=rnd(depth-1,w2,vs)
        return T.ite(T.ult(c,d),a,b),lambda e:fa(e) if fc(e)<fd(e) else fb(e)
    def dv(f,z):
        return lambda e: (f(fa(e),fb(e)) if fb(e) else z(fa(e)))&M(w)
    def sd(x,y):
        x,y=s(x,w),s(y,w); q=abs(x)//abs(y); return -q if (x<0)!=(y<0) else q
    def sr(x,y): return s(x,w)-sd(x,y)*s(y,w)
    if k=='udiv': return T.udiv(a,b),dv(lambda x,y:x//y,lambda x:M(w))
    if k=='urem': return T.urem(a,b),dv(lambda x,y:x%y,lambda x:x)
    if k=='sdiv': return T.ite(T.eq(b,T.const(0,w)),T.const(0,w),T.sdiv(a,b)),dv(sd,lambda x:0)
    if k=='srem': return T.ite(T.eq(b,T.const(0,w)),T.const(0,w),T.srem(a,b)),dv(sr,lambda x:0)
    if k=='fd': return T.ite(T.eq(b,T.const(0,w)),T.const(0,w),T.floordiv_s(a,b)),dv(lambda x,y:s(x,w)//s(y,w),lambda x:0)
    if k=='fm': return T.ite(T.eq(b,T.const(0,w)),T.const(0,w),T.floormod_s(a,b)),dv(lambda x,y:s(x,w)%s(y,w),lambda x:0)
    f={'add':lambda x,y:x+y,'sub':lambda x,y:x-y,'mul':lambda x,y:x*y,'and':lambda x,y:x&y,'or':lambda x,y:x|y,'xor':lambda x,y:x^y,
       'shl':lambda x,y:x<<y if y<w else 0,'lshr':lambda x,y:x>>y if y<w else 0,'ashr':lambda x,y:s(x,w)>>min(y,w-1)}[k]
    t={'add':T.add,'sub':T.sub,'mul':T.mul,'and':T.and_,'or':T.or_,'xor':T.xor,'shl':T.shl,'lshr':T.lshr,'ashr':T.ashr}[k](a,b)
    return t,lambda e:f(fa(e),fb(e))&M(w)
bad=0;ns=0
for it in range(3000):
    w=random.choice([1,8,16,32,64,5]);vs={}
    t,f=rnd(random.randrange(1,6),w,vs)
    for _ in range(6):
        e={n:random.choice([0,1,M(x),random.getrandbits(x),random.getrandbits(x)&7,1<<(x-1)]) for n,x in vs.items()}
        r=T.evaluate([t],e)[0]
        if r!=f(e): bad+=1; print('EVAL',t,e,r,f(e)); break
        lo,hi=T.urange(t)
        if not lo<=r<=hi: bad+=1;print('RANGE',t)
        z,o=T.known(t)
        if r&z or ~r&o: bad+=1;print('KNOWN',t)
    if it%10==0:
        z=T.to_z3(t); ns+=1
        sub=[(z3.BitVec(n,x),z3.BitVecVal(e[n],x)) for n,x in vs.items()]
        q=z3.simplify(z3.substitute(z,*sub)).as_long()
        if q!=r: bad+=1;print('Z3',t,e,r,q)
    if bad>5: break
print('bad',bad,'z3',ns)
