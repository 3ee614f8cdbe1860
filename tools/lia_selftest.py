"""random differential test: whenever the integer translation says unsat, bit-vector z3 must agree"""
import sys,os,random; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vc import lia
def term(r,w,d):
    if d==0 or r.random()<.15:
        return r.choice([z3.BitVec('a%d'%w,w),z3.BitVec('b%d'%w,w),z3.BitVecVal(r.choice([0,1,2,3,(1<<w)-1,1<<(w-1),r.randrange(1<<w)]),w)])
    k=r.randrange(15); x=lambda ww=w:term(r,ww,d-1)
    if k>=13: return z3.Select(arr(r,w,d-1),x())
    if k<3: return x()+x()
    if k==3: return x()-x()
    if k==4: return z3.BitVecVal(r.randrange(1<<w),w)*x()
    if k==5 and w>2: return z3.Concat(x(w-2),x(2))
    if k==6 and w>2: return z3.ZeroExt(w-2,x(2))
    if k==7 and w>2: return z3.SignExt(w-2,x(2))
    if k==8: return z3.Extract(w,1,x(w+2))
    if k==9: return z3.LShR(x(),z3.BitVecVal(r.randrange(w+1),w))
    if k==10: return z3.If(form(r,w,d-1),x(),x())
    if k==11: return r.choice([lambda:~x(),lambda:-x(),lambda:x()<<z3.BitVecVal(r.randrange(w+1),w),lambda:x()^x()])()
    return r.choice([lambda:z3.UDiv(x(),z3.BitVecVal(r.randrange(1,1<<w),w)),lambda:z3.URem(x(),z3.BitVecVal(r.randrange(1,1<<w),w))])()
def arr(r,w,d):
    a=z3.Array('m%d%d'%(w,r.randrange(2)),z3.BitVecSort(w),z3.BitVecSort(w))
    for _ in range(r.randrange(3)): a=z3.Store(a,term(r,w,max(0,d-1)),term(r,w,max(0,d-1)))
    return z3.If(form(r,w,0),a,arr(r,w,0)) if d>0 and r.random()<.2 else a
def form(r,w,d):
    if d>0 and r.random()<.3:
        return r.choice([z3.And,z3.Or])(form(r,w,d-1),form(r,w,d-1)) if r.random()<.7 else z3.Not(form(r,w,d-1))
    a,b=term(r,w,d),term(r,w,d)
    return r.choice([lambda:a==b,lambda:a!=b,lambda:z3.ULT(a,b),lambda:z3.ULE(a,b),lambda:a<b,lambda:a<=b,lambda:z3.UGT(a,b),lambda:a>=b])()
def run(n,seed=1):
    r=random.Random(seed); u=0
    for i in range(n):
        w=r.choice([2,3,4,6]); cs=[form(r,w,3) for _ in range(r.randrange(1,6))]
        so=z3.Solver(); so.add(*cs); bv=so.check()
        if lia.unsat(cs,2000):
            u+=1
            if bv!=z3.unsat: print('UNSOUND',cs); return False
    print('lia: %d formulas, %d unsat by translation, all confirmed'%(n,u)); return True
if __name__=='__main__': sys.exit(0 if run(int(sys.argv[1]) if len(sys.argv)>1 else 3000) else 1)
