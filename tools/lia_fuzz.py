import sys,time,z3,random; sys.path[:0]=['/verif/irv']
import lia
R=random.Random(int(sys.argv[1]))
f=z3.Function('f',z3.BitVecSort(8),z3.BitVecSort(8))
A=z3.Array('A',z3.BitVecSort(8),z3.BitVecSort(8))
vs={8:[z3.BitVec('x%d'%i,8) for i in range(3)],16:[z3.BitVec('y%d'%i,16) for i in range(2)]}
def arr(d): 
    if d<=0 or R.random()<.4: return A
    return R.choice([lambda:z3.Store(arr(d-1),term(8,d-1),term(8,d-1)),lambda:z3.If(form(d-1),arr(d-1),arr(d-1)),lambda:z3.K(z3.BitVecSort(8),term(8,d-1))])()
def term(w,d):
    if d<=0 or R.random()<.15:
        return R.choice(vs[w]) if R.random()<.7 else z3.BitVecVal(R.choice([0,1,2,3,5,-1,-2,127,128,100,R.randrange(1<<w)]),w)
    o=[lambda:term(w,d-1)+term(w,d-1),lambda:term(w,d-1)-term(w,d-1),lambda:-term(w,d-1),lambda:term(w,d-1)*R.choice([2,3,-1,5]),lambda:z3.If(form(d-1),term(w,d-1),term(w,d-1)),lambda:term(w,d-1)&term(w,d-1)]
    if w==16: o+=[lambda:z3.Extract(13,6,term(16,d-1)) if 0 else z3.SignExt(8,term(8,d-1)),lambda:z3.ZeroExt(8,term(8,d-1))]*2+[lambda: z3.Concat(term(8,d-1),term(8,d-1))]
    else: o+=[lambda:z3.Extract(7,0,term(16,d-1)),lambda:z3.Extract(11,4,term(16,d-1)),lambda:z3.Extract(10,3,z3.Concat(term(8,d-1),term(8,d-1))),lambda:z3.Extract(15,8,z3.Concat(term(8,d-1),term(8,d-1))),lambda:f(term(8,d-1)),lambda:z3.Select(arr(d-1),term(8,d-1))]
    return R.choice(o)()
def form(d):
    w=R.choice([8,16])
    if d>0 and R.random()<.3:
        return R.choice([lambda:z3.And(form(d-1),form(d-1)),lambda:z3.Or(form(d-1),form(d-1)),lambda:z3.Not(form(d-1)),lambda:z3.Implies(form(d-1),form(d-1)),lambda:form(d-1)==form(d-1)])()
    a,b=term(w,d-1),term(w,d-1)
    return R.choice([lambda:a<b,lambda:a<=b,lambda:a>b,lambda:a>=b,lambda:z3.ULT(a,b),lambda:z3.ULE(a,b),lambda:z3.UGT(a,b),lambda:z3.UGE(a,b),lambda:a==b,lambda:a!=b])()
st={}
t0=time.time()
while time.time()-t0<100:
    cs=[form(2) for _ in range(R.randrange(2,9))]+[z3.And(R.choice(vs[8])>=R.randrange(-5,3),R.choice(vs[8])<R.randrange(3,40)) for _ in range(R.randrange(3))]
    if R.random()<.5: cs=[z3.simplify(c) for c in cs]
    s=z3.Solver(); s.set('timeout',3000); s.add(*cs); r=str(s.check()); q=lia.refute(cs,3000)
    st[(r,q)]=st.get((r,q),0)+1
    if r=='sat' and q: print('UNSOUND',cs); break
print(st)
