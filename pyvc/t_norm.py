import sys; sys.path.insert(0,'/verif/pyvc')
from terms import *
import terms as tm
from solve import *
x=var('x','R');y=var('y','R');z=var('z','R');l=var('l','I');m=var('m','I');N=var('N','I')
def S(f,a): return app(f,(a,),'R')
sin=lambda a:S('sin',a); cos=lambda a:S('cos',a)
p=Prover([le(ZERO,m),le(m,l)])
assert p.prove_zero(add(power(sin(x),num(2)),power(cos(x),num(2)),num(-1)))
assert p.prove_zero(sub(cos(add(x,y)),sub(mul(cos(x),cos(y)),mul(sin(x),sin(y)))))
assert p.prove_zero(sub(cos(neg(x)),cos(x)))
assert p.prove_zero(sub(mul(sqrt(num(2)),sqrt(num(2))),num(2)))
f=lambda t: app('fact',(t,),'R')
c2=mul(div(add(mul(num(2),l),ONE),mul(num(4),PI)),div(f(sub(l,m)),f(add(l,m))))
c=sqrt(c2)
g=mul(div(sqrt(add(mul(num(2),l),ONE)),sqrt(mul(num(4),PI))),sqrt(f(sub(l,m))),power(sqrt(f(add(l,m))),num(-1)))
assert p.prove_zero(sub(c,g))
assert p.prove_zero(sub(mul(power(num(-1),m),power(num(-1),m)),ONE))
r2=add(mul(x,x),mul(y,y),mul(z,z)); r=sqrt(r2)
pp=Prover([lt(ZERO,r2), or_(ne(x,ZERO),ne(y,ZERO))])
th=S('arccos',div(z,r)); ph=app('atan2',(y,x),'R')
assert pp.prove_zero(sub(mul(r,sin(th),cos(ph)),x))
assert pp.prove_zero(sub(mul(r,cos(th)),z))
pp=Prover([lt(ZERO,x),lt(ZERO,y),lt(y,PI),lt(ZERO,sin(y)),lt(neg(PI),z),lt(z,PI)])
X=mul(x,sin(y),cos(z));Y=mul(x,sin(y),sin(z));Z=mul(x,cos(y))
R=sqrt(add(mul(X,X),mul(Y,Y),mul(Z,Z)))
assert pp.prove_zero(sub(R,x))
assert pp.prove_zero(sub(S('arccos',div(Z,R)),y))
assert pp.prove_zero(sub(app('atan2',(Y,X),'R'),z))
# sums
a=lambda n: app('a',(n,),'R'); b=lambda n: app('b',(n,),'R'); 
n=fresh('n','I')
S1=binder('sum',(n,),(ZERO,),(N,),TRUE,add(mul(x,a(n)),b(n)))
S2=binder('sum',(n,),(ZERO,),(N,),TRUE,a(n)); S3=binder('sum',(n,),(ZERO,),(N,),TRUE,b(n))
assert p.prove_zero(sub(S1,add(mul(x,S2),S3)))
d=lambda n: app('deg',(n,),'I')
S4=binder('sum',(n,),(ZERO,),(N,),eq(d(n),ONE),a(n)); S5=binder('sum',(n,),(ZERO,),(N,),TRUE,ite(eq(d(n),ONE),a(n),ZERO))
print(p.prove_zero(sub(S4,S5)))
assert not p.prove_zero(sub(S4,S2))
print(p.refute_zero(sub(S4,S2)))
assert not p.prove_zero(sub(c,mul(g,num(2))))
print(STATS)
