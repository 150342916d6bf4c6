import sys,time,collections,traceback; sys.path.insert(0,'/verif')
from multiprocessing import Pool
from vf import ir,ex,kern,fp,dispatch,specs
from vf.kern import *
M={k:ir.Module(open('/tmp/ir/%s.ll'%k).read(),k) for k in ('ops_binary','ops_compare','ops_unary')}
BIN={'add':1,'subtract':2,'multiply':3,'minimum':5,'maximum':6,'floor_divide':9,'true_divide':13,'logical_and':16,'logical_or':18,'bitwise_and':21,'bitwise_xor':22,'bitwise_or':23}
CMPN={'equal':0,'not_equal':1,'less':2,'greater':3,'less_equal':4,'greater_equal':5}
UN={'abs':1,'signbit':2,'fabs':3,'invert':4,'floor':5,'ceil':6,'trunc':7,'rint':8,'negative':9,'sign':11,'sqrt':15,'square':16,'logical_not':18,'isinf':19,'isnan':20,'isfinite':21,'bitwise_not':28}
jobs=[]
for n,o in BIN.items():
  for t in list(range(9))+[12,13]:
    (s,w),=dispatch.lookup(M['ops_binary'],'GetSimpleMathOpFast',[o,t,t])
    if s: jobs.append(('ops_binary',n,t,s,w,2))
for n,o in CMPN.items():
  for t in list(range(9))+[12,13]:
    (s,w),=dispatch.lookup(M['ops_compare'],'GetComparisonOpFast',[o,t,t])
    if s: jobs.append(('ops_compare',n,t,s,w,2))
for n,o in UN.items():
  for t in list(range(9))+[12,13]:
    (s,w),=dispatch.lookup(M['ops_unary'],'GetUnaryOpFast',[o,t])
    if not s: (s,w),=dispatch.lookup(M['ops_unary'],'GetUnaryOpSlow',[o,t])
    if s: jobs.append(('ops_unary',n,t,s,w,1))
def run(j):
    mod,n,t,s,w,k=j
    sp=specs.binary(n,t) if k==2 else specs.unary(n,t)
    if sp is None: return j,None,'no spec',[],0
    fn,ot,tol=sp
    out=[]
    als=[('A','B','C'),('A','A','C'),('A','B','A'),('A','B','B'),('A','A','A')] if k==2 else [('A','C'),('A','A')]
    if SIZE[ot]!=SIZE[t]: als=als[:2] if k==2 else als[:1]
    for al in als:
        S=KSpec(n,[t]*k,ot,fn,al,None,tolerant=tol)
        t0=time.time()
        try: e,u=kern.verify(M[mod],s,S,120)
        except Exception as x:
            out.append((al,'EXC '+traceback.format_exc()[-600:],0,0,[],0)); continue
        bad=[o[:3] for o in e.obls if o[1] is not True]
        out.append((al,u,len(e.obls),len(bad),bad[:2],time.time()-t0))
    return j,ot==w,None,out,0
pat=sys.argv[1] if len(sys.argv)>1 else ''
J=[j for j in jobs if pat in j[0]+':'+j[1]+':'+TNAME[j[2]]]
print(len(jobs),len(J))
t0=time.time()
with Pool(8) as p:
  for j,w,m,out,_ in p.imap_unordered(run,J):
    for o in out:
        if o[1] or o[3]: print(j[1],TNAME[j[2]],o[0],o[1],o[2],o[3],'%.1f'%o[5],str(o[4])[:500])
    if m or not w: print(j,m,w)
    T=sum(o[5] for o in out)
    if T>20: print('slow',j[1],TNAME[j[2]],T)
print('total',time.time()-t0)
