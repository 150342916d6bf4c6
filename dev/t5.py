import sys; sys.argv=['x','zzzz']
exec(open('/tmp/t4.py').read().split("pat=sys")[0])
import cProfile,pstats
j=[j for j in jobs if j[1]=='bitwise_or' and j[2]==I16][0]
fn,ot,tol=specs.binary(j[1],j[2])
S=KSpec('x',[I16]*2,ot,fn,('A','B','A'),None)
pr=cProfile.Profile(); pr.enable()
e,u=kern.verify(M['ops_binary'],j[3],S,40)
pr.disable()
print(u,len(e.obls),e.nq,e.solver_s)
pstats.Stats(pr).sort_stats('cumtime').print_stats(25)
