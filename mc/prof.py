import sys,time,cProfile,pstats
sys.path.insert(0,'/repo'); sys.path.insert(0,'/verif')
from mc import core
m=core.load(sys.argv[1]); core._setup_worker()
import itertools
cs=list(itertools.islice(m.cases('quick'),int(sys.argv[2]),int(sys.argv[2])+300))
rec=core.Rec()
t=time.time()
for c in cs: core.run_one(m,c,rec)
print((time.time()-t)/max(1,rec.execs)*1e3,'ms/exec',rec.execs)
p=cProfile.Profile(); p.enable()
for c in cs: core.run_one(m,c,rec)
p.disable(); pstats.Stats(p).sort_stats('tottime').print_stats(14)
