import sys,json,time
sys.path.insert(0,'/verif')
from sim import driver
prop,seed=sys.argv[1],sys.argv[2]
mod=driver.load(prop)
if seed.startswith('d'):
    scn=dict(mod.directed()[int(seed[1:])],seed=int(seed[1:]))
else: scn=driver.scenario_for(mod,int(seed))
scn['keep_log']=True
print(json.dumps(scn)[:1500])
r=driver.Pool(mod,1).map([scn])[0]
print('\n'.join(r.get('log',[])[-int(sys.argv[3]) if len(sys.argv)>3 else -60:]))
print({k:v for k,v in r.items() if k not in('log','out')})
for k,v in r.get('out',{}).items(): print('--',k); print(v[-800:])
