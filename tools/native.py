import sys; sys.argv=[sys.argv[0]]+sys.argv[1:]
sys.path.insert(0,'/verif'); 
import os
os.environ["OMP_NUM_THREADS"]="1"
import run, json, traceback
from sx import explore
import torch
d=json.load(open(sys.argv[1]))
mod=run.load_prop(d["property"]); c=run.find_conf(mod,d["config"])
env=explore.Env({}, d.get("seed",0), d["env"])
for dt,tol in ((torch.float32,2e-2),(torch.float64,1e-5)):
    try:
        x=explore.run_native(c["fn"],c["cfg"],env,{},dt,tol); print(dt,x.fails)
    except Exception: traceback.print_exc()
