#!/bin/bash
# Applies each planted bug to a scratch copy of /repo/src, runs its property's check on it, records the outcome. Not used by any check.
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V"
python3 - "$@" <<'P'
import json,os,subprocess,tempfile,shutil,glob,sys
V=os.getcwd(); f=V+'/tools/seeded_results.json'
try: res=json.load(open(f))
except OSError: res={}
ids=sys.argv[1:] or sorted(os.path.basename(os.path.dirname(m)) for m in glob.glob('seeded/*/meta.json'))
for i in ids:
    w=tempfile.mkdtemp(prefix='vf_seed_'); subprocess.run(['cp','-a','/repo/src',w]); 
    r=subprocess.run(['git','apply','--directory='+'',V+'/seeded/%s/patch.diff'%i],cwd=w,capture_output=True,text=True)
    p=json.load(open('seeded/%s/meta.json'%i))['property']
    if r.returncode: res[i]='patch does not apply'
    else:
        c=subprocess.run(['python3','engine/check.py',p,'--tier','quick'],env=dict(os.environ,VF_REPO=w),capture_output=True,text=True)
        v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        res[i]='yes (%s)'%v[0].split('/')[-2] if c.returncode==1 and v else 'NO (exit %d)'%c.returncode
    print(i,res[i],flush=True); shutil.rmtree(w)
res={k:v for k,v in res.items() if os.path.exists('seeded/%s'%k)}
json.dump(res,open(f,'w'),indent=1,sort_keys=True)
P
