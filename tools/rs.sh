#!/bin/bash
# usage: rs.sh SET [ONLY] [timeout]
cd /verif
python3 - "$1" "$2" "${3:-300}" <<'P'
import sys,os,json,subprocess
sys.path.insert(0,'/verif')
import check,defs
b=defs.dist_bin()
e=dict(os.environ); e['SIM_VERBOSE']='1'
if sys.argv[2]: e['SIM_ONLY']=sys.argv[2]
try:
    r=subprocess.run([b[0],sys.argv[1]]+b[1:],env=e,stdout=subprocess.PIPE,timeout=float(sys.argv[3]))
except subprocess.TimeoutExpired: print("TIMEOUT"); sys.exit()
print('rc',r.returncode)
for l in r.stdout.decode(errors='replace').splitlines():
    if l.startswith('RESULT '):
        m=json.loads(l[7:])
        print({k:m[k] for k in ('states','transitions','validated','truncated','wall')})
        for v in m['violations'][:int(os.environ.get('NV','6'))]:
            print('-----',v['sig']); print(v['text'][:int(os.environ.get('NT','6000'))])
    else: print(l)
P
