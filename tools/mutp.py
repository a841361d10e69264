#!/usr/bin/env python3
# mutp FILE: python list of (file, old, new, n) with CHECKS=[...] ; parallel
import sys, subprocess, os, shutil, concurrent.futures as cf
g={}; exec(open(sys.argv[1]).read(), g)
D=os.environ.get('CD','/tmp/w/vf/checks'); J=int(os.environ.get('J','7'))
def run(k):
    m=g['M'][k]; f,old,new=m[:3]; n=m[3] if len(m)>3 else 0
    r='/tmp/mp%d'%k; shutil.rmtree(r,True); subprocess.run(['cp','-al','/tmp/mrepo',r],check=True)
    try:
        for ff,oo,nn in (old if isinstance(old,list) else [(f,old,new)]):
            p=r+'/'+(ff or f); s=open(p).read(); idx=-1
            for _ in range(n+1):
                idx=s.find(oo,idx+1)
                if idx<0: return k,'NOT FOUND '+oo
            os.remove(p); open(p,'w').write(s[:idx]+nn+s[idx+len(oo):])
        o=[]
        for c in m[4] if len(m)>4 else g['CHECKS']:
            try: q=subprocess.run(['python3',D+'/%s.py'%c],capture_output=True,text=True,timeout=900,env=dict(os.environ,VP_REPO=r))
            except subprocess.TimeoutExpired: o.append(c+' TIMEOUT'); continue
            out=(q.stdout+q.stderr).strip().split('\n')
            key=[l for l in out if l.startswith('  ') and ':' in l and 'rule' not in l][:1]
            o.append('%s rc %d | %s'%(c,q.returncode,key[0][:150] if key else out[-1][:150]))
        return k,' ; '.join(o)
    finally: shutil.rmtree(r,True)
with cf.ThreadPoolExecutor(J) as ex:
    for k,o in ex.map(run,range(len(g['M']))): print(k,repr(str(g['M'][k][1])[:50]),'->',repr(str(g['M'][k][2])[:40]),':',o,flush=True)
