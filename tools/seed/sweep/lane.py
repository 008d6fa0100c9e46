# inside the namespace: /repo and /verif are private
import json,subprocess,sys,os,time
sys.path.insert(0,'/tmp/w/sweep')
lane,n,jobs,out=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3],sys.argv[4]
J=[json.loads(l) for l in open(jobs)]
env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick')
def sh(c,t=900):
    p=subprocess.Popen(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True,env=env)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return None,'timeout'
done=set()
if os.path.exists(out): done={json.loads(l)['id'] for l in open(out)}
for k,j in enumerate(J):
    if k%n!=lane or k in done: continue
    p='/repo/src/'+j['file']; orig=open(p).read(); L=orig.split('\n')
    assert L[j['line']]==j['old'],(j)
    L[j['line']]=j['new']
    t=time.time(); r=dict(id=k,**j)
    try:
        open(p,'w').write('\n'.join(L))
        rc,o=sh('bash /verif/tools/build.sh')
        if rc!=0: r['res']='nobuild'
        else:
            r['res']='SURVIVED'; r['rcs']=[]
            for c in j['checks'].split():
                rc,o=sh('cd /verif && python3 tools/check.py %s --tier quick'%c)
                r['rcs'].append((c,rc))
                if rc==1: r['res']='caught '+c; break
                if rc!=0: r['out']=o[-600:]
    finally:
        open(p,'w').write(orig)
    r['secs']=round(time.time()-t)
    open(out,'a').write(json.dumps(r)+'\n')
