import json,glob,sys
sys.path.insert(0,'/tmp/w/sweep'); sys.argv=['x','3','100']
import gen
MAP={'protocols/key_init.rs':'C02 C01 C12 C10','protocols/aux_gen.rs':'C03 C09 C11 C12 C10','protocols/key_refresh.rs':'C04 C09 C11 C12 C10','protocols/key_resharing.rs':'C05 C11 C12','protocols/interactive_signing.rs':'C08 C11 C09 C12 C10','entities/full.rs':'C04 C31 C06 C28 C12 C08','entities/threshold.rs':'C06 C07 C31 C05','entities/internal.rs':'C06','tools/sss.rs':'C06 C05 C31'}
done=set()
for f in glob.glob('/tmp/w/sweep/o2.*.jsonl'):
    for l in open(f):
        r=json.loads(l); done.add((r['file'],r['line'],r['new']))
for f in MAP:
    L,ms=gen.mutants(f)
    for m in ms:
        s=L[m[0]].strip()
        if m[2] in('disable if','drop stmt','drop chain') or 'verify_that' in s:
            if (f,m[0],m[1]) in done: continue
            print(json.dumps(dict(file=f,line=m[0],new=m[1],rule=m[2],old=L[m[0]],checks=MAP[f])))
