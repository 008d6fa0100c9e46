import json,glob,collections,sys
c=collections.Counter()
for f in sorted(glob.glob('/tmp/w/sweep/%s.*.jsonl'%(sys.argv[1] if len(sys.argv)>1 else 'o1'))):
    for l in open(f):
        r=json.loads(l); c[r['res'].split()[0]]+=1
        if r['res'].split()[0] not in('nobuild','caught'): print(r['res'],r['file'],r['line'],r['rule'],'\n   -',r['old'].strip(),'\n   +',r['new'].strip(),'\n   ',r['rcs'])
print(c)
