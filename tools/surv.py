import json,sys
n=0
for l in open(sys.argv[1]):
    x=json.loads(l); n+=1
    if 'status' in x:
        if x['status']!='nocompile': print(x['f'],x['line'],x['kind'],x['new'],x['status'][:80])
    elif not x['caught']: print('SURV',x['f'],x['line'],x['kind'],x['old'],'=>',x['new'])
print(n)
