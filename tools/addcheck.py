import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(V+'/checks.json'))
i=sys.argv[1]
c[i]=dict(c.get(i,{}),**json.loads(sys.argv[2]))
json.dump(c,open(V+'/checks.json','w'),indent=1,sort_keys=True)
