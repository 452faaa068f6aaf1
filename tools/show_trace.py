import sys,re,json,collections
tr=[json.loads(x) for x in open(sys.argv[1])]
txt=open(sys.argv[2]).read()
m='"RESULT"' in txt
print(txt[-1500:] if not m else 'ok')
bad=re.findall(r'<<(\d+), \{([^}]*)\}>>',txt)
c=collections.Counter(); ex={}
store={}
geo={}
for n,e in enumerate(tr,1):
    e['_g']={}
    if e['e']=='new': store[e['im']['id']]=e['im']
    if e['e']=='call':
        e['_g']={s:[store.get(s,{}).get(k) for k in('w','h','cc','al','rs')] for s in e['i']+e['o']}
        for x in e['ch']: store[x['id']]=x
for l,r in bad:
    e=tr[int(l)-1]
    if e['e']!='call': print(l,r,e);continue
    ccs=','.join(str(e['_g'][s][2]) for s in e['i'])
    k=(e['op'],e['v'],e['f'],ccs,e['t'],r); c[k]+=1; ex.setdefault(k,[]).append((l,e))
for k,n in sorted(c.items()):
    l,e=ex[k][0]
    print(n,k,'line',l,{x:(y if len(str(y))<200 else str(y)[:200]) for x,y in e.items() if x not in('ch','e','op','v','f')},e['_g'])
