#!/usr/bin/env python3
"""Derives the multi-problem Squirrel calls of the corpus from /repo's example dumps: the query
becomes a `diff` of n different goals.  Run once; the results are committed."""
import json,os,sys
src='/repo/tests/rust/squirrel-json-parsing/'
dst=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','corpus')
def fun(s): return {"Fun":{"symb":{"npath":{"npath":[],"id":0},"symb":s,"id":21}}}
def app(f,*a): return {"App":{"f":fun(f),"args":list(a)}}
for base in ('full1','canauth'):
    if not os.path.exists(src+base+'.json'): continue
    d=json.load(open(src+base+'.json'))
    q=d['context']['query']
    goals=[q, app('not',q), app('||',q,app('not',q)), app('&&',q,q)]
    a,b=app('not',q),app('||',q,app('not',q))
    while len(goals)<13: a,b=b,app('&&' if len(goals)%2 else '||',a,app('not',b) if len(goals)<8 else q); goals.append(b)
    for n in (1,2,3,4)+((13,) if base=='full1' else ()):
        e=json.loads(json.dumps(d))
        if n>1:
            e['context']['query']={"Diff":{"terms":[{"proj":x,"term":t} for x,t in zip(["left","mid","right","rright"]+["s%d"%j for j in range(9)],goals[:n])]}}
        json.dump(e,open(os.path.join(dst,f'sq-{base}-{n}.json'),'w'),separators=(',',':'),ensure_ascii=False)
