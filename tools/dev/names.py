import sys,json,copy; sys.path.insert(0,'/verif/tools/vx')
import gen,inline,names,rs,os
src=sys.argv[1] if len(sys.argv)>1 else '/repo/src'
files,_=gen.load_sources(src)
out={}
specs=[gen.read_contracts(os.path.join(gen.PROOF,m)) for m in sorted(os.listdir(gen.PROOF)) if m.endswith('.spec')]
cons=[x for ps in specs for k,x in ps if k=='fn']
cand=inline.candidates(files,cons)
for c in cons:
    fn=gen.find_fn(files,c)
    if cand and not fn.bad:
        fn=copy.copy(fn); fn.whole=inline.expand(fn.whole,cand)
    out[c.id()]=' '.join(s for s,_ in names.tokens(fn))
json.dump(out,open('/verif/proof/names.json','w'),indent=0,sort_keys=True); print(len(out))
