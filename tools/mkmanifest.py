import json,sys
sys.path[:0]=['/verif/lib','/verif/vx']
import props,vrun,gen
g0=gen.build('/verif/vx/all.vx'); US,_=vrun.units(g0.text(),g0.fns)
def theorems(i): return sorted(set(u.name for u in props.roots(i,US)))
props_all=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA=json.load(open('/verif/tools/not_applicable.json'))
NOTE="Verus discharges, for all inputs and histories, the contracts of every function listed in the evidence, extracted from /repo on each run, and the lemmas stating the property over them. Trusted: the items listed under trusted_base (unsafe leaves, std contracts), the extraction rewrites listed in the evidence, Verus/Z3. A function whose changed body cannot be translated or proved within limits falls back to a bounded native search and the evidence then says so."
checks=[]
for p in props_all:
    i=p['id']
    if i in NA: continue
    lv,note,tech=('proof',NOTE,'contract-based deductive verification (Verus) of the extracted real code')
    if i.startswith('G'): 
        g=json.load(open('/verif/tools/glevels.json'))[i]; lv,note,tech=g['level'],g['note'],g['technique']
    checks.append(dict(property=i,quick_cmd='python3 check.py %s quick'%i,thorough_cmd='python3 check.py %s thorough'%i,technique=tech,level=lv,level_note=note,theorems=theorems(i) if i in props.ROOTS else []))
m=dict(version=1,setup_cmd='true',checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes='No hooks: the checks extract the functions from /repo/butte/src and build the crates by path. Every check is self-contained; nothing is kept between runs.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'checks',list(NA))
