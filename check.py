#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree.
 1. Verus: the functions of butte/src are extracted, joined with the contracts of vx/ and
    every obligation is discharged (lib/vrun.py).
 2. The same statement is executed on the real crate (native/, debug and release builds):
    this is where a failing input for a failed obligation is looked for, and it stands in,
    labelled bounded, for functions whose proof could not be attempted.
The G properties are decided by gx/run.py: the contracts of cx/ on the functions of butte-build,
the contracts of gx/contracts.py on the code it emits, and execution of the emitted code.
Exit 0: held. Exit 1 with a VIOLATION line: broken."""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,'lib'))
import vrun, props

def say(*a): print(*a,flush=True)

def cargo_env(target):
    e=dict(os.environ); e['CARGO_NET_OFFLINE']='true'; e['CARGO_TARGET_DIR']=target
    for k in('RUSTFLAGS','CARGO_ENCODED_RUSTFLAGS','CARGO_BUILD_RUSTFLAGS'): e.pop(k,None)
    return e

# development only: try the checks on a scratch copy (the registered commands do not set it)
REPO=os.environ.get('BUTTE_REPO','/repo')
def repoint(f):
    if REPO!='/repo':
        t=open(f).read(); open(f,'w').write(t.replace('"/repo/','"'+REPO+'/'))

def native_build(tmp,profile):
    crate=os.path.join(tmp,'native-'+profile)
    shutil.copytree(os.path.join(HERE,'native'),crate,ignore=shutil.ignore_patterns('target'))
    t=os.path.join(tmp,'t-'+profile)
    repoint(os.path.join(crate,'Cargo.toml'))
    p=subprocess.run(['cargo','build','--quiet']+(['--release'] if profile=='release' else []),cwd=crate,env=cargo_env(t),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode: return None,p.stdout[-3000:]
    return os.path.join(t,profile,'nat'),''

def native_run(binary,prop,seed,ms,case=None,timeout=800):
    cmd=[binary,prop,'--seed',str(seed),'--ms',str(ms)]+(['--case',str(case)] if case is not None else [])
    try: p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout)
    except subprocess.TimeoutExpired: return dict(error='timeout',seed=seed)
    try: d=json.loads(p.stdout.strip().split('\n')[-1])
    except Exception:
        # the process died (abort, signal): find the case it died in
        q=subprocess.run(cmd+['--trace'],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout)
        last=[l for l in q.stderr.split('\n') if l.startswith('case ')][-1:]
        if p.returncode<0 or p.returncode in(134,101):
            d=dict(prop=prop,profile='?',cases=0,distinct=0,samples=[],violation=dict(case=int(last[0].split()[1]) if last else 0,input='',detail='the process died (status %d): %s'%(p.returncode,p.stderr[-300:])))
        else: d=dict(error='status %d %s'%(p.returncode,p.stderr[-300:]))
    d['seed']=seed
    return d

def known():
    out=[]
    f=os.path.join(HERE,'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l=l.strip()
            m=re.match(r'known: property=(\S+) probe=(\S+) (.*)',l)
            if m: out.append(dict(property=m.group(1),probe=m.group(2),text=m.group(3)))
    return out

def main():
    prop=sys.argv[1]; tier=(sys.argv[2] if len(sys.argv)>2 else None) or os.environ.get('VERIF_TIER','quick')
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); tmp=tempfile.mkdtemp(prefix='butte-check-',dir='/tmp')
    evd=os.environ.get('BUTTE_EVIDENCE') or os.path.join(HERE,'evidence'); os.makedirs(os.path.join(evd,'replays'),exist_ok=True)
    try: code=decide(prop,tier,seed,t0,tmp,evd)
    finally: shutil.rmtree(tmp,ignore_errors=True)
    sys.exit(code)

def decide(prop,tier,seed,t0,tmp,evd):
    if prop.startswith('G'):
        sys.path.insert(0,os.path.join(HERE,'gx')); import run as grun
        return grun.decide(prop,tier,seed,t0,tmp,evd,REPO,say,GASSUME,lambda pr: gtrusted(pr))
    thorough=tier=='thorough'
    ms=90000 if thorough else 9000
    ex=cf.ThreadPoolExecutor(16)
    fv=ex.submit(vrun.run,tmp,os.path.join(REPO,'butte/src'),6)
    fb={p:ex.submit(native_build,tmp,p) for p in('debug','release')}
    fvac=ex.submit(vacuity,tmp,None if thorough else prop)
    def search(p,s,ms):
        b,err=fb[p].result()
        if b is None: return dict(error='build: '+err,profile=p)
        d=native_run(b,prop,s,ms)
        if d.get('profile')=='?': d['profile']=p
        return d
    runs=[ex.submit(search,p,seed,ms) for p in('debug','release')]
    if thorough and prop!='R13': runs+=[ex.submit(search,p,seed*1000+i,ms) for p in('debug','release') for i in(1,2)]
    v=fv.result()
    nat=[r.result() for r in runs]
    try: vac=fvac.result()
    except BaseException as e: vac=dict(error=str(e),functions=0,refuted=0,vacuous=[])
    replay=os.path.join(evd,'replays',prop+'.txt')
    if os.path.exists(replay): os.remove(replay)

    # ---- obligations of this property
    us=v.units; rs=props.roots(prop,us) if us else []
    names=set(u.name for u in rs)
    cl=vrun.closure(rs,v.byname)
    obl=[u for u in cl if u.kind in('exec','proof') and not u.external and not u.nobody]
    failed={}; upstream={}
    for k,items in v.failed.items():
        if k in names:
            c=props.counts(prop,k,items)
            if c: failed[k]=c
            else: upstream[k]=items
        elif any(u.name==k for u in cl): upstream[k]=items
    clnames=set(u.name for u in cl)|set(u.fkey for u in us if u.fkey and u.external)
    und={k:w for k,w in v.undecided.items() if k in clnames or k in v.g.lost} if v.g else {}
    viol=[d for d in nat if d.get('violation')]
    errs=[d['error'] for d in nat if d.get('error')]

    # ---- a failed obligation: look longer for a failing input
    if not viol and failed and not errs and prop!='R13':
        extra=[ex.submit(search,p,seed*7919+i,60000) for i in range(4) for p in('debug','release')]
        for x in extra:
            d=x.result(); nat.append(d)
            if d.get('violation'): viol.append(d)
    lines=[]
    if viol:
        d=viol[0]
        bd={x.get('profile'):x for x in nat}
        lines=['property %s is violated: failing input found on the real code'%prop,
               'profile: %s build of /repo/butte'%d['profile'],
               'input: '+d['violation']['input'],'observed: '+d['violation']['detail'],
               'replay: (cd /verif/native && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/nat-replay cargo run %s-- %s --seed %d --case %d)'%('--release ' if d['profile']=='release' else '',prop,d['seed'],d['violation']['case'])]
    if failed:
        lines+=['','failed obligations (Verus):']
        for k,items in failed.items():
            for x in items: lines+=['  %s: %s'%(k,x['message']),'    '+x['clause'],x['rendered']]
    code=0
    if lines:
        open(replay,'w').write('\n'.join(lines)+'\n')
        code=1
        tail='' if viol else ' no-failing-input-found'
        for l in lines[:14]: say('  '+l[:400])
        say('VIOLATION property=%s replay=%s%s'%(prop,replay,tail))
    # ---- evidence
    if v.status=='none':
        say('UNDECIDED: no obligation could be generated (%s); bounded search only'%v.why)
    for k,w in und.items(): say('UNDECIDED: %s: %s; bounded search only'%(k,w))
    for k in upstream: say('NOTE: a contract %s relies on does not verify: %s'%(prop,k))
    for e in errs: say('NOTE: native search: '+e[:600])
    kf=[]
    if code==0 and not errs:
        for k in known():
            if k.get('property')==prop and probe(fb,k.get('probe')):
                say('KNOWN-FINDING: property=%s %s'%(prop,k['text'])); kf.append(k['text'])
    bad=set(failed)|set(upstream)|set(und)
    discharged=[u for u in obl if u.name not in bad] if v.status!='none' else []
    cmd='python3 /verif/vx/gen.py all.vx all.rs && '+(v.cmd or 'verus all.rs')
    vacuous=[k for k in vac['vacuous'] if k in names and k not in bad] if v.status!='none' else []
    if vacuous: say('NOTE: contradictory preconditions: %s'%vacuous)
    level='proof' if v.status!='none' and not bad and not vacuous and len(obl)>0 else 'other'
    scan=trusted(v)
    cov=dict(obligations=len(obl),discharged=len(discharged),checker_cmd=cmd,trusted_base=scan,
        functions_under_contract=sorted(u.fkey for u in cl if u.fkey and not u.external),
        lemmas=sorted(set(u.name for u in cl if u.kind=='proof' and not u.fkey)),
        backend='Verus (Z3): whole file %d units verified, %d ms SMT, %.1f s wall, %d round(s)'%(v.verified,v.smt_ms,v.wall,v.rounds),
        rewrites=sorted(v.g.log) if v.g else [],
        native=[{k:d.get(k) for k in('profile','seed','cases','distinct','error')} for d in nat],
        samples=[s for d in nat for s in d.get('samples',[])][:4],
        vacuity=vac)
    if level=='other':
        cov['explanation']='bounded: not every obligation was discharged in this run; for these functions only the native search stands in: '+json.dumps({**{k:str(w) for k,w in und.items()},**{k:'obligation failed' for k in failed},**{k:'obligation failed (another property)' for k in upstream}, **({'*':v.why} if v.status=='none' else {})})
    ev=dict(property=prop,tier=tier,seed=seed,level=level,coverage=cov,assumptions=ASSUME+['known finding: '+x for x in kf],wall_s=round(time.time()-t0,1),violations=1 if code else 0)
    json.dump(ev,open(os.path.join(evd,prop+'.json'),'w'),indent=1)
    say('%s %s: %d/%d obligations discharged (%d functions under contract), native cases %s, %.0f s'%(prop,'VIOLATED' if code else 'holds',len(discharged),len(obl),len(cov['functions_under_contract']),[d.get('cases') for d in nat],time.time()-t0))
    return code

ASSUME=['64-bit little-endian target; usize is 64 bits','Verus, Z3, rustc and the extraction in vx/ are sound',
 'input buffers are shorter than 2^63 bytes, as Rust guarantees for slices',
 'AsRef<[u8]> returns the same bytes each time','SmallVec behaves as Vec','debug_assert and assert are treated as checks that panic']

GASSUME=ASSUME+['the emitted items are taken over token by token, except for the rewrites listed at the top of gx/contracts.py',
 'derived Clone, Copy and PartialEq of emitted enums are structural',
 'the contracts of the runtime functions that emitted code calls: they are discharged by the R checks, not again here',
 'the emitted code is checked for the schemas of this run (all values of each), not for every schema at once; the functions of the compiler listed under compiler are checked for every schema',
 'the functions of the parser listed under parser are checked for every text, against the meaning of the nom combinators stated in px/base.vx and px/pxgen.py; the kind and place of parse errors are not part of it',
 'what the compiler does between these functions (the grouping at the end of Builder::build, quote! templates) is covered by the schemas of this run only']
def gtrusted(pr):
    class V: pass
    v=V(); v.g=None
    if hasattr(pr,'fns') and hasattr(pr,'text'): v.g=pr; return trusted(v)
    if not getattr(pr,'base',None): return ['(no file was generated)']
    class T:
        def text(s): return pr.base
    v.g=T()
    return [x for x in trusted(v)]

def trusted(v):
    """mechanical scan of the checked file"""
    import re
    if not v.g: return ['(no file was generated)']
    out=[]; ls=v.g.text().split('\n')
    for i,l in enumerate(ls):
        if 'external_body' in l or 'external_trait_specification' in l or 'external_type_specification' in l:
            j=i
            while j<len(ls)-1 and not re.search(r'\b(fn|trait|struct)\s+\w+',ls[j]): j+=1
            m=re.search(r'\b(?:fn|trait|struct)\s+(\w+)',ls[j]); out.append('trusted contract: '+(m.group(1) if m else l))
        m=re.search(r'assume_specification[^\[]*\[\s*([^\]]*?)\s*\]',l)
        if m: out.append('assumed std contract: '+m.group(1))
        m=re.search(r'\baxiom fn (\w+)',l)
        if m: out.append('axiom: '+m.group(1))
        if re.search(r'\b(admit|assume)\s*\(',l): out.append('assumption in proof: '+l.strip())
    return sorted(set(out))

def vacuity(tmp,prop):
    """every function's body starts with assert(false): each must fail, or its precondition is contradictory"""
    import gen,re
    vx=os.path.join(HERE,'vx','all.vx')
    g=gen.build(vx,repo=os.path.join(REPO,'butte/src')); us,_=vrun.units(g.text(),g.fns)
    roots=set(u.fkey for u in props.roots(prop,us) if u.fkey) if prop else set(u.fkey for u in us if u.fkey)
    g=gen.build(vx,repo=os.path.join(REPO,'butte/src'),vacuity=True,external=frozenset(u.fkey for u in us if u.fkey and u.fkey not in roots))
    text=strip_proofs(g.text())
    p=os.path.join(tmp,'vac.rs'); open(p,'w').write(text)
    out,errs,cmd,raw=vrun.verus(p,threads=4)
    us,_=vrun.units(text,g.fns)
    hit=set()
    for d in errs:
        for s in d['spans']:
            for u in us:
                if u.start<=s['line_start']<=u.end: hit.add(u.name)
    todo=[u for u in us if u.fkey in roots and not u.external and not u.nobody and not re.match(r'[A-Z_]+$',u.name.split('::')[-1])]
    vac=[u.name for u in todo if u.name not in hit]
    return dict(functions=len(todo),refuted=len(todo)-len(vac),vacuous=vac)

def strip_proofs(text):
    """the lemmas are not checked again in the vacuity run"""
    import re
    return re.sub(r'(?m)^(#\[verifier::spinoff_prover\] )((?:pub )?proof fn)',r'#[verifier::external_body] \2',text)

def probe(fb,name):
    if not name: return True
    b,_=fb['release'].result()
    p=subprocess.run([b,'probe',name],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=60)
    return p.returncode==0 and 'PRESENT' in p.stdout

if __name__=='__main__': main()
