"""Decides G01..G06 and G08: see gx/contracts.py (proof obligations on emitted code), gx/harness.py (execution),
gx/corpus.py (schemas), gx/model.py (what a schema means)."""
import concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, time
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
for d in('lib','vx','gx','cx','px'): sys.path.insert(0,os.path.join(VERIF,d))
import gen, vrun, corpus, contracts, harness, model, cxrun, pxrun

def sh(cmd,timeout=800,**k):
    try: return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout,**k)
    except subprocess.TimeoutExpired: return None
def env(target):
    e=dict(os.environ); e['CARGO_NET_OFFLINE']='true'; e['CARGO_TARGET_DIR']=target; e['RUST_MIN_STACK']=str(1<<28)
    for k in('RUSTFLAGS','CARGO_ENCODED_RUSTFLAGS','CARGO_BUILD_RUSTFLAGS'): e.pop(k,None)
    return e

# ---------------------------------------------------------------- the compiler
def compiler(tmp,repo,features=()):
    """butte-build of the tree, as a program that compiles every .fbs of a directory"""
    d=os.path.join(tmp,'gdrv'); shutil.copytree(os.path.join(VERIF,'gdrv'),d,ignore=shutil.ignore_patterns('target'))
    f=os.path.join(d,'Cargo.toml'); t=open(f).read(); open(f,'w').write(t.replace('"/repo/','"'+repo+'/'))
    p=sh(['cargo','build','--quiet']+(['--features',','.join(features)] if features else []),cwd=d,env=env(os.path.join(tmp,'t-gdrv')))
    if p is None or p.returncode: return None,(p.stderr[-1500:] if p else 'timeout')
    return os.path.join(tmp,'t-gdrv','debug','gdrv'),''
def emit(drv,cs,d):
    """{schema name: (text or None, error)}"""
    os.makedirs(d,exist_ok=True)
    for s in cs: open(os.path.join(d,s.name+'.fbs'),'w').write(s.fbs)
    p=sh([drv,d],timeout=300)
    out={}
    for s in cs:
        a,b=(os.path.join(d,s.name+x) for x in('.rs','.err'))
        if os.path.exists(a): out[s.name]=(open(a).read(),None)
        elif os.path.exists(b): out[s.name]=(None,open(b).read())
        else: out[s.name]=(None,'the compiler did not come back (%s)'%('timeout' if p is None else 'status %d'%p.returncode))
    return out

def marks(text):
    """{number: module path} of the marks the recording generator left"""
    out={}; st=[]; mod=None
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|\bmod (\w+) (?=\{)|BUTTE_MARK_(\d+)|[{}]',text):
        x=m.group(0)
        if m.group(1): mod=m.group(1)
        elif m.group(2): out.setdefault(int(m.group(2)),[]).append([y for y in st if y])
        elif x=='{': st.append(mod); mod=None
        elif x=='}' and st: st.pop()
    return out
def services(drv,cs,d):
    """the services a recording RpcGenerator is given, against the schemas; [(schema, what)]"""
    em=emit(drv,cs,d); viol=[]; n=0
    for s in cs:
        t,e=em[s.name]; rec=os.path.join(d,s.name+'.rpc'); rec=open(rec).read() if os.path.exists(rec) else ''
        if s.valid and t is None: viol.append((s.name,'a legal schema is refused: '+e)); continue
        if not s.valid:
            if t is not None: viol.append((s.name,'accepted although it is '+s.why))
            continue
        got=[]
        for l in rec.split('\n'):
            c=l.split('\t')
            if c[0]=='S': got.append([c])
            elif c[0]=='M': got[-1].append(c)
        want=sorted(x.record() for x in s.items if isinstance(x,model.Rpc)); mk=marks(t); n+=sum(len(x) for x in want)
        if sorted(got)!=want:
            a=[x for x in want if got.count(x)!=want.count(x)][:1]; b=[x for x in got if got.count(x)!=want.count(x)][:1]
            viol.append((s.name,'the service generator is given %s where the schema says %s'%(' / '.join(' '.join(y) for y in b[0]) if b else 'nothing',' / '.join(' '.join(y) for y in a[0]) if a else 'nothing'))); continue
        for i,g in enumerate(got):
            it=[x for x in s.items if isinstance(x,model.Rpc) and x.record()==g][0]
            if mk.get(i)!=[it.mods()]: viol.append((s.name,'the code of service %s lands in %s, not in module %s'%(it.full(),mk.get(i),it.mods()))); break
    return viol,n,em

# ---------------------------------------------------------------- the proofs
class Proof:
    def __init__(self): self.failed={}; self.undecided={}; self.verified=0; self.fns=[]; self.smt_ms=0; self.rounds=0; self.cmd=''; self.why=''; self.shards=0; self.lemmas=0; self.trusted=[]
def shard(k,tmp,base,parts,gpre,threads,timeout,seed=None):
    """one Verus process: parts is [C]"""
    text=base[0]+'pub mod gcode {\n'+'\n'.join(c.text() for c in parts)+'}\n'+base[1]
    path=os.path.join(tmp,'g%d.rs'%k); open(path,'w').write(text)
    mods=[m for c in parts for m in c.mods]+(['gpre'] if gpre else [])
    extra=(['--rlimit','30'] if seed is None else ['--rlimit','60','--smt-option','smt.random_seed=%d'%seed])+[x for m in mods for x in('--verify-module',m)]
    os.environ['RUST_MIN_STACK']=str(1<<29)
    return text,vrun.verus(path,extra=extra,timeout=timeout,threads=threads)
def where(lines,n):
    """(function or None, schema or None) at line n"""
    fn=None; sch=None; i=n-1; closed=False
    while i>=0:
        l=lines[i]
        if fn is None and not closed:
            if l.startswith('//#fn '): fn=l[6:].strip()
            elif l.startswith('//#endfn') and i<n-1: closed=True
        m=re.match(r'//#schema (\w+)',l)
        if m: sch=m.group(1); break
        i-=1
    return fn,sch
def verify(tmp,repo,pairs,nproc=7,budget=None,timeout=500,log=print,settled=lambda: False):
    """pairs: [(schema, emitted text)]"""
    r=Proof(); t0=time.time()
    try:
        g=gen.build(os.path.join(VERIF,'vx','all.vx'),repo=os.path.join(repo,'butte/src'))
        g=gen.build(os.path.join(VERIF,'vx','all.vx'),repo=os.path.join(repo,'butte/src'),external=frozenset(f['name'] for f in g.fns))
        a=g.text()
    except BaseException as e:
        if isinstance(e,KeyboardInterrupt): raise
        r.why='extraction of the runtime: %s: %s'%(type(e).__name__,e); return r
    r.g=g
    i=a.rindex('#[verifier::spinoff_prover] fn main')
    base=(a[:i]+open(os.path.join(HERE,'prelude.vx')).read(),a[i:])
    # the proof of create is quadratic in the number of fields
    ext={}; dropped={}
    for s,_ in pairs:
        for x in s.items:
            if isinstance(x,contracts.Table) and len(x.fields)>100: ext.setdefault(s.name,{})['::'.join([s.name]+x.mods()+[x.rname,'create'])]='create of a table with more than 100 fields: not attempted'
    todo=dict((s.name,(s,t)) for s,t in pairs); first=True; done={}
    again={}; retry=False; bad=set(); was=set()
    while r.rounds<6 and todo and time.time()-t0<timeout:
        r.rounds+=1; parts=[]
        for n,(s,t) in todo.items():
            if n in dropped: continue
            try: parts.append(contracts.annotate(s,t,frozenset(ext.get(n,()))))
            except contracts.Odd as e: dropped[n]='outside the contract generator: %s'%e
        parts.sort(key=lambda c:-len(c.names))
        if budget and first:
            tot=0; keep=[]
            for c in sorted(parts,key=lambda c: c.s.name.startswith('rnd')):
                if tot+len(c.names)>budget and keep: dropped[c.s.name]='beyond the size limit of this tier'; continue
                tot+=len(c.names); keep.append(c)
            parts=sorted(keep,key=lambda c:-len(c.names))
        tot=sum(len(c.names) for c in parts)
        k=max(1,min(nproc,tot//120+1,len(parts) or 1)); bins=[[] for _ in range(k)]; w=[0]*k
        for c in parts: j=w.index(min(w)); bins[j].append(c); w[j]+=len(c.names)+3
        bins=[b for b in bins if b]
        if first: r.shards=len(bins)
        todo={}
        with cf.ThreadPoolExecutor(len(bins) or 1) as ex:
            fs=[ex.submit(shard,j,tmp,base,b,first and j==0,max(1,8//len(bins)),timeout,7 if retry else None) for j,b in enumerate(bins)]
            for b,f in zip(bins,fs):
                text,(out,errs,cmd,raw)=f.result(); lines=text.split('\n'); r.cmd=r.cmd or re.sub(r'( --verify-module \S+)+',' --verify-module ...',cmd)
                if raw=='timeout' and out is None:
                    for c in b: dropped[c.s.name]='time limit'
                    continue
                bd=(out or {}).get('verification-results',{})
                comp=[]; mine={}
                for d in errs:
                    m=d['message']
                    if m.startswith('aborting'): continue
                    lim=bool(vrun.LIMIT.search(m))
                    if not lim and not (vrun.FAIL.match(m) and not d.get('code')): comp.append(d); continue
                    sp=[s for s in d['spans'] if re.search(r'at the end of the function body|at this exit|at this call-site|at this (loop|point)',s.get('label') or '')]+[s for s in d['spans'] if s['is_primary']]+d['spans']
                    hit=None
                    for s in sp:
                        fn,sc=where(lines,s['line_start'])
                        if fn: hit=(fn,sc); break
                        if sc and not hit: hit=(sc+'::(lemma)',sc)
                    if not hit: hit=('gpre (lemma)',None)
                    clause=' / '.join(' '.join(x['text'].strip() for x in s['text'][:3])[:200] for s in d['spans'])
                    mine.setdefault(hit,[]).append(dict(message=m,clause=clause,limit=lim,rendered=d.get('rendered','')[:2500]))
                if comp or out is None or bd.get('encountered-vir-error'):
                    seen=set()
                    for d in comp:
                        ls=[s['line_start'] for s in d['spans'] if s['is_primary']] or [s['line_start'] for s in d['spans']]
                        for n in ls[:1]:
                            fn,sc=where(lines,n)
                            if fn and fn not in ext.get(sc,()): ext.setdefault(sc,{})[fn]='not in the verified subset: '+vrun.m_short(d); seen.add(sc)
                            elif sc: dropped[sc]='not in the verified subset: '+vrun.m_short(d); seen.add(sc)
                    if not seen:
                        if len(b)==1: dropped[b[0].s.name]='translation: '+(vrun.m_short(comp[0]) if comp else raw[-200:])
                        elif not comp and out is None or r.rounds>=3:
                            for c in b: dropped[c.s.name]='translation: '+(vrun.m_short(comp[0]) if comp else raw[-200:])
                    for c in b:
                        if c.s.name not in dropped: todo[c.s.name]=(c.s,dict((s.name,t) for s,t in pairs)[c.s.name])
                    continue
                if not retry: r.verified+=bd.get('verified',0)
                tm=(out or {}).get('times-ms',{}).get('smt',{}); r.smt_ms+=tm.get('total',0)
                for c in b:
                    if c.s.name not in done: r.fns+=[n for n in c.names if n not in ext.get(c.s.name,())]; done[c.s.name]=c
                wk={}
                for c in b: wk.update(c.weak)
                for (fn,sc),items in mine.items():
                    if retry and fn in was: again[fn]=items
                    elif all(x['limit'] for x in items): r.undecided[fn]='resource limit'
                    elif sc is None: r.undecided[fn]='a lemma over the runtime contracts does not verify: '+items[0]['message']
                    elif fn in wk: r.undecided[fn]=wk[fn]+'; unproved: '+items[0]['message']
                    elif retry: again[fn]=[x for x in items if not x['limit']]
                    else: r.failed[fn]=[x for x in items if not x['limit']]; bad.add(sc)
        first=False
        # an obligation counts as failed only if it fails again on its own, with another solver seed
        if retry: again.update((k,v) for k,v in r.failed.items() if not any(k.startswith(c.s.name+'::') for c in parts) or any(k.startswith(n+'::') for n in dropped)); r.failed={k:v for k,v in r.failed.items() if k in again}; r.verified+=len([k for k in was if k not in again])
        elif not todo and bad and not settled():
            retry=True; was=set(r.failed); todo={n:(s,t) for n,(s,t) in ((s.name,(s,t)) for s,t in pairs) if n in bad}
    for n in todo:
        if n not in dropped: dropped[n]='no fixed point'
    for sc,fs in ext.items():
        for fn,why in fs.items(): r.undecided[fn]=why
    for sc,why in dropped.items(): r.undecided['schema '+sc]=why
    r.schemas=sorted(done); r.wall=time.time()-t0; r.base=base[0]
    return r

# ---------------------------------------------------------------- running the emitted code
def native(tmp,repo,cs,gendir,seed,ms,log=print):
    """build and run the harness; (failures [(schema, what)], cases, notes)"""
    d=os.path.join(tmp,'gh'); os.makedirs(os.path.join(d,'src'),exist_ok=True); fails=[]; notes=[]; cs=[s for s in cs if s.valid]
    shutil.copy(os.path.join(HERE,'rt.rs'),os.path.join(d,'src','rt.rs'))
    open(os.path.join(d,'Cargo.toml'),'w').write('[package]\nname="gh"\nversion="0.1.0"\nedition="2018"\n[dependencies]\nbutte={path="%s/butte"}\n[workspace]\n[profile.dev]\ndebug=0\n'%repo)
    shutil.copy(os.path.join(VERIF,'native','Cargo.lock'),os.path.join(d,'Cargo.lock'))
    t=open(os.path.join(d,'Cargo.lock')).read().replace('name = "nat"','name = "gh"'); open(os.path.join(d,'Cargo.lock'),'w').write(t)
    for rnd in range(6):
        for n,t in harness.program(cs,gendir).items(): open(os.path.join(d,'src',n),'w').write(t)
        p=sh(['cargo','build','--quiet','--message-format=json'],cwd=d,env=env(os.path.join(tmp,'t-gh')))
        if p is None: return fails,0,notes+['harness build: time limit']
        if p.returncode==0: break
        names={s.name for s in cs}; hit={}
        for l in p.stdout.split('\n'):
            try: m=json.loads(l)
            except Exception: continue
            m=m.get('message') or {}
            if not isinstance(m,dict) or m.get('level')!='error': continue
            for s in sorted(m.get('spans',[]),key=lambda s: not s['is_primary']):
                f=os.path.basename(s['file_name']); n=re.sub(r'^h_','',f[:-3])
                if n in names:
                    gen_=not f.startswith('h_'); txt=(s.get('text') or [{}])[0]
                    seg=(txt.get('text') or '')[max(0,txt.get('highlight_start',1)-60):txt.get('highlight_end',1)+60]
                    x=('the emitted code does not compile: ' if gen_ else 'the emitted code does not have the items or types the schema calls for: ')+m['message']+' near `'+seg.strip()+'`'
                    if n not in hit or gen_ and not hit[n].startswith('the emitted code does not compile'): hit[n]=x
                    break
        if not hit: return fails,0,notes+['harness build: '+(p.stderr[-600:] or p.stdout[-600:])]
        fails+=sorted(hit.items()); cs=[s for s in cs if s.name not in hit]
        if not cs: return fails,0,notes
    else: return fails,0,notes+['harness build: no fixed point']
    p=sh([os.path.join(tmp,'t-gh','debug','gh'),str(seed),str(ms)],timeout=ms/1000+240)
    if p is None: return fails,0,notes+['harness run: time limit']
    for l in p.stdout.split('\n'):
        m=re.match(r'FAIL (\w+) (.*)',l)
        if m: fails.append((m.group(1),m.group(2)))
    m=re.search(r'CASES (\d+)',p.stdout)
    if not m: notes.append('harness run: status %d %s'%(p.returncode,p.stderr[-300:]))
    return fails,int(m.group(1)) if m else 0,notes

LIM={'quick':(7000,6000),'thorough':(16000,60000)}
def pxtrusted(x):
    if not x.g: return []
    return sorted(set(['uninterpreted: '+m for m in re.findall(r'uninterp spec fn (\w+)',x.g.text)]+['axiom: '+m for m in re.findall(r'axiom fn (\w+)',x.g.text)]+['meaning of nom combinator or std function: '+m for m in ('take_while take_while1 many0 many1 sep0 sep1 line line_ending escaped int_radix map_of boundary'.split())]+['meaning of nom combinator, unfolded by px/pxgen.py: '+m for m in sorted(pxrun.pxgen.COMB)]))
def decide(prop,tier,seed,t0,tmp,evd,repo,say,assume,trusted):
    thorough=tier=='thorough'; budget,ms=LIM[tier]
    replay=os.path.join(evd,'replays',prop+'.txt')
    if os.path.exists(replay): os.remove(replay)
    cs=corpus.corpus(prop,seed,thorough); byname={s.name:s for s in cs}; gend=os.path.join(tmp,'gen')
    viol=[]; notes=[]
    cxe=cf.ThreadPoolExecutor(4); fpx=cxe.submit(pxrun.run,tmp,repo,2); fpv=cxe.submit(pxrun.vacuity,tmp,repo,1); fcx=cxe.submit(cxrun.run,tmp,repo,2); fvac=cxe.submit(cxrun.vacuity,tmp,repo,1)
    rpc=prop=='G08'
    drv,err=compiler(tmp,repo,('rpc',) if rpc else ())
    pr=Proof(); cases=0; em={}
    if drv is not None and rpc: viol,cases,em=services(drv,cs,gend)
    elif drv is None: notes.append('butte-build does not build: '+err[-400:])
    else:
        em=emit(drv,cs,gend)
        for s in cs:
            t,e=em[s.name]
            if s.valid and t is None: viol.append((s.name,'a legal schema is refused: '+e))
            elif not s.valid and t is not None: viol.append((s.name,'accepted although it is '+s.why))
        good=[s for s in cs if s.valid and em[s.name][0] is not None]
        with cf.ThreadPoolExecutor(2) as ex:
            fn=ex.submit(native,tmp,repo,good,gend,seed,ms)
            fp=ex.submit(verify,tmp,repo,[(s,em[s.name][0]) for s in good],budget=budget,settled=lambda: bool(viol) or fn.done() and bool(fn.result()[0]))
            pr=fp.result(); fails,cases,nn=fn.result(); viol+=fails; notes+=nn
    # ---- the compiler's own functions (for all schemas)
    v=fcx.result(); us=v.units or []; rs=cxrun.roots(prop,us); names=set(u.name for u in rs); cl=vrun.closure(rs,v.byname)
    obl=[u for u in cl if u.kind in('exec','proof') and not u.external and not u.nobody]
    cfail={k:i for k,i in v.failed.items() if k in names}; cup={k:i for k,i in v.failed.items() if k not in names and any(u.name==k for u in cl)}
    cn=set(u.name for u in cl)|set(u.fkey for u in us if u.fkey and u.external); cund={k:w for k,w in v.undecided.items() if k in cn or k in v.g.lost} if v.g else {}
    if v.status=='none': cund['butte-build']=v.why
    try: vac=fvac.result()
    except BaseException as e: vac=dict(error=str(e),functions=0,refuted=0,vacuous=[])
    # ---- the parser's functions (for all texts)
    px=fpx.result(); mine=set(pxrun.roots(prop))
    pfail={k:i for k,i in px.failed.items() if k in mine}; pund={k:w for k,w in px.undecided.items() if k in mine or k.startswith('(')}
    for k,i in pfail.items(): cfail['ast/parser::'+k]=i
    for k,w in pund.items(): cund['ast/parser::'+k]=w
    pobl=sorted(mine)+[l for l in px.lemmas if l.startswith('prop_'+prop.lower())]
    try: pvac=fpv.result()
    except BaseException as e: pvac=dict(error=str(e),functions=0,refuted=0,vacuous=[])
    lines=[]
    if viol:
        lines.append('property %s is violated: failing input found on the real code'%prop)
        for n,what in viol[:5]:
            lines+=['','schema %s: %s'%(n,what),'---- the schema (compile it with butte_build::compile_fbs)',byname[n].fbs[:6000],'----']
    if pr.failed:
        lines+=['','failed obligations (Verus) on the code emitted by /repo/butte-build:']
        for k,items in list(pr.failed.items())[:8]:
            for x in items[:2]: lines+=['  %s: %s'%(k,x['message']),'    '+x['clause'],x['rendered']]
        for n in sorted({k.split('::')[0] for k in pr.failed})[:3]:
            if n in byname: lines+=['---- schema '+n,byname[n].fbs[:4000]]
    if cfail:
        lines+=['','failed obligations (Verus) on the functions of /repo/butte-build:']
        for k,items in cfail.items():
            for x in items[:3]: lines+=['  %s: %s'%(k,x['message']),'    '+x['clause'],x['rendered']]
    code=0
    if lines:
        open(replay,'w').write('\n'.join(lines)+'\n'); code=1
        for l in lines[:10]: say('  '+l[:400])
        say('VIOLATION property=%s replay=%s%s'%(prop,replay,'' if viol else ' no-failing-input-found'))
    for k,w in list(pr.undecided.items())[:12]: say('UNDECIDED: %s: %s; bounded search only'%(k,w))
    if pr.why: say('UNDECIDED: '+pr.why)
    for k,w in cund.items(): say('UNDECIDED: butte-build %s: %s; bounded search only'%(k,w))
    for k in cup: say('NOTE: a contract %s relies on does not verify: %s'%(prop,k))
    for n in notes: say('NOTE: '+n[:500])
    und=dict(pr.undecided); n_ok=sum(1 for s in cs if s.valid); done=getattr(pr,'schemas',[])
    full=not und and not cund and not cup and not cfail and not pr.why and not notes and cases>0 and (rpc or len(done)==len([s for s in cs if s.valid and em.get(s.name,(None,))[0]]))
    cov=dict(programs=len(em),disagreements_checked=len(pr.fns)+cases,
        schemas=dict(legal=n_ok,illegal=len(cs)-n_ok,with_all_obligations_generated=len(done)),
        obligations=len(pr.fns),discharged=len(pr.fns)-len([k for k in list(pr.failed)+list(und) if '::' in k]) if pr.fns else 0,
        functions_under_contract=len(pr.fns),functions=sorted(pr.fns)[:4000],
        checker_cmd=pr.cmd,backend='Verus (Z3): %d units verified in %d processes, %d ms SMT, %.0f s wall, %d round(s)'%(pr.verified,pr.shards,pr.smt_ms,getattr(pr,'wall',0),pr.rounds),
        compiler=dict(obligations=len(obl),discharged=len([u for u in obl if u.name not in cfail and u.name not in cup and u.name not in cund]) if v.status!='none' else 0,
            functions_under_contract=sorted(u.fkey for u in cl if u.fkey and not u.external),lemmas=sorted(set(u.name for u in cl if u.kind=='proof' and not u.fkey)),
            backend='Verus (Z3): whole file %d units verified, %d ms SMT, %.1f s wall, %d round(s)'%(v.verified,v.smt_ms,v.wall,v.rounds),
            checker_cmd='python3 /verif/cx/cxgen.py cx.rs && '+v.cmd,rewrites=sorted(v.g.log) if v.g else [],trusted_base=trusted(v.g) if v.g else [],undecided=cund,vacuity=vac),
        parser=dict(obligations=len(pobl),discharged=len([k for k in pobl if k not in pfail and k not in pund]) if px.status!='none' else 0,
            functions_under_contract=sorted(k for k in mine if px.g and k in px.g.obl),contract='px/grammar.peg: on every text the function returns what its rule says',
            lemmas=[l for l in pobl if l.startswith('prop_')],backend='Verus (Z3): whole file %d units verified, %d ms SMT, %.1f s wall, %d round(s)'%(px.verified,px.smt_ms,px.wall,px.rounds),
            checker_cmd='python3 /verif/px/pxgen.py px.rs && '+px.cmd,trusted_base=pxtrusted(px),undecided=pund,vacuity=pvac),
        trusted_base=[] if rpc else trusted(pr),native_cases=cases,undecided=und,notes=notes,
        samples=[dict(schema=s.name,text=s.fbs[:700],emitted_bytes=len(em[s.name][0]) if em.get(s.name,(None,))[0] else None,outcome='refused: '+(em[s.name][1] or '')[:120] if em.get(s.name,(1,))[0] is None else 'emitted') for s in (cs[:2]+[x for x in cs if not x.valid][:1]+cs[-1:])])
    if rpc:
        for k in('functions_under_contract','functions','checker_cmd','backend','trusted_base'): cov.pop(k)
        cov['obligations'],cov['discharged']=(cov['compiler'][q]+cov['parser'][q] for q in('obligations','discharged')); cov['service_records']=cov.pop('native_cases')
    level='translation_validation'
    if not full: cov['explanation']='bounded: for the schemas and functions under undecided/notes only execution of the emitted code stands in'
    ev=dict(property=prop,tier=tier,seed=seed,level=level,coverage=cov,assumptions=assume,wall_s=round(time.time()-t0,1),violations=1 if code else 0)
    json.dump(ev,open(os.path.join(evd,prop+'.json'),'w'),indent=1)
    say('%s %s: %d schemas, %d functions under contract, %d units verified, native cases %d, %d functions of the compiler and %d of the parser under contract, undecided %d, %.0f s'%(prop,'VIOLATED' if code else 'holds',len(cs),len(pr.fns),pr.verified,cases,len(set(u.fkey for u in cl if u.fkey and not u.external)),len(cov['parser']['functions_under_contract']),len(und)+len(cund),time.time()-t0))
    return code
