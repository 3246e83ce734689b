"""Run the generator and Verus on /repo's current source and say which obligations failed.

Outcome of run():
  status    'ok'       every obligation of every function was discharged
            'failed'   some obligations failed (see .failed)
            'none'     no verdict at all (the tree could not be translated)
  failed    {unit: [message, clause text, line text]}   named obligations that failed
  undecided {unit: reason}    functions whose proof could not be attempted or finished:
            their contract is only assumed in this run
"""
import json, os, re, subprocess, sys, time
HERE=os.path.dirname(os.path.abspath(__file__))
VX=os.path.join(HERE,'..','vx')
sys.path.insert(0,VX)
import gen

FAIL=re.compile(r'^(postcondition not satisfied|precondition not (satisfied|met)|assertion failed|invariant not satisfied|possible (arithmetic|division|bit)|decreases not satisfied|unable to prove|assertion not satisfied|failed|cannot show|loop invariant|could not prove|assert_by|requires not satisfied|bitvector)',re.I)
LIMIT=re.compile(r'(rlimit|resource limit|timed? ?out|could not finish)',re.I)
ITEM=re.compile(r"^\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:broadcast\s+)?(?:proof\s+|spec\s+|exec\s+|const\s+|axiom\s+|unsafe\s+)*fn\s+(\w+)")

class Unit:
    def __init__(self,name,start,kind): self.name=name; self.start=start; self.end=start; self.kind=kind; self.calls=set(); self.fkey=None; self.external=False; self.nobody=False

def units(text,fns):
    """every function of the generated file: extracted ones by their key, the others by name"""
    lines=text.split('\n'); us=[]
    ext=sorted(fns,key=lambda f:f['start'])
    starts={}
    for f in ext:
        for i in range(f['start'],f['end']+1):
            if i-1<len(lines) and re.search(r'\bfn\b|\bconst\b',lines[i-1]): starts[i]=f; break
    cur=None
    for i,l in enumerate(lines,1):
        if i in starts:
            f=starts[i]; u=Unit(f['name'],i,'exec'); u.fkey=f['name']; u.external=f['external']; u.nobody=f['nobody']; u.end=f['end']
            us.append(u); cur=u; continue
        if cur is not None and cur.fkey and i<=cur.end: continue
        m=ITEM.match(l)
        if m:
            k='proof' if re.search(r'\bproof\b',l.split('fn ')[0]) else ('spec' if 'spec' in l.split('fn ')[0] else ('axiom' if 'axiom' in l.split('fn ')[0] else 'exec'))
            cur=Unit(m.group(1),i,k); us.append(cur)
            if i>1 and 'external_body' in lines[i-2] or 'external_body' in l: cur.external=True
        if cur is not None and not cur.fkey: cur.end=i
    byname={}
    for u in us: byname.setdefault(u.name.split('::')[-1],[]).append(u)
    def owner(u):
        if not u.fkey: return None
        o=u.fkey.split('::')[1:-1]
        return o[0] if o else ''
    STD={'push','len','get','new','clone','iter','max','nth','next','follow','as_bytes','eq','resize','first','is_empty','align'}
    for u in us:
        body='\n'.join(lines[u.start-1:u.end])
        body=re.sub(r'//[^\n]*','',body)
        own=owner(u); out={}
        def add(x):
            if x is not u: out[id(x)]=x
        for m in re.finditer(r"((?:[\w>]+\s*(?:::\s*<[^;{}()]*>)?\s*::\s*)|(?:\w*[\])]?\s*\.\s*))?\b([A-Za-z_]\w*)\s*(?:::\s*<[^;{}()]*?>\s*)?\(",body):
            q=(m.group(1) or '').replace(' ',''); w=m.group(2)
            for x in byname.get(w,()):
                if not x.fkey: add(x); continue
                if u.kind!='exec': 
                    if q.endswith('::') or not q:
                        pass
                    continue
                xo=owner(x)
                if q in('self.','Self::'):
                    if own and xo.split(' for ')[-1]==own.split(' for ')[-1]: add(x)
                elif q.endswith('::'):
                    t=re.sub(r'::$','',q); t=re.sub(r'::<.*$','',t)
                    if t==xo.split(' for ')[-1] or ' for ' in xo and (len(t)==1 or t.endswith('>') or t in('Inner',)): add(x)
                elif q.endswith('.'):
                    if xo and w not in STD: add(x)
                elif not xo: add(x)
        for w in set(re.findall(r'\b([A-Z][A-Z_0-9]{3,})\b',body)):
            for x in byname.get(w,()): add(x)
        u.calls=list(out.values())
    return us,byname

def closure(roots,byname):
    seen=[]; todo=list(roots); ids=set()
    while todo:
        u=todo.pop()
        if id(u) in ids: continue
        ids.add(id(u)); seen.append(u)
        todo+=u.calls
    return seen

class Result: pass

def verus(path,extra=(),timeout=600,threads=8):
    cmd=['verus',os.path.basename(path),'--num-threads',str(threads),'--multiple-errors','5','--output-json','--time-expanded','--error-format=json']+list(extra)
    try: p=subprocess.run(cmd,cwd=os.path.dirname(path),stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout)
    except subprocess.TimeoutExpired: return None,[],' '.join(cmd),'timeout'
    errs=[]; raw=[]
    for l in p.stderr.split('\n'):
        try: d=json.loads(l)
        except Exception:
            if l.strip(): raw.append(l)
            continue
        if d.get('level')=='error' and d.get('spans'): errs.append(d)
        elif d.get('level','').startswith('error') and not d['message'].startswith('aborting'): errs.append(d)
    try: out=json.loads(p.stdout)
    except Exception: out=None
    return out,errs,' '.join(cmd),'\n'.join(raw)

def run(tmp,repo=None,threads=8,log=print,build=None,fname='all.rs',keep_loops=False):
    if build is None: build=lambda **k: gen.build(os.path.join(VX,'all.vx'),repo=repo,**k)
    r=Result(); r.failed={}; r.undecided={}; r.hints_lost=[]; r.rounds=0; r.verified=0; r.smt_ms=0; r.wall=0; r.cmd=''; r.status='none'; r.why=''; r.units=[]; r.byname={}; r.g=None; r.diag=[]; r.breakdown=[]
    drop=set(); weak=set(); ext={}; bare=set(); tried=set(); t0=time.time(); boosted=False
    path=os.path.join(tmp,fname)
    while r.rounds<14:
        r.rounds+=1
        try: g=build(drop=frozenset(drop),external=frozenset(ext),bare=frozenset(bare))
        except BaseException as e:
            if isinstance(e,KeyboardInterrupt): raise
            r.status='none'; r.why='extraction: %s: %s'%(type(e).__name__,e); r.wall=time.time()-t0; return r
        text=g.text(); open(path,'w').write(text); lines=text.split('\n')
        r.g=g
        out,errs,r.cmd,raw=verus(path,threads=threads,extra=(['--rlimit','40'] if boosted else []))
        us,byname=units(text,g.fns); r.units=us; r.byname=byname
        def unit_at(n):
            for u in us:
                if u.start-2<=n<=u.end: return u
            return None
        def exact(n):
            c=[u for u in us if u.start<=n<=u.end]
            return c[-1] if c else unit_at(n)
        def hint_at(n):
            i=n-1
            while i>=0:
                if lines[i].startswith('//#endhint') and i<n-1: return None
                m=re.match(r'//#hint (\S+) (\S+)',lines[i])
                if m: return (m.group(1).replace('~',' '),m.group(2))
                if ITEM.match(lines[i]) and i<n-1: return None
                i-=1
            return None
        comp=[]; fails=[]; limits=[]
        for d in errs:
            m=d['message']
            if LIMIT.search(m): limits.append(d)
            elif FAIL.match(m) and not d.get('code'): fails.append(d)
            elif m.startswith('aborting'): pass
            else: comp.append(d)
        vr=(out or {}).get('verification-results',{})
        if comp or vr.get('encountered-vir-error') or out is None and not fails:
            # not translatable: first without the proof hint concerned, then without the function's body
            progress=False
            for d in comp:
                ls=[s['line_start'] for s in d['spans'] if s['is_primary']] or [s['line_start'] for s in d['spans']]
                for n in ls[:1]:
                    h=hint_at(n)
                    if h and h not in drop: drop.add(h); weak.add(h[0]); progress=True; continue
                    u=exact(n)
                    if u and u.fkey and not u.nobody and u.fkey not in ext: ext[u.fkey]='not in the verified subset: '+m_short(d); progress=True
                    elif u and u.fkey and u.fkey not in bare: bare.add(u.fkey); progress=True
                    elif u and not u.fkey and u.kind=='exec' : pass
            if not progress:
                # an error elsewhere (a panic of the tool, an error in the frame): give up changed functions one by one
                left=[f for f in g.changed if f not in ext]
                if left: 
                    for f in left: ext[f]='not in the verified subset: '+(m_short(comp[0]) if comp else raw[-200:])
                else:
                    r.status='none'; r.why='translation: '+(m_short(comp[0]) if comp else raw[-300:]); r.wall=time.time()-t0
                    r.diag=[d.get('rendered','') for d in comp]; return r
            continue
        failed={}; bad_hints=set()
        for d in fails:
            prim=[s for s in d['spans'] if s['is_primary']] or d['spans']
            cand=[s for s in d['spans'] if re.search(r'at the end of the function body|at this exit|at this call-site|at this (loop|point)',s.get('label') or '')] or prim
            # a clause of a callee or trait is named by the other spans
            u=None
            for s in cand+prim:
                u=exact(s['line_start'])
                if u and not u.nobody: break
            if u is None: continue
            clause=' / '.join(' '.join(t['text'].strip() for t in s['text'][:3])[:160] for s in d['spans'])
            failed.setdefault(u.name,[]).append(dict(message=d['message'],clause=clause,unit=u.name,rendered=d.get('rendered','')[:3000]))
            for s in prim:
                h=hint_at(s['line_start'])
                if h: bad_hints.add(h)
        for d in limits:
            s=(d['spans'] or [None])[0]
            u=exact(s['line_start']) if s else None
            failed.setdefault(u.name if u else '?',[]).append(dict(message='rlimit',clause='',unit=u.name if u else '?',rendered=d.get('rendered','')[:500],limit=True))
        bd=(out or {}).get('times-ms',{}).get('smt',{}).get('smt-run-module-times',[])
        r.breakdown=bd[0]['function-breakdown'] if bd else []
        r.smt_ms=(out or {}).get('times-ms',{}).get('smt',{}).get('total',0); r.verified=vr.get('verified',0)
        r.hints_lost=g.hints_lost; r.lost=g.lost
        # hints written for another shape of the code are not obligations: try without them
        new=[h for h in bad_hints if h not in drop and h[0] in g.changed and not (keep_loops and re.match(r'loop\d',h[1]) and h[0] not in g.loops_changed)]
        if new and failed:
            for h in new: drop.add(h)
            r.first_failed=getattr(r,'first_failed',None) or dict(failed)
            continue
        if failed and not boosted and any(x.get('limit') for v in failed.values() for x in v):
            boosted=True; continue
        weak|=set(h[0] for h in g.hints_lost)
        for k,v in failed.items():
            if all(x.get('limit') for x in v): r.undecided[k]='resource limit'
            elif k in g.loops_changed: r.undecided[k]='the loops or closures of this function changed, so its invariants no longer fit; unproved: '+v[0]['message']
            elif bare and any(x.fkey in bare for u in us if u.name==k for x in u.calls): r.undecided[k]='calls a function whose contract no longer fits; unproved: '+v[0]['message']
            elif k in weak: r.undecided[k]='a proof hint no longer fits the code; unproved: '+v[0]['message']
            else: r.failed[k]=[x for x in v if not x.get('limit')]
        for k,v in ext.items(): r.undecided[k]=v
        for k in g.lost: r.undecided[k]='no longer exists'
        r.status='failed' if r.failed else 'ok'; r.wall=time.time()-t0
        return r
    r.status='none'; r.why='no fixed point'; r.wall=time.time()-t0
    return r

def m_short(d): return d['message'].split('\n')[0][:160]

if __name__=='__main__':
    import tempfile
    repo=sys.argv[1] if len(sys.argv)>1 else None
    with tempfile.TemporaryDirectory() as t:
        r=run(t,repo)
        print(r.status,r.why,'verified',r.verified,'rounds',r.rounds,'wall %.1f'%r.wall)
        print('changed',r.g.changed if r.g else None); print('hints lost',r.hints_lost); print('undecided',r.undecided); print('lost',getattr(r,'lost',None))
        for k,v in r.failed.items(): print('FAILED',k,[(x['message'],x['clause'][:200]) for x in v])
        print('log',[x for x in sorted(r.g.log) if 'inlin' in x] if r.g else '')
