"""Mechanical steps that keep the contracts attached to refactored code: calls of functions
that have no contract are replaced by their bodies, constants without a proved value by
their expressions, and names that a later edit changed are carried over into the contracts."""
import re, difflib
from rustsrc import *

KW=set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn'.split())

def split_top(s,sep=','):
    t=toks(s); out=[]; d=0; last=0
    for (x,b,e) in t:
        if x in OPEN or x=='<': d+=1
        elif x in (')',']','}') or x=='>': d-=1
        elif x==sep and d==0:
            out.append(s[last:b].strip()); last=e
    if s[last:].strip(): out.append(s[last:].strip())
    return out
def split_args_expr(s):
    t=toks(s); out=[]; d=0; last=0
    for k,(x,b,e) in enumerate(t):
        if x in OPEN: d+=1
        elif x in (')',']','}'): d-=1
        elif x=='::' and k+1<len(t) and t[k+1][0]=='<': pass
        elif x==',' and d==0:
            out.append(s[last:b].strip()); last=e
    if s[last:].strip(): out.append(s[last:].strip())
    return out

class FnInfo:
    def __init__(self,it,owner):
        self.it=it; self.owner=owner; self.name=it.name
        t=toks(it.head)
        i=[k for k in range(len(t)) if t[k][0]=='fn'][0]+2
        self.generic=[]
        if t[i][0]=='<':
            e=match_angle(t,i)
            self.generic=[p for p in split_top(it.head[t[i][2]:t[e][1]]) if not p.startswith("'")]
            self.lifetimes=len(self.generic)!=len(split_top(it.head[t[i][2]:t[e][1]]))
            i=e+1
        e=match_close(t,i)
        self.params=[]; self.recv=None
        for p in split_top(it.head[t[i][2]:t[e][1]]):
            if re.match(r"^(&\s*('\w+\s*)?)?(mut\s+)?self\b",p): self.recv=p
            else:
                pat,ty=p.split(':',1)
                self.params.append((pat.strip(),ty.strip()))
        self.ret=it.head[t[e][2]:].strip()

def helpers(src,files,covered):
    """functions of the crate that have no contract, by name"""
    out={}
    for f in files:
        for x in src.file(f):
            if x.kind=='fn' and (f,None,x.name) not in covered and x.body is not None: out.setdefault(x.name,[]).append((f,FnInfo(x,None)))
            if x.kind=='impl' and ' for ' not in (x.name or ''):
                for y in x.items:
                    if y.kind=='fn' and (f,x.name,y.name) not in covered and y.body is not None:
                        try: out.setdefault(y.name,[]).append((f,FnInfo(y,x.name)))
                        except Exception: pass
    return out

def consts(src,files,covered):
    out={}
    for f in files:
        for x in src.file(f):
            if x.kind=='const' and x.name not in covered:
                m=re.match(r'(?:pub\s*(?:\([^)]*\))?\s*)?const\s+\w+\s*:\s*([^=]*?)=(.*);\s*$',x.text,re.S)
                if m: out[x.name]=(m.group(1).strip(),m.group(2).strip())
            if x.kind=='impl':
                for y in x.items:
                    if y.kind=='const':
                        m=re.match(r'(?:pub\s*(?:\([^)]*\))?\s*)?const\s+\w+\s*:\s*([^=]*?)=(.*);\s*$',y.text,re.S)
                        if m: out[y.name]=(m.group(1).strip(),m.group(2).strip())
    return out

def inline_consts(body,cs,log):
    for _ in range(4):
        t=toks(body); hit=None
        for k,(x,b,e) in enumerate(t):
            if x in cs and not (k+1<len(t) and t[k+1][0] in('(','!')) and not(k and t[k-1][0]=='.'):
                s=b
                if k>1 and t[k-1][0]=='::' : s=t[k-2][1]
                hit=(s,e,x); break
        if not hit: return body
        ty,ex=cs[hit[2]]
        rep='(%s)'%ex if not re.match(r'^\d+$',ex) else ('%s%s'%(ex,ty) if re.match(r'^[ui]\d+$|^[ui]size$',ty) else ex)
        body=body[:hit[0]]+rep+body[hit[1]:]
        log.add('constants without a contract are replaced by their expressions')
    return body

def inline_calls(body,hs,owner,log,depth=0):
    """replace calls of functions without contract by their bodies, where that is the same"""
    if depth>4: return body
    pos=0
    for _ in range(40):
        t=toks(body); hit=None
        for k in range(len(t)-1):
            x=t[k][0]
            if x not in hs or t[k][1]<pos: continue
            j=k+1
            if t[j][0]=='::' and t[j+1][0]=='<': j=match_angle(t,j+1)+1
            if j>=len(t) or t[j][0]!='(' : continue
            if k>0 and t[k-1][0]=='fn': continue
            hit=(k,j); break
        if hit is None: return body
        k,j=hit; e=match_close(t,j); pos=t[k][2]
        name=t[k][0]
        start=t[k][1]; recv=None; cand=None
        if k>=2 and t[k-1][0]=='.':
            if t[k-2][0]=='self' and not (k>=3 and t[k-3][0] in('.','::')): recv='self'; start=t[k-2][1]
            else: continue
            cand=[h for f,h in hs[name] if h.recv is not None and h.owner==owner]
        elif k>=2 and t[k-1][0]=='::':
            q=t[k-2][0]
            q=owner if q=='Self' else q
            start=t[k-2][1]
            if k>=3 and t[k-3][0]=='::': continue
            cand=[h for f,h in hs[name] if h.owner==q] or [h for f,h in hs[name] if h.owner is None]
        else: cand=[h for f,h in hs[name] if h.owner is None]
        if len(cand)!=1: continue
        h=cand[0]
        args=split_args_expr(body[t[j][2]:t[e][1]])
        if h.recv is not None and recv is None: continue
        if len(args)!=len(h.params): continue
        hb=h.it.body.strip()
        ht=[x[0] for x in toks(hb)]
        after=t[e+1][0] if e+1<len(t) else None
        tail= after is None and body[t[e][2]:].strip()==''
        if 'return' in ht or '?' in ht:
            if not tail:
                if after!='?': continue
                rr=[i for i in range(len(ht)) if ht[i]=='return']
                if any(ht[i+1]!='Err' for i in rr): continue
        if any(not re.match(r'^(mut\s+)?\w+$',p) for p,_ in h.params): continue
        bind=''
        if h.params:
            if len(h.params)==1:
                (p,ty),=h.params
                bind='let %s%s = %s; '%(p,'' if (h.generic or "'" in ty or 'impl' in ty or 'Self' in ty) else ': '+ty,args[0]) if p!=args[0] else ''
            else:
                todo=[((p,ty),a) for (p,ty),a in zip(h.params,args) if p!=a]
                for n,((p,ty),a) in enumerate(todo):
                    pass
                names=[p.replace('mut ','').strip() for (p,ty),a in todo]
                clash=any(re.search(r'\b%s\b'%re.escape(names[m]),todo[n][1]) for n in range(len(todo)) for m in range(n))
                if clash: continue
                for (p,ty),a in todo:
                    bind+='let %s%s = %s; '%(p,'' if (h.generic or "'" in ty or 'impl' in ty or 'Self' in ty) else ': '+ty,a)
        hb=inline_calls(hb,{n:v for n,v in hs.items() if n!=name},owner,log,depth+1)
        ends=hb.rstrip().endswith(';') or hb.strip()==''
        if tail: rep='%s%s'%(bind,hb) if False else '{ %s%s }'%(bind,hb)
        else: rep='{ %s%s }'%(bind,hb)
        # a block in expression position
        before=t[[i for i in range(len(t)) if t[i][1]==start][0]-1][0] if start>t[0][1] else ';'
        if before in(';','{','}') and after==';': rep=rep
        elif before in(';','{','}') and (tail or after=='}'): rep=rep
        else: rep='(%s)'%rep if after in('?','.','as','[') or before not in('=','=>','return','(',',') else rep
        body=body[:start]+rep+body[t[e][2]:]
        pos=0
        log.add('calls of functions without a contract are replaced by their bodies')
    return body

def renames(old,new):
    """identifier renamings that explain the difference between two token lists"""
    a=[x[0] for x in toks(old)]; b=[x[0] for x in toks(new)]
    if a==b: return {}
    A=set(a); B=set(b); m={}
    sm=difflib.SequenceMatcher(None,a,b,autojunk=False)
    idre=re.compile(r'^[A-Za-z_]\w*$')
    votes={}
    for op,i1,i2,j1,j2 in sm.get_opcodes():
        if op!='replace': continue
        if i2-i1==j2-j1: pairs=zip(a[i1:i2],b[j1:j2])
        else: continue
        for x,y in pairs:
            if idre.match(x) and idre.match(y) and x not in KW and y not in KW and x not in B and y not in A and not {x,y}&{'Some','None','Ok','Err'}:
                votes.setdefault(x,{}).setdefault(y,0); votes[x][y]+=1
    for x,v in votes.items():
        y=max(v,key=v.get)
        if y not in m.values(): m[x]=y
    return m
def apply_renames(txt,m):
    if not m: return txt
    return re.sub(r'(?<![\w.])(%s)\b(?!\s*\()'%'|'.join(map(re.escape,m)),lambda k:m[k.group(1)],txt)
