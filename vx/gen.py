"""Build the Verus input from /repo's current source and the contracts in *.vx.

Everything executable in the output is the text of /repo (comments removed) after
the rewrites in REWRITES; contracts, loop invariants and proof hints come from the
.vx files.  See DESIGN.md, "What the extraction changes"."""
import re, sys, os, json
from rustsrc import *
import refactor

REPO=os.environ.get('BUTTE_REPO','/repo')

def split_args(s):
    """split a token text at top-level commas"""
    t=toks(s); out=[]; d=0; a=0; last=0
    for (x,b,e) in t:
        if x in OPEN: d+=1
        elif x in (')',']','}'): d-=1
        elif x==',' and d==0:
            out.append(s[last:b].strip()); last=e
    tail=s[last:].strip()
    if tail: out.append(tail)
    return out

def rw_asserts(body,log,may_panic):
    names={'debug_assert':'dbg','debug_assert_eq':'dbgeq','debug_assert_ne':'dbgne','assert':'rt','assert_eq':'rteq','assert_ne':'rtne'}
    while True:
        t=toks(body); hit=None
        for i in range(len(t)-2):
            if t[i][0] in names and t[i+1][0]=='!' and t[i+2][0] in('(','['):
                hit=i; break
        if hit is None: return body
        i=hit; e=match_close(t,i+2)
        args=split_args(body[t[i+2][2]:t[e][1]])
        k=names[t[i][0]]
        f='vx_rt_assert' if k.startswith('rt') else 'vx_dbg_assert'
        if k.endswith('eq'): cond='(%s) == (%s)'%(args[0],args[1])
        elif k.endswith('ne'): cond='(%s) != (%s)'%(args[0],args[1])
        else: cond=args[0]
        body=body[:t[i][1]]+f+'('+cond+')'+body[t[e][2]:]
        log.add('assertion macros -> vx_dbg_assert / vx_rt_assert (message dropped)')

def rw_cfg(body,log):
    """blocks under #[cfg(target_endian)]: the target is little-endian"""
    while True:
        m=re.search(r'#\s*\[\s*cfg\s*\(\s*(not\s*\(\s*)?target_endian\s*=\s*"(little|big)"\s*\)?\s*\)\s*\]\s*\{',body)
        if not m: return body
        keep=(m.group(2)=='little')!=bool(m.group(1))
        t=toks(body); k=[i for i in range(len(t)) if t[i][1]==m.end()-1][0]; e=match_close(t,k)
        body=body[:m.start()]+(body[m.end()-1:t[e][2]] if keep else '')+body[t[e][2]:]
        log.add('cfg(target_endian) blocks: only the little-endian one is kept')

PTR=r'\s*as\s*\*\s*(?:const|mut)\s+'
def rw_ptr(body,log):
    """reads and writes of scalars through a raw pointer into a slice -> contracted functions on the slice"""
    if 'read_unaligned' in body or 'write_unaligned' in body:
        # (E.as_mut_ptr() as *mut T).write_unaligned(v), inline
        n,c=re.subn(r'\(\s*([^();]*(?:\([^();]*\))?[^();]*?)\s*\.as_(?:mut_)?ptr\(\)'+PTR+r'(\w+)\s*\)\s*\.write_unaligned\(',r'vx_write_unaligned::<\2>(\1, ',body)
        body=n
        n,c2=re.subn(r'\(\s*([^();]*(?:\([^();]*\))?[^();]*?)\s*\.as_ptr\(\)'+PTR+r'(\w+)\s*\)\s*\.read_unaligned\(\s*\)',r'vx_read_unaligned::<\2>(\1)',body)
        body=n
        for m in list(re.finditer(r'let\s+(\w+)\s*=\s*([^;]*?)\s*\.as_(?:mut_)?ptr\(\)'+PTR+r'(\w+)\s*;',body)):
            p,e,T=m.groups()
            b=body.replace(m.group(0),'let %s = %s;'%(p,e))
            b=re.sub(r'\b%s\s*\.write_unaligned\('%p,'vx_write_unaligned::<%s>(%s, '%(T,p),b)
            b=re.sub(r'\b%s\s*\.read_unaligned\(\s*\)'%p,'vx_read_unaligned::<%s>(%s)'%(T,p),b)
            body=b
        b=re.sub(r'(?:std::)?ptr::write_unaligned\(\s*(\w+)\s*,',r'vx_write_unaligned(\1,',body)
        body=re.sub(r'\bunsafe\s*\{(\s*vx_(?:read|write)_unaligned\b[^{}]*)\}',r'{\1}',b)
        log.add('slice.as_ptr() as *const T / read_unaligned, write_unaligned -> contracted vx_read_unaligned / vx_write_unaligned on the slice')
    if 'from_raw_parts' in body or '&*' in body:
        for m in list(re.finditer(r'let\s+(\w+)\s*=\s*([^;]*?)\s*\.as_ptr\(\)'+PTR+r'(\w+)\s*;',body)):
            p,e,T=m.groups()
            if e.strip().startswith('{'): continue
            b=body.replace(m.group(0),'let %s = vx_ptr(%s);'%(p,e))
            b=re.sub(r'\b%s\s+as\s+usize\b'%p,'%s.addr'%p,b)
            b=re.sub(r'unsafe\s*\{\s*(?:std::)?(?:slice::)?from_raw_parts\(\s*%s\s*,\s*([^;{}]*?)\)\s*\}'%p,r'vx_from_raw::<%s>(%s, \1)'%(T,p),b)
            b=re.sub(r'&\s*\*\s*%s\b'%p,'vx_deref::<%s>(%s)'%(T,p),b)
            if b!=body: log.add('slice.as_ptr() as *const T, p as usize, unsafe from_raw_parts(p, n), &*p -> contracted vx_ptr / vx_from_raw / vx_deref')
            body=b
    return body

def rw_loop(body,log):
    """loop { if C { break; } B }  ->  while !(C) { B }"""
    while True:
        t=toks(body); hit=None
        for i in range(len(t)-4):
            if t[i][0]=='loop' and t[i+1][0]=='{' and t[i+2][0]=='if' and t[i+3][0]!='let' and not(i and t[i-1][0] in('=',':')):
                j=i+3
                while t[j][0]!='{':
                    if t[j][0] in('(','['): j=match_close(t,j)
                    j+=1
                e=match_close(t,j)
                if [x[0] for x in t[j+1:e]] in(['break',';'],['break']) and t[e+1][0]!='else': hit=(i,j,e); break
        if hit is None: return body
        i,j,e=hit
        body=body[:t[i][1]]+'while !('+body[t[i+3][1]:t[j][1]].strip()+') {'+body[t[e][2]:]
        log.add('loop { if c { break; } .. } -> while !(c) { .. }')

def rw(body,log,flags):
    may='may_panic' in flags
    body=rw_asserts(body,log,may)
    def sub(pat,rep,msg,b,fl=re.S):
        n,c=re.subn(pat,rep,b,flags=fl)
        if c: log.add(msg)
        return n
    if 'eqres' in flags:
        m=re.match(r'^\s*([\w.()]+?)\s*==\s*([\w.()]+?)\s*$',body)
        if m:
            body=' vx_res_eq(%s, %s) '%m.groups(); log.add('== on Result<&[u8], Error> -> contracted vx_res_eq')
    if 'eqcall' in flags:
        body=sub(r'\bif\s+(\w+)\s*==\s*(\w+)\s*\{',r'if \1.eq(&\2) {','== on VTable -> call of its eq method',body)
        body=sub(r'\bif\s+(\w+)\s*!=\s*(\w+)\s*\{',r'if !\1.eq(&\2) {','== on VTable -> call of its eq method',body)
    body=rw_cfg(body,log)
    body=rw_ptr(body,log)
    # memset through a raw pointer
    body=sub(r'let\s+(\w+)\s*=\s*\((&mut\s+[^;]*?)\)\s*\.as_mut_ptr\(\)(?:\s*as\s*\*mut\s*u8)?\s*;\s*unsafe\s*\{\s*(?:std::ptr::|ptr::)?write_bytes\(\s*\1\s*,\s*0\s*,\s*([^;]*?)\)\s*;?\s*\}',
             r'vx_write_zero(\2, \3);','as_mut_ptr + unsafe write_bytes(p, 0, n) -> vx_write_zero(slice, n)',body)
    body=sub(r'let\s+(\w+)\s*=\s*([\w.]+)\s*\.as_mut_ptr\(\)(?:\s*as\s*\*mut\s*u8)?\s*;\s*unsafe\s*\{\s*(?:std::ptr::|ptr::)?write_bytes\(\s*\1\s*,\s*0\s*,\s*([^;]*?)\)\s*;?\s*\}',
             r'vx_write_zero(&mut \2[..], \3);','as_mut_ptr + unsafe write_bytes(p, 0, n) -> vx_write_zero(slice, n)',body)
    body=sub(r'=\s*&mut\s+self\.owned_buf\[\.\.\]\s*\.split_at_mut',r'= self.owned_buf.as_mut_slice().split_at_mut','&mut vec[..].split_at_mut(m) -> vec.as_mut_slice().split_at_mut(m)',body)
    # Vec range IndexMut has no contract in vstd; the slice one has
    body=sub(r'&mut\s+self\.owned_buf\[',r'&mut self.owned_buf.as_mut_slice()[','vec[range] (mutable) -> vec.as_mut_slice()[range]',body)
    body=sub(r'(?<![&\w.])self\.owned_buf\[([^\]]*\.\.[^\]]*)\]\s*\.copy_from_slice',r'self.owned_buf.as_mut_slice()[\1].copy_from_slice','vec[range] (mutable) -> vec.as_mut_slice()[range]',body)
    body=sub(r'\.expect\(\s*"(?:\\.|[^"\\])*"\s*\)',r'.vx_expect()','.expect(msg) -> contracted vx_expect',body)
    body=sub(r'\.map\(\s*Some\s*\)','.vx_map_some()','.map(Some) -> contracted vx_map_some',body)
    body=sub(r'\.map_err\(\s*\|\s*_\w*\s*\|\s*(Error::\w+)\s*\)',r'.vx_or_err(\1)','.map_err(|_| Error::X) -> contracted vx_or_err',body)
    body=rw_loop(body,log)
    # (A..B).rev() and xs.iter().enumerate().rev() -> counting while loop with counter vx_kN
    n=0
    while True:
        m=re.search(r'\bfor\s+(\w+)\s+in\s+\(([^()]*?)\.\.((?:[^()]|\([^()]*\))*?)\)\s*\.rev\(\)\s*\{',body)
        if m:
            n+=1; i,a,b=m.groups(); k='vx_k%d'%n
            body=body[:m.start()]+'let mut %s = %s; while %s > %s { %s = %s - 1; let %s = %s;'%(k,b,k,a,k,k,i,k)+body[m.end():]
            log.add('for i in (a..b).rev() -> counting while loop'); continue
        m=re.search(r'\bfor\s+\((\w+)\s*,\s*&(\w+)\)\s+in\s+(\w+)\s*\.iter\(\)\s*\.enumerate\(\)\s*\.rev\(\)\s*\{',body)
        if m:
            n+=1; i,x,xs=m.groups(); k='vx_k%d'%n
            body=body[:m.start()]+'let mut %s = %s.len(); while %s > 0 { %s = %s - 1; let %s = %s; let %s = %s[%s];'%(k,xs,k,k,k,i,k,x,xs,i)+body[m.end():]
            log.add('for (i, &x) in xs.iter().enumerate().rev() -> counting while loop'); continue
        m=re.search(r'\bfor\s+(&?)(\w+)\s+in\s+([\w.]+?)\s*\.iter\(\)\s*\.rev\(\)\s*\{',body)
        if m:
            n+=1; r,x,xs=m.groups(); k='vx_k%d'%n
            body=body[:m.start()]+'let mut %s = %s.len(); while %s > 0 { %s = %s - 1; let %s = %s%s[%s];'%(k,xs,k,k,k,x,'' if r else '&',xs,k)+body[m.end():]
            log.add('for x in xs.iter().rev() -> counting while loop'); continue
        m=re.search(r'\bfor\s+(&?)(\w+)\s+in\s+(?:([\w.]+?)\s*\.iter\(\)|&([\w.]+))\s*\{',body)
        if m:
            n+=1; r,x,xs=m.group(1),m.group(2),m.group(3) or m.group(4); k='vx_k%d'%n
            body=body[:m.start()]+'let mut %s: usize = 0; while %s < %s.len() { let %s = %s%s[%s]; %s = %s + 1;'%(k,k,xs,x,'' if r else '&',xs,k,k,k)+body[m.end():]
            log.add('for x in xs.iter() -> counting while loop'); continue
        break
    body=sub(r'\{\s*let\s+(\w+)\s*=\s*(\w+)\.as_ptr\(\)(?:\s*as\s*\*const\s*\w+)*\s*;\s*unsafe\s*\{\s*(?:std::slice::|slice::)?from_raw_parts\(\s*\1\s*,\s*([^;]*?)\)\s*\}\s*\}',
             r'vx_as_bytes(\2, \3)','as_ptr + unsafe from_raw_parts(p, n) -> vx_as_bytes(slice, n)',body)
    body=sub(r'read_scalar_at::<(\w+)>\(\s*&self\.owned_buf\s*,',r'read_scalar_at::<\1>(self.owned_buf.as_slice(),','&vec -> vec.as_slice() where it coerces to a slice',body)
    body=sub(r'get_vtable_byte_len\(\s*&self\.field_locs\s*\)',r'get_vtable_byte_len(self.field_locs.as_slice())','&vec -> vec.as_slice() where it coerces to a slice',body)
    body=sub(r'(\w+)\s*\.iter\(\)\s*\.map\(\s*\|(\w+)\|\s*\2\.id\s*\)\s*\.max\(\)',r'vx_max_id(\1)','field_locs.iter().map(|f| f.id).max() -> contracted vx_max_id',body)
    body=sub(r'\bfor\s+&(\w+)\s+in\s+([^{]*?)\{',r'for vx_\1 in \2{ let \1 = *vx_\1;','for &x in it -> for r in it, let x = *r',body)
    body=sub(r'smallvec::SmallVec\s*<\s*\[([^;\]]*);[^\]]*\]\s*>',r'Vec<\1>','smallvec::SmallVec<[T; N]> -> Vec<T>',body)
    body=sub(r'smallvec::SmallVec::',r'Vec::','smallvec::SmallVec<[T; N]> -> Vec<T>',body)
    body=sub(r'unsafe\s*\{\s*(\w+)\.set_len\(([^;]*)\)\s*;?\s*\}',r'vx_set_len(&mut \1, \2);','unsafe v.set_len(n) -> vx_set_len (contents arbitrary)',body)
    return body

def name_result(sig,ret):
    """-> T  becomes -> (ret: T)"""
    t=toks(sig); d=0
    arrow=None; where=None
    i=0
    while i<len(t):
        x=t[i][0]
        if x in('(','['): i=match_close(t,i)
        elif x=='->': arrow=i
        elif x=='where': where=i; break
        i+=1
    if arrow is None: return sig,''
    a=t[arrow][2]; b=t[where][1] if where is not None else len(sig)
    return sig[:a]+' (%s: %s) '%(ret,sig[a:b].strip())+sig[b:],''

def find_loops(body):
    """positions of the '{' opening each loop body, in order"""
    t=toks(body); out=[]
    for i,(x,b,e) in enumerate(t):
        if x in('while','for','loop') and not (i>0 and t[i-1][0] in('.','<')):
            if x=='for' and i+1<len(t) and t[i+1][0]=='<': continue
            j=i+1
            while t[j][0]!='{':
                if t[j][0] in('(','['): j=match_close(t,j)
                j+=1
            out.append((x,b,t[j][1]))
    return out

def find_closures(body):
    """(start, parameter names, body start, body end) of each outermost closure"""
    t=toks(body); out=[]; i=0
    while i<len(t):
        if t[i][0] in('|','||') and i and t[i-1][0] in('(',',','=','move','{'):
            if t[i][0]=='||': j=i; ps=[]
            else:
                j=i+1
                while t[j][0]!='|':
                    if t[j][0] in OPEN: j=match_close(t,j)
                    j+=1
                ps=[re.sub(r':.*','',p,flags=re.S).strip() for p in split_args(body[t[i][2]:t[j][1]])]
            k=j+1
            if t[k][0]=='{' : e=match_close(t,k)
            else:
                e=k
                while e<len(t) and t[e][0] not in(')',',',';','}'):
                    if t[e][0] in OPEN: e=match_close(t,e)
                    e+=1
                e-=1
            out.append((t[i][1],ps,t[k][1],t[e][2])); i=e+1; continue
        i+=1
    return out

class Gen:
    def __init__(self,repo=REPO,drop=(),external=(),vacuity=False,baseline=None,bare=()):
        """drop: {(fn key, hint number)} left out; external: fn keys whose bodies are not checked; bare: nor their contracts used"""
        self.bare=set(bare)
        self.src=Source(repo)
        self.out=[]; self.map=[]; self.lost=[]; self.log=set(); self.fns=[]
        self.hints_lost=[]; self.drop=set(drop); self.external=set(external); self.vacuity=vacuity
        self.baseline=baseline or {}; self.texts={}; self.changed=[]; self.extra=[]
        self.loopsig={}; self.loops_changed=set(); self.hs=None; self.covered=set(); self.ccov=set()
    def scan(self,vxfile):
        """what the contracts cover, before anything is generated"""
        for l in open(vxfile).read().split('\n'):
            m=re.match(r'\s*//@\s*(\w+)\s*(.*)$',l)
            if not m: continue
            a=m.group(2).split()
            if m.group(1)=='include': self.scan(os.path.join(os.path.dirname(vxfile),a[0]))
            if m.group(1)=='fn': self.covered.add((a[0],None if a[1]=='-' else a[1].replace('~',' '),a[2]))
            if m.group(1)=='const': self.ccov.add(a[1])
        for n in('finish','finish_size_prefixed'): self.covered.add(('builder.rs','FlatBufferBuilder',n))
    def prepare(self):
        files=sorted(f for f in os.listdir(self.src.root) if f.endswith('.rs'))
        self.hs=refactor.helpers(self.src,files,self.covered)
        self.cs=refactor.consts(self.src,files,self.ccov)
    def emit(self,s): self.out.append(s)
    def text(self):
        # one solver process per function: results do not depend on what else is verified
        t='\n'.join(self.out)+'\n'
        return re.sub(r'(?m)^((?:pub )?(?:exec )?(?:proof )?fn )',r'#[verifier::spinoff_prover] \1',t)
    def rewrite(self,body,flags): return rw(body,self.log,flags)
    def pick(self,it,flags): return it
    def params(self,sig):
        """(signature, statements to put before the body)"""
        return sig,''
    def closures(self,body,heads,fkey):
        """the n-th closure gets the parameter types, result name and contract given for it ($1: its parameter)"""
        if not heads: return body
        cs=find_closures(body)
        for n in sorted(heads,reverse=True):
            if n>len(cs): self.hints_lost.append((fkey,'closure %d'%n)); continue
            a,ps,b,e=cs[n-1]
            h='\n'.join(heads[n])
            # a parameter the closure ignores gets a name (Verus has no `_` parameter of closures)
            for k,p in enumerate(ps): h=h.replace('$%d'%(k+1),'vx_p%d'%k if p=='_' else p)
            x=body[b:e].strip()
            body=body[:a]+h+(' '+x if x.startswith('{') else ' { '+x+' }')+body[e:]
        return body
    def lineno(self): return sum(x.count('\n')+1 for x in self.out)+1

    def do_fn(self,args,block):
        # args: FILE OWNER|- NAME [flags]
        f,owner,name=args[0],args[1].replace('~',' '),args[2]
        flags=set(args[3:])
        key=(owner+'::' if owner!='-' else '')+name
        fkey=f.replace('.rs','')+'::'+key
        try: it=self.src.fn_anywhere(f,None if owner=='-' else owner,name)
        except Lost as e:
            self.lost.append(fkey); return
        it=self.pick(it,flags)
        # names that changed since the contracts were written
        txt=it.head+' { '+(it.body or '')+' }'
        self.texts[fkey]=norm(txt)
        ren={}
        if fkey in self.baseline and self.baseline[fkey]!=norm(txt):
            self.changed.append(fkey)
            ren=refactor.renames(self.baseline[fkey],norm(txt))
            block=[l if l.strip().startswith('//@') else refactor.apply_renames(l,ren) for l in block]
        if fkey in self.external: flags=flags|{'external_body'}
        sec={'contract':[],'hints':[],'loops':{},'closures':{}}
        cur=sec['contract']
        for l in block:
            m=re.match(r'\s*//@\s*(hint|loopstart|loopend|loopafter|loop|closure)\s+(.*)$',l)
            if m:
                cur=[]
                if m.group(1)=='hint': sec['hints'].append((m.group(2).strip(),cur))
                elif m.group(1)=='closure': sec['closures'][int(m.group(2))]=cur
                elif m.group(1)=='loop': sec['loops'][int(m.group(2))]=cur
                else: sec['hints'].append((m.group(1)+' '+m.group(2).strip(),cur))
            else: cur.append(l)
        sig=it.head
        attrs=''
        # keep only the receiver and generics; drop #[inline] and friends
        sig=re.sub(r'^pub\s*\([^)]*\)','pub',sig)
        if 'nopub' in flags: sig=re.sub(r'^pub\s+','',sig)
        elif owner!='-' and ' for ' not in owner and 'trait' not in flags and not sig.startswith('pub'): sig='pub '+sig
        elif owner=='-' and not sig.startswith('pub'): sig='pub '+sig
        for fl in flags:
            if fl.startswith('sub:'):
                a,b=fl[4:].split('=>'); sig=sig.replace(a.replace('~',' '),b.replace('~',' '))
        sig=re.sub(r"\bSelf::Item\b",'Result<T::Inner, Error>',sig)
        sig,_=name_result(sig,'r')
        sig,pre=self.params(sig)
        # a wildcard parameter cannot be named in a contract
        contract='' if fkey in self.bare else '\n'.join(sec['contract'])
        start=self.lineno()
        if it.body is None or 'nobody' in flags:
            self.emit(sig+'\n'+contract+'\n;')
        else:
            body=pre+it.body
            if 'external_body' in flags:
                self.emit('#[verifier::external_body]'); body=' unimplemented!() '
            else:
                body=refactor.inline_calls(body,self.hs,None if owner=='-' else owner.split(' for ')[-1],self.log)
                body=refactor.inline_consts(body,self.cs,self.log)
                body=self.rewrite(body,flags)
                body=self.closures(body,sec['closures'],fkey)
            body=re.sub(r"\bSelf::Item\b",'Result<T::Inner, Error>',body)
            if 'external_body' not in flags:
                # loop invariants, last loop first
                loops=find_loops(body)
                # closures carry no contract, so they count as part of the shape
                self.loopsig[fkey]=[x[0] for x in loops]+['closure']*len(re.findall(r'(?<=[(,=])\s*(?:move\s*)?\|[^|;{}]*\|(?!\|)',body))
                bl=self.baseline.get(fkey+' loops')
                if fkey in self.baseline and bl is not None and bl!=self.loopsig[fkey]: self.loops_changed.add(fkey)
                # a counting loop that the source writes with a counter of its own
                used=set(re.findall(r'\bvx_k\d+\b','\n'.join('\n'.join(v) for v in sec['loops'].values())))
                for k in sorted(used):
                    if re.search(r'\b%s\b'%k,body): continue
                    for n in sec['loops']:
                        if k in '\n'.join(sec['loops'][n]) and n<=len(loops) and loops[n-1][0]=='while':
                            m=re.match(r'while\s+(?:0\s*[<!]=?\s*)?(\w+)\s*(?:[<>!{]|$)',body[loops[n-1][1]:loops[n-1][2]])
                            if m and m.group(1)!='self':
                                f=lambda ls:[re.sub(r'\b%s\b'%k,m.group(1),l) for l in ls]
                                sec['loops']={a:f(b) for a,b in sec['loops'].items()}
                                sec['hints']=[(a,f(b)) for a,b in sec['hints']]
                                break
                for n in sorted(sec['loops'],reverse=True):
                    if n>len(loops): self.hints_lost.append((fkey,'loop %d'%n)); continue
                    kw,kb,pos=loops[n-1]
                    if (fkey,'loop%d'%n) in self.drop: continue
                    body=body[:pos]+'\n//#hint %s loop%d\n'%(fkey.replace(' ','~'),n)+'\n'.join(sec['loops'][n])+'\n//#endhint\n'+body[pos:]
                    if kw=='for':
                        m=re.match(r'for\s+(\w+)\s+in\s+',body[kb:])
                        if m: body=body[:kb]+'for %s in vx_it: '%m.group(1)+body[kb+m.end():]
                for hn,(where,txt) in enumerate(sec['hints']):
                    if (fkey,'hint%d'%hn) in self.drop: continue
                    txt='\n//#hint %s hint%d\n'%(fkey.replace(' ','~'),hn)+'\n'.join(txt)+'\n//#endhint\n'
                    if where=='start': body='\n'+txt+body
                    elif where=='end':  body=body.rstrip()+'\n'+txt+'\n'
                    elif where.startswith('loopstart '):
                        ls=find_loops(body); n=int(where.split()[1])
                        if n>len(ls): self.hints_lost.append((fkey,where)); continue
                        body=body[:ls[n-1][2]+1]+'\n'+txt+'\n'+body[ls[n-1][2]+1:]
                    elif where.startswith('loopend '):
                        ls=find_loops(body); n=int(where.split()[1])
                        if n>len(ls): self.hints_lost.append((fkey,where)); continue
                        t=toks(body); k=[i for i in range(len(t)) if t[i][1]==ls[n-1][2]][0]
                        c=match_close(t,k); e=t[c][1]
                        # what holds at the end holds at each `continue` of this loop, too
                        ins=[e]; q=k+1
                        while q<c:
                            if t[q][0] in('while','for','loop') and t[q-1][0] not in('.','<'):
                                while t[q][0]!='{':
                                    if t[q][0] in('(','['): q=match_close(t,q)
                                    q+=1
                                q=match_close(t,q)
                            elif t[q][0]=='continue' and t[q+1][0] in(';','}',','): ins.append(-q)
                            q+=1
                        for q in ins:
                            if q==e: body=body[:e]+'\n'+txt+'\n'+body[e:]
                        for q in sorted(-x for x in ins if x<0)[::-1]: body=body[:t[q][1]]+'{\n'+txt+'\ncontinue }'+body[t[q][2]:]
                    elif where.startswith('loopafter '):
                        ls=find_loops(body); n=int(where.split()[1])
                        if n>len(ls): self.hints_lost.append((fkey,where)); continue
                        t=toks(body); k=[i for i in range(len(t)) if t[i][1]==ls[n-1][2]][0]
                        e=t[match_close(t,k)][2]
                        body=body[:e]+'\n'+txt+'\n'+body[e:]
                    elif where=='result':
                        # before the tail expression: after the last top-level ';' or '}'
                        pos=tail_pos(body)
                        body=body[:pos]+'\n'+txt+'\n'+body[pos:]
                    else:
                        how,pat=where.split(' ',1)
                        m=re.search(pat,body,re.S)
                        if not m: self.hints_lost.append((fkey,where)); continue
                        if how=='before': pos=stmt_start(body,m.start())
                        else: pos=stmt_end(body,m.start())
                        body=body[:pos]+'\n'+txt+'\n'+body[pos:]
            for fl in flags:
                if fl.startswith('rlimit:'): self.emit('#[verifier::rlimit(%s)]'%fl[7:])
            if 'noiso' in flags: self.emit('#[verifier::loop_isolation(false)]')
            if self.vacuity and 'external_body' not in flags: body=' proof { assert(false); } vx_unreached() '
            self.emit(sig+'\n'+contract+'\n{'+body+'}')
        self.fns.append(dict(name=fkey,file=f,start=start,end=self.lineno()-1,external='external_body' in flags,nobody=it.body is None))

    def run(self,vxfile):
        self.run_lines(open(vxfile).read().split('\n'),vxfile)
    def run_lines(self,lines,vxfile):
        i=0
        while i<len(lines):
            l=lines[i]
            m=re.match(r'\s*//@\s*(\w+)\s*(.*)$',l)
            if not m:
                self.emit(l); i+=1; continue
            d,args=m.group(1),m.group(2).split()
            if d=='include':
                self.run(os.path.join(os.path.dirname(vxfile),args[0])); i+=1; continue
            if d=='foreach':
                j=i+1
                while not re.match(r'\s*//@\s*endforeach',lines[j]): j+=1
                for v in args[1:]:
                    self.run_lines([x.replace('$'+args[0],v) for x in lines[i+1:j]],vxfile)
                i=j+1; continue
            if d=='item':
                try:
                    it=self.src.item(args[0],args[1],args[2])
                    txt=it.text
                    txt=re.sub(r'\s*#\[[^\]]*\]\s*','\n',txt)
                    txt=re.sub(r'^pub\s*\([^)]*\)','pub',txt)
                    if not txt.startswith('pub'): txt='pub '+txt
                    if 'pubfields' in args[3:]:
                        txt=pub_fields(txt)
                    for a in args[3:]:
                        if a.startswith('derive:'): self.emit('#[derive(%s)]'%a[7:])
                        if a.startswith('attr:'): self.emit('#[%s]'%a[5:].replace('~',' '))
                        if a.startswith('sub:'):
                            x,y=a[4:].split('=>'); txt=txt.replace(x.replace('~',' '),y.replace('~',' '))
                    self.emit(txt)
                except Lost as e:
                    self.lost.append(str(e)); raise
                i+=1; continue
            if d=='const':   # const with a proved value
                it=self.src.item(args[0],'const',args[1])
                mm=re.match(r'(?:pub\s*(?:\([^)]*\))?\s*)?const\s+(\w+)\s*:\s*([^=]*?)=(.*);\s*$',it.text,re.S)
                st=self.lineno()
                self.emit('pub exec const %s: %s\n ensures %s == %s\n{ proof { assert((1u64 << 31) == 0x8000_0000u64) by(bit_vector); } %s}'%(mm.group(1),mm.group(2),mm.group(1),args[2],mm.group(3)))
                self.fns.append(dict(name=args[0].replace('.rs','')+'::'+args[1],file=args[0],start=st,end=self.lineno()-1,external=False,nobody=False))
                i+=1; continue
            if d in('impl','trait'):
                if d=='impl':
                    it=self.src.impls(args[0],args[1].replace('~',' '))[int(args[2]) if len(args)>2 and args[2].isdigit() else 0]
                    head=it.head
                    if 'inherent' in args:   # impl Trait for X -> impl X  (std iterator traits)
                        head=re.sub(r'(impl\s*(?:<[^{]*?>\s*)?)(?:Iterator|DoubleEndedIterator|ExactSizeIterator|Default|PartialEq)\s+for\s+',r'\1',head)
                        self.log.add('methods of std trait impls (Iterator, DoubleEndedIterator, ExactSizeIterator, PartialEq) are checked as inherent methods')
                else:
                    it=self.src.item(args[0],'trait',args[1]); head=it.head
                for a in args:
                    if a.startswith('sub:'):
                        x,y=a[4:].split('=>'); head=head.replace(x.replace('~',' '),y.replace('~',' '))
                self.emit(head+' {')
                if 'inherent' not in args:
                    for x in it.items:
                        if x.kind=='type': self.emit(x.text)
                    if d=='impl':
                        named=set(); j=i+1
                        while j<len(lines) and not re.match(r'\s*//@\s*end\b',lines[j]):
                            mm=re.match(r'\s*//@\s*fn\s+\S+\s+\S+\s+(\S+)',lines[j])
                            if mm: named.add(mm.group(1))
                            j+=1
                        for x in it.items:
                            if x.kind=='fn' and x.name not in named and x.body is not None:
                                # an overridden method: checked against the trait's contract
                                self.emit(x.head+' {'+rw(x.body,self.log,set())+'}')
                                self.extra.append(args[0]+' '+args[1]+'::'+x.name)
                i+=1; continue
            if d=='end':
                self.emit('}'); i+=1; continue
            if d=='fn':
                j=i+1
                while not re.match(r'\s*//@\s*endfn',lines[j]): j+=1
                self.do_fn(args,lines[i+1:j])
                i=j+1; continue
            raise SystemExit('bad directive '+l)

def tail_pos(body):
    t=toks(body); d=0; pos=0
    k=0
    i=0
    while i<len(t):
        x=t[i][0]
        if x in OPEN:
            j=match_close(t,i)
            nxt=t[j+1][0] if j+1<len(t) else None
            if x=='{' and nxt is not None and nxt not in('.','?','else',')',',',';') : pos=t[j][2]
            i=j+1; continue
        if x==';': pos=t[i][2]
        i+=1
    return pos

def stmt_start(body,p):
    """start of the statement containing p (within its block)"""
    t=toks(body); d=0; i=max(k for k in range(len(t)) if t[k][1]<=p)
    j=i; d=0
    while j>0:
        x=t[j-1][0]
        if x in(')',']'): d+=1
        elif x in('(','['): 
            if d==0: pass
            else: d-=1
        elif x=='}' :
            if d==0: break
        elif x=='{' and d==0: break
        elif x==';' and d==0: break
        j-=1
    return t[j][1]
def stmt_end(body,p):
    t=toks(body); i=max(k for k in range(len(t)) if t[k][1]<=p)
    j=i
    while j<len(t):
        x=t[j][0]
        if x in OPEN:
            j=match_close(t,j)
            if x=='{' and (j+1>=len(t) or t[j+1][0] not in(';','.','?','else',')',',')): return t[j][2]
        elif x==';': return t[j][2]
        elif x=='}': return t[j][1]
        j+=1
    return len(body)

def pub_fields(txt):
    a=txt.find('{')
    if a>=0:
        inner=txt[a+1:txt.rfind('}')]
        fs=refactor.split_top(inner)
        fs=[f if f.startswith('pub') else 'pub '+f for f in fs]
        return txt[:a+1]+'\n'+',\n'.join(fs)+'\n}'
    a=txt.find('(')
    b=txt.rfind(')')
    fs=split_args(txt[a+1:b]); fs=[f if f.startswith('pub') else 'pub '+f for f in fs]
    return txt[:a+1]+', '.join(fs)+txt[b:]

def build(vxfile,repo=None,**kw):
    here=os.path.dirname(os.path.abspath(vxfile))
    b=os.path.join(here,'baseline.json')
    base=json.load(open(b)) if os.path.exists(b) else {}
    g=Gen(repo or os.path.join(REPO,'butte/src'),baseline=base,**kw)
    g.scan(vxfile); g.prepare(); g.run(vxfile)
    if g.vacuity: g.emit('verus! {\n#[verifier::external_body] fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }\n}')
    return g
if __name__=='__main__':
    g=build(sys.argv[1])
    if '--baseline' in sys.argv:
        g.texts.update({k+' loops':v for k,v in g.loopsig.items()})
        json.dump(g.texts,open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])),'baseline.json'),'w'),indent=0,sort_keys=True)
    open(sys.argv[2],'w').write(g.text())
    json.dump(dict(fns=g.fns,rewrites=sorted(g.log),hints_lost=g.hints_lost),open(sys.argv[2]+'.map.json','w'),indent=1)
    print('functions',len(g.fns),'hints lost',g.hints_lost)
