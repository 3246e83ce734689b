"""Contracts for emitted code.

The text butte-build emits for a schema is taken as it is, item by item, and joined with
contracts computed from the schema model (never from the emitted text).  What the extraction
changes: `butte::` becomes `crate::` (the runtime's contracts are in the same file), private
fields become public, attributes and derives are dropped (derived Clone and PartialEq are
assumed to be structural), `VT_` constants are replaced by their emitted values, `<E>::V`
by `E::V`, floating point literals by calls with their bits, `.map(U::V)` by the same call
with a closure, `-32768i16` and the like by `i16::MIN`."""
import os, re, struct, sys
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,'..','vx'))
import rustsrc, refactor
from rustsrc import toks, match_close, parse_items, norm
from model import *

class Odd(Exception): pass

def bits(v,rt):
    return int.from_bytes(struct.pack('>f' if rt=='f32' else '>d',v),'big')
def fcall(v,rt,spec): return ('crate::gpre::%s_of(0x%xu%s)' if spec else 'crate::gpre::vx_%s(0x%xu%s)')%(rt,bits(v,rt),rt[1:])
FNAME={'NAN':float('nan'),'INFINITY':float('inf'),'NEG_INFINITY':float('-inf'),'MAX':None}

class C:
    def __init__(self,sch,text,ext=frozenset()):
        self.ext=ext; self.weak={}; self.nospec=set(); self.bodies={}; self.s=sch; self.R='crate::gcode::'+sch.name; self.names=[]
        self.consts={}; self.lt={}
        self.items={}
        for it in sch.items: self.items[tuple(it.mods()),it.rname]=it
        self.tags={}
        for it in sch.items:
            if isinstance(it,Union): self.tags[tuple(it.mods())+('butte_gen',),it.name+'Type']=it
        self.found=set(); self.mods=['gcode::'+sch.name]
        its=parse_items(rustsrc.strip_comments(text))
        self.scan(its,[])
        self.lines=[]
        self.mod(its,[])
        # functions whose proof says nothing when it fails: closures, loops and callees without a contract
        for n,b in self.bodies.items():
            b=re.sub(r'"[^"]*"','""',b)
            if re.search(r'(?:[(,=]|move)\s*\|[^|]*\|',b) and not re.search(r'ensures',b): self.weak[n]='a closure without a contract'
            elif re.search(r'\b(?:while|loop|for)\b',b): self.weak[n]='a loop without an invariant'
            else:
                c=[x for x in self.nospec if re.search(r'\b%s\b\s*(?:::\s*<[^()]*>\s*)?\('%re.escape(x),b)]
                if c: self.weak[n]='calls '+c[0]+', which has no contract'
    # ---------------------------------------------------------------- text rewriting
    def scan(self,its,path):
        for it in its:
            if it.kind=='mod': self.scan(it.items,path+[it.name])
            if it.kind=='struct': self.lt[tuple(path),it.name]='<' in re.sub(r'\{.*','',it.text,flags=re.S)
            if it.kind=='impl' and ' for ' not in it.name:
                for x in it.items:
                    if x.kind=='const':
                        m=re.match(r'pub const (\w+)\s*:[^=]*=\s*(.*?)\s*;$',x.text,re.S)
                        if m: self.consts[tuple(path),it.name+'::'+m.group(1)]=m.group(2)
    def code(self,s):
        t=[x[0] for x in toks(s)]
        out=[]; i=0
        while i<len(t):
            x=t[i]
            if x=='butte' and i+1<len(t) and t[i+1]=='::' and (i==0 or t[i-1]!='::'): out.append('crate'); i+=1; continue
            if i+2<len(t) and t[i+1]=='::' and (self.cur,x+'::'+t[i+2]) in self.consts and (i==0 or t[i-1]!='::'):
                out.append(self.consts[self.cur,x+'::'+t[i+2]]); i+=3; continue
            # a path before the type name
            if x=='<' and (not out or out[-1] not in('::',) and not re.match(r'\w+$',out[-1]) or out[-1] in('return','match','=>','Ok','Some','Err')):
                j=i+1
                while j<len(t) and re.match(r'(\w+|::)$',t[j]): j+=1
                if j<len(t) and t[j]=='>' and j>i+1 and t[j+1]=='::' and t[j+2][0].isupper():
                    out+=t[i+1:j]; i=j+1; continue
            m=re.match(r'(\d[\d_]*\.?[\d_]*(?:[eE][+-]?\d+)?)_?(f32|f64)$',x)
            if m:
                v=float(m.group(1).replace('_',''))
                if out and out[-1]=='-': out.pop(); v=-v
                out.append(fcall(v,m.group(2),False)); i+=1; continue
            m=re.match(r'(\d[\d_]*)(i8|i16|i32|i64)$',x)
            if m and out and out[-1]=='-' and int(m.group(1).replace('_',''))==1<<(8*WIDTH[m.group(2)]-1):
                out[-1]=m.group(2)+'::MIN'; i+=1; continue
            if x in('std','core') and i+4<len(t) and t[i+1]=='::' and t[i+2] in('f32','f64') and t[i+3]=='::' and t[i+4] in FNAME:
                v=FNAME[t[i+4]]
                if out and out[-1]=='-': out.pop(); v=-v
                out.append(fcall(v,t[i+2],False)); i+=5; continue
            if x in('f32','f64') and i+2<len(t) and t[i+1]=='::' and t[i+2] in FNAME and (not out or out[-1]!='::'):
                v=FNAME[t[i+2]]
                if out and out[-1]=='-': out.pop(); v=-v
                out.append(fcall(v,x,False)); i+=3; continue
            if x=='.' and i+2<len(t) and t[i+1]=='map' and t[i+2]=='(':
                k=[a for a in range(i+3,len(t))]
                j=i+3
                while j<len(t) and re.match(r'(\w+|::)$',t[j]): j+=1
                if j<len(t) and t[j]==')' and j>i+3:
                    p=''.join(t[i+3:j])
                    out.append('.map(|x0| -> (y0: %s) ensures y0 == %s(x0) { %s(x0) })'%(p.rsplit('::',1)[0],p,p)); i=j+1; continue
            out.append(x); i+=1
        r=' '.join(out)
        r=re.sub(r'(\d) \. (\d)',r'\1.\2',r)
        return r.replace(' :: ','::').replace(' . ','.').replace('# [','#[')
    def fn(self,f,spec,name,body=None,pre='',post='',rename=None,selfty=None):
        """emit function f with this contract"""
        t=toks(f.head); k=[i for i in range(len(t)) if t[i][0]=='->' and i>0]
        # the return arrow of the function itself: after the parameter list
        i=[k for k in range(len(t)) if t[k][0]=='fn'][0]+2
        if t[i][0]=='<': i=rustsrc.match_angle(t,i)+1
        e=match_close(t,i)
        head=f.head[:t[e][2]]; ret=f.head[t[e][2]:].strip()
        if ret.startswith('->'): ret='-> (r: %s)'%self.code(ret[2:])
        head=self.code(head)
        if rename:
            head=re.sub(r'\bfn %s\b'%f.name,'fn '+rename,head,1); ret=re.sub(r'\bSelf::Error\b','crate::Error',ret)
            if selfty:
                head=re.sub(r'\bSelf\b',selfty,head); ret=re.sub(r'\bSelf\b',selfty,ret); body=re.sub(r'\bSelf\b',selfty,f.body if body is None else body)
        if not head.startswith('pub') and (rename or not f.owner_trait): head='pub '+head
        self.lines.append('//#fn %s'%name)
        self.lines.append('%s %s'%(head,ret))
        self.names.append(name)
        if name in self.ext: self.lines.insert(len(self.lines)-1,'#[verifier::external_body]')
        for l in spec: self.lines.append('    '+l)
        if name in self.ext: self.lines.append('{ unimplemented!() }')
        else:
            b=self.code(f.body if body is None else body)
            self.lines.append('{ %s\n%s\n%s }'%(pre,b,post)); self.bodies[name]=b
            if not spec and not f.owner_trait: self.nospec.add(f.name)
        self.lines.append('//#endfn')
    def p(self,s): self.lines.append(s)
    # ---------------------------------------------------------------- items
    def mod(self,its,path):
        self.p('use vstd::prelude::*; use vstd::std_specs::cmp::PartialEqSpecImpl; use vstd::std_specs::convert::{FromSpecImpl, TryFromSpecImpl}; use crate::Push as _; use crate::Follow as _; use crate::FollowBuf as _; use crate::EndianScalar as _;')
        for it in its:
            self.cur=tuple(path)
            for x in it.items: x.owner_trait=it.kind=='impl' and ' for ' in it.name
            key=(tuple(path),it.name)
            if it.kind=='mod':
                self.mods.append('::'.join(['gcode',self.s.name]+path+[it.name])); self.p('pub mod %s {'%it.name); self.mod(it.items,path+[it.name]); self.p('}')
            elif it.kind=='enum' and (key in self.tags or isinstance(self.items.get(key),Enum)): self.enum_def(it,key)
            elif it.kind=='enum' and isinstance(self.items.get(key),Union): self.p(self.code(it.text)); self.found.add(id(self.items[key]))
            elif it.kind=='struct': self.struct(it,key)
            elif it.kind=='impl': self.impl(it,path)
            elif it.kind=='fn' and it.name.startswith('enum_name_'): self.namefn(it,path)
            elif it.kind in('fn','const','use','type'):
                self.p(self.code(it.text))
                if it.kind=='fn': self.nospec.add(it.name)
            else: raise Odd('%s %s'%(it.kind,it.name))
    def outlined(self,it,head,base):
        """the trait impl whose method bodies were checked as functions of their own"""
        self.p(head+' {')
        for f in it.items:
            if f.kind!='fn': self.p(self.code(f.text)); continue
            self.p('#[verifier::external_body] '+self.code(f.head)+' { unimplemented!() }')
        self.p('}')
    def einfo(self,key):
        """(path, base, [(name, value)]) of the enum at key"""
        if key in self.tags:
            u=self.tags[key]; return u.tagpath(self.R),'u8',u.tags()
        e=self.items[key]; return e.path(self.R),e.rbase,e.values()
    def namefn(self,it,path):
        m=re.search(r'\(\s*(?:mut\s+)?(\w+)\s*:\s*(\w+)\s*,?\s*\)',it.head)
        key=(tuple(path),m.group(2)) if m else None
        if not m or not (key in self.tags or isinstance(self.items.get(key),Enum)): raise Odd('fn '+it.name)
        P,base,vs=self.einfo(key); x=self.tags.get(key) or self.items[key]
        it.owner_trait=False
        self.fn(it,['ensures r@ == (match %s { %s }),'%(m.group(1),', '.join('%s::%s => "%s"@'%(P,v,n) for (v,_),n in zip(vs,x.rawnames())))],'::'.join([self.s.name]+path+[m.group(2),'name']))
    def enum_def(self,it,key):
        path,base,vs=self.einfo(key); n=it.name
        self.found.add(id(self.tags.get(key) or self.items[key]))
        self.p('#[repr(%s)]'%base if any('repr' in a and re.search(r'\b%s\b'%base,a) for a in it.attrs) else '')
        self.p(self.code(it.text))
        d=' '.join(a for a in it.attrs if 'derive' in a)
        if re.search(r'\bCopy\b',d): self.p('impl Copy for %s {}'%n)
        if re.search(r'\bClone\b',d): self.p('impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }'%n)
        if re.search(r'\bPartialEq\b',d):
            self.p('impl PartialEq for %s { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }'%n)
            self.p('impl PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }'%n)
        # the meaning of the schema's declaration
        self.p('impl %s {'%n)
        self.p('    pub open spec fn vx_val(self) -> %s { match self { %s } }'%(base,', '.join('%s::%s => %s'%(path,v,self.num(x,base)) for v,x in vs)))
        self.p('    pub open spec fn vx_of(v: %s) -> Option<%s> { match v { %s _ => None } }'%(base,path,' '.join('%s => Some(%s::%s),'%(self.pat(x,base),path,v) for v,x in vs)))
        self.p('    pub open spec fn vx_read(v: %s) -> Result<%s, crate::Error> { match %s::vx_of(v) { Some(e) => Ok(e), None => Err(crate::Error::UnknownEnumVariant) } }'%(base,path,path))
        self.p('    pub proof fn vx_lemma(self) ensures %s::vx_of(self.vx_val()) == Some(self) {}'%path)
        self.p('}')
        if any('repr' in a and re.search(r'\b%s\b'%base,a) for a in it.attrs):
            w=WIDTH[base]
            self.p('global layout %s is size == %d, align == %d;'%(n,w,w))
    def pat(self,v,base): return base+'::MIN' if v<0 and v==-(1<<(8*WIDTH[base]-1)) else '%d%s'%(v,base)
    def num(self,v,base): return '(%d%s)'%(v,base) if v<0 else '%d%s'%(v,base)
    def struct(self,it,key):
        t=self.code(it.text)
        # private fields become public
        h,b=t.split('{',1) if '{' in t else (t,None)
        if b is not None:
            b=re.sub(r'#\[[^\]]*\]','',b)
            parts=[]
            for f in split_fields(b.rsplit('}',1)[0]):
                f=f.strip()
                if f: parts.append(f if f.startswith('pub') else 'pub '+f)
            t=h+'{ '+', '.join(parts)+' }'
        self.p(t if t.startswith('pub') else 'pub '+t)
        x=self.items.get(key)
        if isinstance(x,Table): self.found.add(id(x))
    def impl(self,it,path):
        key=it.name; head=self.code(it.head)
        tgt=re.sub(r'^(&slice|.*? for )','',key)
        owner=lambda n: self.items.get((tuple(path),n))
        def plain(spec_of=lambda f: []):
            for f in it.items:
                if f.kind=='fn': self.fn(f,*spec_of(f))
                elif f.kind=='const' and 'VT_' in f.text: pass
                else: self.p(self.code(f.text))
        if ' for ' in key:
            tr,ty=key.split(' for ',1)
            ek=(tuple(path),ty) if ((tuple(path),ty) in self.tags or isinstance(owner(ty),Enum)) else None
            nm=lambda f: '::'.join([self.s.name]+path+[ty,f.name])
            if ek and tr in('Default','Follow','TryFrom','Push'):
                P,base,vs=self.einfo(ek); w=WIDTH[base]
                if tr=='TryFrom':
                    self.p('impl TryFromSpecImpl<%s> for %s { open spec fn obeys_try_from_spec() -> bool { true } open spec fn try_from_spec(v: %s) -> Result<Self, crate::Error> { %s::vx_read(v) } }'%(base,ty,base,P))
                    # the emitted body is checked as an inherent function, the trait method is given the same contract
                    self.p('impl %s {'%ty)
                    for f in it.items:
                        if f.kind=='fn': self.fn(f,['ensures r == %s::vx_read(%s),'%(P,fnparam(f))],nm(f),rename='vx_'+f.name,body=re.sub(r'\bSelf\s*::\s*Error\b','crate::Error',f.body))
                    self.p('}'); self.outlined(it,head,base); return
                self.p(head+' {')
                for f in it.items:
                    if f.kind!='fn': self.p(self.code(f.text))
                if tr=='Follow':
                    self.p('    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }')
                    self.p('    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self, crate::Error>) -> bool { r == (if loc + %d <= buf.len() { %s::vx_read(<%s as crate::EndianScalar>::dec(buf.subrange(loc, loc + %d))) } else { Err(crate::Error::OutOfBounds) }) }'%(w,P,base,w))
                if tr=='Push':
                    self.p('    open spec fn push_bytes(&self, rest_len: int) -> Seq<u8> { (*self).vx_val().enc() }')
                    self.p('    open spec fn push_req(&self, rest_len: int) -> bool { true }')
                    self.p('    open spec fn sz() -> int { %d } open spec fn al() -> int { %d }'%(w,w))
                    self.p('    proof fn lemma_push_layout() { broadcast use vstd::layout::group_layout_axioms; }')
                    self.p('    proof fn lemma_push_len(&self, rest_len: int) { (*self).vx_val().lemma_scalar(); }')
                for f in it.items:
                    if f.kind!='fn': continue
                    b=f.body.strip(); post=''
                    if tr=='Push' and f.name=='push' and b.endswith(';'): post='proof { (*self).vx_val().lemma_scalar(); assert(dst@ =~= (*self).vx_val().enc()); }'
                    self.fn(f,['ensures r == %s::None,'%P] if tr=='Default' and ek in self.tags else [],nm(f),post=post)
                self.p('}'); return
            m=re.match(r'From$',tr)
            if m and ty in WIDTH:
                # From<E> for base
                g=re.search(r'From\s*<(.*)>\s*for',it.head,re.S)
                en=g.group(1).strip() if g else ''
                ek=(tuple(path),en)
                if ek in self.tags or isinstance(self.items.get(ek),Enum):
                    P,base,vs=self.einfo(ek)
                    self.p('impl FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: %s) -> Self { v.vx_val() } }'%(en,ty,en))
                    for f in it.items: self.fn(f,['ensures r == %s.vx_val(),'%fnparam(f)],'::'.join([self.s.name]+path+[en,'into',f.name]),rename='vx_%s_from_%s'%(ty,en),selfty=ty)
                    self.outlined(it,head,ty); return
            x=owner(ty)
            if isinstance(x,Table) and tr=='From':
                self.p('impl<B> FromSpecImpl<crate::Table<B>> for %s<B> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: crate::Table<B>) -> Self { %s { table: v } } }'%(ty,ty))
                self.p(head+' {')
                for f in it.items: self.fn(f,[],nm(f))
                self.p('}'); return
            if isinstance(x,Table) and tr=='Follow':
                self.p(head+' {')
                for f in it.items:
                    if f.kind!='fn': self.p(self.code(f.text))
                self.p('    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { true }')
                self.p('    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, crate::Error>) -> bool { r is Ok && r->Ok_0.table.buf@ == buf && r->Ok_0.table.loc == loc }')
                for f in it.items:
                    if f.kind=='fn': self.fn(f,[],nm(f))
                self.p('}'); return
            if isinstance(x,Table) and tr=='FollowBuf':
                self.p(head+' {')
                for f in it.items:
                    if f.kind!='fn': self.p(self.code(f.text))
                self.p('    open spec fn follow_buf_req(buf: Seq<u8>, loc: int) -> bool { true }')
                self.p('    open spec fn follow_buf_post(buf: Self::Buf, loc: int, r: Result<Self::Inner, crate::Error>) -> bool { r is Ok && r->Ok_0.table.buf == buf && r->Ok_0.table.loc == loc }')
                for f in it.items:
                    if f.kind=='fn': self.fn(f,[],nm(f)+'_buf')
                self.p('}'); return
            if tr=='From' and ty=='Table':
                g=re.search(r'From\s*<\s*(\w+)',it.head); 
                self.p('impl<B> FromSpecImpl<%s<B>> for crate::Table<B> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: %s<B>) -> Self { v.table } }'%(g.group(1),g.group(1)))
                self.p(head+' {')
                for f in it.items: self.fn(f,[],'::'.join([self.s.name]+path+[g.group(1) if g else '?','into_table']))
                self.p('}'); return
            if tr=='Default' and ty.endswith('Args') and isinstance(owner(ty[:-4]),Table):
                t=owner(ty[:-4])
                self.p(head+' {')
                for f in it.items: self.fn(f,['ensures '+' '.join(self.argdef(x) for x in t.fields)],nm(f))
                self.p('}'); return
            # anything else is taken over as it is
            self.p(head+' {'); plain(lambda f:([],nm(f))); self.p('}'); return
        # inherent
        x=owner(key)
        nm=lambda f: '::'.join([self.s.name]+path+[key,f.name])
        if isinstance(x,Union):
            self.p(head+' {')
            for f in it.items:
                if f.kind!='fn': self.p(self.code(f.text)); continue
                sp=['ensures r == (match *self { %s }),'%', '.join('%s::%s(_) => %s::%s'%(x.path(self.R),v.rname,x.tagpath(self.R),v.rname) for v in x.variants)] if f.name=='get_type' else []
                self.fn(f,sp,nm(f))
            self.p('}'); return
        if isinstance(x,Table):
            self.proofs=[]
            self.p(head+' {')
            for f in it.items:
                if f.kind=='const' and 'VT_' in f.text: continue
                if f.kind!='fn': self.p(self.code(f.text)); continue
                if f.name=='create': self.fn(f,self.create(x,f),nm(f),body=self.trace(x,f,nm(f)))
                elif f.name=='get_root': self.fn(f,['requires crate::as_ref_spec(&buf).len() <= crate::BUFMAX(),','ensures crate::as_ref_spec(&buf).len() >= 4 ==> r is Ok && r->Ok_0.table.buf == buf && r->Ok_0.table.loc == crate::u32_at(crate::as_ref_spec(&buf), 0),','    crate::as_ref_spec(&buf).len() < 4 ==> r == Err::<Self, crate::Error>(crate::Error::OutOfBounds),'],nm(f))
                else: self.fn(f,self.accessor(x,f.name),nm(f))
            self.p('}')
            for n,x in self.proofs:
                if n in self.ext: continue
                self.p('//#fn '+n+' (history)'); self.names.append(n+' (history)'); self.p(x); self.p('//#endfn')
            return
        if key.endswith('Builder') and isinstance(owner(key[:-7]),Table):
            t=owner(key[:-7])
            self.p(head+' {')
            for f in it.items:
                if f.kind!='fn': self.p(self.code(f.text)); continue
                self.fn(f,self.builder(t,f),nm(f),pre='broadcast use crate::gpre::%s;'%{'finish':'gfinish','new':'gnew'}.get(f.name,'gadd'))
                if f.name.startswith('add_'): self.optfn(t,f); self.fromfn(t,f)
            self.p('}'); return
        self.p(head+' {'); plain(lambda f:([],nm(f))); self.p('}')
    # ---------------------------------------------------------------- tables
    def rty(self,ty):
        k=ty.kind
        if k=='s': return SC[ty.name]
        if k=='enum': return ty.item.path(self.R)
        if k=='str': return 'crate::ForwardsUOffset<&str>'
        if k=='vec': return "crate::ForwardsUOffset<crate::Vector<'_, %s>>"%self.rel(ty.el)
        if k=='table': return 'crate::ForwardsUOffset<%s<&[u8]>>'%ty.item.path(self.R)
        raise Odd(k)
    def rel(self,ty):
        return self.rty(ty)
    def default(self,f):
        if f.ty.kind=='s':
            rt=SC[f.ty.name]; v=f.dval if f.dval is not None else (0.0 if rt[0]=='f' else 0)
            if rt=='bool': return 'true' if v else 'false'
            if rt[0]=='f': return fcall(float(v),rt,True)
            return self.num(v,rt)
        if f.ty.kind=='enum' and f.dval is not None: return '%s::%s'%(f.ty.item.path(self.R),subst(f.dval))
        return None
    def isfloat(self,f): return f.ty.kind=='s' and SC[f.ty.name][0]=='f'
    def argdef(self,f):
        d=self.default(f)
        if d: return 'r.%s == %s,'%(f.arg,d)
        if f.ty.kind=='enum': return ''
        if f.ty.kind=='union': return 'r.%s is None, r.%s == %s::None,'%(f.arg,tagname(f),f.ty.item.tagpath(self.R))
        return 'r.%s is None,'%f.arg
    def accessor(self,t,name):
        for f,s,ts in t.slots():
            if f.ty.kind=='union':
                u=f.ty.item; T=u.tagpath(self.R)
                if name==tagname(f):
                    return ['requires self.table.ok(),','ensures self.table.%s::<%s>(%d%s, r),'%('req_post' if f.req else 'get_post',T,ts,'' if f.req else ', None')]
                if name==f.acc:
                    arms=[]; U=u.path(self.R)
                    for v in u.variants:
                        P="crate::ForwardsUOffset<%s<&[u8]>>"%v.path(self.R)
                        if f.req: arms.append('%s::%s => match self.table.slot(%d) { Err(e) => r is Err && r->Err_0 == e, Ok(o) => if o == 0 { r is Err && r->Err_0 is RequiredFieldMissing } else { match r { Err(e) => <%s as crate::Follow>::follow_post(self.table.bytes(), self.table.loc + o, Err(e)), Ok(x) => x is %s && <%s as crate::Follow>::follow_post(self.table.bytes(), self.table.loc + o, Ok(x->%s_0)) } } },'%(T,v.rname,s,P,v.rname,P,v.rname))
                        else: arms.append('Some(%s::%s) => match self.table.slot(%d) { Err(e) => r is Err && r->Err_0 == e, Ok(o) => if o == 0 { r is Ok && r->Ok_0 is None } else { match r { Err(e) => <%s as crate::Follow>::follow_post(self.table.bytes(), self.table.loc + o, Err(e)), Ok(x) => x is Some && x->Some_0 is %s && <%s as crate::Follow>::follow_post(self.table.bytes(), self.table.loc + o, Ok(x->Some_0->%s_0)) } } },'%(T,v.rname,s,P,v.rname,P,v.rname))
                    if f.req: return ['requires self.table.ok(),','ensures exists|q: Result<%s, crate::Error>| #[trigger] self.table.req_post::<%s>(%d, q) && match q { Err(e) => r is Err && r->Err_0 == e, Ok(t) => match t { %s %s::None => r is Err && r->Err_0 is RequiredFieldMissing } },'%(T,T,ts,' '.join(arms),T)]
                    return ['requires self.table.ok(),','ensures exists|q: Result<Option<%s>, crate::Error>| #[trigger] self.table.get_post::<%s>(%d, None, q) && match q { Err(e) => r is Err && r->Err_0 == e, Ok(t) => match t { %s Some(%s::None) => r is Ok && r->Ok_0 is None, None => r is Ok && r->Ok_0 is None } },'%(T,T,ts,' '.join(arms),T)]
            elif name==f.acc:
                T=self.rty(f.ty)
                if f.req: return ['requires self.table.ok(),','ensures self.table.req_post::<%s>(%d, r),'%(T,s)]
                d=self.default(f)
                return ['requires self.table.ok(),','ensures self.table.get_post::<%s>(%d, %s, r),'%(T,s,'Some(%s)'%d if d else 'None')]
        return ['requires self.table.ok(),']
    def nslots(self,t): return sum(2 if f.ty.kind=='union' else 1 for f in t.fields)
    def addspec(self,f,id,v,val,tag=False):
        """contract of the add_ function that writes slot id from parameter v"""
        F='crate::gpre::gst(*final(self).fbb)'; O='crate::gpre::gst(*old(self).fbb)'
        req=['requires crate::gpre::gwf(*old(self).fbb), crate::strict() ==> %s.nested, %s.used() + 16 <= 0x7fff_ffff,'%(O,O)]
        if val=='off': req.append('    %s.0 <= %s.used(),'%(v,O))
        ens=['ensures crate::gpre::gwf(*final(self).fbb), %s.nested, %s.nested, final(self).start == old(self).start, *final(final(self).fbb) == *final(old(self).fbb),'%(O,F),
             '    crate::gpre::added(%s, %s, %d), %s.used() <= %s.used() <= %s.used() + 16,'%(O,F,id,O,F,O)]
        ens.append('    '+self.outcome('put','%s, %s, %d, %s'%(O,F,id,v),f,v,tag)+',')
        return req+ens
    def skip(self,f,tag=False):
        """(suffix, argument): when the value may be left out: exactly when it is the default"""
        if tag: return 'd','%s::None'%f.ty.item.tagpath(self.R)
        d=self.default(f) if f.ty.kind in('s','enum') else None
        if d is None: return '','false'
        return ('f' if self.isfloat(f) else 'd'),d
    def outcome(self,pred,args,f,v,tag):
        x,d=self.skip(f,tag); return 'crate::gpre::%s%s(%s, %s)'%(pred,x,args,d)
    def builder(self,t,f):
        R='0x7fff_ffff'
        if f.name=='new':
            v=fnparam(f)
            return ['requires crate::gpre::gwf(*old(%s)), strict_() ==> !old(%s).nested, crate::gpre::gst(*old(%s)).fl.len() == 0, crate::gpre::gst(*old(%s)).used() <= %s,'.replace('strict_','crate::strict')%(v,v,v,v,R),
                    'ensures !old(%s).nested, crate::gpre::gwf(*r.fbb), *final(r.fbb) == *final(%s), crate::gpre::gst(*r.fbb) == (crate::St { nested: true, ..crate::gpre::gst(*old(%s)) }), r.start.0 == crate::gpre::gst(*old(%s)).used(),'%(v,v,v,v)]
        if f.name=='finish':
            rq=[s for x,s,_ in t.slots() if x.req]+[ts for x,_,ts in t.slots() if x.req and ts]
            return ['requires crate::gpre::gwf(*self.fbb), crate::gpre::endable(crate::gpre::gst(*self.fbb), self.start.0 as int),']+['    crate::strict() ==> !crate::gpre::lacks(crate::gpre::gst(*self.fbb), %d),'%s for s in rq]+\
                   ['ensures crate::gpre::gwf(*final(self.fbb)), crate::gpre::gst(*final(self.fbb)) == crate::gpre::gst(*old(self.fbb)).end_table(self.start.0 as int), r.0 == crate::gpre::gst(*old(self.fbb)).table_obj().used(),']+['    !crate::gpre::lacks(crate::gpre::gst(*old(self.fbb)), %d),'%s for x,s,_ in t.slots() if x.req]
        if f.name.startswith('add_'):
            x,s,tag=self.addof(t,f.name)
            return self.addspec(x,s,fnparam(f),'val' if tag or x.ty.kind in('s','enum') else 'off',tag)
        return []
    def addof(self,t,m):
        """the field and slot an add_ function is for"""
        for x,s,ts in t.slots():
            if m in('add_'+snake(subst(x.name)),'add_'+x.acc,'add_'+x.arg): return x,s,False
            if ts is not None and m in('add_'+tagname(x),'add_'+snake(subst(x.name))+'_type'): return x,ts,True
        raise Odd('no field for '+m)
    def via(self,t,f,fl,tag,m,e,b,x):
        a=fnparams(f)[1]
        if (tag or fl.ty.kind=='enum') and not m.group(1) and e==a+'.'+(tagname(fl) if tag else fl.arg): return '%s.vx_from_%s(%s)'%(b,m.group(2),a),e[len(a)+1:]
        return x,None
    def trace(self,t,f,pname):
        """the body of create: `if let Some(x) = E { b.add_f(x); }` becomes b.vx_opt_add_f(E), a function
        with that body; the state after each statement is named for the proof that follows"""
        body=re.sub(r'if\s+let\s+Some\s*\(\s*(\w+)\s*\)\s*=\s*([\w.\s]+?)\s*\{\s*(\w+)\s*\.\s*(add_\w+)\s*\(\s*\1\s*\)\s*;?\s*\}',
            lambda m: '%s.vx_opt_%s(%s);'%(m.group(3),m.group(4),m.group(2)),f.body)
        parts=[x.strip() for x in body.split(';')]
        m=re.match(r'let\s+mut\s+(\w+)\s*=[^{}]*$',parts[0])
        if not m or not re.match(r'%s\s*\.\s*finish\s*\(\s*\)$'%m.group(1),parts[-1]): raise Odd('shape of create')
        b=m.group(1); st='crate::gpre::gst(*%s.fbb)'%b
        out=[parts[0]+';','let ghost gs0 = %s; proof { crate::gpre::lemma_wf(*%s.fbb); }'%(st,b)]; steps=[]
        for k,x in enumerate(parts[1:-1]):
            m=re.match(r'%s\s*\.\s*(vx_opt_)?(add_\w+)\s*\(\s*([\w.\s]+?)\s*\)$'%b,x)
            if not m: raise Odd('statement of create: '+x[:60])
            fl,id,tag=self.addof(t,m.group(2)); e=re.sub(r'\s','',m.group(3))
            steps.append((id,fl,tag,bool(m.group(1)),e))
            x,via=self.via(t,f,fl,tag,m,e,b,x); steps[-1]+=(via,)
            out+=(['proof { crate::gpre::lemma_below(%s, crate::gpre::gst(*old(%s)).used(), gs%d.used()); }'%(e,fnparams(f)[0],k)] if m.group(1) else [])+[x+';','let ghost gs%d = %s; assert(gs0.used() <= gs%d.used() <= gs0.used() + %d);'%(k+1,st,k+1,16*(k+1))]
        n=len(steps); P='crate::gpre::'; L='gs%d'%n; a=fnparams(f)[1]
        ln='vx_create_%s'%t.rname
        rq=['gs0.inv(),','gs0.nested,','gs0.fl.len() == 0,','tail == gs0.used(),','%s.inv(),'%L,'%s.used() + 0x1_0020 <= 0x7fff_ffff,'%L,'%s.used() + 8 - tail < 0x1_0000,'%L]
        en=['%sendable(%s, tail), %sends(E.d, gs0.d), E.fl.len() == 0, !E.nested, B <= E.used(), %s.used() + 4 <= B,'%(P,L,P,L)]
        ids=[x[0] for x in steps]
        if all(x<y for x,y in zip(ids,ids[1:])):
            pr=['%slemma_chain_none(gs0); %slemma_chain_none(%s); let p0 = %supto(4); let q%d = %sfrom(0x10000); %slemma_chain_weak(gs0, gs0, p0); %slemma_chain_weak(%s, %s, q%d);'%(P,P,L,P,n,P,P,P,L,L,n)]
            for k,id in enumerate(ids): pr.append('%slemma_chain_up(gs0, gs%d, gs%d, %d, %d); let p%d = %supto(%d);'%(P,k,k+1,(ids[k-1]+1) if k else 4,id,k+1,P,id+1))
            for k in range(n-1,-1,-1): pr.append('%slemma_chain_down(gs%d, gs%d, %s, %d, %d); let q%d = %sfrom(%d);'%(P,k,k+1,L,ids[k+1] if k+1<n else 0x10000,ids[k],k,P,ids[k]))
        else:
            pr=['%slemma_chain_none(gs0); %slemma_chain_none(%s); let p0 = ISet::<int>::empty(); let q%d = ISet::<int>::empty();'%(P,P,L,n)]
            for k,(id,*_) in enumerate(steps): pr.append('%slemma_chain_fwd(gs0, gs%d, gs%d, p%d, %d); let p%d = p%d.insert(%d);'%(P,k,k+1,k,id,k+1,k,id))
            for k in range(n-1,-1,-1):
                id=steps[k][0]; pr.append('%slemma_chain_back(gs%d, gs%d, %s, q%d, %d); let q%d = q%d.insert(%d);'%(P,k,k+1,L,k+1,id,k,k+1,id))
        pr.append('%slemma_final(gs0, %s, p%d, tail); %slemma_end_shape(%s, tail); %slemma_end_ends(%s, tail, gs0.d); %slemma_ends_self(gs0.d);'%(P,L,n,P,L,P,L,P))
        use=[]
        for k,(id,fl,tag,op,e,via) in enumerate(steps):
            rq.append('%sadded(gs%d, gs%d, %d),'%(P,k,k+1,id))
            en.append('%sframe(gs0, gs%d, gs%d, %s, tail, %d),'%(P,k,k+1,L,id))
            pr.append('%slemma_frame(gs0, gs%d, gs%d, %s, p%d, q%d, tail, %d);'%(P,k,k+1,L,k,k+1,id))
            if op: use.append('%slemma_frame_opt(gs0, gs%d, gs%d, %s, TAIL, %d, %s);'%(P,k,k+1,L,id,e))
            elif via:
                sx,sd=self.skip(fl,tag); q='_req' if fl.req and tag else ''; v='va.'+via
                self.proofs.append((pname,'proof fn vx_frame%d_%s(o: crate::St, a: crate::St, b: crate::St, c: crate::St, tail: int, va: %s)\n    requires %sframe(o, a, b, c, tail, %d), %sput%s(a, b, %d, %s, %s),%s\n    ensures %sgot%s(c.end_table(tail).d, c.table_obj().used(), %d, %s, %s),%s\n{ %slemma_frame_put%s%s(o, a, b, c, tail, %d, %s, %s); }\n'%(k,t.rname,self.argsty(t),P,id,P,sx,id,v,sd,' %s != %s,'%(v,sd) if q else '',P,sx,id,v,sd,' !%slacks(c, %d),'%(P,id) if q or sd=='false' else '',P,sx,q,id,v,sd)))
                use.append('vx_frame%d_%s(gs0, gs%d, gs%d, %s, TAIL, %s);'%(k,t.rname,k,k+1,L,a))
            else: use.append('%slemma_frame_put%s(gs0, gs%d, gs%d, %s, TAIL, %d, %s, %s);'%(P,self.skip(fl,tag)[0]+('_req' if fl.req and tag else ''),k,k+1,L,id,e,self.skip(fl,tag)[1]))
        ex=lambda x: x.replace('E.','%s.end_table(tail).'%L).replace('B,','%s.table_obj().used(),'%L).replace('B <=','%s.table_obj().used() <='%L).replace('<= B','<= %s.table_obj().used()'%L)
        self.proofs.append((pname,'proof fn %s(%s, tail: int)\n    requires %s\n    ensures %s\n{ %s }\n'%(ln,', '.join('gs%d: crate::St'%k for k in range(n+1)),'\n        '.join(rq),'\n        '.join(ex(x) for x in en),'\n'.join(pr))))
        out.append('proof { %slemma_wf(*%s.fbb); '%(P,b)+'%s(%s, %s.start.0 as int); %s }'%(ln,', '.join('gs%d'%k for k in range(n+1)),b,' '.join(use).replace('TAIL','%s.start.0 as int'%b)))
        fb=fnparams(f)[0]; F='crate::gpre::gst(*%s)'%fb
        out.append('let ghost gtail = %s.start.0 as int; let vr = %s; proof { assert(%s == %s.end_table(gtail)); assert(vr.0 == %s.table_obj().used());'%(b,parts[-1],F,L,L))
        for l in self.create(t,f):
            m=re.match(r'\s+(crate::gpre::(?:got[df]?|gopt)\(.*),$',l)
            if m: out.append('assert(%s);'%m.group(1).replace('*final(%s)'%fb,'*'+fb).replace('r.0 as int','vr.0 as int'))
        out.append('}\nvr')
        return '\n'.join(out)
    def argsty(self,t): return '&%sArgs%s'%(t.rname,"<'_>" if self.lt.get((self.cur,t.rname+'Args')) else '')
    def fromfn(self,t,f):
        try: x,s,tag=self.addof(t,f.name)
        except Odd: return
        if not tag and x.ty.kind!='enum': return
        v=fnparam(f); e='vargs.'+(tagname(x) if tag else x.arg); n=self.s.name+'::'+t.rname+'Builder::vx_from_'+f.name
        self.p('//#fn '+n); self.names.append(n)
        self.p('pub fn vx_from_%s(&mut self, vargs: %s)'%(f.name,self.argsty(t)))
        for l in self.builder(t,f):
            self.p('    '+(l if 'crate::gpre::put' not in l else '    '+self.outcome('put','crate::gpre::gst(*old(self).fbb), crate::gpre::gst(*final(self).fbb), %d, %s'%(s,e),x,e,tag)+','))
        self.p('{ self.%s(%s); }\n//#endfn'%(f.name,e))
    def optfn(self,t,f):
        sp=self.builder(t,f)
        try: x,s,tag=self.addof(t,f.name)
        except Odd: return
        if tag or x.ty.kind in('s','enum'): return
        O='crate::gpre::gst(*old(self).fbb)'; F='crate::gpre::gst(*final(self).fbb)'
        ty=fnparamty(f)
        self.lines.append('//#fn %s'%(self.s.name+'::'+t.rname+'Builder::vx_opt_'+f.name)); self.names.append(self.s.name+'::'+t.rname+'Builder::vx_opt_'+f.name)
        self.p('pub fn vx_opt_%s(&mut self, o: Option<%s>)'%(f.name,self.code(ty)))
        for l in sp:
            l=l.replace('crate::strict() ==> ','')
            if re.match(r'\s*%s\.0 <='%fnparam(f),l): l='    crate::gpre::below(o, %s.used()),'%O
            if 'crate::gpre::put(' in l: l='    crate::gpre::opt(%s, %s, %d, o),'%(O,F,s)
            self.p('    '+l)
        self.p('{ broadcast use crate::gpre::gadd;\n if let Some(x) = o { self.%s(x); }\n }\n//#endfn'%f.name)
    def create(self,t,f):
        ps=fnparams(f)
        if len(ps)!=2: raise Odd('create parameters')
        b,a=ps; n=self.nslots(t)
        O='crate::gpre::gst(*old(%s))'%b; F='crate::gpre::gst(*final(%s))'%b
        req=['requires crate::gpre::gwf(*old(%s)), crate::strict() ==> !old(%s).nested, %s.fl.len() == 0, %s.used() + %d + 0x1_0040 <= 0x7fff_ffff,'%(b,b,O,O,16*n)]
        ens=['ensures crate::gpre::gwf(*final(%s)), !old(%s).nested, %s.fl.len() == 0, !%s.nested, crate::gpre::ends(%s.d, %s.d), %s.used() < r.0 <= %s.used(),'%(b,b,F,F,F,O,O,F)]
        for x,s,ts in t.slots():
            v='%s.%s'%(a,x.arg)
            G=lambda s,v: '%s.d, r.0 as int, %d, %s'%(F,s,v)
            if x.ty.kind in('s','enum'): ens.append('    '+self.outcome('got',G(s,v),x,v,False)+',')
            elif x.req:
                req.append('    %s.0 <= %s.used(),'%(v,O)); ens.append('    '+self.outcome('got',G(s,v),x,v,False)+',')
            else:
                req.append('    crate::gpre::below(%s, %s.used()),'%(v,O)); ens.append('    crate::gpre::gopt(%s.d, r.0 as int, %d, %s),'%(F,s,v))
            if ts is not None:
                v='%s.%s'%(a,tagname(x))
                if x.req: req.append('    %s != %s::None,'%(v,x.ty.item.tagpath(self.R)))
                ens.append('    '+self.outcome('got',G(ts,v),x,v,True)+',')
        return req+ens
    def text(self):
        return '//#schema %s\npub mod %s {\n%s\n}\n'%(self.s.name,self.s.name,'\n'.join(self.lines))

def tagname(f): return subst(snake(subst(f.name))+'_type')
def fnparams(f):
    t=toks(f.head); i=[k for k in range(len(t)) if t[k][0]=='fn'][0]+2
    if t[i][0]=='<': i=rustsrc.match_angle(t,i)+1
    e=match_close(t,i)
    import refactor
    return [p.split(':',1)[0].strip() for p in refactor.split_top(f.head[t[i][2]:t[e][1]]) if not re.match(r"^(&\s*('\w+\s*)?)?(mut\s+)?self\b",p)]
def fnparamty(f):
    t=toks(f.head); i=[k for k in range(len(t)) if t[k][0]=='fn'][0]+2
    if t[i][0]=='<': i=rustsrc.match_angle(t,i)+1
    e=match_close(t,i)
    import refactor
    return [p.split(':',1)[1].strip() for p in refactor.split_top(f.head[t[i][2]:t[e][1]]) if not re.match(r"^(&\s*('\w+\s*)?)?(mut\s+)?self\b",p)][0]
def fnparam(f):
    p=fnparams(f)
    if not p: raise Odd('parameters of '+f.name)
    return p[0]
def split_fields(b):
    import refactor
    return refactor.split_top(b)

def annotate(s,text,ext=frozenset()):
    """the emitted text of schema s with its contracts (class C), or Odd"""
    try:
        c=C(s,text,ext)
        miss=[it.full() for it in s.items if id(it) not in c.found]
        if miss: raise Odd('no definition of '+', '.join(miss[:3]))
        return c
    except (rustsrc.Lost,IndexError,KeyError,AttributeError) as e: raise Odd('%s: %s'%(type(e).__name__,e))
