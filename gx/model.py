"""Schema model: an independent description of what a FlatBuffers schema means.
It prints itself as .fbs text and is the oracle for the generated code: Rust type,
slot, default and enum values are computed here from the FlatBuffers rules, never
from butte-build's output."""
import random, struct
SC={'bool':'bool','byte':'i8','ubyte':'u8','short':'i16','ushort':'u16','int':'i32','uint':'u32',
 'long':'i64','ulong':'u64','float':'f32','double':'f64','int8':'i8','uint8':'u8','int16':'i16','uint16':'u16',
 'int32':'i32','uint32':'u32','int64':'i64','uint64':'u64','float32':'f32','float64':'f64'}
INTS=[k for k,v in SC.items() if v[0] in 'iu']
WIDTH={'bool':1,'i8':1,'u8':1,'i16':2,'u16':2,'i32':4,'u32':4,'i64':8,'u64':8,'f32':4,'f64':8}
KEYWORDS='''as async await break const continue crate dyn else enum extern false fn for if impl in let loop match
mod move mut pub ref return self Self static struct super trait true type unsafe use where while
abstract become box do final macro override priv try typeof unsized virtual yield'''.split()
def subst(n): return 'ty' if n=='type' else n+'_' if n in KEYWORDS else n
def words(s):
    out=[]
    for w in ''.join(c if c.isalnum() else ' ' for c in s).split():
        init=0; mode='b'
        for i,c in enumerate(w):
            if i+1<len(w):
                nx=w[i+1]
                nm='l' if c.islower() else 'u' if c.isupper() else mode
                if nm=='l' and nx.isupper(): out.append(w[init:i+1]); init=i+1; mode='b'
                elif mode=='u' and c.isupper() and nx.islower(): out.append(w[init:i]); init=i; mode='b'
                else: mode=nm
            else: out.append(w[init:])
    return [x for x in out if x]
def snake(s): return '_'.join(w.lower() for w in words(s))
def rsnake(s): return subst(snake(s))

class Ty:
    """kind: s (scalar, .name) | str | enum | table | union (.item) | vec (.el)"""
    def __init__(s,kind,name=None,item=None,el=None): s.kind=kind; s.name=name; s.item=item; s.el=el
def S(n): return Ty('s',n)
STR=Ty('str')
def V(el): return Ty('vec',el=el)
def R(item): return Ty({'Enum':'enum','Table':'table','Union':'union'}[type(item).__name__],item=item)

class Item:
    def __init__(self,ns,name): self.ns=list(ns); self.name=name; self.qual=None
    @property
    def rname(self): return subst(self.name)
    def mods(self): return [rsnake(subst(x)) for x in self.ns]
    def path(self,root): return '::'.join([root]+self.mods()+[self.rname])
    def full(self): return '.'.join(self.ns+[self.name])
class Enum(Item):
    def __init__(self,ns,name,base,variants): super().__init__(ns,name); self.base=base; self.variants=variants  # [(name, text or None, value or None)]
    @property
    def rbase(self): return SC[self.base]
    def values(self):
        out=[]; nx=0
        for n,_,v in self.variants:
            if v is None: v=nx
            out.append((subst(n),v)); nx=v+1
        return out
    def rawnames(self): return [subst(n) for n,_,_ in self.variants]
    def namefn(self,root): return '::'.join([root]+self.mods()+['enum_name_'+snake(self.rname)])
    def fits(self):
        w=8*WIDTH[self.rbase]; lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if self.rbase[0]=='i' else (0,(1<<w)-1)
        vs=[v for _,v in self.values()]
        return all(lo<=v<=hi for v in vs) and len(set(vs))==len(vs)
class Union(Item):
    def __init__(self,ns,name,variants,texts=None): super().__init__(ns,name); self.variants=variants; self.texts=texts or [None]*len(variants)
    def tags(self):
        out=[('None',0)]; nx=1
        for t,x in zip(self.variants,self.texts):
            v=nx if x is None else int(x,0); out.append((t.rname,v)); nx=v+1
        return out
    def rawnames(self): return ['None']+[t.rname for t in self.variants]
    def namefn(self,root): return '::'.join([root]+self.mods()+['butte_gen','enum_name_'+snake(self.name+'Type')])
    def tagpath(self,root): return '::'.join([root]+self.mods()+['butte_gen',self.name+'Type'])
class Field:
    def __init__(self,name,ty,dtext=None,dval=None,req=False,doc=None): self.name=name; self.ty=ty; self.dtext=dtext; self.dval=dval; self.req=req; self.doc=doc
    @property
    def arg(self): return subst(self.name)
    @property
    def acc(self): return rsnake(subst(self.name))
class Table(Item):
    def __init__(self,ns,name,fields): super().__init__(ns,name); self.fields=fields
    def slots(self):
        """[(field, slot of the value, slot of the type tag or None)]"""
        out=[]; i=0
        for f in self.fields:
            if f.ty.kind=='union': out.append((f,4+2*(i+1),4+2*i)); i+=2
            else: out.append((f,4+2*i,None)); i+=1
        return out
class Rpc(Item):
    """methods: [(name, request table, response table, streaming None|client|server|bidi, documentation lines)]"""
    def __init__(self,ns,name,methods,doc=()): super().__init__(ns,name); self.methods=methods; self.doc=doc
    def record(self):
        """what a service generator must be given"""
        q=lambda i: '.'.join(subst(x) for x in i.ns+[i.name]); d=lambda ls: '\x1f'.join(x.strip() for x in ls)
        return [['S',q(self),d(self.doc)]]+[['M',subst(n),rsnake(n),q(a),q(b),(s or 'none').capitalize(),d(dc)] for n,a,b,s,dc in self.methods]
class Schema:
    def __init__(self,name,items,valid=True,text=None,why=''): self.name=name; self.items=items; self.valid=valid; self._text=text; self.why=why
    def text(self,rng=None):
        if self._text is not None: return self._text
        return render(self,rng)

def ref(item,ns,qual): return item.name if item.ns==ns and not qual else item.full()
def tytext(t,ns,qual):
    if t.kind=='s': return t.name
    if t.kind=='str': return 'string'
    if t.kind=='vec': return '['+tytext(t.el,ns,qual)+']'
    return ref(t.item,ns,qual and len(t.item.ns)>0)
def render(sch,rng):
    """the schema as text; with rng: with layout, comments, documentation, further metadata, includes, root types and services mixed in"""
    r=rng or random.Random(0)
    def sp(): return r.choice(['',' ','  ','\n ','\t','\r\n','',' ',' // , ; } (\n']) if rng else ''
    def sp1(): return r.choice([' ','\n','\t ',' // c\n',' // inf nan true false; } {\n',' //\n','\r\n']) if rng else ' '
    def doc(): return ''.join('/// %s\n'%r.choice(['a note','table X { a: int = 3; }','x = "q" // y','','true','type fn']) for _ in range(r.choice([0,0,0,0,1,2]))) if rng else ''
    def tr(): return r.choice(['',sp()+',']) if rng else ''
    def dots(t): return ''.join(r.choice(['.','.','.','. ',' .',' // p.q\n.','. // p.q\n']) if c=='.' else c for c in t) if rng else t
    out=[]; cur=[]
    if rng and r.random()<0.3: out+=['include "some/other.fbs";']*r.randint(1,2)
    seen=[]
    for it in sch.items:
        if it.ns!=cur:
            dot=lambda: dots('.')
            s=it.ns[0]
            for x in it.ns[1:]: s+=dot()+x
            out.append('namespace'+sp1()+s+sp()+';'); cur=it.ns
        q=lambda: bool(rng and r.random()<0.4)
        if isinstance(it,Enum):
            vs=(','+sp()).join(doc()+n+('' if t is None else sp()+'='+sp()+t) for n,t,_ in it.variants)
            out.append(doc()+'enum'+sp1()+it.name+sp()+':'+sp()+it.base+sp()+'{'+sp()+vs+tr()+sp()+'}')
        elif isinstance(it,Rpc):
            ms=[]
            for n,a,b,s,dc in it.methods:
                m=[]
                if s: m=['streaming'+sp()+':'+sp()+'"%s"'%s]
                if rng and r.random()<0.25: m+=r.sample(['idempotent','priority: 3','x: "server"','server','client: true'],r.randint(1,2)); r.shuffle(m)
                ms.append(''.join('///%s\n'%x for x in dc)+n+sp()+'('+sp()+dots(ref(a,it.ns,q() and a.ns))+sp()+')'+sp()+':'+sp()+dots(ref(b,it.ns,q() and b.ns))+(sp()+'('+sp()+(sp()+','+sp()).join(m)+sp()+')' if m else '')+sp()+';')
            out.append(''.join('///%s\n'%x for x in it.doc)+'rpc_service'+sp1()+it.name+sp()+'{'+sp()+sp1().join(ms)+sp()+'}')
        elif isinstance(it,Union):
            vs=(','+sp()).join(doc()+x.name+('' if t is None else sp()+'='+sp()+t) for x,t in zip(it.variants,it.texts))
            out.append(doc()+'union'+sp1()+it.name+sp()+'{'+sp()+vs+tr()+sp()+'}')
        else:
            fs=[]
            for f in it.fields:
                s=('/// %s\n'%f.doc if f.doc else doc())+f.name+sp()+':'+sp()+dots(tytext(f.ty,it.ns,q()))
                if f.dtext is not None: s+=sp()+'='+sp()+f.dtext
                ms=['required'] if f.req else []
                if rng and r.random()<0.2: ms+=r.sample(['deprecated','id: 3','priority: 1.5','key','hash: "fnv1_32"','requires','not_required: true'],r.randint(1,2)); r.shuffle(ms)
                if ms: s+=sp()+'('+sp()+(sp()+','+sp()).join(ms)+sp()+')'
                fs.append(s+sp()+';')
            tm=sp1()+'('+r.choice(['original_order','required','csharp_partial, nested'])+')' if rng and r.random()<0.15 else ''
            out.append(doc()+'table'+sp1()+it.name+tm+sp()+'{'+sp()+sp1().join(fs)+sp()+'}')
            seen.append(it)
        if rng and r.random()<0.3: out.append(r.choice(['// note\n','// table X { nan: inf; }\n','\n\n']))
        if rng and r.random()<0.1:
            ts=[x for x in sch.items if isinstance(x,Table) and x.ns==it.ns]
            if ts: out.append('root_type'+sp1()+r.choice(ts).name+sp()+';')
        if rng and r.random()<0.08 and not any(isinstance(x,Rpc) for x in sch.items):
            ts=[x for x in sch.items if isinstance(x,Table) and x.ns==it.ns]
            if ts: out.append('rpc_service Svc%d { DoIt(%s):%s; Many(%s):%s(streaming: "server"); }'%(len(out),r.choice(ts).name,r.choice(ts).name,r.choice(ts).name,r.choice(ts).name))
    return '\n'.join(out)+'\n'

# ---------------------------------------------------------------- rust text of values
def lit(v,rt):
    if rt=='bool': return 'true' if v else 'false'
    if rt in('f32','f64'):
        b=struct.pack('>f' if rt=='f32' else '>d',v)
        return '%s::from_bits(0x%s)'%(rt,b.hex())
    return '(%d%s)'%(v,rt) if v>=0 else '(%d%s)'%(v,rt)
