"""The schemas each property is decided on: hand-written ones that cover every kind of
declaration, and random ones."""
from model import *
import itertools, math
ALL=list(SC)
def f(name,ty,dtext=None,dval=None,req=False,doc=None): return Field(name,ty,dtext,dval,req,doc)
def E(ns,name,base,*vs):
    out=[]
    for v in vs:
        if isinstance(v,str): out.append((v,None,None))
        else: out.append((v[0],v[1],int(v[1],0)))
    e=Enum(ns,name,base,out); assert e.fits(),name
    return e

def num(text,rt):
    """the value of a literal"""
    t=text
    if rt=='bool': return t in('true','1')
    if rt[0]!='f':
        s=t.lstrip('+-'); v=int(s,16) if s[:2].lower()=='0x' else int(s,10)
        return -v if t[0]=='-' else v
    s=t.lower()
    if 'nan' in s: return math.nan if s[0]!='-' else -math.nan
    if 'inf' in s: return -math.inf if s[0]=='-' else math.inf
    v=float.fromhex(t) if '0x' in s else float(t)
    if rt=='f32':
        try: struct.pack('>f',v)
        except OverflowError: v=math.copysign(math.inf,v)
    return v
def D(name,tn,text): return Field(name,S(tn),text,num(text,SC[tn]))

# ---------------------------------------------------------------- random schemas
FN=['a','b1','value','id','long_name','camelCase','X','inner_2','Name','flag','zed','http2Port','k_9','Speed','hp','mana','pos','items','w']
TN=['Alpha','Beta','Gamma','Delta','Monster','Weapon','HTTPReq','point2','Stat','Q','Zeta_1','order','Item']
VN=['Red','Green','Blue','dark','LightGrey','X1','none_','Last','Mid','A_B']
def rand_lit(r,tn):
    rt=SC[tn]
    if rt=='bool': return r.choice(['true','false'])
    if rt[0]=='f':
        return r.choice(['%g'%r.uniform(-1e6,1e6),'%.17g'%r.uniform(-1,1),'%de%d'%(r.randrange(-99,99),r.randrange(-9,9)),'.5','-.25','3.','+1.5','0.1','16777217.0','1.0000001','0.30000000000000004'])
    w=8*WIDTH[rt]; lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if rt[0]=='i' else (0,(1<<w)-1)
    v=r.choice([lo,hi,0,1,r.randint(lo,hi),r.randint(max(lo,-200),min(hi,200))])
    form=r.randrange(4)
    if form==0: return ('-' if v<0 else '')+hex(abs(v))
    if form==1: return ('-' if v<0 else '')+'0x'+('%X'%abs(v))
    if form==2 and v>=0: return '+%d'%v
    return str(v)
def rand_enum(r,ns,name,base=None):
    base=base or r.choice(INTS); rt=SC[base]; w=8*WIDTH[rt]
    lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if rt[0]=='i' else (0,(1<<w)-1)
    n=r.randint(1,6); names=r.sample(VN,n)
    while True:
        vs=[]; 
        for x in names:
            if r.random()<0.5: vs.append(x)
            else:
                v=r.choice([r.randint(lo,hi),r.randint(max(lo,-5),min(hi,100)),lo,hi-r.randint(0,3)])
                vs.append((x,r.choice([str(v),('-' if v<0 else '')+hex(abs(v))])))
        e=Enum(ns,name,base,[(v,None,None) if isinstance(v,str) else (v[0],v[1],int(v[1],0)) for v in vs])
        if e.fits(): return e
def rand_field(r,name,enums,tables,unions):
    k=r.choice(['s']*5+['enum']*2+['str','vs','vs','vstr','ve','t','vt','u'])
    if k=='s':
        tn=r.choice(ALL)
        return D(name,tn,rand_lit(r,tn)) if r.random()<0.6 else f(name,S(tn))
    if k=='enum' and enums:
        e=r.choice(enums)
        return f(name,R(e),*( (lambda v:(v[0],v[0]))(r.choice(e.variants)) if r.random()<0.5 else (None,None)))
    req=r.random()<0.3
    if k=='ve' and enums: return f(name,V(R(r.choice(enums))),req=req)
    if k=='t' and tables: return f(name,R(r.choice(tables)))
    if k=='vt' and tables: return f(name,V(R(r.choice(tables))),req=req)
    if k=='u' and unions: return f(name,R(r.choice(unions)),req=r.random()<0.15)
    if k=='vstr': return f(name,V(STR),req=req)
    if k=='vs': return f(name,V(S(r.choice(ALL))),req=req)
    return f(name,STR,req=req)
def rand_schema(r,name,nss=None):
    nss=nss or [[]]; items=[]; names=list(TN); r.shuffle(names)
    enums=[]; tables=[]; unions=[]
    for _ in range(r.randint(0,2)): e=rand_enum(r,r.choice(nss),names.pop()); enums.append(e)
    for _ in range(r.randint(1,4)): tables.append(Table(r.choice(nss),names.pop(),[]))
    for ns in nss:
        ts=[t for t in tables if t.ns==ns]
        if ts and r.random()<0.5: unions.append(Union(ns,names.pop(),r.sample(ts,r.randint(1,len(ts)))))
    reqd=set()
    for t in tables:
        ns=r.sample(FN,r.randint(0,9))
        seen=set(); fs=[]
        for n in ns:
            if rsnake(n) in seen: continue
            seen.add(rsnake(n)); fs.append(rand_field(r,n,enums,tables,unions))
        t.fields=fs
    # a required union or table must not make values infinite
    for t in tables:
        for x in t.fields:
            if x.req and (x.ty.kind in('union','table')): 
                vs=x.ty.item.variants if x.ty.kind=='union' else [x.ty.item]
                if any(any(y.req and y.ty.kind in('union','table','vec') for y in v.fields) for v in vs) or t in vs: x.req=False
            if x.req and x.ty.kind=='vec' and x.ty.el.kind=='table': x.req=False
    items=enums+tables+unions
    r.shuffle(items)
    # all items of one namespace need not be together, but the text re-opens namespaces anyway
    if any(not x.ns for x in items): items=[x for x in items if not x.ns]+[x for x in items if x.ns]
    return Schema(name,items)
def bad(name,text,why): return Schema(name,[],False,text,why)

# ---------------------------------------------------------------- G01 tables
def g01(r,n):
    out=[]
    col=E([],'Color','ubyte','Red',('Green','5'),'Blue'); neg=E([],'Temp','short',('Cold','-7'),('Hot','0x10'),'Hotter')
    inner=Table([],'Inner',[f('v',S('ulong')),f('w',STR,req=True)]); other=Table([],'Other',[D('x','float','1.5'),f('self_ref',STR)])
    other.fields.append(f('next',R(other)))
    u=Union([],'Any',[inner,other])
    rootf=[D('a','int','7'),f('b',S('bool')),f('c',STR),f('d',V(S('int'))),f('e',V(STR)),f('f',R(inner)),f('g',V(R(inner))),f('h',R(col),'Green','Green'),f('i',R(u)),f('j',V(R(col))),f('k',STR,req=True),f('l',S('short')),f('m',R(neg)),f('n',V(S('bool'))),f('o',V(S('double')),req=True)]
    out.append(Schema('kinds',[col,neg,inner,other,u,Table([],'Root',rootf)]))
    out.append(Schema('scalars',[Table([],'Sc',[f('f_'+t,S(t)) for t in ALL]),Table([],'Vecs',[f('v_'+t,V(S(t))) for t in ALL]),
        Table([],'Defs',[D('d_'+t,t,{'bool':'true'}.get(t,'-2.5' if SC[t][0]=='f' else '-3' if SC[t][0]=='i' else '200')) for t in ALL])]))
    out.append(Schema('empty',[Table([],'Nothing',[]),Table([],'One',[f('x',S('byte'))])]))
    t=Table([],'Tree',[f('val',S('int'))]); t.fields+= [f('left',R(t)),f('right',R(t)),f('kids',V(R(t)))]
    out.append(Schema('recursive',[t]))
    a=Table([],'Aa',[]); b=Table([],'Bb',[f('back',R(a)),f('s',S('long'))]); a.fields=[f('to',R(b)),f('s',S('byte'))]
    uu=Union([],'Un',[a,b]); c=Table([],'Cc',[f('u1',R(uu)),f('mid',S('ushort')),f('u2',R(uu)),f('tail',STR)])
    out.append(Schema('unions',[c,uu,a,b]))
    out.append(Schema('requnion',[uu,b,a,Table([],'Dd',[f('x',S('int')),f('u',R(uu),req=True),f('y',R(b),req=True)])]))
    out.append(Schema('many',[Table([],'Many',[D('x%d'%i,ALL[i%len(ALL)],'true' if ALL[i%len(ALL)]=='bool' else str(i)) for i in range(60)])]))
    wide=[f('x%d'%i,S(['ubyte','ushort','uint','byte','bool'][i%5])) for i in range(262)]; wide[130]=f('x130',R(uu)); wide[250]=f('x250',STR); wide[261]=D('x261','long','-9')
    out.append(Schema('wide',[a,b,uu,Table([],'Wide',wide)]))
    ns=['p','q']; e2=E(ns,'Lvl','int',('Lo','-1'),'Mid','Hi'); t2=Table(ns,'Leaf',[f('lvl',R(e2),'Hi','Hi'),f('lv',V(R(e2)))])
    t3=Table(['p'],'Top',[f('leaf',R(t2)),f('leaves',V(R(t2))),f('l',R(e2))])
    out.append(Schema('spaces',[e2,t2,t3]))
    out.append(Schema('reqs',[Table([],'Rq',[f('s',STR,req=True),f('v',V(S('long')),req=True),f('n',R(inner),req=True),f('vs',V(STR),req=True),f('vt',V(R(inner)),req=True),f('x',S('int')),D('y','double','0.1')]),inner]))
    for i in range(n): out.append(rand_schema(r,'rnd%d'%i))
    return out
# ---------------------------------------------------------------- G02 enums and unions
def g02(r,n):
    out=[]; items=[]
    for i,b in enumerate(INTS):
        rt=SC[b]; w=8*WIDTH[rt]; lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if rt[0]=='i' else (0,(1<<w)-1)
        items.append(E([],'Ext%d'%i,b,('Lo',str(lo)),('Hi',hex(hi)),('M',str((lo+hi)//2))))
    out.append(Schema('bases',items+[Table([],'Tb',[f('e%d'%i,R(e)) for i,e in enumerate(items)]+[f('v%d'%i,V(R(e))) for i,e in enumerate(items)])]))
    out.append(Schema('dense',[E([],'Dn','byte','A','Bb','C','D'),E([],'Single','uint','Only'),E([],'SingleV','ulong',('Only','18446744073709551615'))]))
    out.append(Schema('gaps',[E([],'Gp','short','A',('Bb','10'),'C',('D','-3'),'Ee','F',('Gg','0x7f')),E([],'Back','int',('A','5'),('Bb','1'),'C'),E([],'Neg','byte',('A','-2'),'Bb','C','D'),E([],'Edge','ubyte',('A','254'),'Bb'),E([],'Zero','ubyte',('A','3'),('Z','0'),'Y')]))
    ts=[Table([],'T%d'%i,[f('x',S('int'))]) for i in range(5)]
    u1=Union([],'U1',ts[:1]); u5=Union([],'U5',ts); ur=Union([],'Urev',ts[::-1]); ux=Union([],'Ux',ts[:3],['3',None,'0x10'])
    out.append(Schema('unions',ts+[u1,u5,ur,ux,Table([],'Hold',[f('a',R(u5)),f('b',R(ur)),f('c',R(u1)),f('d',R(ux)),f('e',R(u5),req=True)])]))
    many=[Table([],'M%d'%i,[]) for i in range(130)]
    out.append(Schema('wideu',many+[Union([],'Wide',many)])); out.append(Schema('widee',[E([],'Big','ushort',*['V%d'%i for i in range(262)])]))
    e=E([],'Df','short',('A','-1'),'Bb',('C','7')); out.append(Schema('defaults',[e]+[Table([],'D%s'%v,[f('x',R(e),v,v),f('y',S('int')),f('z',R(e))]) for v in('A','Bb','C')]))
    for i in range(n):
        es=[rand_enum(r,[],'En%d'%j) for j in range(4)]; tt=[Table([],'R%d'%j,[f('x',S('byte'))]) for j in range(r.randint(1,6))]
        us=[Union([],'Un%d'%j,r.sample(tt,r.randint(1,len(tt)))) for j in range(2)]
        ho=Table([],'Ho',[f('e%d'%j,R(x),*((lambda v:(v[0],v[0]))(r.choice(x.variants)) if r.random()<.5 else (None,None))) for j,x in enumerate(es)]+[f('u%d'%j,R(x)) for j,x in enumerate(us)])
        its=es+tt+us+[ho]; r.shuffle(its); out.append(Schema('rnd%d'%i,its))
    return out
# ---------------------------------------------------------------- G03 types
def g03(r,n):
    out=[]
    for i,t in enumerate(ALL): out.append(Schema('ty%d'%i,[Table([],'Tt',[f('pre',S('byte')),f('x',S(t)),f('v',V(S(t))),f('post',S('ubyte')),D('y',t,'true' if SC[t]=='bool' else '1')])]))
    for i,t in enumerate(INTS):
        e=E([],'En',t,'A',('Bb','100'),'C'); out.append(Schema('en%d'%i,[e,Table([],'Tt',[f('pre',S('byte')),f('x',R(e)),f('v',V(R(e))),f('post',S('ubyte'))])]))
    for i,t in enumerate(['bool','float','double','float32','float64','string','[int]']): out.append(bad('eb%d'%i,'enum En : %s { A, Bb }\ntable T { e: En; }\n'%t,'an enum over '+t))
    out.append(bad('eb8','enum Eo : int { A }\nenum En : Eo { A, Bb }\n','an enum over an enum'))
    inner=Table([],'In',[f('q',S('ushort'))]); u=Union([],'Un',[inner])
    out.append(Schema('refs',[inner,u,Table([],'Tt',[f('s',STR),f('vs',V(STR)),f('t',R(inner)),f('vt',V(R(inner))),f('u',R(u))])]))
    for i,nm in enumerate(['intern','stringy','boolean','byte_array','int8x','longer','floaty','double_','shortcut','ubytes','ushort2','uint_','ulongs','int64_t']):
        x=Table([],nm,[f('q',S('int'))]); out.append(Schema('pre%d'%i,[x,Table([],'Tt',[f('a',R(x)),f('b',V(R(x)))])]))
    for i in range(n): out.append(rand_schema(r,'rnd%d'%i))
    return out
# ---------------------------------------------------------------- G04 names
def rename(items): return items
def g04(r,n):
    out=[]; thorough_=n>20
    NSS=[[],['a'],['a','b'],['a','b','c'],['b'],['b','a'],['a','c'],['Game','Core'],['Game','uiKit','v2']]
    # the same name in every namespace, told apart by its only field
    same=[Table(ns,'Same',[f('only%d'%i,S('int'))]) for i,ns in enumerate(NSS)]
    users=[Table(ns,'User',[f('own',R(same[i]))]+[f('r%d'%j,R(t)) for j,t in enumerate(same) if t.ns and t.ns!=ns]) for i,ns in enumerate(NSS)]
    def order(items):
        # the text cannot return to the root namespace: items without one come first
        return [x for x in items if not x.ns]+[x for x in items if x.ns]
    out.append(Schema('same',order(same+users)))
    out.append(Schema('same_rev',order((users+same)[::-1])))
    for k in range(n//4):
        its=same+users; its=list(its); r.shuffle(its); out.append(Schema('same_p%d'%k,order(its)))
    # enums, unions and forward references across namespaces
    e=E(['x','y'],'En','byte','A',('Bb','4')); t=Table(['x'],'Tt',[f('e',R(e),'Bb','Bb'),f('v',V(R(e)))]); w=Table(['x'],'Ww',[f('t',R(t))]); u=Union(['x'],'Un',[t,w])
    h=Table(['x','y'],'Hh',[f('u',R(u)),f('t',R(t)),f('e',R(e))]); g=Table(['z'],'Gg',[f('u',R(u)),f('h',R(h)),f('e',R(e),'A','A')]); t.fields.append(f('loop',R(g)))
    base=[e,t,w,u,h,g]
    perms=list(itertools.permutations(range(6))); r.shuffle(perms)
    for k,p in enumerate(perms[:n]): out.append(Schema('fwd%d'%k,[base[i] for i in p]))
    # every pair of namespaces over two names, up to three deep
    gns=[list(p) for d in range(4) for p in itertools.product(['p','x'],repeat=d)]
    cell=[Table(ns,'Cell',[f('n%d'%i,S('int'))]) for i,ns in enumerate(gns)]
    for z in range(3): out.append(Schema('grid_%d'%z,order(cell+[Table(ns,'Refs',[f('r%d'%j,R(c)) for j,c in enumerate(cell) if c.ns and c.ns!=ns]+[f('own',R(cell[i]))]) for i,ns in enumerate(gns) if i%3==z])))
    gen=[E(ns,'Tone','byte','A',('Bb',str(i+1))) for i,ns in enumerate(gns)]; gun=[Union(ns,'Pick',[cell[i]]) for i,ns in enumerate(gns)]
    out.append(Schema('grid2',order([Table(ns,'Refs',[f('e%d'%j,R(gen[j]),'Bb','Bb') for j in range(i%2,len(gns),4) if gen[j].ns or not ns]+[f('u%d'%j,R(gun[j])) for j in range((i+1)%3,len(gns),5) if gun[j].ns or not ns]) for i,ns in enumerate(gns)]+gun+cell+gen)))
    # a chain of forward references in alternating namespaces
    ch=[Table([['m'],['m','n'],['n']][i%3],'C%d'%i,[f('q%d'%i,S('int'))]) for i in range(7)]
    for i in range(6): ch[i].fields.append(f('nx',R(ch[i+1]))); ch[i].fields.append(f('nv',V(R(ch[i+1]))))
    out.append(Schema('chain',ch)); out.append(Schema('chain_rev',ch[::-1]))
    # union chains deferred several times
    l=Table([],'Leaf',[f('q',S('int'))]); u1=Union([],'Uu1',[l]); t1=Table([],'Mid',[f('u',R(u1))]); u2=Union([],'Uu2',[t1,l]); t2=Table([],'Top',[f('u',R(u2)),f('v',R(u1))])
    for k,p in enumerate([(0,1,2,3,4),(4,3,2,1,0),(2,4,0,3,1),(3,1,4,2,0)]): out.append(Schema('defer%d'%k,[[l,u1,t1,u2,t2][i] for i in p]))
    # a union of tables that use the union
    sl=Table(['s'],'Self1',[f('q',S('int'))]); s2=Table(['s'],'Self2',[]); su=Union(['s'],'Su',[sl,s2]); s2.fields=[f('u',R(su))]; sl.fields.append(f('u',R(su))); s3=Table(['s','t'],'Out',[f('u',R(su)),f('b',R(s2))]); sl.fields.append(f('o',R(s3)))
    for k,p in enumerate(itertools.permutations([sl,s2,su,s3])):
        if k%3==0 or thorough_: out.append(Schema('rec%d'%k,list(p)))
    # a namespace named like an item
    it=Table(['k'],'It',[f('q',S('int'))]); ins=Table(['k','It'],'In',[f('r',R(it))]); it.fields.append(f('b',R(ins))); out.append(Schema('nsitem',[it,ins]))
    bads=['table T { a: Missing; }','namespace a; table X { q:int; } namespace b; table T { a: X; }','table T { a:int; } table T { b:int; }','enum E: byte {A} table E {a:int;}','union U { Nope }','namespace a; table X { q: int; } table Y { x: b.X; }','table A {x: int;} union A { A }','namespace a.b; table X {q:int;} namespace a; table T { x: X; }','table T { v: [Gone]; }',"table X { q:int; } namespace a; table T { x: X; }"]
    for k,b in enumerate(bads): out.append(bad('bad%d'%k,b+'\n','a name that denotes nothing, or two things'))
    for i in range(n): out.append(rand_schema(r,'rnd%d'%i,[['a'],['a','b'],['Big','Sm'],['b']]))
    return out
# ---------------------------------------------------------------- G05 literals
def g05(r,n):
    out=[]
    def tab(name,pairs): return Table([],name,[D('x%d'%i,t,l) for i,(t,l) in enumerate(pairs)])
    ints=[]
    for t in INTS:
        rt=SC[t]; w=8*WIDTH[rt]; lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if rt[0]=='i' else (0,(1<<w)-1)
        for v in sorted({lo,lo+1,hi,hi-1,0,1,7,9,10,100 if hi>=100 else 0,(lo+hi)//2}|({-1,-10} if lo<0 else set())):
            s='-' if v<0 else ''
            for l in {str(v),s+hex(abs(v)),s+'0x%X'%abs(v),s+'0X%x'%abs(v),s+'00%d'%abs(v),s+'0x00%x'%abs(v)}|({'+%d'%v,'+'+hex(v)} if v>=0 else {'-0'} if v==0 else set()): ints.append((t,l))
    ints=sorted(set(ints))
    for k in range(0,len(ints),50): out.append(Schema('int%d'%(k//50),[tab('Ti',ints[k:k+50])]))
    fl=['0.0','-0.0','1.5','-1.5','.5','-.5','5.','-5.','+2.5','1e3','1E3','1e+3','1e-3','-1.25e2','1.e2','.5e1','0.1','0.2','0.3','1e-45','1e38','3.4028235e38','1.17549435e-38','16777217.0','16777216.5','0.30000000000000004','123456789.123456789','1e22','1e23','9007199254740993.0','1','0','-7','+3','0x1.8p1','-0x1.8p1','0x.8p-1','0xA.Bp0','0x1.fffffep3','+0x1.p4','0x1.8p+3','-0X.8P+10','0x1P-2','0xBp2','inf','-inf','+inf','infinity','-infinity','+infinity','nan','+nan']
    dl=fl+['1e308','1.7976931348623157e308','5e-324','2.2250738585072014e-308','4.9e-324','1e-300','0x1.fffffffffffffp3']
    for fn_,ts,ls in(('f32',('float','float32'),fl),('f64',('double','float64'),dl)):
        for t in ts:
            for k in range(0,len(ls),30): out.append(Schema('%s_%s%d'%(fn_,t,k//30),[tab('Tf',[(t,l) for l in ls[k:k+30]])]))
    out.append(Schema('bools',[tab('Tb',[('bool',x) for x in('true','false','1','0')])]))
    # literal words as parts of other words, and elsewhere in the text
    e=E([],'Wd','ubyte','infrared','nano','trueish','falsehood','info','nand',('inf_','9'),'e1','x0','A')
    out.append(Schema('words',[e,Table([],'Tw',[f('w%d'%i,R(e),v[0],v[0]) for i,v in enumerate(e.variants)]+[D('nan','float','nan'),D('inf','double','-inf'),D('b','bool','true'),D('c','bool','false')])]))
    evs=[('A','0'),('Bb','0x10'),('C','017'),('D','+3'),('Ee','0x7F')]; out.append(Schema('enums',[E([],'Ev','byte',*[(a,b) if b!='017' else (a,'17') for a,b in evs]),Enum([],'Ez','int',[('Z','007',7),('Y','-0x80000000',-2**31),('X','2147483647',2**31-1)])]))
    for k,l in enumerate(['0x','--1','1.2.3','1_000','+-1','0xg','1e','.','e5','-','0x1p','12ab','1 2','truee','nan1','0b101']): out.append(bad('bad%d'%k,'table T { a: int = %s; b: float; }\n'%l,'`%s` is not a literal'%l))
    for i in range(n):
        ps=[(t,rand_lit(r,t)) for t in [r.choice(ALL) for _ in range(40)]]
        out.append(Schema('rnd%d'%i,[tab('Tr',ps)]))
    return out
# ---------------------------------------------------------------- G06 identifiers
def g06(r,n):
    out=[]
    kws=KEYWORDS
    one=[k for k in kws if k!='Self']   # self and Self would be the same accessor
    out.append(Schema('fields',[Table([],'Tf',[f(k,S('int')) for k in one]),Table([],'Tg',[f('Self',S('short')),f('Type',STR),f('Fn',S('byte')),f('matchThis',S('byte'))])]))
    out.append(Schema('refs',[Table([],'Tf',[f(k,STR if i%3==0 else V(S('byte')) if i%3==1 else V(STR),req=i%2==0) for i,k in enumerate(one)])]))
    out.append(Schema('tables',[Table([],k,[f('x',S('int'))]) for k in kws]+[Table([],'All',[f('f%d'%i,S('int')) for i,k in enumerate(kws)])]))
    ts=[Table([],k,[f('x',S('int'))]) for k in kws]
    out.append(Schema('use_tables',ts+[Table([],'All',[f('f%d'%i,R(t) if i%2 else V(R(t))) for i,t in enumerate(ts)])]))
    out.append(Schema('enums',[E([],k,'byte','A','Bb') for k in one]))
    out.append(Schema('enums2',[E([],k,'byte','Error','Inner','Output','None_','Some_') for k in('Self','Kind')]))
    e=E([],'Kw','int',*kws); out.append(Schema('variants',[e]+[Table([],'D%d'%i,[f('x',R(e),k,k),f('y',V(R(e)))]) for i,k in enumerate(kws) if k not in('true','false')]))
    us=[Table([],'Aa',[f('x',S('int'))])]; uns=[Union([],k,us) for k in one]
    out.append(Schema('unions',us+uns+[Table([],'Hold',[f('u%d'%i,R(x)) for i,x in enumerate(uns)])]))
    out.append(Schema('uvariants',ts+[Union([],'Uk',ts),Table([],'Hold',[f('type',R(Union([],'Uk',ts)))])]))
    uk=out[-1].items[-2]; out[-1].items[-1].fields=[f('type',R(uk)),f('match',R(uk)),f('fn',R(uk),req=True)]
    out.append(Schema('spaces',[Table([k],'Aa',[f('x',S('int'))]) for k in kws if k!='Self']+[Table(['top','Self'],'Bb',[f('x',S('int'))])]))
    sp=out[-1].items; sp.append(Table(['self','fn'],'User',[f('f%d'%i,R(t)) for i,t in enumerate(list(sp))]))
    odd=['as_','asx','xas','As','AS','typ','types','Type_','selfish','crated','_self','self1','fnord','trye','Try','unions','table','namespace','string_','u8','i32','str','usize','Vec','B1','default','Some_','auto','macro_rules','raw','Box','dyn_','async_fn']
    out.append(Schema('others',[Table([],'To',[f(k,S('int')) for k in odd if k not in('As','AS','Type_','Try','_self','macro_rules','dyn_','B1','typ','types')]),Table([],'Tp',[f(k,S('int')) for k in('As','Type_','Try','_self','B1','typ','types')])]+[Table([],k,[f('x',S('int'))]) for k in('As','Types','Crate','Super','fnord','Mod','selfish','_under','Try')]+[E([],'Vo','byte','as_','asx','As','AS','typ','Type_','selfish','_self','u8','Vec')]))
    for i in range(n):
        pool=kws+odd+FN; fs=[]; seen=set()
        for k in r.sample(pool,14):
            if rsnake(subst(k)) in seen or subst(k)!=k and False: continue
            if snake(subst(k))=='' or rsnake(subst(k)) in seen: continue
            seen.add(rsnake(subst(k))); fs.append(rand_field(r,k,[],[],[]))
        vt=[snake(subst(x.name)) for x in fs]
        fs=[x for i2,x in enumerate(fs) if vt.index(snake(subst(x.name)))==i2]
        ns=r.sample([k for k in kws if k!='Self'],r.randint(0,2))
        out.append(Schema('rnd%d'%i,[Table(ns,r.choice(kws+['Plain']),fs)]))
    return out
# ---------------------------------------------------------------- G08 services
def g08(r,n):
    out=[]; M=lambda n,a,b,s=None,*d: (n,a,b,s,list(d))
    def order(items): return [x for x in items if not x.ns]+[x for x in items if x.ns]
    a=Table([],'Req',[f('x',S('int'))]); b=Table([],'Res',[f('y',STR)])
    modes=Rpc([],'Modes',[M('Plain',a,b),M('Up',a,b,'client'),M('Down',b,a,'server'),M('Both',a,a,'bidi'),M('Again',b,b)])
    out.append(Schema('modes',[a,b,modes])); out.append(Schema('modes_fwd',[modes,a,b])); out.append(Schema('modes_mid',[a,modes,b])); out.append(Schema('modes_mid2',[b,modes,a]))
    out.append(Schema('docs',[a,b,Rpc([],'Docs',[M('One',a,b,None,' first',' second'),M('Two',a,b,'server',' only'),M('Three',b,a)],[' the service',' in two lines']),Rpc([],'NoDocs',[M('One',b,a)])]))
    names=['SayHello','say_hello2','HTTPGet','get','X','Type','fn','matchThis','loop','Self','self','As','Async','try','yield','camelCase','A1b2','Super','_under']
    out.append(Schema('names',[a,b,Rpc([],'Names',[M(x,a,b,[None,'client','server','bidi'][i%4]) for i,x in enumerate(names)])]))
    out.append(Schema('svcnames',[a,b]+[Rpc([],x,[M('Do',a,b)]) for x in('type','fn','Self','Svc','HTTPService','x')]))
    NSS=[[],['a'],['a','b'],['b'],['type'],['Game','uiKit']]
    ts=[Table(ns,'Msg',[f('m%d'%i,S('int'))]) for i,ns in enumerate(NSS)]
    svs=[Rpc(ns,'Svc',[M('Own',ts[i],ts[i])]+[M('To%d'%j,ts[j],ts[(j*2+1)%len(ts)] if ts[(j*2+1)%len(ts)].ns or not ns else ts[j],[None,'client','server','bidi'][(i+j)%4]) for j in range(len(ts)) if ts[j].ns or not ns]) for i,ns in enumerate(NSS)]
    out.append(Schema('spaces',order(ts+svs))); out.append(Schema('spaces_rev',order((ts+svs)[::-1]))); out.append(Schema('spaces_fwd',order(svs+ts)))
    out.append(Schema('two',[a,b]+[Rpc([],'Svc%d'%k,[M('M%d'%j,[a,b][j%2],[a,b][k%2]) for j in range(k+1)]) for k in range(6)]))
    out.append(Schema('none',[a,b])); out.append(Schema('long',[a,b,Rpc([],'Long',[M('M%d'%j,[a,b][j%3%2],[a,b][j%2],[None,'client','server','bidi'][j%4]) for j in range(80)])]))
    # enough declarations for several rounds of deferral
    ch=[Table([],'C%d'%i,[]) for i in range(6)]
    for i in range(5): ch[i].fields.append(f('nx',R(ch[i+1])))
    out.append(Schema('defer',[Rpc([],'Early',[M('A',ch[0],ch[5]),M('B1',ch[3],ch[0],'server')])]+ch+[Rpc([],'Late',[M('A',ch[5],ch[0],'bidi')])]))
    T='table A {x:int;} table C {x:int;} enum En: byte {P} union Un {A} '
    bads=['D(A):Gone;','D(Gone):A;','D(En):A;','D(A):En;','D(Un):A;','D(A):Un;','D(A):C(streaming:"both");','D(A):C(streaming:"");','D(A):C(streaming:"Server");','D(A):C(streaming);','D(A):C(streaming:1);','D(A):C(streaming:true);','D(A):C(streaming:"server ");','D(A):C(streaming:"none");','D(A):C; E(A):Gone;','D(A):C; E(A):C(streaming:"x");','D(A):n.A;','D(int):A;','D(A):string;','D([A]):A;','D(A);','D():A;','']
    for k,m in enumerate(bads): out.append(bad('bad%d'%k,T+'rpc_service S { %s }\n'%m,'not a service over defined tables with a known streaming mode: '+m)); 
    out.append(bad('badns',"table A {x:int;} namespace n; rpc_service S { D(A):A; }\n",'a service whose request type denotes nothing in its namespace'))
    out.append(bad('badns2',"namespace n; table A {x:int;} namespace m; rpc_service S { D(n.A):A; }\n",'a service whose response type denotes nothing in its namespace'))
    for i in range(n):
        nss=r.choice([[[]],[['a'],['a','b'],['b']],[['m'],['m','n']]])
        s=rand_schema(r,'rnd%d'%i,nss); tb=[x for x in s.items if isinstance(x,Table)]
        for k in range(r.randint(1,3)):
            ns=r.choice(tb).ns; ok=[t for t in tb if t.ns or not ns]; docs=lambda: [r.choice([' note',' a: b;',' rpc_service','']) for _ in range(r.choice([0,0,1,2]))]
            s.items.insert(r.randint(0,len(s.items)),Rpc(ns,'Service%d'%k,[M(x,r.choice(ok),r.choice(ok),r.choice([None,'client','server','bidi']),*docs()) for x in r.sample(names,r.randint(1,7))],docs()))
        s.items=order(s.items); out.append(s)
    return out
CORPUS={'G08':(g08,60,600),'G01':(g01,14,60),'G02':(g02,8,40),'G03':(g03,4,30),'G04':(g04,8,40),'G05':(g05,6,60),'G06':(g06,6,40)}
def corpus(prop,seed,thorough):
    g,q,t=CORPUS[prop]; r=random.Random(seed*1000+int(prop[1:]))
    out=g(r,t if thorough else q)
    for s in out:
        s.fbs=s.text(random.Random(r.random()) if s._text is None and (s.name.startswith(('rnd','fwd','same','defer'))) else None)
    assert len({s.name for s in out})==len(out)
    return out
