"""Rust program that runs generated code against the schema model (failing-input search)."""
from model import *
class H:
    def __init__(self,sch): self.s=sch; self.r='crate::'+sch.name; self.o=[]; self.ids={id(x):i for i,x in enumerate(sch.items)}
    def vt(self,t): return 'V%d'%self.ids[id(t)]
    def enp(self,e): return e.path(self.r)
    def vty(self,ty,top=True):
        k=ty.kind
        if k=='s': return SC[ty.name]
        if k=='enum': return self.enp(ty.item)
        if k=='str': return 'String'
        if k=='vec': return 'Vec<%s>'%self.vty(ty.el,False)
        if k=='table': return ('Box<%s>' if top else '%s')%self.vt(ty.item)
        return 'U%d'%self.ids[id(ty.item)]
    def fty(self,f):
        t=self.vty(f.ty)
        return t if f.ty.kind in('s','enum') else 'Option<%s>'%t
    def arb(self,ty,d):
        k=ty.kind
        if k=='s': return '<%s as Sc>::arb(g)'%SC[ty.name]
        if k=='enum': return 'arb_e%d(g)'%self.ids[id(ty.item)]
        if k=='str': return 'g.string()'
        if k=='vec': return 'g.vec(|g| %s)'%self.arb2(ty.el,d)
        if k=='table': return 'Box::new(arb_%s(g, %s))'%(self.vt(ty.item),d)
        return 'arb_u%d(g, %s)'%(self.ids[id(ty.item)],d)
    def arb2(self,ty,d): return 'arb_%s(g, %s)'%(self.vt(ty.item),d) if ty.kind=='table' else self.arb(ty,d)
    def has_ref(self,ty): return ty.kind in('table','union') or ty.kind=='vec' and self.has_ref(ty.el)
    def default(self,f):
        """(rust text of the default or None when absent reads as None)"""
        if f.ty.kind=='s':
            rt=SC[f.ty.name]
            return lit(f.dval if f.dval is not None else (0.0 if rt[0]=='f' else 0),rt)
        if f.ty.kind=='enum' and f.dval is not None: return '%s::%s'%(self.enp(f.ty.item),subst(f.dval))
        return None
    def cmp(self,ty,got,want,what):
        """statements comparing a read value with the expected one"""
        k=ty.kind
        if k=='s': return 'ck!(same(%s, %s), "%s: got {:?}, stored {:?}", %s, %s);'%(got,want,what,got,want)
        if k=='enum': return 'ck!(%s == %s, "%s: got {:?}, stored {:?}", %s, %s);'%(got,want,what,got,want)
        if k=='str': return 'ck!(%s == %s.as_str(), "%s: got {:?}, stored {:?}", %s, %s);'%(got,want,what,got,want)
        if k=='table': return 'rd_%s(&%s, &%s).map_err(|e| format!("%s.{}", e))?;'%(self.vt(ty.item),got,want,what)
        if k=='union':
            u=ty.item; i=self.ids[id(u)]
            return 'match (%s, &%s) { %s _ => ck!(false, "%s: wrong union variant") }'%(got,want,' '.join('(%s::%s(x), U%d::%s(y)) => { ck!(matches!(%s::%s(x).get_type(), %s::%s), "%s: get_type"); rd_%s(&x, y)?; }'%(u.path(self.r),t.rname,i,t.rname,u.path(self.r),t.rname,u.tagpath(self.r),t.rname,what,self.vt(t)) for t in u.variants),what)
        el=ty.el
        return '''{ let w = &%s; let n = %s.len().map_err(|e| format!("%s: length {:?}", e))?; ck!(n == w.len(), "%s: {} elements, stored {}", n, w.len());
            for (i, x) in %s.iter().enumerate() { let x = x.map_err(|e| format!("%s[{}]: {:?}", i, e))?; let y = &w[i]; %s }
            for i in 0..n { let x = %s.get(i).map_err(|e| format!("%s[{}]: {:?}", i, e))?; let y = &w[i]; %s } }'''%(want,got,what,what,got,what,self.cmp(el,'x','(*y)',what+' element'),got,what,self.cmp(el,'x','(*y)',what+' element'))
    def wire(self,ty,p,want,what):
        """statements comparing the stored bytes at location p"""
        k=ty.kind
        if k=='s': return '{ let x: %s = wsc(b, %s)?; ck!(same(x, %s), "%s: stored bytes read {:?}, given {:?}", x, %s); }'%(SC[ty.name],p,want,what,want)
        if k=='enum':
            e=ty.item
            return '{ let x: %s = wsc(b, %s)?; ck!(x as i128 == val_e%d(%s), "%s: stored bytes read {:?}, given {:?}", x, %s); }'%(e.rbase,p,self.ids[id(e)],want,what,want)
        if k=='str': return '{ let x = wstr(b, %s)?; ck!(x == %s, "%s: stored string {:?}, given {:?}", x, %s); }'%(p,want,what,want)
        if k=='table': return 'wire_%s(b, follow(b, %s), &%s).map_err(|e| format!("%s.{}", e))?;'%(self.vt(ty.item),p,want,what)
        el=ty.el
        w=WIDTH[SC[el.name]] if el.kind=='s' else WIDTH[el.item.rbase] if el.kind=='enum' else 4
        return '{ let w = &%s; let ps = wvec(b, %s, %d); ck!(ps.len() == w.len(), "%s: {} elements stored, {} given", ps.len(), w.len()); for (i, &q) in ps.iter().enumerate() { let y = &w[i]; %s } }'%(want,p,w,what,self.wire(el,'q','(*y)',what+' element'))
    def mk(self,ty,x):
        """expression making the object for value x, giving its offset"""
        k=ty.kind
        if k=='str': return 'b.create_string(%s.as_str())'%x
        if k=='table': return 'mk_%s(b, &%s)'%(self.vt(ty.item),x)
        el=ty.el
        if el.kind in('s','enum'): return 'b.create_vector(&%s[..])'%x
        return '{ let mut offs = vec![]; for y in %s.iter() { let o = %s; offs.push(o); } b.create_vector(&offs) }'%(x,self.mk(el,'(*y)'))
    def emit(self):
        p=self.o.append
        for it in self.s.items:
            i=self.ids[id(it)]
            if isinstance(it,Enum):
                E=self.enp(it); vs=it.values()
                p('pub fn arb_e%d(g: &mut G) -> %s { [%s][g.n(%d) as usize] }'%(i,E,', '.join('%s::%s'%(E,n) for n,_ in vs),len(vs)))
                p('pub fn val_e%d(e: %s) -> i128 { match e { %s } }'%(i,E,' '.join('%s::%s => %d,'%(E,n,v) for n,v in vs)))
                self.enum(it,i,E,vs)
            elif isinstance(it,Union):
                p('#[derive(Clone, Debug)] pub enum U%d { %s }'%(i,', '.join('%s(Box<%s>)'%(t.rname,self.vt(t)) for t in it.variants)))
                p('pub fn arb_u%d(g: &mut G, d: u32) -> U%d { match g.n(%d) { %s _ => U%d::%s(Box::new(arb_%s(g, d))) } }'%(i,i,len(it.variants),' '.join('%d => U%d::%s(Box::new(arb_%s(g, d))),'%(j,i,t.rname,self.vt(t)) for j,t in enumerate(it.variants[:-1])),i,it.variants[-1].rname,self.vt(it.variants[-1])))
                self.union(it,i)
            else: self.table(it)
        p('pub fn run(g: &mut G, n: u64, first: bool) -> Res {')
        for it in self.s.items:
            if isinstance(it,Enum): p('if first { e_%d().map_err(|e| format!("%s: {}", e))?; }'%(self.ids[id(it)],it.full()))
            elif isinstance(it,Union): p('ut_%d().map_err(|e| format!("%s: {}", e))?;'%(self.ids[id(it)],it.full()))
            else: p('for _ in 0..n { t_%s(g).map_err(|e| format!("table %s: {}", e))?; }'%(self.vt(it),it.full()))
        p('Ok(()) }')
        return '\n'.join(self.o)
    def enum(self,e,i,E,vs):
        p=self.o.append; b=e.rbase; r=self.r
        p('fn one_e%d(v: %s) -> Res { use std::convert::TryFrom; let want: Option<%s> = match v { %s _ => None };'%(i,b,E,' '.join('%d => Some(%s::%s),'%(v,E,n) for n,v in vs)))
        p(' let got = <%s as TryFrom<%s>>::try_from(v); let buf = v.to_le_bytes(); let fol = <%s as butte::Follow>::follow(&buf, 0);'%(E,b,E))
        p(' match want { Some(w) => { ck!(got == Ok(w), "try_from({}) gives {:?}", v, got); ck!(fol == Ok(w), "the stored value {} reads as {:?}", v, fol); let x: %s = w.into(); ck!(x == v, "{:?} converts to {}, declared value {}", w, x, v); ck!(w as %s == v, "{:?} as integer is {}, declared {}", w, w as %s, v); let mut d = [0xAAu8; %d]; butte::Push::push(&w, &mut d, &[]); ck!(d[..] == buf[..], "{:?} is stored as {:?}", w, d); }'%(b,b,b,WIDTH[b]))
        p(' None => { ck!(got == Err(butte::Error::UnknownEnumVariant), "try_from({}) gives {:?}, not a declared value", v, got); ck!(fol == Err(butte::Error::UnknownEnumVariant), "the undeclared stored value {} reads as {:?}", v, fol); } } Ok(()) }')
        p('fn e_%d() -> Res { ck!(std::mem::size_of::<%s>() == %d, "size of the enum"); ck!(<%s as butte::Push>::size() == %d, "stored size of the enum");'%(i,E,WIDTH[b],E,WIDTH[b]))
        for (n,_),raw in zip(vs,e.rawnames()): p(' ck!(%s(%s::%s) == "%s", "the name of %s is given as {:?}", %s(%s::%s));'%(e.namefn(r),E,n,raw,raw,e.namefn(r),E,n))
        if WIDTH[b]<=2: p(' for v in %s::MIN..=%s::MAX { one_e%d(v)?; }'%(b,b,i))
        else:
            p(' for &c in &[0i128, %s, %s::MIN as i128, %s::MAX as i128] { for d in -300i128..=300 { let v = c + d; if v >= %s::MIN as i128 && v <= %s::MAX as i128 { one_e%d(v as %s)?; } } }'%(', '.join('%di128'%v for _,v in vs),b,b,b,b,i,b))
            p(' for s in 0..%d { for d in -1i128..=1 { let v = (1i128 << s) + d; if v >= %s::MIN as i128 && v <= %s::MAX as i128 { one_e%d(v as %s)?; } } }'%(8*WIDTH[b],b,b,i,b))
        p(' Ok(()) }')
    def union(self,u,i):
        p=self.o.append; T=u.tagpath(self.r); tags=u.tags()
        p('fn ut_%d() -> Res { use std::convert::TryFrom; for v in 0..=255u8 { let want = match v { %s _ => None }; let got = <%s as TryFrom<u8>>::try_from(v); ck!(got.ok() == want, "type tag {} means {:?}, expected {:?}", v, got, want); if let Some(w) = want { let x: u8 = w.into(); ck!(x == v, "type tag of {:?} is {}", w, x); ck!(w as u8 == v, "type tag of {:?} is {}", w, w as u8); } else { ck!(got == Err(butte::Error::UnknownEnumVariant), "unknown tag {} gives {:?}", v, got); } } %s ck!(<%s as butte::Push>::size() == 1, "size of the tag"); Ok(()) }'%(i,' '.join('%d => Some(%s::%s),'%(v,T,n) for n,v in tags),T,' '.join('ck!(%s(%s::%s) == "%s", "the name of %s is given as {:?}", %s(%s::%s));'%(u.namefn(self.r),T,n,raw,raw,u.namefn(self.r),T,n) for (n,_),raw in zip(tags,u.rawnames())),T))
    def table(self,t):
        p=self.o.append; vt=self.vt(t); T=t.path(self.r); sl=t.slots(); nsl=sum(2 if f.ty.kind=='union' else 1 for f in t.fields)
        p('#[derive(Clone, Debug)] pub struct %s { %s }'%(vt,' '.join('f%d: %s,'%(i,self.fty(f)) for i,(f,_,_) in enumerate(sl))))
        fs=[]
        for i,(f,s,ts) in enumerate(sl):
            if f.ty.kind in('s','enum'):
                d=self.default(f)
                x=self.arb(f.ty,'d')
                if d: x='if g.n(4) == 0 { %s } else { %s }'%(d,x)
            else:
                x='Some(%s)'%self.arb(f.ty,'d.saturating_sub(1)')
                if f.req: pass
                elif self.has_ref(f.ty): x='if d > 0 && g.some() { %s } else { None }'%x
                else: x='if g.some() { %s } else { None }'%x
            fs.append('let f%d = %s;'%(i,x))
        p('pub fn arb_%s(g: &mut G, d: u32) -> %s { %s %s { %s } }'%(vt,vt,' '.join(fs),vt,', '.join('f%d'%i for i in range(len(sl)))))
        # building
        body=[]; args=[]
        for i,(f,s,ts) in enumerate(sl):
            if f.ty.kind in('s','enum'): args.append('%s: v.f%d'%(f.arg,i)); continue
            if f.ty.kind=='union':
                u=f.ty.item; ui=self.ids[id(u)]
                body.append('let (k%d, o%d) = match &v.f%d { None => (%s::None, None), %s };'%(i,i,i,u.tagpath(self.r),' '.join('Some(U%d::%s(x)) => (%s::%s, Some(mk_%s(b, x).as_union_value())),'%(ui,x.rname,u.tagpath(self.r),x.rname,self.vt(x)) for x in u.variants)))
                args.append('%s: k%d'%(subst(snake(subst(f.name))+'_type'),i))
            else: body.append('let o%d = match &v.f%d { None => None, Some(x) => Some(%s) };'%(i,i,self.mk(f.ty,'x')))
            args.append('%s: o%d%s'%(f.arg,i,'.unwrap()' if f.req else ''))
        p("pub fn mk_%s<'x>(b: &mut butte::FlatBufferBuilder<'x>, v: &%s) -> butte::WIPOffset<%s<&'x [u8]>> { %s %s::create(b, &%sArgs { %s }) }"%(vt,vt,T,' '.join(body),T,T,', '.join(args)))
        # reading through the accessors, and the stored bytes
        rd=[]; wi=[]
        for i,(f,s,ts) in enumerate(sl):
            w=f.acc; a='t.%s()'%f.acc; k=f.ty.kind
            if k in('s','enum'):
                d=self.default(f)
                test='back(x, v.f%d, %s)'%(i,d) if k=='s' else 'x == v.f%d'%i
                rd.append('match %s { Ok(Some(x)) => ck!(%s, "field %s: got {:?}, stored {:?}", x, v.f%d), o => ck!(false, "field %s: {:?}, stored {:?}", o, v.f%d) }'%(a,test,w,i,w,i))
                absent=('ck!(v.f%d == %s, "field %s: not stored, given {:?}", v.f%d)'%(i,d,w,i)) if d else 'ck!(false, "field %s: not stored")'%w
                wi.append('match slot(b, t, %d) { None => %s, Some(p) => %s }'%(s,absent,self.wire(f.ty,'p','v.f%d'%i,'field '+w)))
            else:
                if f.req: rd.append('match (%s, &v.f%d) { (Ok(x), Some(y)) => %s, (o, w) => ck!(false, "field %s: {:?}, stored {:?}", o.is_ok(), w) }'%(a,i,'{ %s }'%self.cmp(f.ty,'x','(*y)','field '+w),w))
                else: rd.append('match (%s, &v.f%d) { (Ok(None), None) => {} (Ok(Some(x)), Some(y)) => { %s } (Err(e), _) => ck!(false, "field %s: {:?}", e), (Ok(x), y) => ck!(false, "field %s: present {:?}, stored {:?}", x.is_some(), y) }'%(a,i,self.cmp(f.ty,'x','(*y)','field '+w),w,w))
                if k=='union':
                    u=f.ty.item; ui=self.ids[id(u)]; tg=dict(u.tags())
                    wi.append('{ let tag = match slot(b, t, %d) { None => 0, Some(p) => b[p] }; let val = slot(b, t, %d); match (&v.f%d, val) { (None, None) => ck!(tag == 0, "field %s: tag {} without a value", tag), (None, Some(_)) => ck!(false, "field %s: a value is stored"), (Some(_), None) => ck!(false, "field %s: no value is stored"), (Some(y), Some(p)) => match y { %s } } }'%(ts,s,i,w,w,w,' '.join('U%d::%s(y) => { ck!(tag == %d, "field %s: stored tag {}, expected %d", tag); wire_%s(b, follow(b, p), y).map_err(|e| format!("%s.{}", e))?; }'%(ui,x.rname,tg[x.rname],w,tg[x.rname],self.vt(x),w) for x in u.variants)))
                    rd.append('{ let tag: %s<%s> = %s; let want = match &v.f%d { None => %s::None, %s }; ck!(tag == %s, "field %s: type {:?}, expected {:?}", tag, want); }'%('Result' if f.req else 'Result',('%s, butte::Error' if f.req else 'Option<%s>, butte::Error')%u.tagpath(self.r),'t.%s()'%subst(snake(subst(f.name))+'_type'),i,u.tagpath(self.r),' '.join('Some(U%d::%s(_)) => %s::%s,'%(ui,x.rname,u.tagpath(self.r),x.rname) for x in u.variants),'Ok(want)' if f.req else 'Ok(Some(want))',w))
                else: wi.append('match (slot(b, t, %d), &v.f%d) { (None, None) => {} (Some(p), Some(y)) => { %s } (p, y) => ck!(false, "field %s: stored {:?}, given {:?}", p.is_some(), y) }'%(s,i,self.wire(f.ty,'p','(*y)','field '+w),w))
        p("pub fn rd_%s(t: &%s<&[u8]>, v: &%s) -> Res { %s Ok(()) }"%(vt,T,vt,'\n'.join(rd)))
        p("pub fn wire_%s(b: &[u8], t: usize, v: &%s) -> Res { %s Ok(()) }"%(vt,vt,'\n'.join(wi)))
        # a round trip, with unrelated objects before and after, reset between
        p('''pub fn t_%s(g: &mut G) -> Res { let v = arb_%s(g, 3); let w = arb_%s(g, 1);
            let mut b = butte::FlatBufferBuilder::new_with_capacity(g.n(300) as usize);
            if g.n(3) == 0 { let o = mk_%s(&mut b, &w); b.finish(o, None); b.reset(); }
            let o0 = mk_%s(&mut b, &w);
            let o = mk_%s(&mut b, &v);
            let o1 = mk_%s(&mut b, &w);
            b.finish(o, None);
            let data = b.finished_data().to_vec();
            let t = %s::get_root(&data[..]).map_err(|e| format!("get_root: {:?}", e))?;
            let show = |e: String| { let mut s = format!("{}; table values {:?}", e, v); s.truncate(600); s };
            wire_%s(&data, root(&data), &v).map_err(show)?;
            rd_%s(&t, &v).map_err(show)?;
            absent_%s(g).map_err(|e| format!("hand-made buffer: {}", e))?;
            Ok(()) }'''%(vt,vt,vt,vt,vt,vt,vt,T,vt,vt,vt))
        # hand-made buffers: everything absent; one scalar or enum slot present
        ab=[]
        ab.append('for &ns in &[0usize, %d, %d] { let buf = hand(&[], ns); let t = %s::get_root(&buf[..]).map_err(|e| format!("get_root: {:?}", e))?; %s }'%(nsl,nsl//2,T,'ab_%s(&t, 99999, false)?;'%vt))
        p("fn ab_%s(t: &%s<&[u8]>, skip: usize, built: bool) -> Res { %s Ok(()) }"%(vt,T,'\n'.join(self.absent_one(f,'skip != %d'%s) for f,s,_ in sl)))
        for f,s,ts in sl:
            if f.ty.kind=='s':
                rt=SC[f.ty.name]
                ab.append('{ let x = <%s as Sc>::arb(g); let buf = hand(&[(%d, x.le())], %d); let t = %s::get_root(&buf[..]).map_err(|e| format!("get_root: {:?}", e))?; match t.%s() { Ok(Some(y)) => ck!(same(x, y), "field %s: {:?} is stored in slot %d, reads {:?}", x, y), o => ck!(false, "field %s: {:?} is stored in slot %d, reads {:?}", x, o) } %s }'%(rt,s,nsl,T,f.acc,f.acc,s,f.acc,s,'ab_%s(&t, %d, false)?;'%(vt,s)))
            elif f.ty.kind=='enum':
                e=f.ty.item; ei=self.ids[id(e)]
                ab.append('{ let x = if g.n(2) == 0 { val_e%d(arb_e%d(g)) as %s } else { <%s as Sc>::arb(g) }; let buf = hand(&[(%d, x.le())], %d); let t = %s::get_root(&buf[..]).map_err(|e| format!("get_root: {:?}", e))?; let want = { use std::convert::TryFrom; match x { %s _ => Err(butte::Error::UnknownEnumVariant) } }; let got = t.%s(); ck!(got == want.map(Some), "field %s: {} is stored, reads {:?}", x, got); }'%(ei,ei,e.rbase,e.rbase,s,nsl,T,' '.join('%d => Ok(%s::%s),'%(v,self.enp(e),n) for n,v in e.values()),f.acc,f.acc))
            elif f.ty.kind=='union':
                u=f.ty.item; tn=subst(snake(subst(f.name))+'_type'); known=[v for _,v in u.tags()]
                ab.append(('{ let x = g.u() as u8 %% 8; let buf = hand(&[(%d, vec![x])], %d); let t = %s::get_root(&buf[..]).map_err(|e| format!("get_root: {:?}", e))?; let got = t.%s(); match got { %s o => ck!(false, "field %s: tag {} without a value reads {:?}", x, o.is_ok()) } }'%(ts,nsl,T,f.acc,
                    ('Err(butte::Error::RequiredFieldMissing(_)) if [%s].contains(&x) => {} '%', '.join('%du8'%k for k in known)) if f.req else ('Ok(None) if [%s].contains(&x) => {} '%', '.join('%du8'%k for k in known)),f.acc))
                    .replace(' o => ',' Err(butte::Error::UnknownEnumVariant) if ![%s].contains(&x) => {} o => '%', '.join('%du8'%k for k in known)))
        req=[f for f in t.fields if f.req]
        ab.append('{ let p = panics(|| { let mut b = butte::FlatBufferBuilder::new(); let o = %sBuilder::new(&mut b).finish(); b.finish(o, None); b.finished_data().to_vec() }); ck!(p == %s, "a table without fields %s"); }'%(T,'true' if req else 'false','is accepted, required fields missing' if req else 'cannot be built'))
        if all(not f.req for f in t.fields):
            ab.append('{ let d = %sArgs::default(); %s'%(T,' '.join(self.def_one(f) for f,_,_ in sl))+'}')
            ab.append('{ let mut b = butte::FlatBufferBuilder::new(); let o = %s::create(&mut b, &%sArgs::default()); b.finish(o, None); let buf = b.finished_data().to_vec(); let t = %s::get_root(&buf[..]).map_err(|e| format!("get_root: {:?}", e))?; %s }'%(T,T,T,'ab_%s(&t, 99999, true)?;'%vt))
        p('pub fn absent_%s(g: &mut G) -> Res { %s Ok(()) }'%(vt,'\n'.join(ab)))
    def absent_one(self,f,cond):
        d=self.default(f); w=f.acc
        if f.ty.kind in('s','enum'):
            if f.ty.kind=='s': c='match t.%s() { Ok(Some(x)) => ck!(same(x, %s), "field %s: absent, reads {:?}", x), o => ck!(false, "field %s: absent, reads {:?}", o) }'%(f.acc,d,w,w)
            elif d: c='ck!(t.%s() == Ok(Some(%s)), "field %s: absent, reads {:?}", t.%s());'%(f.acc,d,w,f.acc)
            else: cond+=' && !built'; c='ck!(t.%s() == Ok(None), "field %s: absent, reads {:?}", t.%s());'%(f.acc,w,f.acc)
        elif f.req: c='ck!(matches!(t.%s(), Err(butte::Error::RequiredFieldMissing(_))), "field %s: required and absent, accepted");'%(f.acc,w)
        else: c='ck!(matches!(t.%s(), Ok(None)), "field %s: absent, reads as present or an error");'%(f.acc,w)
        return 'if %s { %s }'%(cond,c)
    def def_one(self,f):
        d=self.default(f)
        if f.ty.kind=='s': return 'ck!(same(d.%s, %s), "default of %s is {:?}", d.%s);'%(f.arg,d,f.name,f.arg)
        if f.ty.kind=='enum': return 'ck!(d.%s == %s, "default of %s is {:?}", d.%s);'%(f.arg,d,f.name,f.arg) if d else ''
        x='ck!(d.%s.is_none(), "default of %s is not None");'%(f.arg,f.name)
        if f.ty.kind=='union': x+='ck!(d.%s == %s::None, "default type of %s");'%(subst(snake(subst(f.name))+'_type'),f.ty.item.tagpath(self.r),f.name)
        return x

def program(schemas,gendir):
    """main.rs and one file per schema"""
    files={}; m=['#![allow(warnings)]','#[macro_use] mod rt;']
    ok=[s for s in schemas if s.valid]
    for s in ok:
        m.append('mod %s { include!("%s/%s.rs"); }'%(s.name,gendir,s.name))
        m.append('#[path = "h_%s.rs"] mod h_%s;'%(s.name,s.name))
        files['h_%s.rs'%s.name]='use crate::rt::*;\n'+H(s).emit()+'\n'
    m.append('fn main() { std::panic::set_hook(Box::new(|_| {})); let a: Vec<String> = std::env::args().collect(); let seed: u64 = a[1].parse().unwrap(); let ms: u128 = a[2].parse().unwrap(); let t0 = std::time::Instant::now(); let mut n = 0u64; let mut bad = 0;')
    m.append(' let all: &[(&str, fn(&mut rt::G, u64, bool) -> rt::Res)] = &[%s];'%', '.join('("%s", h_%s::run)'%(s.name,s.name) for s in ok))
    m.append(''' let mut failed = vec![false; all.len()];
 let mut round = 0u64;
 loop { for (i, (name, f)) in all.iter().enumerate() { if failed[i] { continue; }
   let mut g = rt::G(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (round << 20) ^ (i as u64 + 1) << 3 ^ 0x5555_1234);
   for _ in 0..4 { g.u(); }
   let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut g, 3, round == 0)));
   n += 1;
   match r { Ok(Ok(())) => {} Ok(Err(e)) => { println!("FAIL {} {}", name, e.replace('\\n', " ")); failed[i] = true; bad += 1; }
     Err(p) => { let e = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default(); println!("FAIL {} panic: {}", name, e.replace('\\n', " ")); failed[i] = true; bad += 1; } } }
  round += 1; if t0.elapsed().as_millis() > ms { break; } }
 println!("CASES {} schemas {}", n, all.len());
 std::process::exit(if bad > 0 { 1 } else { 0 }); }''')
    files['main.rs']='\n'.join(m)+'\n'
    return files
